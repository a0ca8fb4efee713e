------------------------------- MODULE Layout -------------------------------
(* Layouts: paragraphs, lines, runs and clusters (properties P03 to P08).
   A text is a sequence of characters [r, ty, bk, ...]; positions in the text are from 0, as in
   the code.  A run is [o: position, n: length, lv: embedding level, lc: cluster of each glyph
   relative to o, w: width of each glyph]; a line is [s, n, par, dir, runs in visual order]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Itemize

(* Paragraphs: [from, to, next]; to is the place of the separator, next what follows it *)
LF == 10  CR == 13  PS == 8233
Separators == {LF, CR, PS}
RECURSIVE ParasFrom(_, _, _)
ParasFrom(rs, from, i) ==
  IF i > Len(rs) THEN <<[from |-> from, to |-> Len(rs), next |-> Len(rs)]>>
  ELSE IF rs[i] \notin Separators THEN ParasFrom(rs, from, i+1)
  ELSE LET after == IF rs[i] = CR /\ i < Len(rs) /\ rs[i+1] = LF THEN i+1 ELSE i IN
       <<[from |-> from, to |-> i-1, next |-> after]>> \o ParasFrom(rs, after, after+1)
\* a text which ends with a separator has an empty paragraph at its end
Paras(rs, single) == IF single THEN <<[from |-> 0, to |-> Len(rs), next |-> Len(rs)]>> ELSE ParasFrom(rs, 0, 1)

(* Directions: the one of the first strong character, of the paragraph before when there is none *)
StrongDir(ty) == CASE ty \in {"L", "LRE", "LRO"} -> "L" [] ty \in {"R", "AL", "RLE", "RLO"} -> "R" [] OTHER -> "-"
RECURSIVE ParaStrong(_, _, _)
ParaStrong(tys, i, to) == IF i > to THEN "-" ELSE IF StrongDir(tys[i]) # "-" THEN StrongDir(tys[i]) ELSE ParaStrong(tys, i+1, to)
\* dir0: the direction of the context
RECURSIVE ParaDirsFrom(_, _, _, _)
ParaDirsFrom(tys, ps, i, prev) ==
  IF i > Len(ps) THEN <<>>
  ELSE LET d == ParaStrong(tys, ps[i].from + 1, ps[i].to)
           e == IF d = "-" THEN prev ELSE d IN <<e>> \o ParaDirsFrom(tys, ps, i+1, e)
ParaDirs(tys, ps, auto, dir0) ==
  IF ~auto THEN [i \in 1..Len(ps) |-> dir0]
  ELSE LET d == ParaStrong(tys, 1, Len(tys)) IN ParaDirsFrom(tys, ps, 1, IF d = "-" THEN dir0 ELSE d)
\* 0: left to right, 1: right to left, as the code has it
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
DirCode(d) == IF d \in {"R", "WR"} THEN 1 ELSE 0
\* turned by the gravity of the context: 0 south, 1 east, 2 north, 3 west
LineDir(d, g) == CASE g = 1 -> 0 [] g = 3 -> 1 [] g = 2 -> 1 - DirCode(d) [] OTHER -> DirCode(d)

(* Clusters of a run, in visual order: [from, to] relative to the run, and their width *)
Even(lv) == lv % 2 = 0
GlyphStarts(lc) == {i \in 1..Len(lc) : i = 1 \/ lc[i] # lc[i-1]}
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
VisualClusters(run) ==
  LET st == TLCEval(SetToSortSeq(GlyphStarts(run.lc), <)) m == Len(st) IN
  TLCEval([j \in 1..m |->
    LET last == IF j = m THEN Len(run.lc) ELSE st[j+1] - 1 IN
    [from |-> run.lc[st[j]],
     to |-> IF Even(run.lv) THEN (IF j = m THEN run.n ELSE run.lc[st[j+1]]) ELSE (IF j = 1 THEN run.n ELSE run.lc[st[j-1]]),
     g0 |-> st[j], g1 |-> last,
     w |-> SumSeq(SubSeq(run.w, st[j], last))]])
\* the clusters of a run as they must be: in the order of the direction, covering the run
Ordered(run) ==
  /\ Len(run.lc) > 0
  /\ \A i \in 1..Len(run.lc) : 0 <= run.lc[i] /\ run.lc[i] < run.n
  /\ \A i \in 1..(Len(run.lc) - 1) : IF Even(run.lv) THEN run.lc[i] <= run.lc[i+1] ELSE run.lc[i] >= run.lc[i+1]
  /\ run.lc[IF Even(run.lv) THEN 1 ELSE Len(run.lc)] = 0

(* Runs of a line, in the order of the text *)
LogicalRuns(line) == SortSeq(line.runs, LAMBDA a, b : a.o < b.o)
Partition(rs, from, n) ==
  /\ (n = 0) = (rs = <<>>)
  /\ \A i \in 1..Len(rs) : rs[i].n > 0 /\ rs[i].o = (IF i = 1 THEN from ELSE rs[i-1].o + rs[i-1].n)
  /\ rs # <<>> => Last(rs).o + Last(rs).n = from + n
VisualOrder(lrs) == IF lrs = <<>> THEN <<>> ELSE Reordered([i \in 1..Len(lrs) |-> lrs[i].o], [i \in 1..Len(lrs) |-> lrs[i].lv])

(* Walks of an iterator: of the lines observed.  -1 is the empty run at the end of a line *)
Lines(ls) == [i \in 1..Len(ls) |-> i-1]
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
RunWalk(ls) == Flat([i \in 1..Len(ls) |-> [j \in 1..Len(ls[i].runs) |-> <<i-1, ls[i].runs[j].o>>] \o <<<<i-1, -1>>>>])
ClusterIndexes(run) == LET cl == VisualClusters(run) IN
  [j \in 1..Len(cl) |-> IF Even(run.lv) THEN run.o + cl[j].from ELSE run.o + cl[j].to - 1]
ClusterWalk(ls) ==
  Flat([i \in 1..Len(ls) |->
    IF ls[i].runs = <<>> THEN (IF i = 1 THEN <<<<0, -1>>>> ELSE <<>>)
    ELSE Flat([j \in 1..Len(ls[i].runs) |-> LET x == TLCEval(ClusterIndexes(ls[i].runs[j])) IN [m \in 1..Len(x) |-> <<i-1, x[m]>>]])])
CharIndexes(run) == Flat([j \in 1..Len(VisualClusters(run)) |->
  LET cl == VisualClusters(run)[j] IN
  [m \in 1..(cl.to - cl.from) |-> IF Even(run.lv) THEN run.o + cl.from + m - 1 ELSE run.o + cl.to - m]])
Terminated(ls, i) == i < Len(ls) /\ ls[i+1].par
CharWalk(ls, rs) ==
  Flat([i \in 1..Len(ls) |->
    LET e == ls[i].s + ls[i].n
        crlf == e + 2 <= Len(rs) /\ rs[e+1] = CR /\ rs[e+2] = LF
        end == IF Terminated(ls, i) THEN (IF crlf THEN <<<<i-1, -1>>, <<i-1, -1>>>> ELSE <<<<i-1, -1>>>>)
               ELSE IF i = 1 /\ ls[i].runs = <<>> THEN <<<<0, -1>>>> ELSE <<>> IN
    Flat([j \in 1..Len(ls[i].runs) |-> LET x == TLCEval(CharIndexes(ls[i].runs[j])) IN [m \in 1..Len(x) |-> <<i-1, x[m]>>]]) \o end])
=============================================================================
