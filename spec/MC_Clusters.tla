---------------------------- MODULE MC_Clusters ----------------------------
(* The iterator over the glyphs, as the code has it, is one over the clusters; and the pass which
   splits a run along the ranges of attributes gives the pieces of Clusters.tla *)
EXTENDS Clusters, Json
CONSTANTS MaxParts, MaxPart, MaxGlyphs, MaxAttrs, PrintHist
VARIABLES rtl, parts,  \* clusters in the order of the text: <<characters, glyphs>>
          st,          \* the iterator: [sg, eg, sc, ec]; glyphs and characters
          at,          \* the cluster it is at
          D            \* attributes
vars == <<rtl, parts, st, at, D>>
Parts == UNION {[1..m -> (1..MaxPart) \X (1..MaxGlyphs)] : m \in 1..MaxParts}
O == 1  \* offset of the run in the text
RECURSIVE LcFrom(_, _)
LcFrom(ps, from) == IF ps = <<>> THEN <<>> ELSE [j \in 1..Head(ps)[2] |-> from] \o LcFrom(Tail(ps), from + Head(ps)[1])
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Chars(ps) == SumSeq([j \in 1..Len(ps) |-> ps[j][1]])
RunOf(r, ps) == LET lc == LcFrom(ps, 0) IN
  [o |-> O, n |-> Chars(ps), lv |-> IF r THEN 1 ELSE 0, lc |-> TLCEval(IF r THEN Rev(lc) ELSE lc), w |-> [j \in 1..Len(lc) |-> 5], ell |-> FALSE]
Run == RunOf(rtl, parts)

(* the code: glyphs are from 0; left to right [sg, eg), right to left (eg, sg] *)
N == Len(Run.lc)
Lc(g) == Run.lc[g + 1]
RECURSIVE EndOf(_, _)
\* the first glyph from g whose cluster is after
EndOf(g, cl) == IF g = (IF rtl THEN -1 ELSE N) \/ Lc(g) > cl THEN g ELSE EndOf(IF rtl THEN g-1 ELSE g+1, cl)
RECURSIVE StartOf(_, _)
\* the last glyph, going back from g, of the cluster
StartOf(g, cl) == LET b == IF rtl THEN g+1 ELSE g-1 IN IF b = (IF rtl THEN N ELSE -1) \/ Lc(b) < cl THEN g ELSE StartOf(b, cl)
Forward(s) == IF s.eg = (IF rtl THEN -1 ELSE N) THEN [ok |-> FALSE, s |-> s]
  ELSE LET e == EndOf(s.eg, Lc(s.eg))
           ec == IF e = (IF rtl THEN -1 ELSE N) THEN Run.n ELSE Lc(e) IN
       [ok |-> TRUE, s |-> [sg |-> s.eg, eg |-> e, sc |-> s.ec, ec |-> ec]]
Backward(s) == IF s.sg = (IF rtl THEN N-1 ELSE 0) THEN [ok |-> FALSE, s |-> s]
  ELSE LET f == IF rtl THEN s.sg + 1 ELSE s.sg - 1
           b == StartOf(f, Lc(f))
           sc == Lc(b) IN
       [ok |-> TRUE, s |-> [sg |-> b, eg |-> s.sg, sc |-> sc, ec |-> s.sc]]
StartIter == Forward([sg |-> 0, eg |-> IF rtl THEN N-1 ELSE 0, sc |-> 0, ec |-> 0]).s
EndIter == Backward([sg |-> IF rtl THEN -1 ELSE N, eg |-> 0, sc |-> Run.n, ec |-> Run.n]).s

Attrs == {a \in [kind : {"underline", "strike"}, v : {1}, start : 0..(MaxParts * MaxPart + 1), end : 0..(MaxParts * MaxPart + 2)] : a.start <= a.end}
Lists == UNION {[1..m -> Attrs] : m \in 0..MaxAttrs}
Init == /\ rtl \in BOOLEAN /\ parts \in Parts
        /\ D \in {x \in Lists : \A i \in 1..Len(x) : x[i].end <= Chars(parts) + 2}
        /\ at \in {1, Len(parts)}
        /\ st = IF at = 1 THEN StartIter ELSE EndIter
Move(f, op) == LET x == f IN
  /\ st' = x.s
  /\ LET y == StepCluster(Len(parts), at, op) IN at' = y[2] /\ (x.ok = y[1])
  /\ UNCHANGED <<rtl, parts, D>>
Next == Move(Forward(st), 1) \/ Move(Backward(st), 0)
Spec == Init /\ [][Next]_vars

\* the iterator of the code is at the cluster
InvAt == LET cl == LogicalClusters(Run)[at] IN
  /\ st.sc = cl.from /\ st.ec = cl.to
  /\ IF rtl THEN {g - 1 : g \in cl.g0..cl.g1} = (st.eg+1)..st.sg ELSE {g - 1 : g \in cl.g0..cl.g1} = st.sg..(st.eg-1)
\* both always agree on the end
InvEnabled == Forward(st).ok = StepCluster(Len(parts), at, 1)[1] /\ Backward(st).ok = StepCluster(Len(parts), at, 0)[1]
InvShares == SumSeq(Shares(Run)) = SumSeq(Run.w)

(* the pass of the code over clusters and ranges of attributes.
   ranges: [from, to, set] of the iterator over the attributes *)
Inf == 999
Ranges(L) == LET B == SetToSortSeq(RangeBounds(L) \cup {0, Inf}, <) IN
  TLCEval([j \in 1..(Len(B) - 1) |-> [from |-> B[j], to |-> B[j+1], set |-> {Value(L[i]) : i \in At(L, B[j])}]])
\* r: current range, seg: attributes of the segment, from: start of the segment, out: what was split off
RECURSIVE Inner(_, _, _, _)
Inner(R, cl, x, first) ==
  IF R[x.r].to > O + cl.to THEN x
  ELSE LET r2 == x.r + 1 IN
    IF R[r2].from >= O + cl.to THEN [x EXCEPT !.r = r2, !.new = TRUE]
    ELSE LET y == IF R[r2].from > O + cl.from /\ O + cl.from # x.from
                  THEN [x EXCEPT !.out = Append(x.out, <<x.from, O + cl.from, x.seg>>), !.from = O + cl.from] ELSE x IN
         Inner(R, cl, [y EXCEPT !.r = r2, !.new = TRUE, !.seg = y.seg \cup R[r2].set], first)
RECURSIVE Pass(_, _, _, _)
Pass(R, cls, j, x) ==
  IF j > Len(cls) THEN x.out \o <<<<x.from, O + Run.n, x.seg>>>>
  ELSE LET cl == cls[j]
           y == IF x.new THEN [x EXCEPT !.out = Append(x.out, <<x.from, O + cl.from, x.seg>>), !.from = O + cl.from, !.seg = R[x.r].set, !.new = FALSE]
                ELSE x IN
       Pass(R, cls, j+1, Inner(R, cl, y, j = 1))
Coded == LET R == Ranges(D)
             r0 == CHOOSE j \in 1..Len(R) : R[j].to > O /\ (j = 1 \/ R[j-1].to <= O) IN
  Pass(R, LogicalClusters(Run), 1, [r |-> r0, seg |-> R[r0].set, from |-> O, out |-> <<>>, new |-> FALSE])
InvPieces == at = 1 =>
  LET p == Pieces(Run, RangeBounds(D)) IN Coded = [j \in 1..Len(p) |-> <<p[j][1], p[j][2], AtRange(D, p[j][1], p[j][2])>>]
\* no character is lost, and a piece has what covers one of its characters
InvCover == at = 1 => LET p == Pieces(Run, RangeBounds(D)) IN
  /\ p[1][1] = O /\ p[Len(p)][2] = O + Run.n /\ \A j \in 1..(Len(p)-1) : p[j][2] = p[j+1][1]
  \* when clusters are single characters the characters of a piece have the same attributes
  /\ (\A j \in 1..Len(parts) : parts[j][1] = 1) => \A j \in 1..Len(p) : \A q \in p[j][1]..(p[j][2]-1) :
        {Value(D[i]) : i \in At(D, q)} = AtRange(D, p[j][1], p[j][2])
Emit == IF PrintHist /\ at = 1 /\ st = StartIter
        THEN PrintT("HIST " \o ToJson([Rtl |-> rtl, Parts |-> [j \in 1..Len(parts) |-> <<parts[j][1]>>], N |-> Run.n,
                    D |-> [i \in 1..Len(D) |-> <<D[i].start, D[i].end>>]])) ELSE TRUE
=============================================================================
