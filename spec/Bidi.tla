-------------------------------- MODULE Bidi --------------------------------
(* The Unicode Bidirectional Algorithm (UAX #9) on one paragraph: rules P2-P3, X1-X10,
   W1-W7, N0-N2, I1-I2 and L1-L3, written as the text of the annex has them: on
   isolating run sequences, one rule after the other.
   A paragraph is a sequence of character types; brackets are given by a sequence of
   integers: 0 for no bracket, +n and -n for the opening and closing bracket of pair n. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
MaxDepth == 125
Initiators == {"LRI", "RLI", "FSI"}
Isolates == Initiators \cup {"PDI"}
Embeddings == {"LRE", "RLE", "LRO", "RLO"}
Removed == Embeddings \cup {"PDF", "BN"}                  \* rule X9
StrongTypes == {"L", "R", "AL"}
Neutrals == {"B", "S", "WS", "ON"} \cup Isolates
AllTypes == StrongTypes \cup Removed \cup Neutrals \cup {"EN", "ES", "ET", "AN", "CS", "NSM"}
Max2(a, b) == IF a > b THEN a ELSE b
DirOf(level) == IF level % 2 = 1 THEN "R" ELSE "L"

(* P2, P3: the level of the first strong character of t[i..j] out of isolates, or -1 *)
RECURSIVE FirstStrong(_, _, _, _)
FirstStrong(t, i, j, depth) ==
  CASE i > j -> -1
    [] t[i] \in Initiators -> FirstStrong(t, i+1, j, depth+1)
    [] t[i] = "PDI" -> FirstStrong(t, i+1, j, IF depth > 0 THEN depth-1 ELSE 0)
    [] depth = 0 /\ t[i] \in StrongTypes -> IF t[i] = "L" THEN 0 ELSE 1
    [] OTHER -> FirstStrong(t, i+1, j, depth)
\* the direction found by P2-P3, or the one asked for
Direction(t, dir) == IF dir \in {"L", "R"} THEN dir
                     ELSE LET s == FirstStrong(t, 1, Len(t), 0) IN IF s = -1 THEN dir ELSE DirOf(s)
BaseLevel(t, dir) == IF Direction(t, dir) \in {"R", "WR"} THEN 1 ELSE 0

(* BD9: the PDI matching the initiator before i, or 0 *)
RECURSIVE PDIFrom(_, _, _)
PDIFrom(t, i, depth) ==
  CASE i > Len(t) -> 0
    [] t[i] \in Initiators -> PDIFrom(t, i+1, depth+1)
    [] t[i] = "PDI" -> IF depth = 0 THEN i ELSE PDIFrom(t, i+1, depth-1)
    [] OTHER -> PDIFrom(t, i+1, depth)
MatchingPDI(t, i) == PDIFrom(t, i+1, 0)

(* X1-X8: levels and types after the explicit formatting characters.
   st: directional status stack; oi, oe: overflow counters; vi: valid isolates *)
NextOdd(l) == l + 1 + (l % 2)
NextEven(l) == l + 2 - (l % 2)
Top(s) == s.st[Len(s.st)]
Overridden(type, e) == IF e.ov = "N" THEN type ELSE e.ov
Push(s, lv, ov, iso) == [s EXCEPT !.st = Append(@, [lv |-> lv, ov |-> ov, iso |-> iso])]
RECURSIVE PopEmbeddings(_)
PopEmbeddings(st) == IF st[Len(st)].iso THEN st ELSE PopEmbeddings(Front(st))
Embed(s, type) ==
  LET lv == IF type \in {"RLE", "RLO"} THEN NextOdd(Top(s).lv) ELSE NextEven(Top(s).lv)
      ov == CASE type = "LRO" -> "L" [] type = "RLO" -> "R" [] OTHER -> "N" IN
  IF lv <= MaxDepth /\ s.oi = 0 /\ s.oe = 0 THEN Push(s, lv, ov, FALSE)
  ELSE IF s.oi = 0 THEN [s EXCEPT !.oe = @ + 1] ELSE s
Isolate(s, rtl) ==
  LET lv == IF rtl THEN NextOdd(Top(s).lv) ELSE NextEven(Top(s).lv) IN
  IF lv <= MaxDepth /\ s.oi = 0 /\ s.oe = 0 THEN [Push(s, lv, "N", TRUE) EXCEPT !.vi = @ + 1]
  ELSE [s EXCEPT !.oi = @ + 1]
EndIsolate(s) ==
  CASE s.oi > 0 -> [s EXCEPT !.oi = @ - 1]
    [] s.vi = 0 -> s
    [] OTHER -> [s EXCEPT !.oe = 0, !.st = Front(PopEmbeddings(@)), !.vi = @ - 1]
EndEmbedding(s) ==
  CASE s.oi > 0 -> s
    [] s.oe > 0 -> [s EXCEPT !.oe = @ - 1]
    [] ~Top(s).iso /\ Len(s.st) >= 2 -> [s EXCEPT !.st = Front(@)]
    [] OTHER -> s
RtlIsolate(t, i) ==
  CASE t[i] = "RLI" -> TRUE
    [] t[i] = "LRI" -> FALSE
    [] OTHER -> LET m == MatchingPDI(t, i) IN FirstStrong(t, i+1, IF m = 0 THEN Len(t) ELSE m-1, 0) = 1
RECURSIVE Explicit(_, _, _, _, _)
Explicit(t, base, i, s, acc) ==
  IF i > Len(t) THEN acc
  ELSE CASE t[i] \in Embeddings -> Explicit(t, base, i+1, Embed(s, t[i]), Append(acc, <<Top(s).lv, t[i]>>))
         [] t[i] = "PDF" -> Explicit(t, base, i+1, EndEmbedding(s), Append(acc, <<Top(s).lv, t[i]>>))
         [] t[i] \in Initiators -> Explicit(t, base, i+1, Isolate(s, RtlIsolate(t, i)), Append(acc, <<Top(s).lv, Overridden(t[i], Top(s))>>))
         [] t[i] = "PDI" -> LET e == EndIsolate(s) IN Explicit(t, base, i+1, e, Append(acc, <<Top(e).lv, Overridden(t[i], Top(e))>>))
         [] t[i] = "BN" -> Explicit(t, base, i+1, s, Append(acc, <<Top(s).lv, t[i]>>))
         [] t[i] = "B" -> Explicit(t, base, i+1, s, Append(acc, <<base, t[i]>>))
         [] OTHER -> Explicit(t, base, i+1, s, Append(acc, <<Top(s).lv, Overridden(t[i], Top(s))>>))
Status(base) == [st |-> <<[lv |-> base, ov |-> "N", iso |-> FALSE]>>, oi |-> 0, oe |-> 0, vi |-> 0]

(* X9, X10: the positions kept, the level runs (as sequences of positions), and the
   isolating run sequences *)
Kept(t) == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] \notin Removed)
RECURSIVE LevelRuns(_, _, _, _)
LevelRuns(ps, lv, i, acc) ==
  IF i > Len(ps) THEN acc
  ELSE IF acc # <<>> /\ lv[ps[i]] = lv[ps[i-1]] THEN LevelRuns(ps, lv, i+1, [acc EXCEPT ![Len(acc)] = Append(@, ps[i])])
  ELSE LevelRuns(ps, lv, i+1, Append(acc, <<ps[i]>>))
RECURSIVE Chain(_, _, _)
Chain(t, runs, run) ==
  LET e == run[Len(run)]
      m == IF t[e] \in Initiators THEN MatchingPDI(t, e) ELSE 0 IN
  IF m = 0 THEN run
  ELSE LET nx == CHOOSE n \in 1..Len(runs) : runs[n][1] = m IN Chain(t, runs, run \o runs[nx])
StartsSequence(t, run) == t[run[1]] # "PDI" \/ ~\E i \in 1..(run[1]-1) : t[i] \in Initiators /\ MatchingPDI(t, i) = run[1]
Sequencings(t, lv) ==
  LET runs == LevelRuns(Kept(t), lv, 1, <<>>)
      first == SelectSeq(runs, LAMBDA r : StartsSequence(t, r)) IN
  [n \in 1..Len(first) |-> Chain(t, runs, first[n])]
\* types of the two ends of a sequence
Sos(t, lv, base, sq) ==
  LET before == {p \in 1..(sq[1]-1) : t[p] \notin Removed}
      l == IF before = {} THEN base ELSE lv[CHOOSE p \in before : \A q \in before : q <= p] IN
  DirOf(Max2(l, lv[sq[1]]))
Eos(t, lv, base, sq) ==
  LET e == sq[Len(sq)]
      after == {p \in (e+1)..Len(t) : t[p] \notin Removed}
      l == IF after = {} \/ t[e] \in Initiators THEN base ELSE lv[CHOOSE p \in after : \A q \in after : q >= p] IN
  DirOf(Max2(l, lv[e]))

(* W1-W7 on the types ty of a sequence *)
RECURSIVE W1(_, _, _)
W1(ty, sos, i) ==
  IF i > Len(ty) THEN ty
  ELSE IF ty[i] # "NSM" THEN W1(ty, sos, i+1)
  ELSE LET prev == IF i = 1 THEN sos ELSE ty[i-1] IN
       W1([ty EXCEPT ![i] = IF prev \in Isolates THEN "ON" ELSE prev], sos, i+1)
\* the strong type before position i
RECURSIVE StrongBefore(_, _, _)
StrongBefore(ty, sos, i) == IF i = 1 THEN sos ELSE IF ty[i-1] \in StrongTypes THEN ty[i-1] ELSE StrongBefore(ty, sos, i-1)
W2(ty, sos) == TLCEval([i \in 1..Len(ty) |-> IF ty[i] = "EN" /\ StrongBefore(ty, sos, i) = "AL" THEN "AN" ELSE ty[i]])
W3(ty) == TLCEval([i \in 1..Len(ty) |-> IF ty[i] = "AL" THEN "R" ELSE ty[i]])
W4(ty) == TLCEval([i \in 1..Len(ty) |->
  IF i > 1 /\ i < Len(ty) /\ ty[i] \in {"ES", "CS"} /\ ty[i-1] = ty[i+1]
     /\ (ty[i-1] = "EN" \/ (ty[i-1] = "AN" /\ ty[i] = "CS")) THEN ty[i-1] ELSE ty[i]])
\* the ends of the run of terminators around i
RECURSIVE EtLeft(_, _)
EtLeft(ty, i) == IF i > 1 /\ ty[i-1] = "ET" THEN EtLeft(ty, i-1) ELSE i
RECURSIVE EtRight(_, _)
EtRight(ty, i) == IF i < Len(ty) /\ ty[i+1] = "ET" THEN EtRight(ty, i+1) ELSE i
W5(ty) == TLCEval([i \in 1..Len(ty) |->
  IF ty[i] = "ET" /\ LET a == EtLeft(ty, i)  b == EtRight(ty, i) IN
                     (a > 1 /\ ty[a-1] = "EN") \/ (b < Len(ty) /\ ty[b+1] = "EN") THEN "EN" ELSE ty[i]])
W6(ty) == TLCEval([i \in 1..Len(ty) |-> IF ty[i] \in {"ES", "ET", "CS"} THEN "ON" ELSE ty[i]])
W7(ty, sos) == TLCEval([i \in 1..Len(ty) |-> IF ty[i] = "EN" /\ StrongBefore(ty, sos, i) = "L" THEN "L" ELSE ty[i]])
Weak(ty, sos) == W7(W6(W5(W4(W3(W2(W1(ty, sos, 1), sos))))), sos)

(* BD16: the pairs of brackets of a sequence, by position of the opening one; br gives
   the bracket of each position of the sequence, 0 when its type is not ON any more *)
RECURSIVE Pairs(_, _, _, _)
Pairs(br, i, stack, acc) ==
  IF i > Len(br) THEN SetToSortSeq(acc, LAMBDA a, b : a[1] < b[1])
  ELSE CASE br[i] > 0 -> Pairs(br, i+1, Append(stack, i), acc)
         [] br[i] < 0 -> LET m == {n \in 1..Len(stack) : br[stack[n]] = -br[i]} IN
                         IF m = {} THEN Pairs(br, i+1, stack, acc)
                         ELSE LET n == CHOOSE n \in m : \A o \in m : o <= n IN
                              Pairs(br, i+1, SubSeq(stack, 1, n-1), acc \cup {<<stack[n], i>>})
         [] OTHER -> Pairs(br, i+1, stack, acc)
StrongForN0(x) == CASE x \in {"R", "AN", "EN"} -> "R" [] x = "L" -> "L" [] OTHER -> "N"
\* N0 for one pair; orig: the types before W1
RECURSIVE Marks(_, _, _, _)
Marks(ty, orig, i, d) == IF i > Len(ty) \/ orig[i] # "NSM" THEN ty ELSE Marks([ty EXCEPT ![i] = d], orig, i+1, d)
SetPair(ty, orig, pr, d) == Marks(Marks([ty EXCEPT ![pr[1]] = d, ![pr[2]] = d], orig, pr[1]+1, d), orig, pr[2]+1, d)
RECURSIVE DirBefore(_, _, _)
DirBefore(ty, sos, i) == IF i = 1 THEN sos ELSE IF StrongForN0(ty[i-1]) # "N" THEN StrongForN0(ty[i-1]) ELSE DirBefore(ty, sos, i-1)
OnePair(ty, orig, sos, e, pr) ==
  LET inside == {StrongForN0(ty[i]) : i \in (pr[1]+1)..(pr[2]-1)} IN
  CASE e \in inside -> SetPair(ty, orig, pr, e)
    [] inside \ {"N"} = {} -> ty
    [] DirBefore(ty, sos, pr[1]) # e -> SetPair(ty, orig, pr, DirBefore(ty, sos, pr[1]))
    [] OTHER -> SetPair(ty, orig, pr, e)
RECURSIVE N0(_, _, _, _, _, _)
N0(ty, orig, sos, e, prs, i) == IF i > Len(prs) THEN ty ELSE N0(OnePair(ty, orig, sos, e, prs[i]), orig, sos, e, prs, i+1)
Brackets(ty, br) == TLCEval([i \in 1..Len(ty) |-> IF ty[i] = "ON" THEN br[i] ELSE 0])

(* N1, N2 *)
RECURSIVE NiLeft(_, _)
NiLeft(ty, i) == IF i > 1 /\ ty[i-1] \in Neutrals THEN NiLeft(ty, i-1) ELSE i
RECURSIVE NiRight(_, _)
NiRight(ty, i) == IF i < Len(ty) /\ ty[i+1] \in Neutrals THEN NiRight(ty, i+1) ELSE i
Neutral(ty, sos, eos, e) == TLCEval([i \in 1..Len(ty) |->
  IF ty[i] \notin Neutrals THEN ty[i]
  ELSE LET a == NiLeft(ty, i)  b == NiRight(ty, i)
           x == IF a = 1 THEN sos ELSE StrongForN0(ty[a-1])
           y == IF b = Len(ty) THEN eos ELSE StrongForN0(ty[b+1]) IN
       IF x = y THEN x ELSE e])
(* I1, I2 *)
Implicit(level, type) ==
  CASE level % 2 = 0 /\ type = "R" -> level + 1
    [] level % 2 = 0 /\ type \in {"AN", "EN"} -> level + 2
    [] level % 2 = 1 /\ type \in {"L", "AN", "EN"} -> level + 1
    [] OTHER -> level
\* the levels of the characters of one isolating run sequence
SequenceLevels(t, x, base, sq, brackets) ==
  LET lv == TLCEval([i \in 1..Len(t) |-> x[i][1]])
      level == lv[sq[1]]
      orig == TLCEval([i \in 1..Len(sq) |-> x[sq[i]][2]])
      sos == Sos(t, lv, base, sq)
      eos == Eos(t, lv, base, sq)
      w == Weak(orig, sos)
      br == Brackets(w, [i \in 1..Len(sq) |-> brackets[sq[i]]])
      n0 == N0(w, orig, sos, DirOf(level), Pairs(br, 1, <<>>, {}), 1)
      n == Neutral(n0, sos, eos, DirOf(level)) IN
  [i \in 1..Len(sq) |-> Implicit(level, n[i])]

(* Levels before L1; the characters removed by X9 take the level of the previous one *)
RECURSIVE FillRemoved(_, _, _, _, _)
FillRemoved(t, base, got, i, acc) ==
  IF i > Len(t) THEN acc
  ELSE FillRemoved(t, base, got, i+1, Append(acc, IF t[i] \notin Removed THEN got[i] ELSE IF i = 1 THEN base ELSE acc[i-1]))
Resolved(t, dir, brackets) ==
  LET base == BaseLevel(t, dir)
      x == TLCEval(Explicit(t, base, 1, Status(base), <<>>))
      lv == TLCEval([i \in 1..Len(t) |-> x[i][1]])
      sqs == TLCEval(Sequencings(t, lv))
      res == TLCEval([n \in 1..Len(sqs) |-> SequenceLevels(t, x, base, sqs[n], brackets)])
      where == [i \in {j \in 1..Len(t) : t[j] \notin Removed} |->
                  CHOOSE pr \in UNION {{<<n, m>> : m \in 1..Len(sqs[n])} : n \in 1..Len(sqs)} : sqs[pr[1]][pr[2]] = i]
      got == [i \in DOMAIN where |-> res[where[i][1]][where[i][2]]] IN
  FillRemoved(t, base, got, 1, <<>>)

(* L1 on t[from..to]; parts 1 to 3 and 4 *)
Blank == {"WS"} \cup Isolates \cup Removed
RECURSIVE BlankRight(_, _, _)
\* the first position from i which is not blank
BlankRight(t, i, to) == IF i > to THEN i ELSE IF t[i] \in Blank THEN BlankRight(t, i+1, to) ELSE i
ResetAt(t, i, to) == t[i] \in {"B", "S"} \/ (t[i] \in Blank /\ LET e == BlankRight(t, i, to) IN e > to \/ t[e] \in {"B", "S"})
L1(t, base, lv) == TLCEval([i \in 1..Len(t) |-> IF ResetAt(t, i, Len(t)) THEN base ELSE lv[i]])
Levels(t, dir, brackets) == L1(t, BaseLevel(t, dir), Resolved(t, dir, brackets))

(* The end of a line t[from..to]: part 4 of L1 *)
LineLevels(t, base, lv, from, to) ==
  TLCEval([i \in 1..Len(t) |-> IF i >= from /\ i <= to /\ t[i] \in Blank /\ BlankRight(t, i, to) > to THEN base ELSE lv[i]])
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A o \in S : o <= m
(* L2: a line s (any sequence, with the levels lv) is reversed level after level *)
RECURSIVE RunEnd(_, _, _)
RunEnd(lv, i, level) == IF i < Len(lv) /\ lv[i+1] >= level THEN RunEnd(lv, i+1, level) ELSE i
RECURSIVE RunStart(_, _, _)
RunStart(lv, i, level) == IF i > 1 /\ lv[i-1] >= level THEN RunStart(lv, i-1, level) ELSE i
\* levels and content are reversed together
ReverseAt(s, lv, level) == TLCEval([i \in 1..Len(s) |-> IF lv[i] >= level THEN s[RunStart(lv, i, level) + RunEnd(lv, i, level) - i] ELSE s[i]])
RECURSIVE L2(_, _, _)
L2(s, lv, level) == IF level = 0 THEN s ELSE L2(ReverseAt(s, lv, level), ReverseAt(lv, lv, level), level-1)
Reordered(s, lv) == L2(s, lv, MaxOf({lv[i] : i \in 1..Len(lv)}))
(* L3: in an odd run, marks are kept after the character before them: the sequence
   (base, marks) is reversed before L2 is applied *)
RECURSIVE MarksStart(_, _, _)
\* start of the sequence ending with a mark at i: marks and removed characters of the
\* same level, then one other character of this level
MarksStart(t, lv, i) ==
  IF i = 1 \/ lv[i-1] # lv[i] THEN i
  ELSE IF t[i-1] \in Removed \cup {"NSM"} THEN MarksStart(t, lv, i-1) ELSE i-1
RECURSIVE MarkRuns(_, _, _, _)
MarkRuns(t, lv, i, acc) ==
  IF i < 1 THEN acc
  ELSE IF t[i] = "NSM" /\ lv[i] % 2 = 1 THEN LET a == MarksStart(t, lv, i) IN MarkRuns(t, lv, a-1, acc \cup {<<a, i>>})
  ELSE MarkRuns(t, lv, i-1, acc)
L3(s, t, lv) == LET runs == MarkRuns(t, lv, Len(t), {}) IN
  [i \in 1..Len(s) |-> IF \E r \in runs : r[1] <= i /\ i <= r[2]
                       THEN LET r == CHOOSE r \in runs : r[1] <= i /\ i <= r[2] IN s[r[1] + r[2] - i] ELSE s[i]]
\* a sequence s, whose positions from..to are displayed as one line
LineOrder(s, t, lv, from, to, nsm) ==
  LET ls == SubSeq(s, from, to)  lt == SubSeq(t, from, to)  ll == SubSeq(lv, from, to) IN
  SubSeq(s, 1, from-1) \o Reordered(IF nsm THEN L3(ls, lt, ll) ELSE ls, ll) \o SubSeq(s, to+1, Len(s))
=============================================================================
