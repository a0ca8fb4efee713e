------------------------------ MODULE MC_Bidi -------------------------------
(* All short paragraphs. *)
EXTENDS Bidi, TLC, Json
CONSTANTS PrintHist, Symbols, N
VARIABLES t, dir, st
\* "(" and "[" are opening brackets, ")" and "]" closing ones
TypeOf(s) == IF s \in {"(", ")", "[", "]"} THEN "ON" ELSE s
BracketOf(s) == CASE s = "(" -> 1 [] s = ")" -> -1 [] s = "[" -> 2 [] s = "]" -> -2 [] OTHER -> 0
Types(w) == [i \in 1..Len(w) |-> TypeOf(w[i])]
Bracks(w) == [i \in 1..Len(w) |-> BracketOf(w[i])]
Init == t = <<>> /\ dir \in {"L", "R", "ON"} /\ st = 0
Next == /\ st < N /\ st' = st + 1 /\ UNCHANGED dir
        /\ \E s \in Symbols : t' = Append(t, s)
Spec == Init /\ [][Next]_<<t, dir, st>>
Ty == Types(t)  Br == Bracks(t)  Base == BaseLevel(Ty, dir)
Lv0 == TLCEval(Levels(Ty, dir, Br))
InvRange(lv) == \A i \in 1..Len(t) : lv[i] >= Base /\ lv[i] <= MaxDepth + 1
\* the positions of a paragraph are split in the isolating run sequences
InvSequences ==
  LET x == TLCEval(Explicit(Ty, Base, 1, Status(Base), <<>>))
      sqs == TLCEval(Sequencings(Ty, [i \in 1..Len(t) |-> x[i][1]])) IN
  /\ \A n \in 1..Len(sqs) : \A m \in 1..(Len(sqs[n])-1) : sqs[n][m] < sqs[n][m+1]
  /\ \A n, m \in 1..Len(sqs) : n # m => {sqs[n][i] : i \in 1..Len(sqs[n])} \cap {sqs[m][i] : i \in 1..Len(sqs[m])} = {}
  /\ UNION {{sqs[n][i] : i \in 1..Len(sqs[n])} : n \in 1..Len(sqs)} = {i \in 1..Len(t) : Ty[i] \notin Removed}
\* characters of a plain left to right text stay at the base level
InvPlain(lv) == (dir = "L" /\ \A i \in 1..Len(t) : Ty[i] \in {"L", "EN", "ES", "ET", "CS", "NSM", "WS", "ON", "S", "LRI", "PDI", "BN", "FSI"}) =>
  \A i \in 1..Len(t) : (Ty[i] \in {"L", "WS"} /\ \A j \in 1..i : Ty[j] \notin Initiators) => lv[i] = 0
\* a boundary neutral changes nothing for the others
Drop(w, i) == SubSeq(w, 1, i-1) \o SubSeq(w, i+1, Len(w))
InvBN(lv) == \A i \in 1..Len(t) : Ty[i] = "BN" => Levels(Drop(Ty, i), dir, Drop(Br, i)) = Drop(lv, i)
\* what an isolate contains does not change the direction of what is out of it
Around(i) == {a \in 1..(i-1) : Ty[a] \in {"LRI", "RLI"} /\ MatchingPDI(Ty, a) > i}
InvIsolate(lv) == \A i \in 1..Len(t) : (Ty[i] \in {"L", "R", "AL", "EN"} /\ Around(i) # {}) =>
  LET a == CHOOSE a \in Around(i) : \A b \in Around(i) : b <= a
      e == MatchingPDI(Ty, a)
      l2 == TLCEval(Levels([Ty EXCEPT ![i] = "WS"], dir, Br)) IN
  \A j \in 1..Len(t) : (j < a \/ j > e) => l2[j] = lv[j]
\* L2 is a permutation; the characters at a level are in order in even levels, reversed
\* in odd ones
InvOrder(lv) ==
  LET ord == TLCEval(Reordered([i \in 1..Len(t) |-> i], lv))
      pos == TLCEval([j \in 1..Len(t) |-> CHOOSE i \in 1..Len(t) : ord[i] = j]) IN
  /\ {ord[i] : i \in 1..Len(t)} = 1..Len(t)
  /\ \A i, j \in 1..Len(t) : (i < j /\ \A m \in i..j : lv[m] >= lv[i] /\ lv[i] = lv[j]) =>
        (IF lv[i] % 2 = 0 THEN pos[i] < pos[j] ELSE pos[i] > pos[j])
Inv == LET lv == Lv0 IN InvRange(lv) /\ InvPlain(lv) /\ InvBN(lv) /\ InvIsolate(lv) /\ InvOrder(lv)
Emit == (PrintHist /\ st = N /\ dir = "ON") => PrintT("HIST " \o ToJson(t))
=============================================================================
