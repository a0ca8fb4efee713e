----------------------------- MODULE MC_Visual ------------------------------
(* Short Arabic words. *)
EXTENDS Visual, Json
CONSTANTS PrintHist, N
VARIABLES w, lv, st
Ch(n, j, t) == [c |-> n, t |-> t, b |-> 0, j |-> j, m |-> n, f |-> <<n*10, n*10+1, n*10+2, n*10+3>>]
Letters == {Ch(1, "U", "L"), Ch(2, "R", "AL"), Ch(3, "D", "AL"), Ch(4, "C", "AL"), Ch(5, "T", "NSM"), Ch(6, "G", "BN"), Ch(7, "L", "AL")}
Init == w = <<>> /\ lv = <<>> /\ st = 0
Next == /\ st < N /\ st' = st + 1
        /\ \E ch \in Letters, l \in {1, 2} : w' = Append(w, ch) /\ lv' = Append(lv, l)
Spec == Init /\ [][Next]_<<w, lv, st>>
Right(i) == Form(w, lv, i) \in {2, 4}
Left(i) == Form(w, lv, i) \in {3, 4}
\* in a text of one odd level, a letter is joined on its left exactly when the next
\* one is joined on its right; a transparent character changes nothing
InvJoin == (\A i \in 1..Len(w) : lv[i] = 1) =>
  \A i \in 1..Len(w) : Joining(w, i) /\ w[i].j # "U" =>
    LET n == NextJoining(w, i+1) IN Left(i) = (n # 0 /\ w[n].j # "U" /\ Right(n))
InvTransparent == \A i \in 1..Len(w) : (w[i].j = "T" /\ \A x \in 1..Len(w) : lv[x] = lv[i]) =>
  LET u == SubSeq(w, 1, i-1) \o SubSeq(w, i+1, Len(w))  l == SubSeq(lv, 1, i-1) \o SubSeq(lv, i+1, Len(w)) IN
  Forms(u, l) = SubSeq(Forms(w, lv), 1, i-1) \o SubSeq(Forms(w, lv), i+1, Len(w))
\* a letter joins only what its type allows
InvAllowed == \A i \in 1..Len(w) : Joining(w, i) => (Right(i) => JoinsRight(w[i].j)) /\ (Left(i) => JoinsLeft(w[i].j))
Emit == (PrintHist /\ st = N) => PrintT("HIST " \o ToJson([j |-> [i \in 1..N |-> w[i].j], lv |-> lv]))
=============================================================================
