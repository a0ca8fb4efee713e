----------------------------- MODULE MC_Reorder -----------------------------
(* All the lines of N characters over few levels and types. *)
EXTENDS Bidi, Json
CONSTANTS PrintHist, N, LevelSet, Symbols
VARIABLES t, lv, st
Init == t = <<>> /\ lv = <<>> /\ st = 0
Next == /\ st < N /\ st' = st + 1
        /\ \E s \in Symbols, l \in LevelSet : t' = Append(t, s) /\ lv' = Append(lv, l)
Spec == Init /\ [][Next]_<<t, lv, st>>
Inv ==
  LET ord == TLCEval(Reordered([i \in 1..Len(t) |-> i], lv))
      pos == TLCEval([j \in 1..Len(t) |-> CHOOSE i \in 1..Len(t) : ord[i] = j])
      nsm == TLCEval(LineOrder([i \in 1..Len(t) |-> i], t, lv, 1, Len(t), TRUE))
      npos == TLCEval([j \in 1..Len(t) |-> CHOOSE i \in 1..Len(t) : nsm[i] = j]) IN
  /\ {ord[i] : i \in 1..Len(t)} = 1..Len(t)
  /\ {nsm[i] : i \in 1..Len(t)} = 1..Len(t)
  \* two characters are in order exactly when the lowest level between them is even
  /\ \A i, j \in 1..Len(t) : i < j =>
       LET low == CHOOSE m \in {lv[x] : x \in i..j} : \A x \in i..j : m <= lv[x] IN (pos[i] < pos[j]) = (low % 2 = 0)
  \* a mark follows its base, right after it
  /\ \A i \in 2..Len(t) : (t[i] = "NSM" /\ t[i-1] \notin Removed \cup {"NSM"} /\ lv[i] = lv[i-1]) => npos[i] = npos[i-1] + 1
Emit == (PrintHist /\ st = N) => PrintT("HIST " \o ToJson([types |-> t, levels |-> lv]))
=============================================================================
