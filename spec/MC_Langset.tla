----------------------------- MODULE MC_Langset -----------------------------
(* Algebra of the relations between language sets on all pairs of subsets of a
   few tags: inclusion is reflexive, monotone and implied by the set inclusion;
   the distance is symmetric and 0 exactly on a shared tag. *)
EXTENDS FcValues, TLC, Json
CONSTANTS PrintHist, Names
VARIABLES a, b
Code == [ab |-> <<97, 98>>, abx |-> <<97, 98, 45, 120>>, aby |-> <<97, 98, 45, 121>>, abxz |-> <<97, 98, 45, 120, 45, 122>>,
         abc |-> <<97, 98, 99>>, fr |-> <<102, 114>>, zhcn |-> <<122, 104, 45, 99, 110>>, zhtw |-> <<122, 104, 45, 116, 119>>,
         zh |-> <<122, 104>>, frca |-> <<102, 114, 45, 99, 97>>]
Text == [ab |-> "ab", abx |-> "ab-x", aby |-> "ab-y", abxz |-> "ab-x-z", abc |-> "abc", fr |-> "fr", zhcn |-> "zh-cn",
         zhtw |-> "zh-tw", zh |-> "zh", frca |-> "fr-ca"]
T(S) == {Code[n] : n \in S}
Init == a \in SUBSET Names /\ b \in SUBSET Names
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
InvIncl == (b \subseteq a => Includes(T(a), T(b))) /\ Includes(T(a), {})
InvMono == \A n \in Names : Includes(T(a), T(b)) => Includes(T(a \union {n}), T(b))
InvUnionIncl == \A n \in Names : Includes(T(a), T(b \union {n})) <=> Includes(T(a), T(b)) /\ Includes(T(a), T({n}))
InvDist == /\ LangDist(T(a), T(b)) = LangDist(T(b), T(a))
           /\ (LangDist(T(a), T(b)) = 0) = (a \intersect b # {})
           /\ (a # {} /\ b # {} /\ Includes(T(a), T(b))) => LangDist(T(a), T(b)) <= 1
Str(S) == LET q == SetToSeq(S) IN [i \in 1..Len(q) |-> Text[q[i]]]
Emit == PrintHist => PrintT("HIST " \o ToJson([A |-> Str(a), B |-> Str(b)]))
=============================================================================
