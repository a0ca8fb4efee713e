----------------------------- MODULE Trace_C02 -----------------------------
EXTENDS Relations
Init == CaseInit
Id == Cases[c].id
A == <<"Langset", In.a>>
B == <<"Langset", In.b>>
FstB == <<"String", IF In.b = <<>> THEN <<120, 113>> ELSE In.b[1]>>   \* "xq"
LangsOf(v) == IF Ty(v) = "String" THEN {Fold(v[2])} ELSE Norm(v)[2]
\* the distance of a font: earlier requested languages come first
ScoreOf(q, f) == MinOf({LangDist(LangsOf(q[i]), {Fold(f[n]) : n \in 1..Len(f)}) * 1000 + (i - 1) : i \in 1..Len(q)})
Best == LET s == [i \in 1..Len(In.fonts) |-> ScoreOf(In.query, In.fonts[i])] IN
        (CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : s[i] < s[j] \/ (s[i] = s[j] /\ i <= j)) - 1
Step(o) ==
  CASE k = 0 -> /\ Expect(Norm(o.set) = Norm(A), Id, k+1, "set", In.a, o.set)
                /\ Expect(Norm(o.set2) = Norm(A), Id, k+1, "copy", In.a, o.set2)
                /\ ExpectEq(Id, k+1, "no duplicate", Cardinality(Norm(A)[2]), Len(o.set[2]))
    [] k \in {1, 2} -> CheckRel(Id, k+1, o.rel, A, B)
    [] k = 3 -> CheckRel(Id, k+1, o.rel, A, FstB)
    [] k = 4 -> CheckRel(Id, k+1, o.rel, FstB, A)
    [] k = 5 -> ExpectEq(Id, k+1, "closest font", Best, o.best)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
