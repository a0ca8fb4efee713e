----------------------------- MODULE Trace_C04 -----------------------------
EXTENDS TraceBase, Rules
Init == CaseInit
Id == Cases[c].id
P0 == PatOf(In.pat, 1)
Q == PatOf(In.query, 1)
\* without program name and language the defaults are added first: the patterns have both
R == Substitute(P0, Q, In.rules, In.kind)
\* a family is seen strong when one of its values equal to it is strongly bound
StrongFam(l, f) == \E i \in 1..Len(l) : l[i][2] = "s" /\ FamilyKey(l[i][1][2]) = FamilyKey(f)
Step(o) ==
  /\ ExpectEq(Id, k+1, "accepted", "", o.err)
  /\ IF R.bad THEN TRUE
     ELSE /\ Expect(ValuesOf(PatOf(o.pat, 1)) = ValuesOf(R.p), Id, k+1, "pattern", ValuesOf(R.p), o.pat)
          /\ Expect(ValuesOf(PatOf(o.query, 1)) = ValuesOf(Q), Id, k+1, "query unchanged", In.query, o.query)
          /\ \A i \in 1..Len(o.strong) :
               ExpectEq(Id, k+1, "strong binding of a family", StrongFam(Get(R.p, "family"), o.strong[i].f), o.strong[i].s)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
