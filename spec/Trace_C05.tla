----------------------------- MODULE Trace_C05 -----------------------------
EXTENDS TraceBase, Pattern
Init == CaseInit
Id == Cases[c].id
P == PatOf(In.pat, 1)
Q == PatOf(In.query, 1)
SameVal(a, b) == a = b
\* a test holds when some value of the object compares so (no value: it does not hold)
Held(t) == LET r == Eval(t.e, P, Q, In.kind)  l == Vals(Get(P, t.o)) IN
   IF Ty(r) = "Unknown" THEN "unknown"
   ELSE IF \E i \in 1..Len(l) : Compare(l[i], t.op, r, t.ib) THEN "yes" ELSE "no"
Step(o) ==
  /\ ExpectEq(Id, k+1, "accepted", "", o.err)
  /\ \A i \in 1..Len(In.exprs) :
       LET v == Eval(In.exprs[i], P, Q, In.kind) IN
       IF Ty(v) = "Unknown" THEN TRUE ELSE ExpectEq(Id, k+1, "value of expression", v, Norm(o.vals[i]))
  /\ \A i \in 1..Len(In.tests) :
       LET h == Held(In.tests[i]) IN
       IF h = "unknown" THEN TRUE ELSE ExpectEq(Id, k+1, "test " \o In.tests[i].op, h = "yes", o.held[i])
  /\ Expect(ValuesOf(PatOf(o.query, 1)) = ValuesOf(Q), Id, k+1, "query unchanged", In.query, o.query)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
