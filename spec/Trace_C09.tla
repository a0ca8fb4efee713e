----------------------------- MODULE Trace_C09 -----------------------------
EXTENDS TraceBase, Defaults
Init == CaseInit
Id == Cases[c].id
P0 == PatOf(In.pat, 1)
Step(o) ==
  LET e == Fill(P0)  a == PatOf(o.once, 1)  b == PatOf(o.twice, 1) IN
  /\ Expect(SameDefaults(e, a, 1), Id, k+1, "completed pattern", ValuesOf(e), o.once)
  /\ Expect(Has(a, "prgname") /\ (Has(P0, "prgname") => a["prgname"] = P0["prgname"]), Id, k+1, "program name", Get(P0, "prgname"), Get(a, "prgname"))
  /\ Expect(SameDefaults(a, b, 1), Id, k+1, "applied again", o.once, o.twice)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
