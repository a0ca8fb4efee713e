----------------------------- MODULE Trace_C08 -----------------------------
EXTENDS TraceBase, Listing
Init == CaseInit
Id == Cases[c].id
Pats(s) == [i \in 1..Len(s) |-> PatOf(s[i], 1)]
Step(o) ==
  LET q == PatOf(In.pat, 1)  fs == Pats(In.fonts)
      objs == IF In.objs = <<>> THEN UNION {DOMAIN fs[i] : i \in 1..Len(fs)} \ {"custom1", "custom2"} ELSE SeqToSet(In.objs)
      got == [i \in 1..Len(o.list) |-> ValuesOf(PatOf(o.list[i], 1))] IN
  /\ Expect(ListOk(q, fs, objs, got), Id, k+1, "list",
            [kept |-> SetToSortSeq({i \in 1..Len(fs) : MatchesAll(q, fs[i])}, <), projections |-> {Project(fs[i], objs, NameLangIn(q)) : i \in {j \in 1..Len(fs) : MatchesAll(q, fs[j])}}], o.list)
  /\ ExpectEq(Id, k+1, "query and fonts unchanged", TRUE, o.same)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
