----------------------------- MODULE Trace_C07 -----------------------------
EXTENDS TraceBase, Match
Init == CaseInit
Id == Cases[c].id
Pats(s) == [i \in 1..Len(s) |-> PatOf(s[i], 1)]
Q0 == Substitute(PatOf(In.pat, 1), EmptyPat, In.prules, "pattern")
Step(o) ==
  LET q == Q0 IN
  IF q.bad THEN TRUE
  ELSE LET p == q.p  fs == Pats(In.fonts)  s == SortedFonts(p, fs)  t == Trimmed(s, 1, {}, fs) IN
    /\ ExpectEq(Id, k+1, "order", s, o.order)
    /\ ExpectEq(Id, k+1, "trimmed order", t, o.trimmed)
    /\ Expect(SeqToSet(o.union) = AllChars(fs) /\ SeqToSet(o.tunion) = AllChars(fs), Id, k+1, "coverage", SetToSortSeq(AllChars(fs), <), <<o.union, o.tunion>>)
    /\ ExpectEq(Id, k+1, "query and fonts unchanged", TRUE, o.same)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
