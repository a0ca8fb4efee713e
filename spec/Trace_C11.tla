----------------------------- MODULE Trace_C11 -----------------------------
EXTENDS TraceBase, Cache, Pattern
VARIABLE slots
Init == CaseInit /\ slots = [s \in 1..2 |-> Empty]
Id == Cases[c].id
\* font i of a set: its strong values, then the weak families
Fonts(n) == IF n = 0 THEN <<>> ELSE In.sets[n]
Expected(f) == LET p == PatOf(f.pat, 1) IN
  [ValuesOf(p) EXCEPT !["family"] = @ \o [i \in 1..Len(f.weak) |-> <<"String", f.weak[i]>>]]
StrongFam(f, x) == \E v \in SeqToSet(ValuesOf(PatOf(f.pat, 1)).family) : FamilyKey(v[2]) = FamilyKey(x)
SameFont(f, o) ==
  /\ ValuesOf(PatOf(o.pat, 1)) = Expected(f)
  /\ \A i \in 1..Len(o.strong) : o.strong[i].s = StrongFam(f, o.strong[i].f)
  /\ o.hash
SameSet(n, o) == LET fs == Fonts(n) IN Len(o.fonts) = Len(fs) /\ \A i \in 1..Len(fs) : SameFont(fs[i], o.fonts[i])
Step(o) ==
  LET op == In.ops[k+1]  s == Apply(slots, op) IN
  CASE op.op = "load" ->
         LET st == slots[op.slot] IN
         /\ Expect(LoadOk(st, o.err, IF o.err THEN -1 ELSE IF SameSet(st.set, o) THEN st.set ELSE -1), Id, k+1,
                   "load of a file: " \o st.kind, st, IF o.err THEN "error" ELSE [fonts |-> o.fonts])
         /\ ExpectEq(Id, k+1, "what is loaded can be saved and loaded", TRUE, o.again)
         /\ (st.kind = "ok" => ExpectEq(Id, k+1, "matching with the set loaded", TRUE, o.matches))
    [] op.op = "save" -> ExpectEq(Id, k+1, "save", FALSE, o.err) /\ ExpectEq(Id, k+1, "set unchanged by the save", TRUE, o.same)
    [] OTHER -> TRUE
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
           /\ slots' = Apply(slots, In.ops[k+1])
        \/ CaseEnd /\ UNCHANGED slots
=============================================================================
