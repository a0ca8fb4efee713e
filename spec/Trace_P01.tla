----------------------------- MODULE Trace_P01 -----------------------------
EXTENDS TraceBase, AttrList
VARIABLE list
Init == CaseInit /\ list = <<>>
Id == Cases[c].id
Step(o, op) ==
  LET a == <<op.kind, op.v, op.s, op.e>> IN
  CASE op.op = "insert" -> ExpectEq(Id, k+1, "Insert", InsertAttr(list, a), o.list)
    [] op.op = "change" ->
         /\ Expect(Ordered(o.list), Id, k+1, "Change: order", "ordered by start", o.list)
         /\ Expect(ChangeRel(list, a, o.list), Id, k+1, "Change", ChangeAttr(list, a), o.list)
    [] op.op = "filter" ->
         LET ks == {op.kinds[i] : i \in 1..Len(op.kinds)} IN
         /\ ExpectEq(Id, k+1, "Filter: kept", FilterKeep(list, ks), o.list)
         /\ ExpectEq(Id, k+1, "Filter: removed", FilterOut(list, ks), o.out)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ IF Step(Obs[k+1], In.ops[k+1])
              THEN k' = k+1 /\ list' = Obs[k+1].list
              ELSE k' = -1 /\ UNCHANGED list
        \/ CaseEnd /\ UNCHANGED list
=============================================================================
