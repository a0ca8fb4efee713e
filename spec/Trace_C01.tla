----------------------------- MODULE Trace_C01 -----------------------------
EXTENDS Relations, Charset
VARIABLE cs
Init == CaseInit /\ cs = [i \in 1..3 |-> {}]
Id == Cases[c].id
NOps == Len(In.ops)
Sets(o) == [i \in 1..3 |-> SeqToSet(o.sets[i])]
StepOp(o, op) ==
  LET n == Apply(cs, op) IN
  /\ Expect(Sets(o) = n, Id, k+1, "sets after " \o op.op, n, o.sets)
  /\ ExpectEq(Id, k+1, "Len", [i \in 1..3 |-> Cardinality(n[i])], o.lens)
  /\ ExpectEq(Id, k+1, "HasChar", SeqToSet(o.probes) \intersect n[op.i + 1], SeqToSet(o.has))
Sorted(o) ==
  LET fonts == [i \in 0..2 |-> cs[((i + 1) % 3) + 1]]
      d == [i \in 0..2 |-> CharDist(cs[1], fonts[i])]
      order == SortBy(0..2, d) IN
  /\ ExpectEq(Id, k+1, "order by number of missing characters", order, o.all)
  /\ ExpectEq(Id, k+1, "trimmed order", TrimFrom(order, 1, fonts, {}), o.trim)
  /\ ExpectEq(Id, k+1, "union", UNION {cs[i] : i \in 1..3}, SeqToSet(o.union))
  /\ ExpectEq(Id, k+1, "union when trimming", UNION {cs[i] : i \in 1..3}, SeqToSet(o.tunion))
  /\ ExpectEq(Id, k+1, "best match", order[1], o.best)
Step(o) ==
  CASE k < NOps -> StepOp(o, In.ops[k+1])
    [] k = NOps -> CheckRel(Id, k+1, o.rel, <<"Charset", SetToSeq(cs[1])>>, <<"Charset", SetToSeq(cs[2])>>)
    [] k = NOps + 1 -> CheckRel(Id, k+1, o.rel, <<"Charset", SetToSeq(cs[2])>>, <<"Charset", SetToSeq(cs[3])>>)
    [] k = NOps + 2 -> Sorted(o)
    [] OTHER -> Expect(Sets(o) = cs, Id, k+1, "sets unchanged by queries", cs, o.sets)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ IF Step(Obs[k+1])
              THEN k' = k+1 /\ cs' = IF k < NOps THEN Apply(cs, In.ops[k+1]) ELSE cs
              ELSE k' = -1 /\ UNCHANGED cs
        \/ CaseEnd /\ UNCHANGED cs
=============================================================================
