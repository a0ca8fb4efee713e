----------------------------- MODULE Trace_P11 -----------------------------
EXTENDS TraceBase, FontDesc
VARIABLE ds     \* the three descriptions
Init == CaseInit /\ ds = <<Default, Default, Default>>
Id == Cases[c].id
Plain(d) == [family |-> d.family, style |-> d.style, variant |-> d.variant, weight |-> d.weight, stretch |-> d.stretch,
             size |-> d.size, abs |-> d.abs, gravity |-> d.gravity, variations |-> d.variations]
Val(op) == op.v
MaskOf(l) == Range(l)
Apply(op) ==
  LET d == ds[op.d + 1] IN
  CASE op.op = "set" -> Set(d, op.f, op.v)
    [] op.op = "unset" -> Unset(d, MaskOf(op.mask))
    [] op.op = "new" -> Default
    [] op.op = "copy" -> ds[op.e + 1]
    [] op.op = "parse" -> Parse(op.toks)
    [] OTHER -> d
ClassOf(f) == IF f \in DOMAIN In.classes THEN In.classes[f] ELSE f
Same(x, y) == [Plain(x) EXCEPT !.family = ClassOf(@)] = [Plain(y) EXCEPT !.family = ClassOf(@)]
\* the request: the description of the context with the fields of the attribute, upright unless a gravity is set
Requested(d, e) == LET r == Merge(d, e, TRUE) IN Plain(r)
Step(o, op) ==
  IF op.op = "merge" THEN ExpectEq(Id, k+1, "fields of the merged description", Requested(ds[op.d+1], ds[op.e+1]), o.fields)
  ELSE LET d == Apply(op)
           all == [ds EXCEPT ![op.d+1] = d] IN
    /\ ExpectEq(Id, k+1, "fields after " \o op.op, Plain(d), o.fields)
    /\ ExpectEq(Id, k+1, "text form, read by the grammar", Plain(d), Plain(Parse(o.toks)))
    /\ ExpectEq(Id, k+1, "text form, read back", Plain(d), o.again)
    /\ \A i \in 1..3 : /\ ExpectEq(Id, k+1, "touching attributes become one", Same(d, all[i]) /\ d.mask = all[i].mask, o.eq[i])
                       /\ ExpectEq(Id, k+1, "equality of the hashes", Same(d, all[i]), o.hash[i])
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ IF Step(Obs[k+1], In.ops[k+1])
              THEN k' = k+1 /\ ds' = [ds EXCEPT ![In.ops[k+1].d + 1] = Apply(In.ops[k+1])]
              ELSE k' = -1 /\ UNCHANGED ds
        \/ CaseEnd /\ UNCHANGED ds
=============================================================================
