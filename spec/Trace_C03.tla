----------------------------- MODULE Trace_C03 -----------------------------
EXTENDS TraceBase, Pattern
VARIABLE ps
Init == CaseInit /\ ps = [i \in 0..2 |-> EmptyPat]
Id == Cases[c].id
S(v) == <<v, "s">>
Apply(op) ==
  CASE op.op \in {"add", "mutate"} -> [ps EXCEPT ![op.p] = Add(@, op.o, Norm(op.v), "s", op.app)]
    [] op.op = "addc" -> [ps EXCEPT ![op.p] = Add(@, op.o, Norm(op.v), "s", TRUE)]
    [] op.op = "del" -> [ps EXCEPT ![op.p] = Del(@, op.o)]
    [] op.op = "dup" -> [ps EXCEPT ![op.p] = ps[op.q]]
    [] op.op = "build" -> [ps EXCEPT ![op.p] = Add(Add(EmptyPat, op.o, Norm(op.v), "s", TRUE), "family", <<"String", <<120>>>>, "s", TRUE)]
Typed(l, t) == SelectSeq(l, LAMBDA v : Ty(v) = t)
FirstAs(l, t) == IF l = <<>> THEN Nil
   ELSE IF t = "Float" /\ Ty(l[1]) = "Int" THEN <<"Float", FloatOf(l[1])>>
   ELSE IF Ty(l[1]) = t THEN l[1] ELSE Nil
HashOk(a, b, eq) == IF SamePat(a, b) THEN eq ELSE IF SameUpToNum(a, b) THEN TRUE ELSE ~eq
Step(o, op, n) ==
  LET p == n[op.p]  l == Vals(Get(p, op.o)) IN
  /\ \A i \in 0..2 : Expect(ValuesOf(PatOf(o.pats[i+1], 1)) = ValuesOf(n[i]), Id, k+1,
                            (IF i = op.p THEN "pattern after " ELSE "other pattern after ") \o op.op, ValuesOf(n[i]), o.pats[i+1])
  /\ Expect(o.indep, Id, k+1, "copy independent", TRUE, FALSE)
  /\ ExpectEq(Id, k+1, "lookup results", [i \in 1..4 |-> LookupResult(p, op.o, i-1)], o.results)
  /\ ExpectEq(Id, k+1, "values looked up", [i \in 1..4 |-> IF i <= Len(l) THEN l[i] ELSE Nil], NormSeq(o.gets))
  /\ ExpectEq(Id, k+1, "typed first value", [t \in {"Bool", "String", "Int", "Float", "Charset", "Matrix"} |-> FirstAs(l, t)],
                                      [t \in DOMAIN o.first |-> Norm(o.first[t])])
  /\ ExpectEq(Id, k+1, "typed values", [t \in {"String", "Int", "Float", "Matrix"} |-> Typed(l, t)], [t \in DOMAIN o.all |-> NormSeq(o.all[t])])
  /\ Expect(HashOk(n[0], n[1], o.hash[1]) /\ HashOk(n[0], n[2], o.hash[2]) /\ HashOk(n[1], n[2], o.hash[3]),
            Id, k+1, "hash equality", <<SamePat(n[0], n[1]), SamePat(n[0], n[2]), SamePat(n[1], n[2])>>, o.hash)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ LET n == Apply(In.ops[k+1]) IN
              IF Step(Obs[k+1], In.ops[k+1], n) THEN k' = k+1 /\ ps' = n ELSE k' = -1 /\ UNCHANGED ps
        \/ CaseEnd /\ UNCHANGED ps
=============================================================================
