----------------------------- MODULE MC_Pattern -----------------------------
(* All short histories of additions, deletions and copies of two patterns. *)
EXTENDS Pattern, TLC, Json
CONSTANTS Depth, PrintHist
VARIABLES ps, h
Vs == [family |-> {<<"String", <<97>>>>, <<"String", <<97, 98>>>>, <<"Int", 1>>}, weight |-> {<<"Int", 1>>, <<"String", <<98>>>>}]
Init == ps = [i \in 0..1 |-> EmptyPat] /\ h = <<>>
Op(o, p, q, ob, v, app) == [op |-> o, p |-> p, q |-> q, o |-> ob, v |-> v, app |-> app]
Do(op) == CASE op.op = "add" -> [ps EXCEPT ![op.p] = Add(@, op.o, op.v, "s", op.app)]
            [] op.op = "del" -> [ps EXCEPT ![op.p] = Del(@, op.o)]
            [] op.op = "dup" -> [ps EXCEPT ![op.p] = ps[op.q]]
Ops == {Op("add", p, 0, ob, v, app) : p \in {0}, ob \in {"family"}, v \in Vs.family, app \in BOOLEAN}
       \union {Op("add", 1, 0, "weight", v, TRUE) : v \in Vs.weight}
       \union {Op("add", 1, 0, "family", <<"String", <<97>>>>, TRUE)}
       \union {Op("del", p, 0, "family", <<"Int", 0>>, FALSE) : p \in 0..1}
       \union {Op("dup", 1, 0, "family", <<"Int", 0>>, FALSE), Op("dup", 0, 1, "family", <<"Int", 0>>, FALSE)}
Next == Len(h) < Depth /\ \E op \in Ops : ps' = Do(op) /\ h' = Append(h, op)
Spec == Init /\ [][Next]_<<ps, h>>
View == <<ps, Len(h)>>
InvTyped == \A i \in 0..1 : \A o \in DOMAIN ps[i] : \A n \in 1..Len(ps[i][o]) : Accepts(o, ps[i][o][n][1])
InvNonEmpty == \A i \in 0..1 : \A o \in DOMAIN ps[i] : ps[i][o] # <<>>
InvLookup == \A i \in 0..1 : \A o \in {"family", "weight"} : \A n \in 0..3 :
   (LookupResult(ps[i], o, n) = 0) = (n < Len(Get(ps[i], o)))
Emit == (PrintHist /\ Len(h) = Depth) => PrintT("HIST " \o ToJson(h))
=============================================================================
