----------------------------- MODULE MC_Charset -----------------------------
(* Histories of charset operations, and the refinement the implementation relies
   on: a charset stored as pages (some possibly empty after removals) represents
   the union of its pages, and the relations computed page by page must be those
   of the represented sets. *)
EXTENDS Charset, TLC, Json
CONSTANTS Chars, Depth, PrintHist, PageSize
VARIABLES cs, pg, h
Vars == 1..2
PageOf(r) == r \div PageSize
Init == cs = [i \in 1..3 |-> {}] /\ pg = [i \in 1..3 |-> [p \in {} |-> {}]] /\ h = <<>>
\* the pages as the code keeps them: a removal never drops a page
ApplyPages(op) ==
  CASE op.op = "add" -> [pg EXCEPT ![op.i + 1] =
          [p \in DOMAIN @ \union {PageOf(op.r)} |-> (IF p \in DOMAIN @ THEN @[p] ELSE {}) \union (IF p = PageOf(op.r) THEN {op.r} ELSE {})]]
    [] op.op = "del" -> [pg EXCEPT ![op.i + 1] = [p \in DOMAIN @ |-> @[p] \ {op.r}]]
    [] op.op = "copy" -> [pg EXCEPT ![op.i + 1] = pg[op.j + 1]]
Ops == [op : {"add", "del"}, i : {0, 1}, j : {0}, r : Chars] \union [op : {"copy"}, i : {0}, j : {1}, r : {0}]
       \union [op : {"copy"}, i : {1}, j : {0}, r : {0}]
Next == /\ Len(h) < Depth
        /\ \E op \in Ops : cs' = Apply(cs, op) /\ pg' = ApplyPages(op) /\ h' = Append(h, op)
Spec == Init /\ [][Next]_<<cs, pg, h>>
View == <<cs, pg, Len(h)>>
SetOf(p) == UNION {p[q] : q \in DOMAIN p}
At(p, q) == IF q \in DOMAIN p THEN p[q] ELSE {}
InvAbs == \A i \in 1..3 : SetOf(pg[i]) = cs[i]
\* page-wise relations, empty pages not counting
SubsetPages(a, b) == \A q \in DOMAIN a : a[q] # {} => a[q] \subseteq At(b, q)
InvSubset == \A i, j \in 1..2 : SubsetPages(pg[i], pg[j]) <=> cs[i] \subseteq cs[j]
InvEqual == \A i, j \in 1..2 :
   (\A q \in DOMAIN pg[i] \union DOMAIN pg[j] : At(pg[i], q) = At(pg[j], q)) <=> cs[i] = cs[j]
InvUnion == SetOf([q \in DOMAIN pg[1] \union DOMAIN pg[2] |-> At(pg[1], q) \union At(pg[2], q)]) = cs[1] \union cs[2]
InvMinus == SetOf([q \in DOMAIN pg[1] |-> pg[1][q] \ At(pg[2], q)]) = cs[1] \ cs[2]
Emit == (PrintHist /\ Len(h) = Depth) => PrintT("HIST " \o ToJson(h))
=============================================================================
