----------------------------- MODULE Trace_M01 -----------------------------
(* in: requests, databases, operations on a font map. obs: the fonts (a number for each object), what they show, and what those
   of a new font map with the same configuration and database show *)
EXTENDS TraceBase, Sequences
Init == CaseInit
Id == Cases[c].id
Ops == In.ops
Bads == [d \in 1..Len(In.dbs) |-> {In.dbs[d][i].file : i \in {j \in 1..Len(In.dbs[d]) : In.dbs[d][j].bad}}]
Epoch(i) == Cardinality({j \in 1..i : Ops[j].op = "config"})
LastConfig(i) == LET S == {j \in 1..i : Ops[j].op = "config"} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Db(i) == LET x == LastConfig(i) IN IF x = 0 THEN 1 ELSE Ops[x].d
Cfg(i) == LET x == LastConfig(i) IN IF x = 0 THEN In.cfg ELSE Ops[x].cfg
Ids(o) == {o.ids[i] : i \in 1..Len(o.ids)}
Least(a, b) == IF a < b THEN a ELSE b
\* what a request says of any of its fonts
Features == <<<<>>, <<"smcp=1">>, <<"smcp=1", "c2sc=1">>, <<"pcap=1">>, <<"pcap=1", "c2pc=1">>, <<"unic=1">>, <<"titl=1">>>>
Uniform(r) == r.mat[1] = r.mat[4] /\ r.mat[2] = 0 /\ r.mat[3] = 0
Turned(r) == r.mat = <<0, -100, 100, 0>>
AsAsked(r, f) ==
  LET base == IF r.abs THEN r.size ELSE (r.size * 4) \div 3
      s == IF Uniform(r) THEN r.mat[1] ELSE 100
      xs == IF r.grav \in {2, 3} THEN -base ELSE base
      t == f.file \o ": " IN
  /\ ExpectEq(Id, k+1, t \o "scale", <<xs, xs>>, <<f.xs, f.ys>>)
  /\ ExpectEq(Id, k+1, t \o "size in points (1/1024)", (base * s * 3) \div 400, f.pt)
  /\ ExpectEq(Id, k+1, t \o "features", Features[r.variant + 1], f.feats)
AnyFont(o, d) ==
  \A i \in 1..Len(o.got) : LET f == o.got[i] IN
    /\ Expect(f.file \notin Bads[d], Id, k+1, "fonts which can't be loaded", Bads[d], f.file)
    /\ ExpectEq(Id, k+1, f.file \o ": coverage", f.has, f.cov)
\* the same request: the same fonts; other configurations: other fonts; one font: one description
Same(i, o) ==
  \A j \in 1..(i-1) : LET p == Obs[j] IN Ops[j].op \in {"fonts", "metrics", "font"} =>
    IF Epoch(j) # Epoch(i) THEN Expect(Ids(p) \cap Ids(o) = {}, Id, k+1, "fonts of an earlier configuration", {}, Ids(p) \cap Ids(o))
    ELSE /\ (In.reqs[Ops[j].q] = In.reqs[Ops[i].q] =>
               LET n == Least(Len(p.ids), Len(o.ids)) IN ExpectEq(Id, k+1, "the fonts of a request made twice", SubSeq(p.ids, 1, n), SubSeq(o.ids, 1, n)))
         /\ \A x \in 1..Len(p.ids), y \in 1..Len(o.ids) : p.ids[x] = o.ids[y] => ExpectEq(Id, k+1, "a font changed", p.got[x], o.got[y])
CheckOne(i, o) ==
  LET op == Ops[i] q == op.q IN
  CASE op.op \in {"fonts", "metrics", "font"} ->
         /\ ExpectEq(Id, k+1, "fonts", o.want, o.got)
         /\ ExpectEq(Id, k+1, "metrics", o.wantmet, o.met)
         /\ AnyFont(o, Db(i))
         /\ ((Cfg(i) \in {0, 1, 3, 5} /\ (Uniform(In.reqs[q]) \/ Turned(In.reqs[q]))) => \A x \in 1..Len(o.got) : AsAsked(In.reqs[q], o.got[x]))
         /\ Same(i, o)
         /\ (i > 1 => ExpectEq(Id, k+1, "serial", Obs[i-1].serial, o.serial))
    [] op.op = "layout" -> ExpectEq(Id, k+1, "layout", o.wantmore, o.more)
    [] op.op = "config" -> (i > 1 => Expect(Obs[i-1].serial # o.serial, Id, k+1, "another serial", "changed", o.serial))
Next == \/ /\ k >= 0 /\ k < Len(Obs) /\ UNCHANGED c
           /\ k' = IF CheckOne(k+1, Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
