----------------------------- MODULE Trace_P07 -----------------------------
(* in: a layout, attributes d which must not change the shape of the text, operations on iterators.
   obs: the layout without and with d, walks over the clusters of every run, items before and after
   attributes are applied to them *)
EXTENDS TraceBase, Clusters
Init == CaseInit
Id == Cases[c].id
D == In.d
SetOf(s) == {s[i] : i \in 1..Len(s)}
\* the ends of attributes without an end are large
Vals(D2, from, to) == {<<x[1], x[2], x[3], x[4]>> : x \in AtRange(D2, from, to)}
VisualPieces(run, B) == LET p == Pieces(run, B) m == Len(p) IN IF Even(run.lv) THEN p ELSE [j \in 1..m |-> p[m+1-j]]
RunsOk(w, B, a, b) ==
  \* a: runs without d, b: runs with d
  LET e == TLCEval(Flat([j \in 1..Len(a) |-> LET p == VisualPieces(a[j], B) IN [q \in 1..Len(p) |-> <<j, p[q][1], p[q][2]>>]]))
  IN
  /\ ExpectEq(Id, k+1, w \o "pieces", [q \in 1..Len(e) |-> <<e[q][2], e[q][3]>>], [q \in 1..Len(b) |-> <<b[q].o, b[q].o + b[q].n>>])
  /\ \A q \in 1..Len(b) : LET x == a[e[q][1]] y == b[q] t == w \o "piece " \o ToString(q) \o ": " IN
     /\ ExpectEq(Id, k+1, t \o "item", <<x.lv, x.sc, x.ell, x.fam, x.size, x.grav, x.ctr>>, <<y.lv, y.sc, y.ell, y.fam, y.size, y.grav, y.ctr>>)
     /\ ExpectEq(Id, k+1, t \o "attributes",
          SetOf(x.extra) \cup (IF x.ell THEN Vals(D, x.o, x.o + 1) ELSE Vals(D, y.o, y.o + y.n)), SetOf(y.extra))
  /\ LET gl(rs) == Flat([j \in 1..Len(rs) |-> [i \in 1..Len(rs[j].g) |->
           <<rs[j].g[i], rs[j].w[i], rs[j].xo[i], rs[j].yo[i], rs[j].o + rs[j].lc[i]>>]]) IN
     ExpectEq(Id, k+1, w \o "glyphs", gl(a), gl(b))
ItemsOk(o) ==
  /\ ExpectEq(Id, k+1, "items", [i \in 1..Len(o.before) |-> <<o.before[i].o, o.before[i].n, o.before[i].lv>>], [i \in 1..Len(o.after) |-> <<o.after[i].o, o.after[i].n, o.after[i].lv>>])
  /\ \A i \in 1..Len(o.before) : LET x == o.before[i] IN
     ExpectEq(Id, k+1, "attributes of item " \o ToString(i), SetOf(x.extra) \cup Vals(In.items, x.o, x.o + x.n), SetOf(o.after[i].extra))
Step(o) ==
  LET B == RangeBounds(D) IN
  /\ \A i \in 1..Len(o.walks) : LET r == o.walks[i] w(t) == "run at " \o ToString(r.o) \o ": " \o t IN
     Ordered(r) =>
       /\ ExpectEq(Id, k+1, w("clusters from the start"), Walked(r, In.ops, TRUE), r.fwd)
       /\ ExpectEq(Id, k+1, w("clusters from the end"), Walked(r, In.ops, FALSE), r.bwd)
       /\ ExpectEq(Id, k+1, w("logical widths"), Shares(r), r.lw)
  /\ ExpectEq(Id, k+1, "lines", [i \in 1..Len(o.base) |-> <<o.base[i].s, o.base[i].n, o.base[i].par, o.base[i].dir, o.base[i].w, o.base[i].log[2], o.base[i].log[4], o.base[i].h>>],
                                [i \in 1..Len(o.with) |-> <<o.with[i].s, o.with[i].n, o.with[i].par, o.with[i].dir, o.with[i].w, o.with[i].log[2], o.with[i].log[4], o.with[i].h>>])
  /\ \A i \in 1..Len(o.base) : LET ok == \A j \in 1..Len(o.base[i].runs) : Ordered(o.base[i].runs[j]) IN
     ok => /\ RunsOk("line " \o ToString(i-1) \o ": ", B, o.base[i].runs, o.with[i].runs)
           /\ ExpectEq(Id, k+1, "x of the indexes", o.xs[1][i], o.xs[2][i])
  /\ ItemsOk(o)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
