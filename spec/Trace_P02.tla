----------------------------- MODULE Trace_P02 -----------------------------
(* in: a text, the families of the font map, and calls to Itemize on one context *)
EXTENDS TraceBase, Itemize
Init == CaseInit
Id == Cases[c].id
DescIn(l) == FoldLeft(LAMBDA d, fv : Set(d, fv[1], fv[2]), Default, l)
Query(cl) == [txt |-> In.chars, start |-> cl.start, len |-> cl.len, desc |-> DescIn(cl.desc),
              setlang |-> cl.lang, lang |-> IF cl.lang = "" THEN "el-gr" ELSE cl.lang, gravity |-> cl.gravity, defaults |-> In.defaults,
              attrs |-> cl.attrs, fams |-> In.fams, space |-> [sp |-> FALSE, cov |-> <<"latin", "hebrew", "arabic", "cjk", "half", "greek", "rich", "smcp", "all">>]]
\* positions are compared as far as they matter
Codes(ex) == {<<a.kind, a.v, a.start, a.end>> : a \in Range(ex)}
Text(a) == a.kind \in {"family", "lang"}
InOrder(l, kd) == SelectSeq(l, LAMBDA a : a[1] = kd)
CodeSeq(ex, kd) == LET s == SelectSeq(ex, LAMBDA a : a.kind = kd) IN [i \in 1..Len(s) |-> <<s[i].kind, s[i].v, s[i].start, s[i].end>>]
Near(a, b) == a - b \in -2..2
SameItem(e, o, n) ==
  LET f == o.font
      w(x) == "item " \o ToString(n) \o ": " \o x IN
  /\ ExpectEq(Id, k+1, w("extent"), <<e.off, e.len>>, <<o.off, o.len>>)
  /\ ExpectEq(Id, k+1, w("script"), e.sc, o.sc)
  /\ ExpectEq(Id, k+1, w("level"), e.lv, o.lv)
  /\ ExpectEq(Id, k+1, w("gravity"), <<e.g, e.ctr>>, <<o.g, o.ctr>>)
  /\ ExpectEq(Id, k+1, w("language"), e.lang, o.lang)
  /\ e.fam # "" =>
     /\ ExpectEq(Id, k+1, w("font family"), e.fam, f.fam)
     /\ ExpectEq(Id, k+1, w("font"), <<e.abs, e.weight, e.style, e.variant, e.stretch>>, <<f.abs, f.weight, f.style, f.variant, f.stretch>>)
     /\ Expect(Near((e.size * e.num) \div e.den, f.size), Id, k+1, w("font size"), <<e.size, e.num, e.den>>, f.size)
     /\ (~e.scaled => ExpectEq(Id, k+1, w("language of the font"), e.flang, f.flang))
  /\ ExpectEq(Id, k+1, w("extra attributes"), Codes(e.extra), Range(o.extra))
  /\ ExpectEq(Id, k+1, w("number of extra attributes"), Len(e.extra), Len(o.extra))
  /\ ExpectEq(Id, k+1, w("order of the features"), CodeSeq(e.extra, "features"), InOrder(o.extra, "features"))
Step(o) ==
  LET e == TLCEval(Itemize(Query(In.calls[k+1]))) IN
  /\ Expect(o.same, Id, k+1, "the description given is left as it is", TRUE, o.same)
  /\ ExpectEq(Id, k+1, "offsets", [i \in 1..Len(e) |-> <<e[i].off, e[i].len>>], [i \in 1..Len(o.items) |-> <<o.items[i].off, o.items[i].len>>])
  /\ \A i \in 1..Len(e) : SameItem(e[i], o.items[i], i)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
