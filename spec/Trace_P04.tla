----------------------------- MODULE Trace_P04 -----------------------------
(* in: the settings of a layout.  obs: the same layout without limit of width (widths of the
   characters, attributes, width of hyphens), and its lines *)
EXTENDS TraceBase, Layout, Breaking
Init == CaseInit
Id == Cases[c].id
Cfg == In.cfg
Mode == CASE Cfg.wrap = 0 -> "word" [] Cfg.wrap = 1 -> "char" [] OTHER -> "wordchar"
\* the forced end of a line which starts at s, in the paragraph which ends at to
RECURSIVE ForcedEnd(_, _)
ForcedEnd(s, to) == IF s >= to THEN to ELSE IF ~Cfg.single /\ Cfg.text[s+1] = LS THEN s+1 ELSE ForcedEnd(s+1, to)
Question(o) == [w |-> o.ref.w, hy |-> o.ref.hy, item |-> o.ref.item,
  a |-> TLCEval([i \in 1..Len(o.ref.a) |-> LET x == o.ref.a[i] IN [lb |-> x[1] = 1, cb |-> x[2] = 1, ins |-> x[3] = 1, rem |-> x[4] = 1, sp |-> x[5] = 1, cur |-> x[6] = 1]]),
  ls |-> TLCEval([i \in 1..Len(Cfg.text) |-> ~Cfg.single /\ Cfg.text[i] = LS])]
\* justified lines take the width, spread on the spaces or between the characters
Abs(x) == IF x < 0 THEN -x ELSE x
Filled(q, s, e, fe, W, w) ==
  LET nat == Shown(q, s, e, fe)
      hang == e # fe /\ q.a[e].sp /\ ~q.a[e+1].ins
      chars == {i \in (s+1)..e : q.a[i].cur /\ q.w[i] > 0 /\ ~(hang /\ i = e)} IN
  IF nat >= W THEN w = nat
  ELSE \/ Abs(W - w) <= IF (W - nat) % 1024 = 0 THEN 1024 ELSE e - s
       \/ Cardinality(chars) < 2 /\ w = nat
Last0(l) == LET r == LogicalRuns(l) IN r[Len(r)]
RECURSIVE Walk(_, _, _, _, _)
Walk(q, ps, ls, i, p) ==
  LET at(x) == "line " \o ToString(i-1) \o ": " \o x IN
  IF i > Len(ls) THEN ExpectEq(Id, k+1, "paragraphs", Len(ps) + 1, p)
  ELSE LET l == ls[i] e == l.s + l.n
           fe == ForcedEnd(l.s, ps[p].to)
           W == LineWidth(Cfg.width, Cfg.indent, Cfg.align = 1, l.par)
           ok == IF l.n = 0 THEN {fe} ELSE TLCEval(Ends(q, l.s, fe, W, Mode)) IN
    /\ Expect(e \in ok, Id, k+1, at("end"), [ends |-> ok, width |-> W], [start |-> l.s, ends |-> e])
    /\ (l.n > 0 /\ ~Cfg.justify) => ExpectEq(Id, k+1, at("width"), Shown(q, l.s, e, fe), l.w)
    /\ (l.n > 0 /\ Cfg.justify) => IF W >= 0 /\ (e # ps[p].to \/ Cfg.jlast \/ q.ls[e]) THEN Expect(Filled(q, l.s, e, fe, W, l.w), Id, k+1, at("justified width"), <<W, Shown(q, l.s, e, fe)>>, l.w)
                                    ELSE ExpectEq(Id, k+1, at("width"), Shown(q, l.s, e, fe), l.w)
    /\ (l.n > 0 /\ e # fe) => ExpectEq(Id, k+1, at("hyphen"), q.a[e+1].ins, Last0(l).hy)
    /\ (l.n > 0 /\ e = fe) => ExpectEq(Id, k+1, at("hyphen"), FALSE, Last0(l).hy)
    /\ Walk(q, ps, ls, i+1, IF e = ps[p].to THEN p+1 ELSE p)
Step(o) ==
  LET ps == TLCEval(Paras(Cfg.text, Cfg.single))
      q == Question(o)
      broken == \E i \in 1..Len(o.lines) : LET e == o.lines[i].s + o.lines[i].n IN
                  \/ ~\E p \in 1..Len(ps) : ps[p].to = e
                  \/ e > o.lines[i].s /\ q.ls[e] IN
  /\ Walk(q, ps, o.lines, 1, 1)
  /\ ExpectEq(Id, k+1, "is wrapped", broken, o.wrapped)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
