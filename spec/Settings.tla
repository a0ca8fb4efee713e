------------------------------ MODULE Settings ------------------------------
(* The settings of a layout, of its context and of its font map (property P05), and what the
   setters do to them.  A layout is a function of its settings: queries change nothing, and their
   answers are the ones of a fresh layout given these settings *)
EXTENDS Integers, Sequences, TLC, SequencesExt
Neg1(v) == IF v < 0 THEN -1 ELSE v
Set(s, op) ==
  CASE op.f = "width" -> [s EXCEPT !.width = Neg1(op.v)]
    [] op.f = "desc" -> [s EXCEPT !.hasdesc = op.v.has, !.desc = op.v.d]
    \* a markup is a text and its attributes, and changes nothing when it is not correct
    [] op.f = "markup" -> IF op.v.ok THEN [s EXCEPT !.text = op.v.text, !.attrs = op.v.attrs] ELSE s
    [] op.f = "string" -> [s EXCEPT !.text = op.v]
    [] op.f = "query" -> s
    [] OTHER -> [s EXCEPT ![op.f] = op.v]
\* a height is for ellipsized layouts
Defined(s) == s.height = -1 \/ s.ell # 0
\* what is exported of the settings
Fields(s) == [text |-> s.text, width |-> s.width, height |-> s.height, indent |-> s.indent, spacing |-> s.spacing, linesp |-> s.linesp,
              justify |-> s.justify, jlast |-> s.jlast]
=============================================================================
