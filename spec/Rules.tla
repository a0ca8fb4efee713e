-------------------------------- MODULE Rules --------------------------------
(* Substitution: the rules of one kind, in load order, edit a pattern.
   A rule is [kind, tests, edits] with
     test [name, tgt, qual, cmp, ib, e]    edit [name, mode, bind, es]
   or an alias [kind = "alias", family, bind, prefer, accept, deflt].
   The edits of a rule act at the mark of their object: the value that the first
   test on that object (for the kind being run) selected.  mark 0: none;
   mark -1: the marked value has been removed by an earlier edit of the rule, and
   what an edit relative to it does is not specified ("bad": not judged). *)
EXTENDS Pattern

Key(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
FamTest(f) == [name |-> "family", tgt |-> "pattern", qual |-> "any", cmp |-> "eq", ib |-> TRUE, e |-> [op |-> "lit", v |-> <<"String", f>>]]
FamEdit(mode, b, fs) == [name |-> "family", mode |-> mode, bind |-> b, es |-> [i \in 1..Len(fs) |-> [op |-> "lit", v |-> <<"String", fs[i]>>]]]
\* an alias is a rule on families
Expand(r) ==
  IF r.kind # "alias" THEN r
  ELSE LET b == Key(r, "bind", "")
           ed(m, fs) == IF fs = <<>> THEN <<>> ELSE << FamEdit(m, b, fs) >>
           es == ed("prepend", Key(r, "prefer", <<>>)) \o ed("append", Key(r, "accept", <<>>)) \o ed("append_last", Key(r, "deflt", <<>>)) IN
       [kind |-> "pattern", tests |-> IF es = <<>> THEN <<>> ELSE << FamTest(r.family) >>, edits |-> es]

(* ---- tests ---- *)
NoMarks == [x \in {} |-> 0]
MarkOf(ms, o) == IF o \in DOMAIN ms THEN ms[o] ELSE 0
SetMark(ms, o, n) == [x \in DOMAIN ms \cup {o} |-> IF x = o THEN n ELSE ms[x]]

\* index of the value selected by a test on list l, 0 when the test does not hold
Selected(l, t, r) ==
  LET hits == {i \in 1..Len(l) : Compare(l[i], t.cmp, r, t.ib)} IN
  CASE t.qual = "all" -> IF hits = 1..Len(l) /\ hits # {} THEN 1 ELSE 0
    [] t.qual = "first" -> IF 1 \in hits THEN 1 ELSE 0
    [] t.qual = "not_first" -> IF hits # {} /\ 1 \notin hits THEN MinOf(hits) ELSE 0
    [] OTHER -> IF hits = {} THEN 0 ELSE MinOf(hits)

TestKind(t, kind) == IF t.tgt \in {"", "default"} THEN kind ELSE t.tgt
TestStep(st, t, p, q, kind) ==
  IF ~st.ok THEN st
  ELSE
  LET tk == TestKind(t, kind)
      m == IF kind = "font" /\ tk = "pattern" THEN q ELSE p
      l == Vals(Get(m, t.name))
      r == Eval(t.e, m, q, kind)
      s == Selected(l, t, r)
      mk == MarkOf(st.marks, t.name) IN
  IF l = <<>>
  THEN IF t.qual = "all"
       THEN IF mk # 0 THEN [st EXCEPT !.bad = TRUE] ELSE st
       ELSE [st EXCEPT !.ok = FALSE]
  ELSE IF Ty(r) = "Unknown" THEN [st EXCEPT !.bad = TRUE]
  ELSE IF s = 0 THEN [st EXCEPT !.ok = FALSE]
  ELSE IF tk = kind /\ mk = 0 THEN [st EXCEPT !.marks = SetMark(@, t.name, s)]
  ELSE st
RECURSIVE TestsFrom(_, _, _, _, _, _)
TestsFrom(ts, i, st, p, q, kind) ==
  IF i > Len(ts) THEN st ELSE TestsFrom(ts, i+1, TestStep(st, ts[i], p, q, kind), p, q, kind)
Tests(r, p, q, kind) == TestsFrom(r.tests, 1, [ok |-> TRUE, bad |-> FALSE, marks |-> NoMarks], p, q, kind)

(* ---- edits ---- *)
\* the values of an edit: expressions without a value give none
EditValues(e, p, q, kind) ==
  LET vs == EvalAll(e.es, 1, p, q, kind)
      b == CASE Key(e, "bind", "") = "strong" -> "s" [] Key(e, "bind", "") = "same" -> "m" [] OTHER -> "w" IN
  [i \in 1..Len(SelectSeq(vs, LAMBDA v : Ty(v) # "Nil")) |-> <<SelectSeq(vs, LAMBDA v : Ty(v) # "Nil")[i], b>>]
Bound(l, b) == [i \in 1..Len(l) |-> IF l[i][2] = "m" THEN <<l[i][1], b>> ELSE l[i]]
InsertBefore(s, i, l) == SubSeq(s, 1, i-1) \o l \o SubSeq(s, i, Len(s))

\* st: [p, marks, bad]
EditStep(st, e, q, kind) ==
  LET o == e.name
      l0 == EditValues(e, st.p, q, kind)
      cur == Get(st.p, o)
      mk == MarkOf(st.marks, o)
      adds == e.mode \notin {"delete", "delete_all"}
      l == Bound(l0, IF mk > 0 /\ e.mode \in {"assign", "prepend", "append"} THEN cur[mk][2] ELSE "w")
      To(s, m) == [st EXCEPT !.p = Put(@, o, s), !.marks = SetMark(@, o, m)]
      relative == e.mode \in {"assign", "prepend", "append", "delete"} IN
  IF \/ mk = -1 /\ relative
     \/ \E i \in 1..Len(l) : Ty(l[i][1]) = "Unknown" \/ ~Accepts(o, l[i][1])
  THEN [st EXCEPT !.bad = TRUE]
  ELSE
  CASE e.mode = "assign" ->
         IF mk > 0 THEN To(SubSeq(cur, 1, mk-1) \o l \o SubSeq(cur, mk+1, Len(cur)), IF l = <<>> THEN -1 ELSE mk)
         ELSE To(l, 0)
    [] e.mode = "assign_replace" -> To(l, 0)
    [] e.mode = "prepend" ->
         IF mk > 0 THEN To(InsertBefore(cur, mk, l), mk + Len(l)) ELSE To(l \o cur, 0)
    [] e.mode = "prepend_first" -> To(l \o cur, IF mk > 0 THEN mk + Len(l) ELSE mk)
    [] e.mode = "append" ->
         IF mk > 0 THEN To(InsertBefore(cur, mk+1, l), mk) ELSE To(cur \o l, 0)
    [] e.mode = "append_last" -> To(cur \o l, mk)
    [] e.mode = "delete" ->
         IF mk > 0 THEN To(SubSeq(cur, 1, mk-1) \o SubSeq(cur, mk+1, Len(cur)), -1) ELSE To(<<>>, 0)
    [] e.mode = "delete_all" -> To(<<>>, IF mk = 0 THEN 0 ELSE -1)
RECURSIVE EditsFrom(_, _, _, _, _)
EditsFrom(es, i, st, q, kind) ==
  IF i > Len(es) \/ st.bad THEN st ELSE EditsFrom(es, i+1, EditStep(st, es[i], q, kind), q, kind)

(* ---- rules ---- *)
\* st: [p, bad, fired]
RuleStep(st, r0, q, kind) ==
  LET r == Expand(r0) IN
  IF st.bad \/ r.kind # kind THEN st
  ELSE LET t == Tests(r, st.p, q, kind) IN
       IF t.bad THEN [st EXCEPT !.bad = TRUE]
       ELSE IF ~t.ok THEN st
       ELSE LET n == EditsFrom(r.edits, 1, [p |-> st.p, marks |-> t.marks, bad |-> FALSE], q, kind) IN
            [p |-> n.p, bad |-> n.bad, fired |-> st.fired + 1]
RECURSIVE RulesFrom(_, _, _, _, _)
RulesFrom(rs, i, st, q, kind) ==
  IF i > Len(rs) THEN st ELSE RulesFrom(rs, i+1, RuleStep(st, rs[i], q, kind), q, kind)
Substitute(p, q, rs, kind) == RulesFrom(rs, 1, [p |-> p, bad |-> FALSE, fired |-> 0], q, kind)
=============================================================================
