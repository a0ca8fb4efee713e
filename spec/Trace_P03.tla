----------------------------- MODULE Trace_P03 -----------------------------
(* in: the settings of a layout, and the characters of its text.
   obs: its lines and what its iterators visit *)
EXTENDS TraceBase, Layout
Init == CaseInit
Id == Cases[c].id
Cfg == In.cfg
Rs == Cfg.text
Tys == TLCEval([i \in 1..Len(In.chars) |-> In.chars[i].ty])
Ps == Paras(Rs, Cfg.single)
\* the end of the text is not shown when the height is limited
Limited == Cfg.height >= 0
\* lines in order: next is where the next line starts, p its paragraph
RECURSIVE LinesOk(_, _, _, _, _, _)
LinesOk(ps, dirs, ls, i, p, next) ==
  LET w(x) == "line " \o ToString(i-1) \o ": " \o x IN
  IF i > Len(ls) THEN Expect(p = Len(ps) + 1 \/ (Limited /\ p > 1 /\ next = ps[p].from), Id, k+1, "lines up to the end of the text", [paragraph |-> p, at |-> next], [lines |-> Len(ls)])
  ELSE IF p > Len(ps) THEN Expect(FALSE, Id, k+1, w("no line after the last paragraph"), Len(ps), ls[i].s)
  ELSE LET l == ls[i] e == l.s + l.n IN
    /\ ExpectEq(Id, k+1, w("start"), next, l.s)
    /\ Expect(e <= ps[p].to /\ (l.n > 0 \/ ps[p].from = ps[p].to), Id, k+1, w("extent in its paragraph"), ps[p], <<l.s, e>>)
    /\ ExpectEq(Id, k+1, w("first of the paragraph"), next = ps[p].from, l.par)
    /\ ExpectEq(Id, k+1, w("direction"), LineDir(dirs[p], Cfg.gravity), l.dir)
    /\ LinesOk(ps, dirs, ls, i+1, IF e = ps[p].to THEN p+1 ELSE p, IF e = ps[p].to THEN ps[p].next ELSE e)
\* levels of the characters of a text in paragraphs; not known when separators are inside
JudgeLevels == Cfg.gravity = 0 /\ ~(Cfg.single /\ \E i \in 1..Len(Rs) : Rs[i] \in Separators)
               /\ \A i \in 1..Len(Cfg.attrs) : Cfg.attrs[i].kind \notin {"gravity", "hint"}
LevelsOf(ps, dirs) == TLCEval(Flat([p \in 1..Len(ps) |->
   TLCEval(TextLevels(SubSeq(In.chars, ps[p].from + 1, ps[p].to), dirs[p])) \o [i \in 1..(ps[p].next - ps[p].to) |-> -1]]))
\* the shaper of the dependency may mix up the clusters of a run shaped against the direction of its
\* script, around characters which continue a grapheme
RtlTags == {"arab", "hebr"}
Continues(x) == x.ty = "NSM" \/ x.r \in {8205, 127995, 127997, 65438, 65439} \/ x.r \in 917504..918016
Foreign(r) == /\ \/ Cfg.gravity # 0
                 \/ \E i \in 1..Len(Cfg.attrs) : Cfg.attrs[i].kind \in {"gravity", "hint"}
                 \/ (r.sc \in RtlTags) = Even(r.lv)
              /\ \E i \in (r.o+1)..(r.o+r.n) : Continues(In.chars[i])
RunsOk(lv, l, i) ==
  LET lrs == TLCEval(LogicalRuns(l))
      w(x) == "line " \o ToString(i-1) \o ": " \o x IN
  /\ Expect(Partition(lrs, l.s, l.n), Id, k+1, w("the runs partition the line"), <<l.s, l.n>>, [j \in 1..Len(lrs) |-> <<lrs[j].o, lrs[j].n>>])
  /\ \A j \in 1..Len(lrs) :
     LET r == lrs[j] IN
     /\ Expect(Foreign(r) \/ Ordered(r), Id, k+1, w("clusters of run " \o ToString(j)), <<r.n, r.lv>>, r.lc)
     /\ ExpectEq(Id, k+1, w("number of glyphs"), Len(r.lc), Len(r.w))
     /\ JudgeLevels =>
        LET x == {lv[m] : m \in (r.o+1)..(r.o+r.n)} IN
        IF r.ell THEN ExpectEq(Id, k+1, w("level of the ellipsis"), MinOf(x), r.lv)
        ELSE ExpectEq(Id, k+1, w("level of run " \o ToString(j)), x, {r.lv})
  /\ ExpectEq(Id, k+1, w("runs in visual order"), VisualOrder(lrs), [j \in 1..Len(l.runs) |-> l.runs[j].o])
Shown(s, x) == [i \in 1..Len(s) |-> <<s[i][1], IF x[i][2] = -1 THEN -1 ELSE s[i][2]>>]
Walk(what, e, o) ==
  /\ Expect(Len(e) = Len(o), Id, k+1, what \o ": steps", Len(e), Len(o))
  /\ ExpectEq(Id, k+1, what, e, Shown(o, e))
Step(o) ==
  LET ps == TLCEval(Ps)
      dirs == TLCEval(ParaDirs(Tys, ps, Cfg.auto, "WL"))
      lv == IF JudgeLevels THEN LevelsOf(ps, dirs) ELSE <<>>
      ls == o.lines IN
  /\ LinesOk(ps, dirs, ls, 1, 1, 0)
  /\ \A i \in 1..Len(ls) : RunsOk(lv, ls[i], i)
  /\ ExpectEq(Id, k+1, "walk of the lines", Lines(ls), [i \in 1..Len(o.it.lines) |-> o.it.lines[i][1]])
  /\ ExpectEq(Id, k+1, "walk of the runs", RunWalk(ls), [i \in 1..Len(o.it.runs) |-> <<o.it.runs[i][1], o.it.runs[i][2]>>])
  /\ (\A i \in 1..Len(ls) : \A j \in 1..Len(ls[i].runs) : Ordered(ls[i].runs[j])) =>
     /\ Walk("walk of the clusters", ClusterWalk(ls), o.it.clusters)
     /\ Walk("walk of the characters", CharWalk(ls, Rs), o.it.chars)
  /\ ExpectEq(Id, k+1, "number of lines", Len(ls), o.size.count)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
