----------------------------- MODULE Trace_P08 -----------------------------
(* in: a layout. obs: its lines, the lines of the layout with a width of 2^28 (ref) and without
   ellipses (wrapped), the ellipses that attributes give *)
EXTENDS TraceBase, Clusters
EP == INSTANCE Ellipsis
Init == CaseInit
Id == Cases[c].id
Cfg == In.cfg
\* the clusters of runs in the order of the text
Glyphs(run, x) == {i \in 1..Len(run.lc) : run.lc[i] = x.from}
GlyphSeq(run, x) == LET S == TLCEval({i \in 1..Len(run.lc) : run.lc[i] = x.from}) q == SetToSortSeq(S, <) IN
  TLCEval([j \in 1..Len(q) |-> <<run.g[q[j]], run.w[q[j]], run.xo[q[j]], run.yo[q[j]]>>])
ClustersOf(runs) == TLCEval(Flat([r \in 1..Len(runs) |-> LET cs == LogicalClusters(runs[r]) IN
  [j \in 1..Len(cs) |-> [from |-> runs[r].o + cs[j].from, to |-> runs[r].o + cs[j].to, w |-> cs[j].w, r |-> r, lv |-> runs[r].lv,
                         gl |-> GlyphSeq(runs[r], cs[j])]]]))
Cut3(cs) == [j \in 1..Len(cs) |-> <<cs[j].from, cs[j].to, cs[j].gl>>]
SumW(ws) == SumSeq(ws)
View(l) == [s |-> l.s, n |-> l.n, par |-> l.par, dir |-> l.dir, w |-> l.w, runs |-> [j \in 1..Len(l.runs) |->
  LET r == l.runs[j] IN <<r.o, r.n, r.lv, r.g, r.w, r.lc, r.xo, r.yo, r.fam, r.size, r.ell, r.grav>>]]
\* paragraph of each line, and its place in it
ParOf(ls, i) == Cardinality({j \in 1..i : ls[j].par})
FirstOf(ls, p) == CHOOSE j \in 1..Len(ls) : ls[j].par /\ ParOf(ls, j) = p
Goal(line) == LET ind == IF Cfg.align = CENTER THEN 0 ELSE IF line.par THEN Max2(Cfg.indent, 0) ELSE Max2(-Cfg.indent, 0) IN Max2(Cfg.width - ind, 0)
\* the height which is left, and the guess of the one of the next line, before line i
RECURSIVE HeightLeft(_, _)
HeightLeft(ls, i) == IF i = 1 THEN Cfg.height ELSE HeightLeft(ls, i-1) - ls[i-1].log[4] - Cfg.spacing
Guess(o, i) == IF i = 1 THEN o.h0 ELSE o.lines[i-1].log[4]
\* the last line of its paragraph
LastLine(o, i) == IF Cfg.height >= 0 THEN 2 * Guess(o, i) > HeightLeft(o.lines, i) ELSE i - FirstOf(o.lines, ParOf(o.lines, i)) + 1 = -Cfg.height
Limited == Cfg.width >= 0 /\ Cfg.ell # 0
\* no more paragraphs are shown after this line
Full(o, i) == Cfg.height >= 0 /\ HeightLeft(o.lines, i+1) < o.lines[i].log[4]
EllAt(o, x) == LET S == {t \in 1..Len(o.tab) : o.tab[t][1] <= x.from /\ \A u \in 1..Len(o.tab) : o.tab[u][1] <= x.from => o.tab[u][1] <= o.tab[t][1]}
                   t == CHOOSE y \in S : TRUE IN IF o.wide[x.from + 1] THEN o.tab[t][3] ELSE o.tab[t][2]
EllipsizedOk(o, i, line, cs, t) ==
  \* cs: clusters of the rest of the paragraph
  LET goal == Goal(line)
      cl == TLCEval([j \in 1..Len(cs) |-> [w |-> cs[j].w, b |-> o.cur[cs[j].from + 1]]])
      ells == TLCEval([j \in 1..Len(cs) |-> EllAt(o, cs[j])])
      ew == TLCEval([j \in 1..Len(cs) |-> SumW(ells[j].w)])
      runs == LogicalRuns(line)
      eruns == {j \in 1..Len(runs) : runs[j].ell} IN
  IF ~EP!TooWideLine(cl, goal) THEN
    ExpectEq(Id, k+1, t \o "a line which fits", Cut3(cs), Cut3(ClustersOf(runs))) /\ ExpectEq(Id, k+1, t \o "no ellipsis", {}, eruns)
  ELSE
    LET gaps == EP!Gaps(cl, Cfg.ell, ew, goal)
        want == {<<cs[g[1]].from, cs[g[2]].to>> : g \in gaps}
        one == Cardinality(eruns) = 1 IN
    /\ Expect(one, Id, k+1, t \o "ellipses", 1, Cardinality(eruns))
    /\ one => LET e == runs[CHOOSE j \in eruns : TRUE] got == <<e.o, e.o + e.n>> IN
       /\ Expect(got \in want, Id, k+1, t \o "the text which is replaced", want, got)
       /\ got \in want =>
          LET g == CHOOSE x \in gaps : got = <<cs[x[1]].from, cs[x[2]].to>>
              el == ells[g[1]] ex == EP!Extra(cl, ew, goal, g) m == Len(el.w)
              others == SelectSeq(runs, LAMBDA r : ~r.ell) IN
          /\ ExpectEq(Id, k+1, t \o "the text which is kept", Cut3(SelectSeq(cs, LAMBDA x : x.to <= got[1] \/ x.from >= got[2])), Cut3(ClustersOf(others)))
          /\ ExpectEq(Id, k+1, t \o "ellipsis", <<el.g, [j \in 1..m |-> IF j = m THEN el.w[j] + ex ELSE el.w[j]], [j \in 1..m |-> 0], el.fam, el.size>>,
                      <<e.g, e.w, e.lc, e.fam, e.size>>)
          /\ ExpectEq(Id, k+1, t \o "level of the ellipsis", MinOf({cs[j].lv : j \in g[1]..g[2]}), e.lv)
          /\ ExpectEq(Id, k+1, t \o "order of the runs", VisualOrder(runs), [j \in 1..Len(line.runs) |-> line.runs[j].o])
          /\ ExpectEq(Id, k+1, t \o "width", EP!Left(cl, ew, g) + ex, line.w)
\* the number of lines that are last lines and too wide
Step(o) ==
  LET ls == o.lines n == Len(ls)
      ps == Paras(Cfg.text, Cfg.single)
      cut == {i \in 1..n : \E j \in 1..Len(ls[i].runs) : ls[i].runs[j].ell} IN
  /\ Expect(o.refell = FALSE, Id, k+1, "a layout which fits is not ellipsized", FALSE, o.refell)
  /\ ExpectEq(Id, k+1, "ellipsized", cut # {}, o.ellipsized)
  /\ IF ~Limited THEN ExpectEq(Id, k+1, "lines without ellipsis", [i \in 1..Len(o.wrapped) |-> View(o.wrapped[i])], [i \in 1..n |-> View(ls[i])])
     ELSE
     \* the paragraphs, until there is no more height
     /\ LET np == Cardinality({i \in 1..n : ls[i].par})
            ends == {i \in 1..n : i = n \/ ls[i+1].par} IN
        /\ Expect(\A i \in ends : i = n \/ ~Full(o, i), Id, k+1, "paragraphs after the last one", "no more height", np)
        /\ Expect(np = Len(ps) \/ Full(o, n), Id, k+1, "all paragraphs are shown", Len(ps), np)
     /\ \A i \in 1..n :
        LET p == ParOf(ls, i) f == FirstOf(ls, p) t == "line " \o ToString(i-1) \o ": " lw == {j \in 1..Len(o.wrapped) : o.wrapped[j].par /\ ParOf(o.wrapped, j) = p}
            w == (CHOOSE j \in lw : TRUE) + i - f IN
        IF ~LastLine(o, i) THEN
          ExpectEq(Id, k+1, t \o "as without ellipses", View(o.wrapped[w]), View(ls[i]))
        ELSE
          /\ ExpectEq(Id, k+1, t \o "text", ps[p].to - ls[i].s, ls[i].n)
          /\ LET rl == TLCEval(LogicalRuns(o.ref[p])) IN
             \* (the shaper)
             (\A r \in 1..Len(rl) : Ordered(rl[r])) =>
             LET all == ClustersOf(rl)
                 cs == SelectSeq(all, LAMBDA x : x.from >= ls[i].s) IN
             (cs # <<>> /\ cs[1].from = ls[i].s) => EllipsizedOk(o, i, ls[i], cs, t)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
