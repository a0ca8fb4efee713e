----------------------------- MODULE Trace_P06 -----------------------------
(* in: the settings of a layout, ranges to ask.
   obs: its lines with the glyphs as their font has them, and every position, extent, range and
   move that can be asked *)
EXTENDS TraceBase, Geometry
Init == CaseInit
Id == Cases[c].id
Cfg == In.cfg
TLen == Len(Cfg.text)
\* rises and shifts of the baseline
ShiftAttrs == {i \in 1..Len(Cfg.attrs) : Cfg.attrs[i].kind = "rise_shift"}
Overlap(a, b) == a.start < b.end /\ b.start < a.end
\* shifts are known when they are in one line, and alone
ShiftsKnown(ls) == \A i \in ShiftAttrs : LET a == Cfg.attrs[i] IN
  /\ a.v > 1024 \/ a.v < -1024
  /\ \E q \in 1..Len(ls) : ls[q].s <= a.start /\ a.end <= ls[q].s + ls[q].n
  /\ \A j \in ShiftAttrs : i = j \/ ~Overlap(a, Cfg.attrs[j])
ShiftOf(run) ==
  LET S == {i \in ShiftAttrs : Cfg.attrs[i].start <= run.o /\ run.o < Cfg.attrs[i].end} IN
  Val(run, "rise") + IF S = {} THEN 0 ELSE Cfg.attrs[CHOOSE i \in S : TRUE].v
Simple(run) == \A i, j \in 1..Len(run.extra) : i # j => run.extra[i][1] # run.extra[j][1] \/ run.extra[i][1] = "features"
Lw(ls, i) == ls[i].log[3]

\* the lines one by one: extents of their glyphs
Judged(ls) == ShiftsKnown(ls) /\ \A i \in 1..Len(ls) : \A j \in 1..Len(ls[i].runs) : ls[i].runs[j].font.known /\ Simple(ls[i].runs[j]) /\ ~ls[i].runs[j].ell
(* A line without characters is as high as the font at its place, or as the line height asked for there.
   The sizes of the fonts of the harness do not depend on the family. *)
BaseDesc == LET c0 == DescOf([d |-> Cfg.cdesc]) IN IF Cfg.hasdesc THEN Merge(c0, DescOf([d |-> Cfg.desc]), TRUE) ELSE c0
Half(n) == IF n < 0 THEN -((-n) \div 2) ELSE n \div 2
EmptyBox(at) ==
  LET as == Covering(Cfg.attrs, at)
      sz == Cfg.scale * FontFor(BaseDesc, as).size
      asc == (768 * sz) \div 1024
      h == asc + (256 * sz) \div 1024
      lh == Max2(IntFor(as, "abslineheight", 0), (IntFor(as, "lineheight", 0) * h) \div 100) IN
  IF lh = 0 THEN <<0, -asc, 0, h>> ELSE <<0, -asc - Half(lh - h), 0, lh>>
Near1(a, b) == a - b \in -1..1
LinesOk(ls, bs) ==
  \A i \in 1..Len(ls) :
    LET w(x) == "line " \o ToString(i-1) \o ": " \o x IN
    IF ls[i].runs = <<>>
    THEN LET eb == EmptyBox(ls[i].s) IN
      /\ Expect(\A n \in 1..4 : Near1(eb[n], ls[i].log[n]), Id, k+1, w("logical, empty"), eb, ls[i].log)
      /\ ExpectEq(Id, k+1, w("ink, empty"), Zero4, ls[i].ink)
    ELSE LET b == TLCEval(LineBoxes(ls[i], bs[i])) IN
      /\ ExpectEq(Id, k+1, w("logical"), b[1], ls[i].log)
      /\ Expect((Hollow(b[2]) /\ Hollow(ls[i].ink)) \/ b[2] = ls[i].ink, Id, k+1, w("ink"), b[2], ls[i].ink)
      /\ ExpectEq(Id, k+1, w("height"), LineHeight(ls[i]), ls[i].h)

\* lines in the layout
Widths(ls) == [i \in 1..Len(ls) |-> Lw(ls, i)]
Step(o) ==
  LET ls == o.lines
      W == AlignWidth(Cfg, ls, Widths(ls))
      xo == TLCEval([i \in 1..Len(ls) |-> LineX(Cfg, ls[i], W, Lw(ls, i))])
      bl == TLCEval(Baselines(Cfg, [i \in 1..Len(ls) |-> <<ls[i].log[2], ls[i].log[4]>>], [i \in 1..Len(ls) |-> ls[i].h], 1, 0, 0))
      lg == TLCEval([i \in 1..Len(ls) |-> Moved(ls[i].log, xo[i], bl[i])])
      ik == TLCEval([i \in 1..Len(ls) |-> Moved(ls[i].ink, xo[i], bl[i])])
      judged == Judged(ls)
      bs == IF judged THEN TLCEval([i \in 1..Len(ls) |-> [j \in 1..Len(ls[i].runs) |-> TLCEval(RunBoxes(ls[i].runs[j], ShiftOf(ls[i].runs[j])))]]) ELSE <<>>
      ordered == TLCEval([i \in 1..Len(ls) |-> \A j \in 1..Len(ls[i].runs) : Ordered(ls[i].runs[j])])
      cur == o.cur
      whole == Len(cur) = TLen + 1 /\ (Cfg.height < 0 \/ Cfg.ell = 0)
      last == ls[Len(ls)]
      shown == last.s + last.n = TLen
      \* x of the left of the run j of line i
      RunX(i, j) == lg[i][1] + LeftOf(ls[i].runs, j)
      at(i, off) == CHOOSE j \in 1..Len(ls[i].runs) : ls[i].runs[j].o = off
      Loc(i) == LineAt(ls, i)
  IN
  /\ judged => LinesOk(ls, bs)
  (* lines *)
  /\ \A i \in 1..Len(o.it.lines) : LET x == o.it.lines[i] w(t) == "line " \o ToString(i-1) \o " in the layout: " \o t IN
     /\ ExpectEq(Id, k+1, w("logical"), lg[i], SubSeq(x, 2, 5))
     /\ ExpectEq(Id, k+1, w("ink"), ik[i], SubSeq(x, 6, 9))
     /\ ExpectEq(Id, k+1, w("baseline"), bl[i], x[10])
  (* the layout *)
  /\ LET all(f) == FoldLeft(LAMBDA a, b : IF a = <<>> THEN b ELSE Union(a, b), <<>>, f)
         lh == lg[Len(ls)][2] + lg[Len(ls)][4]
         u == TLCEval(all([i \in 1..Len(ls) |-> lg[i]]))
         log == IF Cfg.width = -1 THEN <<0, 0, MaxOr({Lw(ls, i) : i \in 1..Len(ls)} \cup {0}, 0), lh>> ELSE <<u[1], 0, u[3], lh>> IN
     /\ ExpectEq(Id, k+1, "logical extents", log, o.size.log)
     /\ ExpectEq(Id, k+1, "ink extents", all(ik), o.size.ink)
     /\ ExpectEq(Id, k+1, "size", <<log[3], log[4]>>, o.size.size)
     /\ ExpectEq(Id, k+1, "baseline", bl[1], o.size.baseline)
  (* runs *)
  /\ \A m \in 1..Len(o.it.runs) :
     LET x == o.it.runs[m] i == x[1] + 1 off == x[2] w(t) == "run at " \o ToString(off) \o " of line " \o ToString(i-1) \o ": " \o t IN
     IF off = -1
     THEN /\ ExpectEq(Id, k+1, w("x, width"), <<lg[i][1] + LineWidth(ls[i]), 0>>, <<x[4], x[6]>>)
          /\ (ls[i].runs = <<>> /\ Cfg.attrs = <<>>) => ExpectEq(Id, k+1, w("y, height"), <<lg[i][2], lg[i][4]>>, <<x[5], x[7]>>)
          /\ (ls[i].runs # <<>> /\ judged) => LET b == Last(bs[i])[1] IN ExpectEq(Id, k+1, w("y, height"), <<bl[i] + b[2], b[4]>>, <<x[5], x[7]>>)
     ELSE LET j == at(i, off) IN
          /\ Has(ls[i].runs[j], "shape") \/ ExpectEq(Id, k+1, w("x, width"), <<RunX(i, j), RunW(ls[i].runs[j])>>, <<x[4], x[6]>>)
          /\ judged => LET b == bs[i][j] ink == Moved(b[2], RunX(i, j), bl[i]) IN
             /\ ExpectEq(Id, k+1, w("y, height"), <<bl[i] + b[1][2], b[1][4]>>, <<x[5], x[7]>>)
             /\ Expect((Hollow(ink) /\ (x[10] = 0 \/ x[11] = 0)) \/ ink = SubSeq(x, 8, 11), Id, k+1, w("ink"), ink, SubSeq(x, 8, 11))
  (* clusters and characters *)
  /\ (\A i \in 1..Len(ls) : ordered[i]) =>
     /\ LET e == Flat([i \in 1..Len(ls) |-> Flat([j \in 1..Len(ls[i].runs) |->
                 LET r == ls[i].runs[j] cs == VisualClusters(r) IN
                 [q \in 1..Len(cs) |-> [x |-> RunX(i, j) + SumSeq(SubSeq(r.w, 1, cs[q].g0 - 1)), w |-> cs[q].w,
                   y |-> IF ~judged \/ r.ctr \/ Has(r, "shape") THEN <<>>
                         ELSE LET b == GlyphsBox(r, cs[q].g0, cs[q].g1, 0, <<>>) IN <<bl[i] + b[1][2] - ShiftOf(r), b[1][4]>>]]])])
            g == SelectSeq(o.it.clusters, LAMBDA z : ls[z[1] + 1].runs # <<>>) IN
        /\ ExpectEq(Id, k+1, "clusters: x, width", [q \in 1..Len(e) |-> <<e[q].x, e[q].w>>], [q \in 1..Len(g) |-> <<g[q][3], g[q][5]>>])
        /\ judged => ExpectEq(Id, k+1, "clusters: y, height", [q \in 1..Len(e) |-> e[q].y], [q \in 1..Len(g) |-> IF e[q].y = <<>> THEN <<>> ELSE <<g[q][4], g[q][6]>>])
     /\ LET e == Flat([i \in 1..Len(ls) |-> Flat([j \in 1..Len(ls[i].runs) |->
                 LET r == ls[i].runs[j] cs == VisualClusters(r) IN
                 Flat([q \in 1..Len(cs) |-> LET x == RunX(i, j) + SumSeq(SubSeq(r.w, 1, cs[q].g0 - 1)) n == cs[q].to - cs[q].from IN
                    [m \in 1..n |-> <<x + TruncDiv((m-1) * cs[q].w, n), TruncDiv(m * cs[q].w, n) - TruncDiv((m-1) * cs[q].w, n)>>]])])])
            g == SelectSeq(o.it.chars, LAMBDA z : z[2] < ls[z[1]+1].s + ls[z[1]+1].n /\ z[2] # -1 /\ ls[z[1]+1].runs # <<>>) IN
        Len(e) = Len(g) => ExpectEq(Id, k+1, "characters: x, width", e, [q \in 1..Len(g) |-> <<g[q][3], g[q][5]>>])
  (* indexes *)
  /\ \A i \in 1..Len(ls) : ordered[i] =>
     LET l == ls[i] IN
     ExpectEq(Id, k+1, "x of the indexes of line " \o ToString(i-1),
        [m \in 1..(l.n + 1) |-> <<IndexX(l, cur, l.s + m - 1, FALSE), IndexX(l, cur, l.s + m - 1, TRUE)>>], o.pos.xs[i])
  /\ \A i \in 0..TLen :
     LET q == Loc(i) l == ls[q] e == l.s + l.n w(t) == "index " \o ToString(i) \o ": " \o t
         p == o.pos.pos[i+1] IN
     /\ (ordered[q] /\ i < e) => LET x0 == IndexX(l, cur, i, FALSE) IN
        ExpectEq(Id, k+1, w("x, width"), <<lg[q][1] + x0, IndexX(l, cur, i, TRUE) - x0>>, <<p[1], p[3]>>)
     /\ (i = e /\ l.dir = 0) => ExpectEq(Id, k+1, w("x, width at the end"), <<lg[q][1] + LineWidth(l), 0>>, <<p[1], p[3]>>)
     /\ (judged /\ i < e) => LET b == bs[q][RunAt(l, i)][1] IN ExpectEq(Id, k+1, w("y, height"), <<bl[q] + b[2], b[4]>>, <<p[2], p[4]>>)
     /\ (i < e) => ExpectEq(Id, k+1, w("direction"), LevelAt(l, i) % 2, o.pos.dirs[i+1])
     /\ ordered[q] => LET xs == CursorXs(l, cur, i, Lw(ls, q)) s == o.pos.strong[i+1] v == o.pos.weak[i+1] IN
        /\ ExpectEq(Id, k+1, w("cursors"), <<lg[q][1] + xs[1], 0, lg[q][1] + xs[2], 0>>, <<s[1], s[3], v[1], v[3]>>)
        /\ (judged /\ i < e) => LET b == bs[q][RunAt(l, i)][1] IN ExpectEq(Id, k+1, w("cursors: y, height"), <<bl[q] + b[2], b[4], bl[q] + b[2], b[4]>>, <<s[2], s[4], v[2], v[4]>>)
  (* ranges *)
  /\ \A m \in 1..Len(o.ranges) :
     LET r == o.ranges[m] q == r[1] + 1 IN
     ordered[q] => ExpectEq(Id, k+1, "ranges of line " \o ToString(r[1]) \o " for " \o ToString(<<r[2], r[3]>>),
        RangesOf(Cfg, ls[q], cur, xo[q], Lw(ls, q), r[2], r[3]), SubSeq(r, 4, Len(r)))
  (* moves *)
  \* lines which start inside a grapheme are not judged
  /\ (whole /\ shown /\ \A i \in 1..Len(ls) : ordered[i] /\ cur[ls[i].s + 1]) =>
     LET xsOf(z) == [i \in 1..(TLen+1) |-> z[i][1]]
         xst == TLCEval(xsOf(o.pos.strong)) xwk == TLCEval(xsOf(o.pos.weak)) IN
     \A m \in 1..Len(o.moves) :
       LET v == o.moves[m]
           q == Loc(v[2])
           e == ls[q].s + ls[q].n
           old == Min2(v[2] + v[3], e) IN
       (cur[old+1] /\ ~(v[2] = TLen /\ v[3] # 0)) =>
         LET S == MoveTo(ls, cur, IF v[1] = 1 THEN xst ELSE xwk, v[2], v[3], v[4] > 0) IN
         Expect([i |-> v[5], t |-> v[6]] \in S, Id, k+1, "move from " \o ToString(SubSeq(v, 1, 4)), S, <<v[5], v[6]>>)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
