------------------------------ MODULE Geometry ------------------------------
(* Where things are (property P06): extents of runs, lines and layouts, positions of the
   characters and of the cursors, visual ranges of selections, moves of a cursor.
   A line is as in Layout.tla, with x: its offset in the layout, y: its baseline. *)
EXTENDS Layout, Bitwise

TruncDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
Min2(a, b) == IF a < b THEN a ELSE b
MaxOr(S, d) == IF S = {} THEN d ELSE MaxOf(S)
\* to a multiple of 1024, as pango rounds
RoundUnit(x) == ((x + 512) \div 1024) * 1024

(* Rectangles are <<x, y, w, h>>.  An empty one adds nothing to an ink; logical ones always count *)
Union(a, b) == LET x == Min2(a[1], b[1]) y == Min2(a[2], b[2]) IN
  <<x, y, Max2(a[1] + a[3], b[1] + b[3]) - x, Max2(a[2] + a[4], b[2] + b[4]) - y>>
Hollow(a) == a[3] = 0 \/ a[4] = 0
InkUnion(a, b) == IF Hollow(a) THEN b ELSE IF Hollow(b) THEN a ELSE Union(a, b)
Moved(a, dx, dy) == <<a[1] + dx, a[2] + dy, a[3], a[4]>>
Zero4 == <<0, 0, 0, 0>>

(* Offset of a line: L.align, indent of the settings; W is the width it is aligned in *)
LEFT == 0  CENTER == 1  RIGHT == 2
\* the direction of the context is left to right: lines right to left are aligned the other way
AlignOf(cfg, line) == IF cfg.align = CENTER \/ ~cfg.auto \/ line.dir = 0 THEN cfg.align ELSE IF cfg.align = LEFT THEN RIGHT ELSE LEFT
AlignWidth(cfg, ls, lws) == IF cfg.width # -1 \/ \A i \in 1..Len(ls) : AlignOf(cfg, ls[i]) = LEFT THEN cfg.width
  ELSE MaxOr({lws[i] : i \in 1..Len(lws)} \cup {0}, 0)
LineX(cfg, line, W, lw) ==
  LET al == AlignOf(cfg, line)
      d == W - lw
      ax == IF W = 0 \/ al = LEFT THEN 0 ELSE IF al = RIGHT THEN d
            ELSE LET h == TruncDiv(d, 2) IN IF W % 1024 = 0 /\ lw % 1024 = 0 THEN RoundUnit(h) ELSE h
      ind == IF al = CENTER THEN 0 ELSE IF line.par THEN Max2(cfg.indent, 0) ELSE Max2(-cfg.indent, 0)
  IN IF al = LEFT THEN ax + ind ELSE ax - ind

(* Vertical places: lg[i] is the logical <<y, h>> of line i around its baseline, hs[i] its height
   as the line spacing counts it *)
RECURSIVE Baselines(_, _, _, _, _, _)
Baselines(cfg, lg, hs, i, prev, top) ==
  IF i > Len(lg) THEN <<>>
  ELSE LET b == IF i = 1 \/ cfg.linesp = 0 THEN top - lg[i][1] ELSE prev + TruncDiv(cfg.linesp * hs[i], 100)
           next == b + lg[i][1] + lg[i][2] + cfg.spacing
       IN <<b>> \o Baselines(cfg, lg, hs, i+1, b, next)

(* Extents of a run around the baseline: gl, gi are the logical <<y, h>> and the ink of its glyphs,
   m the metrics <<height, underline position, thickness, strikethrough position, thickness>> *)
Has(run, kind) == \E i \in 1..Len(run.extra) : run.extra[i][1] = kind
Val(run, kind) == IF Has(run, kind) THEN run.extra[MaxOf({i \in 1..Len(run.extra) : run.extra[i][1] = kind})][2] ELSE 0
RECURSIVE GlyphsBox(_, _, _, _, _)
\* <<logical, ink>> of the glyphs a..b
GlyphsBox(run, a, b, x, acc) ==
  IF a > b THEN acc
  ELSE LET lg == <<0, run.font.gl[a][1], 0, run.font.gl[a][2]>>
           ik == Moved(run.font.gi[a], x + run.xo[a], run.yo[a])
           l1 == IF acc = <<>> THEN <<0, lg[2], run.w[a], lg[4]>> ELSE LET u == Union(acc[1], lg) IN <<0, u[2], acc[1][3] + run.w[a], u[4]>>
           i1 == IF acc = <<>> THEN (IF Hollow(ik) THEN Zero4 ELSE ik) ELSE InkUnion(acc[2], IF Hollow(ik) THEN Zero4 ELSE ik)
       IN GlyphsBox(run, a+1, b, x + run.w[a], <<l1, i1>>)
Box(run) ==
  IF Has(run, "shape") THEN LET v == Val(run, "shape") IN <<<<0, -v, 10*v*run.n, 2*v>>, <<0, 0, v + 10*v*(run.n - 1), 0>>>>
  ELSE GlyphsBox(run, 1, Len(run.w), 0, <<>>)
Decorated(run) == Val(run, "underline") # 0 \/ Val(run, "overline") = 1 \/ Val(run, "strike") = 1
Decorate(run, lg, ik) ==
  LET th == run.font.m[3] pos == run.font.m[2] ul == Val(run, "underline")
      x == Min2(ik[1], lg[1])
      r0 == <<x, ik[2], Max2(ik[1] + ik[3], lg[1] + lg[3]) - x, ik[4]>>
      r1 == IF Val(run, "strike") = 1 /\ r0[4] = 0 THEN <<r0[1], -run.font.m[4], r0[3], run.font.m[5]>> ELSE r0
      r2 == IF Val(run, "overline") = 1 THEN <<r1[1], r1[2] - th, r1[3], r1[4] + th>> ELSE r1
      h == r2[4]
      h2 == CASE ul = 3 -> h + 2*th
             [] ul \in {1, 5} -> Max2(h, th - pos - r2[2])
             [] ul \in {2, 6, 4, 7} -> Max2(h, 3*th - pos - r2[2])
             [] OTHER -> h
  IN <<r2[1], r2[2], r2[3], h2>>
\* shift: of the baseline of the run
Centering(run, lg) == IF ~run.ctr THEN 0
  ELSE LET a == lg[2] + lg[4] \div 2 IN IF ((lg[2] % 1024) & (lg[4] % 1024)) = 0 THEN RoundUnit(a) ELSE a
RunBoxes(run, shift) ==
  LET bx == TLCEval(Box(run))
      up == shift + Centering(run, bx[1]) IN
  <<Moved(bx[1], 0, -up), Moved(IF Decorated(run) THEN Decorate(run, bx[1], bx[2]) ELSE bx[2], 0, -up)>>
\* the logical rectangle of the run in its line
InLine(run, lg) ==
  IF ~Has(run, "lineheight") /\ ~Has(run, "abslineheight") THEN lg
  ELSE LET lh == Max2(Val(run, "abslineheight"), (Val(run, "lineheight") * lg[4] + 99) \div 100)
           lead == IF lh = 0 THEN 0 ELSE lh - lg[4] IN
       <<lg[1], lg[2] - TruncDiv(lead, 2), lg[3], lg[4] + lead>>
RECURSIVE LineBoxesFrom(_, _, _, _, _, _)
LineBoxesFrom(line, bs, j, x, lg, ik) ==
  IF j > Len(line.runs) THEN <<lg, ik>>
  ELSE LET l == InLine(line.runs[j], bs[j][1]) IN
       LineBoxesFrom(line, bs, j+1, x + l[3], Union(lg, Moved(l, x, 0)), InkUnion(ik, Moved(bs[j][2], x, 0)))
LineBoxes(line, bs) == LineBoxesFrom(line, bs, 1, 0, Zero4, Zero4)
LineHeight(line) == MaxOr({line.runs[j].font.m[1] : j \in 1..Len(line.runs)}, 0)

(* The edges of a character in its run, from the left of the run.  cur[i+1]: the cursor may be in
   front of the character i *)
ClusterOf(run, j) ==
  LET S == {run.lc[m] : m \in 1..Len(run.lc)}
      from == MaxOf({x \in S : x <= j})
      after == {x \in S : x > j}
      to == IF after = {} THEN run.n ELSE MinOf(after)
      W(T) == SumSeq(TLCEval([m \in 1..Len(run.w) |-> IF run.lc[m] \in T THEN run.w[m] ELSE 0]))
      before == W({x \in S : x < from})  w == W({from})  rest == W(after)
  IN [from |-> from, to |-> to,
      x0 |-> IF Even(run.lv) THEN before ELSE rest + w,   \* the leading edge
      x1 |-> IF Even(run.lv) THEN before + w ELSE rest]   \* the trailing edge
InRunX(run, cur, i, trailing) ==
  LET j == i - run.o
      cl == TLCEval(ClusterOf(run, j))
      P == {m \in cl.from..(cl.to - 1) : cur[run.o + m + 1]}
      N == Cardinality(P)
      a == Cardinality({m \in P : m < j \/ (trailing /\ m = j)})
  IN IF N = 0 THEN (IF trailing THEN cl.x1 ELSE cl.x0)
     ELSE TruncDiv((N - a) * cl.x0 + a * cl.x1, N)
RunW(run) == SumSeq(run.w)
RECURSIVE LeftOf(_, _)
LeftOf(runs, j) == IF j = 1 THEN 0 ELSE LeftOf(runs, j-1) + RunW(runs[j-1])
LineWidth(line) == LeftOf(line.runs, Len(line.runs) + 1)
\* the edges are those of the grapheme of the character
GrStart(line, cur, i) == MaxOf({j \in line.s..i : j = line.s \/ cur[j+1]})
GrLast(line, cur, i) == MinOf({j \in i..(line.s + line.n - 1) : j = line.s + line.n - 1 \/ cur[j+2]})
RunAt(line, i) == CHOOSE j \in 1..Len(line.runs) : line.runs[j].o <= i /\ i < line.runs[j].o + line.runs[j].n
IndexX(line, cur, i, trailing) ==
  IF i >= line.s + line.n THEN LineWidth(line)
  ELSE LET e == IF trailing THEN GrLast(line, cur, i) ELSE GrStart(line, cur, i)
           j == RunAt(line, e) IN
       LeftOf(line.runs, j) + InRunX(line.runs[j], cur, e, trailing)

(* The line of an index: separators are of the line before *)
LineAt(ls, i) == MaxOf({1} \cup {j \in 1..Len(ls) : ls[j].s <= i})
LevelAt(line, i) == IF \E j \in 1..Len(line.runs) : line.runs[j].o <= i /\ i < line.runs[j].o + line.runs[j].n THEN line.runs[RunAt(line, i)].lv ELSE 0

(* Cursors: <<strong, weak>> x in the line.  Between two characters of different directions, the
   strong one is where text of the direction of the line goes *)
CursorXs(line, cur, i0, lw) ==
  LET e == line.s + line.n
      i == i0   \* it may be in the separators after the line
      lv1 == IF i = line.s THEN line.dir ELSE LevelAt(line, i-1)
      d1 == lv1 % 2
      x1 == IF i = line.s THEN (IF line.dir = 0 THEN 0 ELSE lw) ELSE IndexX(line, cur, i-1, TRUE)
      lv2 == IF i >= e THEN line.dir ELSE LevelAt(line, i)
      d2 == lv2 % 2
      x2 == IF i >= e THEN (IF line.dir = 0 THEN lw ELSE 0) ELSE IndexX(line, cur, i, FALSE)
      before == d1 = line.dir /\ (d2 # d1 \/ lv1 < lv2)
  IN IF before THEN <<x1, x2>> ELSE <<x2, x1>>

(* The visual ranges of a selection, in the layout *)
RangesOf(cfg, line, cur, x, lw, a, b) ==
  LET e == line.s + line.n
      n == Len(line.runs)
      lead == x > 0 /\ ((line.dir = 0 /\ a < line.s) \/ (line.dir = 1 /\ b > e))
      tail == x + lw < cfg.width /\ ((line.dir = 0 /\ b > e) \/ (line.dir = 1 /\ a < line.s))
      rg(j) == LET r == line.runs[j] IN
        IF a < r.o + r.n /\ b > r.o
        THEN LET f == Max2(a, r.o) t == Min2(b, r.o + r.n) - 1
                 p == LeftOf(line.runs, j)
                 u == InRunX(r, cur, f, FALSE) v == InRunX(r, cur, t, TRUE) IN
             <<x + p + Min2(u, v), x + p + Max2(u, v)>>
        ELSE <<>>
  IN (IF lead THEN <<0, x>> ELSE <<>>) \o Flat([j \in 1..n |-> rg(j)]) \o (IF tail THEN <<x + lw, cfg.width>> ELSE <<>>)

(* Moves of a cursor.  xs[i+1]: the x of the cursor at index i, in the layout.
   The places of a line: its cursor positions, with its end when the end is not on the next line *)
Ends(ls, i) == i = Len(ls) \/ ls[i+1].s > ls[i].s + ls[i].n
Places(ls, cur, i) == {j \in ls[i].s..(ls[i].s + ls[i].n) : cur[j+1] /\ (j < ls[i].s + ls[i].n \/ Ends(ls, i))}
OFFSTART == -1  OFFEND == -2
\* where the cursor may go: a set of places [i: index, t: trailing], as the place may be shared by several
\* characters without width.  A place at the end of a line is written as the trailing edge of its last grapheme
AsPlace(line, cur, j) ==
  IF j = line.s + line.n /\ line.n > 0 THEN LET p == MaxOf({m \in line.s..(j-1) : m = line.s \/ cur[m+1]}) IN [i |-> p, t |-> j - p]
  ELSE [i |-> j, t |-> 0]
Nearest(xs, P, x, right) ==
  LET F == {j \in P : IF right THEN xs[j+1] > x ELSE xs[j+1] < x} IN
  IF F = {} THEN {} ELSE LET m == IF right THEN MinOf({xs[j+1] : j \in F}) ELSE MaxOf({xs[j+1] : j \in F}) IN {j \in F : xs[j+1] = m}
MoveTo(ls, cur, xs, i, trailing, right) ==
  LET q == LineAt(ls, i)
      line == ls[q]
      e == line.s + line.n
      old == Min2(i + trailing, e)
      P == Places(ls, cur, q)
      off == (old = (IF line.dir = 0 THEN e ELSE line.s) /\ right) \/ (old = (IF line.dir = 0 THEN line.s ELSE e) /\ ~right)
      as(l, S) == {AsPlace(l, cur, j) : j \in S}
  IN IF off
     THEN IF right
          THEN IF q = Len(ls) THEN {[i |-> OFFEND, t |-> 0]}
               ELSE LET l2 == ls[q+1] P2 == Places(ls, cur, q+1)
                        m == MinOf({xs[j+1] : j \in P2})
                        first == {j \in P2 : xs[j+1] = m} IN
                    \* the start of the next line is the same place, in the same paragraph
                    IF l2.s # old THEN as(l2, first)
                    ELSE IF Cardinality(P2) = 1 THEN {AsPlace(l2, cur, l2.s + l2.n)}
                    ELSE IF Cardinality(first) > 1 THEN as(l2, first)
                    ELSE as(l2, Nearest(xs, P2, m, TRUE))
          ELSE IF q = 1 THEN {[i |-> OFFSTART, t |-> 0]}
               ELSE LET l2 == ls[q-1] P2 == Places(ls, cur, q-1) IN
                    IF l2.s + l2.n # old THEN as(l2, {IF l2.dir = 0 THEN l2.s + l2.n ELSE l2.s})
                    ELSE as(l2, {j \in P2 : xs[j+1] = MaxOf({xs[m+1] : m \in P2})})
     ELSE IF old = e /\ ~Ends(ls, q)  \* at the end of a line which goes on
          THEN LET m == IF right THEN MinOf({xs[j+1] : j \in P}) ELSE MaxOf({xs[j+1] : j \in P}) IN as(line, {j \in P : xs[j+1] = m})
     ELSE LET S == Nearest(xs, P, xs[old+1], right) IN
          IF S # {} THEN as(line, S) ELSE {AsPlace(line, cur, IF right = (line.dir = 0) THEN e ELSE line.s)}
=============================================================================
