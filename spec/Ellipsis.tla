------------------------------ MODULE Ellipsis ------------------------------
(* Lines which are too wide are ellipsized: a gap of whole clusters, around a center the mode names,
   grows span by span until what is left and the ellipsis fit (property P08).
   cl: clusters in the order of the text: [w, b]: width, and if the text may be cut before
   ew[i]: width of the ellipsis of a gap which starts at cluster i *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE WidthOf(_, _, _)
WidthOf(cl, a, z) == IF a > z THEN 0 ELSE cl[a].w + WidthOf(cl, a+1, z)
XAt(cl, i) == WidthOf(cl, 1, i-1)
TotalOf(cl) == WidthOf(cl, 1, Len(cl))
CutBefore(cl, i) == i = 1 \/ cl[i].b
CutAfter(cl, i) == i = Len(cl) \/ cl[i+1].b
\* 1 start, 2 middle, 3 end
CenterOf(cl, mode) == CASE mode = 1 -> 0 [] mode = 2 -> TotalOf(cl) \div 2 [] mode = 3 -> TotalOf(cl)
CenterCluster(cl, mode) ==
  LET S == {i \in 1..Len(cl) : XAt(cl, i+1) > CenterOf(cl, mode)} IN
  IF S = {} THEN Len(cl) ELSE CHOOSE i \in S : \A j \in S : i <= j
RECURSIVE BackTo(_, _)
BackTo(cl, i) == IF CutBefore(cl, i) THEN i ELSE BackTo(cl, i-1)
RECURSIVE OnTo(_, _)
OnTo(cl, i) == IF CutAfter(cl, i) THEN i ELSE OnTo(cl, i+1)
FirstGap(cl, mode) == LET i == CenterCluster(cl, mode) IN <<BackTo(cl, i), OnTo(cl, i)>>
\* the next span on each side: the shortest text with a width, up to where it may be cut (or all of it)
RECURSIVE SpanBackFrom(_, _, _)
SpanBackFrom(cl, i, w) == IF i = 1 THEN 1
  ELSE IF CutBefore(cl, i-1) /\ w + cl[i-1].w # 0 THEN i-1 ELSE SpanBackFrom(cl, i-1, w + cl[i-1].w)
SpanBack(cl, i) == SpanBackFrom(cl, i, 0)
RECURSIVE SpanOnFrom(_, _, _)
SpanOnFrom(cl, i, w) == IF i = Len(cl) THEN i
  ELSE IF CutAfter(cl, i+1) /\ w + cl[i+1].w # 0 THEN i+1 ELSE SpanOnFrom(cl, i+1, w + cl[i+1].w)
SpanOn(cl, i) == SpanOnFrom(cl, i, 0)
\* the gaps which may follow: the side whose new end is nearer to the center; {} when no width is left
Grown(cl, mode, g) ==
  LET a == SpanBack(cl, g[1]) z == SpanOn(cl, g[2])
      da == CenterOf(cl, mode) - XAt(cl, a) dz == XAt(cl, z+1) - CenterOf(cl, mode)
      back == WidthOf(cl, a, g[1]-1) > 0 on == WidthOf(cl, g[2]+1, z) > 0 IN
  (IF back /\ (~on \/ da <= dz) THEN {<<a, g[2]>>} ELSE {}) \cup (IF on /\ (~back \/ dz <= da) THEN {<<g[1], z>>} ELSE {})
Left(cl, ew, g) == TotalOf(cl) - WidthOf(cl, g[1], g[2]) + ew[g[1]]
Stops(cl, mode, ew, goal, g) == Left(cl, ew, g) <= goal \/ Grown(cl, mode, g) = {}
RECURSIVE GapsFrom(_, _, _, _, _)
GapsFrom(cl, mode, ew, goal, g) == IF Stops(cl, mode, ew, goal, g) THEN {g}
  ELSE UNION {GapsFrom(cl, mode, ew, goal, x) : x \in Grown(cl, mode, g)}
Gaps(cl, mode, ew, goal) == GapsFrom(cl, mode, ew, goal, FirstGap(cl, mode))
TooWideLine(cl, goal) == TotalOf(cl) > goal
\* the ellipsis takes the width which is left
Extra(cl, ew, goal, g) == LET x == goal - Left(cl, ew, g) IN IF x > 0 THEN x ELSE 0
=============================================================================
