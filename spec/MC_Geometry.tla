----------------------------- MODULE MC_Geometry -----------------------------
(* A cursor moving in small layouts: one or two lines (of one paragraph, or of two), runs of levels 0 to
   MaxLv in visual order, clusters of one or two characters, graphemes of one or two characters *)
EXTENDS Geometry
CONSTANTS MaxRuns, MaxLv, MaxLen
VARIABLES ls,     \* lines
          cur,    \* cursor positions
          strong, \* the sort of cursor
          right,  \* the way it goes
          pos     \* where it is: [i, t]; i is OFFSTART or OFFEND once it has left
vars == <<ls, cur, strong, right, pos>>

\* runs of a line starting at s: sequences of <<length, level, one cluster?>>
Shapes == UNION {[1..m -> [n : 1..MaxLen, lv : 0..MaxLv, one : BOOLEAN]] : m \in 0..MaxRuns}
RunOf(s, x) ==
  LET k == IF x.one THEN 1 ELSE x.n IN
  [o |-> s, n |-> x.n, lv |-> x.lv,
   lc |-> [j \in 1..k |-> IF x.one THEN 0 ELSE IF Even(x.lv) THEN j-1 ELSE x.n - j],
   w |-> [j \in 1..k |-> 6]]
RECURSIVE RunsFrom(_, _)
RunsFrom(s, xs) == IF xs = <<>> THEN <<>> ELSE <<RunOf(s, Head(xs))>> \o RunsFrom(s + Head(xs).n, Tail(xs))
LineOf(s, d, par, xs) ==
  LET rs == TLCEval(RunsFrom(s, xs))
      ord == VisualOrder(rs)
      n == SumSeq([j \in 1..Len(rs) |-> rs[j].n]) IN
  [s |-> s, n |-> n, dir |-> d, par |-> par,
   runs |-> TLCEval([j \in 1..Len(ord) |-> CHOOSE r \in {rs[m] : m \in 1..Len(rs)} : r.o = ord[j]])]
Ok(d, xs) == \A j \in 1..Len(xs) : xs[j].lv >= d /\ (xs[j].one => xs[j].n > 1)
Layouts ==
  {<<LineOf(0, d, TRUE, xs)>> : <<d, xs>> \in {z \in {0, 1} \X Shapes : Ok(z[1], z[2])}}
  \cup {LET a == LineOf(0, z[1], TRUE, z[2])
            two == z[5] = 1   \* two paragraphs
            b == LineOf(a.n + z[5], z[3], two, z[4]) IN <<a, b>> :
        z \in {y \in {0, 1} \X Shapes \X {0, 1} \X Shapes \X {0, 1} :
               /\ Len(y[2]) <= MaxRuns - 1 /\ Len(y[4]) <= MaxRuns - 1
               /\ Ok(y[1], y[2]) /\ Ok(y[3], y[4])
               /\ y[5] = 0 => y[1] = y[3] /\ y[2] # <<>> /\ y[4] # <<>>}}
LenOf(l) == l[Len(l)].s + l[Len(l)].n
Cx(l, cu, st) == TLCEval([m \in 1..(LenOf(l) + 1) |->
   LET q == LineAt(l, m-1) x == CursorXs(l[q], cu, m-1, LineWidth(l[q])) IN IF st THEN x[1] ELSE x[2]])
Init == /\ ls \in Layouts
        /\ \E m \in 0..LenOf(ls) : \* one place where a grapheme goes on
             /\ m = 0 \/ \A q \in 1..Len(ls) : m # ls[q].s /\ m # ls[q].s + ls[q].n
             /\ cur = [j \in 1..(LenOf(ls)+1) |-> j = 1 \/ j # m + 1]
        /\ strong \in BOOLEAN /\ right \in BOOLEAN
        /\ pos = [i |-> IF right THEN 0 ELSE LenOf(ls), t |-> 0]
Off == pos.i < 0
Move == /\ ~Off
        /\ pos' \in MoveTo(ls, cur, Cx(ls, cur, strong), pos.i, pos.t, right)
        /\ UNCHANGED <<ls, cur, strong, right>>
Gone == Off /\ UNCHANGED vars
Next == Move \/ Gone
Spec == Init /\ [][Next]_vars /\ WF_vars(Move)

\* the walk leaves the text, on its side
Leaves == <>Off
InvSide == Off => pos.i = IF right THEN OFFEND ELSE OFFSTART
\* it is at cursor positions, of the line where it is shown
InvPlace == ~Off => /\ cur[pos.i + 1] /\ cur[pos.i + pos.t + 1]
                    /\ LET q == LineAt(ls, pos.i) IN pos.i + pos.t <= ls[q].s + ls[q].n
\* when every run has the direction of its line, moves are inverse of each other (but the start of a line and
\* the end of the line before, one place of the text, count once)
Straight == \A q \in 1..Len(ls) : \A j \in 1..Len(ls[q].runs) : ls[q].runs[j].lv % 2 = ls[q].dir
Idx(p) == IF p.i < 0 THEN p.i ELSE p.i + p.t
InvBack == (Straight /\ ~Off) =>
  \A p \in MoveTo(ls, cur, Cx(ls, cur, strong), pos.i, pos.t, right) :
    p.i < 0 \/ \A b \in MoveTo(ls, cur, Cx(ls, cur, strong), p.i, p.t, ~right) :
      Idx(b) = Idx(pos)
      \* lines right to left of one paragraph: the two ends of a line are places of two lines
      \/ \E q \in 1..(Len(ls) - 1) : ls[q].dir = 1 /\ ls[q+1].s = ls[q].s + ls[q].n
\* the edges of the characters: in the line, and increasing along its visual order in one run
InvEdges == \A q \in 1..Len(ls) : LET l == ls[q] w == LineWidth(l) IN
  \A i \in l.s..(l.s + l.n - 1) :
    /\ IndexX(l, cur, i, FALSE) \in 0..w /\ IndexX(l, cur, i, TRUE) \in 0..w
    /\ LET r == l.runs[RunAt(l, i)] IN
       (i + 1 < r.o + r.n /\ cur[r.o + 1] /\ (r.o + r.n = l.s + l.n \/ cur[r.o + r.n + 1])) =>
         LET x == IndexX(l, cur, i, FALSE) y == IndexX(l, cur, i+1, FALSE) z == IndexX(l, cur, i, TRUE) IN
         /\ IF Even(r.lv) THEN x <= y ELSE x >= y
         /\ cur[i+2] => z = y     \* the trailing edge is the leading one of the next
\* the ranges of a selection of whole graphemes add up to the widths of its graphemes
Width(l, a, b) == SumSeq([m \in 1..(b - a) |->
   LET i == a + m - 1 d == IndexX(l, cur, i, TRUE) - IndexX(l, cur, i, FALSE) IN IF ~cur[i+1] THEN 0 ELSE IF d < 0 THEN -d ELSE d])
PlainCfg == [width |-> -1]
InvRanges == \A q \in 1..Len(ls) : LET l == ls[q]
    \* no grapheme in two runs
    whole == \A j \in 1..Len(l.runs) : cur[l.runs[j].o + 1] IN
  whole => \A a \in l.s..(l.s + l.n), b \in l.s..(l.s + l.n) :
    (a <= b /\ cur[a+1] /\ cur[b+1]) =>
      LET rg == RangesOf(PlainCfg, l, cur, 0, LineWidth(l), a, b) IN
      /\ SumSeq([m \in 1..(Len(rg) \div 2) |-> rg[2*m] - rg[2*m-1]]) = Width(l, a, b)
      /\ \A m \in 1..(Len(rg) - 1) : rg[m] <= rg[m+1]
\* the strong and the weak cursors are the same but where directions meet
InvCursors == \A q \in 1..Len(ls) : LET l == ls[q] IN Straight => \A i \in l.s..(l.s + l.n) :
   LET x == CursorXs(l, cur, i, LineWidth(l)) IN (LineAt(ls, i) = q /\ cur[i+1]) => x[1] = x[2]
==============================================================================
