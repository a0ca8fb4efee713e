-------------------------------- MODULE Tabs --------------------------------
(* Tab stops.  The settings S of a layout:
     set   whether tab stops were given (default ones, every 8 spaces, otherwise)
     px    whether their positions are in pixels
     tabs  <<position, alignment, decimal point>>, by increasing positions
     tw    the width of 8 spaces (50 pixels if they have none)
     off   where the line starts, because of the indent
   The runs of a line, in the order of the text: [tab, rs (characters), ws (their widths), w].
   Alignments: 0 left, 1 right, 2 center, 3 decimal *)
EXTENDS Integers, Sequences, FiniteSets
PxScale == 1024
TabWidth(spaces) == IF spaces > 0 THEN spaces ELSE 50 * PxScale
Max0(x) == IF x < 0 THEN 0 ELSE x
Ceil(a, b) == -((-a) \div b)
MinSet(s) == CHOOSE x \in s : \A y \in s : x <= y
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
Dot == 46
At(S, x) == IF S.px THEN x * PxScale ELSE x
Dec(t) == IF t[3] = 0 THEN Dot ELSE t[3]
\* the stop of number k (from 0): the given ones, and then the last gap (or the default one) again and again
Stop(S, k) ==
  LET n == Len(S.tabs) IN
  IF n = 0 THEN [loc |-> S.tw * k - S.off, al |-> 0, dec |-> Dot]
  ELSE LET t == S.tabs[IF k < n THEN k + 1 ELSE n]
           prev == IF n > 1 THEN At(S, S.tabs[n-1][1]) ELSE 0
           gap == IF At(S, S.tabs[n][1]) > prev THEN At(S, S.tabs[n][1]) - prev ELSE S.tw IN
       [loc |-> At(S, t[1]) + (IF k < n THEN 0 ELSE gap * (k - n + 1)) - S.off, al |-> t[2], dec |-> Dec(t)]
\* default stops leave at least a space before them, given ones are taken as they are
Room(S) == IF S.set THEN 1 ELSE S.tw \div 8
\* the first stop after cur
Next0(S, cur) ==
  LET n == Len(S.tabs)  need == cur + Room(S)
      given == {k \in 0..n-1 : Stop(S, k).loc >= need} IN
  IF given # {} THEN Stop(S, MinSet(given))
  ELSE LET base == IF n = 0 THEN Stop(S, 0).loc ELSE Stop(S, n-1).loc
           gap == IF n = 0 THEN S.tw ELSE Stop(S, n).loc - base
           m == Max0(Ceil(need - base, gap)) IN
       IF n = 0 THEN Stop(S, m) ELSE Stop(S, n - 1 + m)

Before(runs, i) == SumS([j \in 1..i-1 |-> runs[j].w])
\* the last run of the text after the tab i
After(runs, i) == LET q == {j \in i+1..Len(runs) : runs[j].tab} IN IF q = {} THEN Len(runs) ELSE MinSet(q) - 1
\* all the characters of the runs from i to j
RECURSIVE CharsOf(_, _, _)
CharsOf(runs, i, j) == IF i > j THEN <<>> ELSE [n \in 1..Len(runs[i].rs) |-> <<runs[i].rs[n], runs[i].ws[n]>>] \o CharsOf(runs, i+1, j)
\* the width left of the decimal point, and half of it
Prefix(chs, dec) ==
  LET q == {n \in 1..Len(chs) : chs[n][1] = dec}
      p == IF q = {} THEN Len(chs) + 1 ELSE MinSet(q) IN
  SumS([n \in 1..p-1 |-> chs[n][2]]) + (IF q = {} THEN 0 ELSE chs[p][2] \div 2)
(* The widths the tab i may have: the text after it starts at the stop (left), ends there (right),
   has its middle (center) or its decimal point there, unless it needs more room than there is: the
   tab has then no width.  Halves are rounded for each run. *)
TabWidths(S, runs, i) ==
  LET cur == Before(runs, i)
      st == Next0(S, cur)
      last == After(runs, i)
      chs == CharsOf(runs, i+1, last)
      w == SumS([n \in 1..Len(chs) |-> chs[n][2]])
      room == st.loc - cur IN
  CASE st.al = 0 -> {room}
    [] st.al = 1 -> {Max0(room - w)}
    [] st.al = 2 -> {Max0(room - w \div 2 + d) : d \in 0..last - i}
    [] st.al = 3 -> {Max0(room - Prefix(chs, st.dec))}

(* The same, run after run, as lines are filled: the tab in force shrinks with each run which comes
   after it, until there is no room left (or the decimal point is placed) *)
Fill0 == [cur |-> 0, ws |-> <<>>, tab |-> 0, stop |-> [loc |-> 0, al |-> 0, dec |-> 0], used |-> 0]
\* r.w is not set yet for the tabs
FillRun(S, f, r) ==
  IF r.tab THEN LET st == Next0(S, f.cur) IN
    [cur |-> st.loc, ws |-> Append(f.ws, st.loc - f.cur), tab |-> Len(f.ws) + 1, stop |-> st, used |-> f.cur]
  ELSE
  LET w == SumS(r.ws)
      chs == [n \in 1..Len(r.rs) |-> <<r.rs[n], r.ws[n]>>]
      found == \E n \in 1..Len(chs) : chs[n][1] = f.stop.dec
      more == CASE f.stop.al = 0 -> 0 [] f.stop.al = 1 -> w [] f.stop.al = 2 -> w \div 2 [] f.stop.al = 3 -> Prefix(chs, f.stop.dec)
      used == f.used + more
      tw == Max0(f.stop.loc - used) IN
  IF f.tab = 0 THEN [f EXCEPT !.cur = f.cur + w, !.ws = Append(f.ws, w)]
  ELSE [cur |-> f.cur + w + tw - f.ws[f.tab], ws |-> Append([f.ws EXCEPT ![f.tab] = tw], w),
        tab |-> IF tw = 0 \/ (f.stop.al = 3 /\ found) THEN 0 ELSE f.tab, stop |-> f.stop, used |-> used]
=============================================================================
