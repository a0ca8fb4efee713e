----------------------------- MODULE MC_Breaking -----------------------------
(* Lines filled with one item after another, as long as they fit, backing up to an item where
   the line can be broken when one does not: they end where Breaking says they may.
   tokens: a letter, an ideograph, a space, a soft hyphen; new: another item begins there *)
EXTENDS Breaking, Json
CONSTANTS MaxLen, Widths, Hyphens, PrintHist
VARIABLES toks, width, hyphen, mode
vars == <<toks, width, hyphen, mode>>
Tok == {"x", "i", "s", "y"}
WidthOf(t) == CASE t = "x" -> 2 [] t = "i" -> 2 [] t = "s" -> 1 [] OTHER -> 0
T == [i \in 1..Len(toks) |-> toks[i].t]
Quest ==
  LET n == Len(toks) IN
  [w |-> TLCEval([i \in 1..n |-> WidthOf(T[i])]), hy |-> [i \in 1..n |-> hyphen],
   item |-> TLCEval([i \in 1..n |-> Max0({j \in 1..i : j = 1 \/ toks[j].new}) - 1]),
   ls |-> [i \in 1..n |-> FALSE],
   a |-> TLCEval([b \in 1..(n+1) |->
     LET inside == b > 1 /\ b <= n
         lb == inside /\ T[b] # "s" /\ T[b] # "y" /\ (T[b-1] \in {"s", "y", "i"} \/ T[b] = "i")
         ins == inside /\ (T[b-1] = "y" \/ (T[b-1] = "x" /\ T[b] \in {"x", "y"})) IN
     [lb |-> lb \/ b = n+1, cb |-> b > 1, ins |-> ins, rem |-> FALSE, sp |-> b <= n /\ T[b] = "s"]])]
Init == toks = <<>> /\ width = 0 /\ hyphen = 0 /\ mode = ""
Next == \/ mode = "" /\ Len(toks) < MaxLen /\ \E t \in Tok, new \in BOOLEAN : /\ (toks = <<>> => ~new)
             /\ toks' = Append(toks, [t |-> t, new |-> new]) /\ UNCHANGED <<width, hyphen, mode>>
        \/ mode = "" /\ toks # <<>> /\ \E m \in {"word", "char", "wordchar"}, w \in Widths, h \in Hyphens :
             mode' = m /\ width' = w /\ hyphen' = h /\ UNCHANGED toks
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* the way of the code.  An item [from, to) is put on a line with rem left (first: nothing is on it)
At(q, b, wrap) == b = Len(q.w) \/ CanEnd(q, b, wrap)
Extra(q, from, b) == IF q.a[b+1].ins THEN q.hy[IF b = 0 THEN 1 ELSE b] ELSE IF b > from /\ q.a[b].sp THEN -q.w[b] ELSE 0
RECURSIVE Try(_, _, _, _, _, _, _, _)
\* the breaks of the item are looked at in order: the best so far
RECURSIVE Look(_, _, _, _, _, _, _, _, _)
Look(q, from, to, rem, first, last, wraps, j, best) ==
  IF j > best.limit THEN best
  ELSE LET cost == Sum(q.w, from, from+j) + (IF j = to-from /\ last THEN 0 ELSE Extra(q, from, from+j))
           can == (\E x \in wraps : At(q, from+j, x)) /\ (j > 0 \/ ~first)
           take == j = 0 \/ best.n = to-from \/ cost <= rem \/ cost < best.cost IN
       Look(q, from, to, rem, first, last, wraps, j+1, IF can /\ take THEN [best EXCEPT !.n = j, !.cost = cost] ELSE best)
Try(q, from, to, rem, first, force, noEnd, last) ==
  LET w == Sum(q.w, from, to)
      x == IF ~noEnd /\ At(q, to, "word") THEN (IF to = Len(q.w) THEN (IF q.a[to].sp THEN -q.w[to] ELSE 0) ELSE Extra(q, from, to)) ELSE 0
      start == [n |-> to-from, cost |-> w + x, limit |-> to-from - (IF noEnd THEN 1 ELSE 0)]
      own == IF mode = "char" THEN {"char"} ELSE {"word"}
      one == Look(q, from, to, rem, first, last, own, 0, start)
      two == IF mode = "wordchar" /\ force /\ one.cost > rem THEN Look(q, from, to, rem, first, last, {"word", "char"}, 0, start) ELSE one IN
  IF ~noEnd /\ (w + x <= rem \/ (to - from = 1 /\ first)) THEN [fits |-> TRUE, n |-> to-from, cost |-> w]
  ELSE [fits |-> force \/ two.cost <= rem, n |-> two.n, cost |-> two.cost]
Items(q, s) == SetToSortSeq({b \in s..(Len(q.w)-1) : b = s \/ q.item[b+1] # q.item[b]}, <)
ItemEnd(q, s, i) == LET it == Items(q, s) IN IF i = Len(it) THEN Len(q.w) ELSE it[i+1]
Max2(x, y) == IF x > y THEN x ELSE y
RECURSIVE Fill(_, _, _, _, _)
RECURSIVE Back(_, _, _)
\* back up until a break which fits
Back(q, s, breaks) ==
  LET p == breaks[Len(breaks)]
      r == Try(q, Items(q, s)[p.i], ItemEnd(q, s, p.i), p.rem, p.i = 1, Len(breaks) = 1, TRUE, p.i = Len(Items(q, s))) IN
  IF r.fits THEN Items(q, s)[p.i] + r.n ELSE Back(q, s, SubSeq(breaks, 1, Len(breaks)-1))
Fill(q, s, i, rem, breaks) ==
  IF i > Len(Items(q, s)) THEN Len(q.w)
  ELSE LET from == Items(q, s)[i] to == ItemEnd(q, s, i)
           r == Try(q, from, to, rem, i = 1, breaks = <<>>, FALSE, i = Len(Items(q, s))) IN
       IF ~r.fits THEN Back(q, s, breaks)
       ELSE IF r.n < to - from THEN from + r.n
       ELSE LET has == \E b \in (IF i = 1 THEN from+1 ELSE from)..(to-1) : At(q, b, IF mode = "char" THEN "char" ELSE "word") IN
            Fill(q, s, i+1, Max2(rem - r.cost, 0), IF has THEN Append(breaks, [i |-> i, rem |-> rem]) ELSE breaks)
----------------------------------------------------------------------------
RECURSIVE Lines(_, _)
Lines(q, s) == LET e == Fill(q, s, 1, width, <<>>) IN
  /\ e > s
  /\ e \in Ends(q, s, Len(q.w), width, mode)
  /\ e < Len(q.w) => Lines(q, e)
InvFill == mode # "" => Lines(Quest, 0)
\* without hyphens: lines are as long as what fits, up to spaces
InvLong == LET q == Quest n == Len(q.w) IN
  (mode # "" /\ \A b \in 1..(n+1) : ~q.a[b].ins) =>
  \A e \in Ends(q, 0, n, width, mode) :
    LET opp == Opportunities(q, 0, n, IF mode = "word" THEN "word" ELSE "char") fit == Fitting(q, 0, opp, width) IN
    /\ (e < n /\ fit # {} /\ mode # "wordchar") => \A b \in (Max0(fit)+1)..e : q.a[b].sp
    /\ (e < n /\ Fitting(q, 0, Opportunities(q, 0, n, mode), width) # {} /\ mode = "word") => e >= Max0(Fitting(q, 0, opp, width))
    /\ (NaturalEnd(q, 0, n) <= width) => e = n
Emit == (PrintHist /\ mode # "") => PrintT("HIST " \o ToJson([toks |-> toks, width |-> width, mode |-> mode]))
=============================================================================
