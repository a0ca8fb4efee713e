----------------------------- MODULE MC_Settings -----------------------------
(* A layout which keeps its lines until a setting changes them, for texts of letters with a line
   separator (0) or a paragraph separator (-1): what is kept is what a fresh layout gives.
   Setters whose setting does not matter do not discard the lines *)
EXTENDS Settings, Json
CONSTANTS Depth, PrintHist
VARIABLES set, kept, hist
vars == <<set, kept, hist>>
None == [has |-> FALSE, ls |-> <<>>]
Some(ls) == [has |-> TRUE, ls |-> ls]
Texts == {<<1, 1, 1>>, <<1, 0, 1>>, <<1, -1, 1, 1>>}
\* lines of a paragraph: [n: characters, wrapped, ell]
MustEll(s, nth, left) == s.ell # 0 /\ s.width >= 0 /\ (IF s.height >= 0 THEN 2 > left ELSE nth = -s.height)
RECURSIVE Para(_, _, _, _)
Para(s, t, nth, left) ==
  IF t = <<>> THEN <<>>
  ELSE LET ell == MustEll(s, nth, left)
           ls == IF \E i \in 1..Len(t) : t[i] = 0 THEN CHOOSE i \in 1..Len(t) : t[i] = 0 /\ \A j \in 1..(i-1) : t[j] # 0 ELSE 0
           n == IF ell THEN Len(t)
                ELSE LET m == IF s.width < 0 THEN Len(t) ELSE IF s.width < 1 THEN 1 ELSE IF s.width > Len(t) THEN Len(t) ELSE s.width
                     IN IF ls > 0 /\ ls <= m + 1 THEN ls ELSE m
           wrapped == ~ell /\ (n < Len(t) \/ n = ls) IN
       <<[n |-> n, wrapped |-> wrapped, ell |-> ell /\ n > s.width]>> \o Para(s, SubSeq(t, n+1, Len(t)), nth+1, left-1)
RECURSIVE Layout(_, _, _)
Layout(s, t, left) ==
  LET seps == {i \in 1..Len(t) : t[i] = -1}
      to == IF seps = {} THEN Len(t) ELSE (CHOOSE i \in seps : \A j \in seps : i <= j) - 1
      p == LET l == Para(s, SubSeq(t, 1, to), 1, left) IN IF l = <<>> THEN <<[n |-> 0, wrapped |-> FALSE, ell |-> FALSE]>> ELSE l
      ls == [i \in 1..Len(p) |-> [n |-> p[i].n, wrapped |-> p[i].wrapped, ell |-> p[i].ell,
                                  just |-> s.justify /\ (p[i].wrapped \/ p[i].ell \/ s.jlast)]] IN
  IF seps = {} \/ (s.height >= 0 /\ left - Len(p) < 1) THEN ls ELSE ls \o Layout(s, SubSeq(t, to+2, Len(t)), left - Len(p))
Fresh(s) == Layout(s, s.text, s.height)
Ops == {[f |-> "width", v |-> v] : v \in {-1, 1, 2}} \cup {[f |-> "height", v |-> v] : v \in {-2, -1, 0}}
       \cup {[f |-> "ell", v |-> v] : v \in {0, 3}} \cup {[f |-> "justify", v |-> v] : v \in BOOLEAN}
       \cup {[f |-> "jlast", v |-> v] : v \in BOOLEAN} \cup {[f |-> "text", v |-> v] : v \in Texts}
Init == /\ set = [text |-> <<1, -1, 1, 1>>, width |-> -1, height |-> -1, ell |-> 0, justify |-> FALSE, jlast |-> FALSE]
        /\ kept = None /\ hist = <<>>
Wrapped(ls) == \E i \in 1..Len(ls) : ls[i].wrapped
Ellipsized(ls) == \E i \in 1..Len(ls) : ls[i].ell
\* the setters which keep the lines
Keeps(op) ==
  \/ op.f # "text" /\ set[op.f] = op.v
  \/ op.f = "justify" /\ kept.has /\ ~Wrapped(kept.ls) /\ ~Ellipsized(kept.ls) /\ ~set.jlast
  \/ op.f = "jlast" /\ ~set.justify
Change(op) == /\ set' = Set(set, op)
              /\ kept' = IF Keeps(op) THEN kept ELSE None
              /\ hist' = Append(hist, op)
Query == /\ kept' = IF ~kept.has THEN Some(Fresh(set)) ELSE kept
         /\ hist' = Append(hist, [f |-> "query", v |-> 0])
         /\ UNCHANGED set
Next == Len(hist) < Depth /\ ((\E op \in Ops : Change(op)) \/ (~kept.has /\ Query))
Spec == Init /\ [][Next]_vars
InvKept == (kept.has /\ Defined(set)) => kept.ls = Fresh(set)
View == <<set, kept, IF PrintHist THEN hist ELSE <<>>, Len(hist)>>
Emit == (PrintHist /\ Len(hist) = Depth) => PrintT("HIST " \o ToJson(hist))
=============================================================================
