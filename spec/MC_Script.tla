----------------------------- MODULE MC_Script -----------------------------
(* The script runs, built character after character, against the rules stated on the whole text:
   a real script stays, a closing character has the script of the opening one it matches, any
   other one the script of the character before; at the start, the first real script found *)
EXTENDS Itemize, Json
CONSTANTS Len0, Chars0, PrintHist
VARIABLES txt, st
vars == <<txt, st>>
Ch(sc, pr) == [sc |-> sc, pr |-> pr]
Table(x) == CASE x = "a" -> Ch("latn", 0) [] x = "alef" -> Ch("hebr", 0) [] x = "com" -> Ch("zyyy", 0) [] x = "inh" -> Ch("zinh", 0)
              [] x = "op" -> Ch("zyyy", 1) [] x = "cl" -> Ch("zyyy", -1) [] x = "op2" -> Ch("zyyy", 2) [] x = "cl2" -> Ch("zyyy", -2)
Start0 == [runs |-> <<[from |-> 1, to |-> 0, sc |-> "zyyy"]>>, stack |-> <<>>]
Init == txt = <<>> /\ st = Start0
Next == Len(txt) < Len0 /\ \E x \in Chars0 : txt' = Append(txt, x) /\ st' = StepScript(st, Table(x), Len(txt) + 1)
Spec == Init /\ [][Next]_vars
T == [i \in 1..Len(txt) |-> Table(txt[i])]
\* the openings still open before i: positions, the last one first; an unmatched closing one closes all
RECURSIVE OpenAt(_)
OpenAt(i) ==
  IF i = 1 THEN <<>>
  ELSE LET o == OpenAt(i-1)  ch == T[i-1] IN
       CASE ch.pr > 0 -> <<i-1>> \o o
         [] ch.pr < 0 -> LET m == {j \in 1..Len(o) : T[o[j]].pr = -ch.pr} IN
                         IF m = {} THEN <<>> ELSE SubSeq(o, 1 + (CHOOSE j \in m : \A q \in m : j <= q), Len(o))
         [] OTHER -> o
Opening(i) == LET o == OpenAt(i)  m == {j \in 1..Len(o) : T[o[j]].pr = -T[i].pr} IN
  IF T[i].pr >= 0 \/ m = {} THEN 0 ELSE o[CHOOSE j \in m : \A q \in m : j <= q]
RECURSIVE Rule(_)
Rule(i) == CASE Real(T[i].sc) -> T[i].sc
             [] Opening(i) # 0 -> LET r == Rule(Opening(i)) IN IF r = "first" /\ i > 1 THEN "first" ELSE r
             [] i = 1 -> "first"
             [] OTHER -> Rule(i-1)
Reals == {i \in 1..Len(txt) : Real(T[i].sc)}
First == IF Reals = {} THEN "zyyy" ELSE T[CHOOSE i \in Reals : \A j \in Reals : i <= j].sc
Resolve(i) == LET r == Rule(i) IN IF r = "first" THEN First ELSE r
InvRules == txt # <<>> => LET s == Scripts(T) IN \A i \in 1..Len(txt) : s[i][2] = Resolve(i)
InvRuns == LET rs == st.runs IN
  /\ txt # <<>> => rs = ScriptRuns(T)
  /\ rs[1].from = 1 /\ Last(rs).to = Len(txt)
  /\ \A n \in 2..Len(rs) : rs[n].from = rs[n-1].to + 1 /\ rs[n].sc # rs[n-1].sc /\ Real(rs[n].sc) /\ Real(rs[n-1].sc)
Emit == (PrintHist /\ Len(txt) = Len0) => PrintT("HIST " \o ToJson(txt))
=============================================================================
