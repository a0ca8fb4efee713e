---------------------------- MODULE MC_Itemize ----------------------------
(* All short texts over characters of each sort, with one or two attributes: items partition the
   text, are homogeneous, and begin only where something changes *)
EXTENDS Itemize, Json
CONSTANTS Len0, Chars0, AttrSets, Gravs, PrintHist
VARIABLES txt, attrs, grav
vars == <<txt, attrs, grav>>
Ch(sc, ty, pr, sp, fb, up, em, lo, cov) == [sc |-> sc, ty |-> ty, bk |-> pr, pr |-> pr, sp |-> sp, fb |-> fb, up |-> up, em |-> em, lo |-> lo, cov |-> cov]
Table == [x \in Chars0 |->
  CASE x = "a" -> Ch("latn", "L", 0, FALSE, FALSE, FALSE, "-", TRUE, <<"latin">>)
    [] x = "B" -> Ch("latn", "L", 0, FALSE, FALSE, FALSE, "-", FALSE, <<"latin", "third">>)
    [] x = "alef" -> Ch("hebr", "R", 0, FALSE, FALSE, FALSE, "-", FALSE, <<"hebrew">>)
    [] x = "sp" -> Ch("zyyy", "WS", 0, TRUE, FALSE, FALSE, "-", FALSE, <<"latin", "hebrew", "cjk">>)
    [] x = "op" -> Ch("zyyy", "ON", 1, FALSE, FALSE, FALSE, "-", FALSE, <<"latin", "hebrew">>)
    [] x = "cl" -> Ch("zyyy", "ON", -1, FALSE, FALSE, FALSE, "-", FALSE, <<"latin", "hebrew">>)
    [] x = "han" -> Ch("hani", "L", 0, FALSE, FALSE, TRUE, "-", FALSE, <<"cjk">>)
    [] x = "tab" -> Ch("zyyy", "S", 0, TRUE, TRUE, FALSE, "-", FALSE, <<>>)
    [] x = "no" -> Ch("zzzz", "L", 0, FALSE, FALSE, TRUE, "-", FALSE, <<>>)
    [] x = "third" -> Ch("zyyy", "EN", 0, FALSE, FALSE, FALSE, "KEYCAP_BASE", FALSE, <<"third", "latin", "hebrew">>)
    [] OTHER -> Ch("zyyy", "ON", 0, FALSE, FALSE, TRUE, "EMOJI", FALSE, <<>>)]
Init == txt = <<>> /\ attrs = <<>> /\ grav = 0
At(kd, v, s, b, e) == [kind |-> kd, v |-> v, s |-> s, d |-> <<>>, start |-> b, end |-> e]
Next == \/ Len(txt) < Len0 /\ attrs = <<>> /\ grav = 0 /\ \E x \in Chars0 : txt' = Append(txt, x) /\ UNCHANGED <<attrs, grav>>
        \/ Len(txt) = Len0 /\ attrs = <<>> /\ grav = 0 /\ \E g \in Gravs : \E n \in AttrSets : \E b \in 0..(Len0-1) : \E e \in (b+1)..Len0 :
             /\ (b = 0 /\ e = Len0) \/ n # 0
             /\ grav' = g
             /\ attrs' = (CASE n = 0 -> <<>>
                           [] n = 1 -> <<At("family", 0, "hebrew,latin", b, e)>>
                           [] n = 2 -> <<At("variant", 1, "", 0, Len0), At("fontscale", 1, "", b, e)>>
                           [] n = 3 -> <<At("fallback", 0, "", b, e)>>
                           [] OTHER -> <<At("lang", 0, "he", b, e)>>)
             /\ UNCHANGED txt
             /\ (g # 0 => Range(txt) \cap {"emo"} = {})
Spec == Init /\ [][Next]_vars
Q == [txt |-> [i \in 1..Len(txt) |-> Table[txt[i]]], start |-> 0, len |-> Len(txt),
      desc |-> [Set(Set(Default, "family", "third,latin,hebrew"), "size", <<10240, FALSE>>) EXCEPT !.style = 0],
      lang |-> "en", setlang |-> "en", gravity |-> grav, defaults |-> <<"yi">>, attrs |-> attrs,
      fams |-> [x \in {"third,latin,hebrew", "hebrew,latin", "emoji"} |-> CASE x = "emoji" -> <<"cjk">> [] x = "hebrew,latin" -> <<"hebrew", "latin", "cjk">> [] OTHER -> <<"third", "latin", "hebrew", "cjk">>],
      space |-> [sp |-> FALSE, cov |-> <<"latin", "hebrew", "cjk">>]]
Full == Len(txt) = Len0
Inv == Full =>
  LET items == Itemize(Q)
      T == Q.txt
      lv == TLCEval(TextLevels(T, "WL"))
      sr == Scripts(T)
      em == IsEmoji(T)
      itemAt(p) == CHOOSE n \in 1..Len(items) : items[n].off <= p /\ p < items[n].off + items[n].len IN
  \* partition
  /\ items[1].off = 0
  /\ \A n \in 1..Len(items) : items[n].len > 0 /\ (n > 1 => items[n].off = items[n-1].off + items[n-1].len)
  /\ Last(items).off + Last(items).len = Len0
  \* homogeneity
  /\ \A p \in 0..(Len0-1) :
       LET it == items[itemAt(p)] IN
       /\ it.sc = sr[p+1][2] /\ it.lv = LevelFor(lv[p+1], it.g) /\ it.emoji = em[p+1]
       /\ \A a \in Range(attrs) : (a.start <= p /\ p < a.end) = (a.start <= it.off /\ it.off + it.len <= a.end)
       /\ (~Vertical(grav) => it.g = grav)
       \* the font covers the character unless no font does
       /\ \/ T[p+1].sp \/ IntFor(Covering(attrs, p), "fallback", 1) = 0 \/ it.fam \in Range(T[p+1].cov)
          \/ \A f \in Range(Q.fams["hebrew,latin"]) \cup Range(Q.fams["third,latin,hebrew"]) : f \notin Range(T[p+1].cov)
  \* an item begins where something changes
  /\ \A n \in 2..Len(items) :
       LET x == items[n-1]  y == items[n]  p == y.off IN
       \/ x.sc # y.sc \/ x.lv # y.lv \/ x.g # y.g \/ x.emoji # y.emoji \/ x.fam # y.fam \/ x.extra # y.extra
       \/ T[p].fb \/ T[p+1].fb \/ T[p].up # T[p+1].up \/ \E a \in Range(attrs) : p \in {a.start, a.end}
  \* adjacent script runs differ
  /\ LET rs == ScriptRuns(T) IN \A n \in 2..Len(rs) : rs[n].sc # rs[n-1].sc /\ Real(rs[n-1].sc)
\* a closing character has the script of its opening one
InvPairs == Full => LET T == Q.txt  sr == Scripts(T) IN
  \A i, j \in 1..Len0 : (i < j /\ txt[i] = "op" /\ txt[j] = "cl" /\ \A m \in (i+1)..(j-1) : txt[m] \notin {"op", "cl"}) => sr[i][2] = sr[j][2]
Emit == (PrintHist /\ Full /\ (attrs # <<>> \/ Gravs = {0})) => PrintT("HIST " \o ToJson([txt |-> txt, attrs |-> attrs, gravity |-> grav]))
=============================================================================
