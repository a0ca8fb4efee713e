------------------------------ MODULE MC_Tabs ------------------------------
(* Lines filled run after run, against the statement on the whole line: where the text after each tab is *)
EXTENDS Tabs, TLC, Json
CONSTANTS Len0, Tokens, PrintHist
VARIABLES sn, toks, f
vars == <<sn, toks, f>>
Base == [set |-> TRUE, px |-> FALSE, tabs |-> <<>>, tw |-> 16, off |-> 0]
Sets == <<[Base EXCEPT !.set = FALSE], [Base EXCEPT !.set = FALSE, !.off = 5], Base,
          [Base EXCEPT !.tabs = <<<<10, 1, 0>>>>], [Base EXCEPT !.tabs = <<<<6, 0, 0>>, <<13, 2, 0>>>>], [Base EXCEPT !.tabs = <<<<9, 3, 0>>, <<20, 3, 44>>>>],
          [Base EXCEPT !.tabs = <<<<-2, 0, 0>>>>], [Base EXCEPT !.tabs = <<<<5, 2, 0>>, <<14, 1, 0>>, <<17, 3, 0>>>>, !.off = 2],
          [Base EXCEPT !.tabs = <<<<0, 1, 0>>>>]>>
Run(x) == CASE x = "tab" -> [tab |-> TRUE, rs |-> <<9>>, ws |-> <<0>>, w |-> 0]
            [] x = "a" -> [tab |-> FALSE, rs |-> <<97>>, ws |-> <<3>>, w |-> 3]
            [] x = "b" -> [tab |-> FALSE, rs |-> <<97, 98>>, ws |-> <<3, 4>>, w |-> 7]
            [] x = "d" -> [tab |-> FALSE, rs |-> <<98, 46, 97>>, ws |-> <<4, 3, 3>>, w |-> 10]
            [] x = "c" -> [tab |-> FALSE, rs |-> <<44>>, ws |-> <<2>>, w |-> 2]
Init == sn \in 1..Len(Sets) /\ toks = <<>> /\ f = Fill0
Next == Len(toks) < Len0 /\ \E x \in Tokens : toks' = Append(toks, x) /\ f' = FillRun(Sets[sn], f, Run(x)) /\ UNCHANGED sn
Spec == Init /\ [][Next]_vars
S == Sets[sn]
Runs == [i \in 1..Len(toks) |-> [Run(toks[i]) EXCEPT !.w = f.ws[i]]]
X(i) == Before(Runs, i)
Tabs0 == {i \in 1..Len(toks) : Runs[i].tab}
InvFill == \A i \in Tabs0 : f.ws[i] \in TabWidths(S, Runs, i)
InvCur == f.cur = X(Len(toks) + 1)
InvPositive == \A i \in Tabs0 : f.ws[i] >= 0
\* the text after a tab is at its stop, or the tab has no width left
InvAt == \A i \in Tabs0 : LET st == Next0(S, X(i))  e == After(Runs, i)  x == X(i+1)  y == X(e+1) IN
  /\ st.loc > X(i)
  /\ \A k \in 0..3 : Stop(S, k).loc >= X(i) + Room(S) => st.loc <= Stop(S, k).loc
  /\ CASE st.al = 0 -> x = st.loc
       [] st.al = 1 -> y = st.loc \/ (f.ws[i] = 0 /\ y > st.loc)
       [] st.al = 2 -> x + y \in 2*st.loc .. 2*st.loc + 2*(e - i) \/ (f.ws[i] = 0 /\ x + y > 2*st.loc)
       [] st.al = 3 -> LET p == Prefix(CharsOf(Runs, i+1, e), st.dec) IN x + p = st.loc \/ (f.ws[i] = 0 /\ x + p > st.loc)
\* stops are in order
InvStops == \A k \in 0..6 : Stop(S, k).loc < Stop(S, k+1).loc
Emit == (PrintHist /\ Len(toks) = Len0 /\ "tab" \in {toks[i] : i \in 1..Len(toks)}) => PrintT("HIST " \o ToJson([set |-> sn, toks |-> toks]))
=============================================================================
