----------------------------- MODULE Trace_P13 -----------------------------
(* in: the settings of a layout; the observations: the width of 8 spaces, and then its lines: the runs in
   the order of the text with the widths of their characters, and whether the paragraph goes on after the line *)
EXTENDS TraceBase, Tabs
Init == CaseInit
Id == Cases[c].id
\* where lines start: the indent of the first ones, or the one of the other ones
Off(par) == CASE In.align = 1 -> 0
              [] par /\ In.indent >= 0 -> In.indent
              [] ~par /\ In.indent < 0 -> -In.indent
              [] OTHER -> 0
LtTab(a, b) == a[1] < b[1]
S(par) == [set |-> In.tabs.set, px |-> In.tabs.px, tabs |-> SortSeq(In.tabs.tabs, LtTab), tw |-> TabWidth(Obs[1].tw), off |-> Off(par)]
\* the end of a wrapped line is another matter (the last space vanishes, and texts that do not fit after the tab go to the next line)
Judged(o, i) == ~o.more \/ After(o.runs, i) < Len(o.runs) \/ (Next0(S(o.par), Before(o.runs, i)).al = 0 /\ i # Len(o.runs))
Step(o) ==
  IF k = 0 THEN TRUE
  ELSE \A i \in 1..Len(o.runs) : (o.runs[i].tab /\ Judged(o, i)) =>
         LET ws == TabWidths(S(o.par), o.runs, i) IN
         Expect(o.runs[i].w \in ws, Id, k+1, "the width of the tab of run " \o ToString(i), ws, o.runs[i].w)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
