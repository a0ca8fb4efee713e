----------------------------- MODULE Trace_P10 -----------------------------
(* in: tokens of a markup and a marker. obs: what ParseMarkup and SetMarkup give *)
EXTENDS TraceBase, Sequences
MK == INSTANCE Markup
Init == CaseInit
Id == Cases[c].id
Count(as) == LET S == {as[i] : i \in 1..Len(as)} IN [x \in S |-> Cardinality({i \in 1..Len(as) : as[i] = x})]
\* the list sorted by starts, in the order of insertions
Wins(D, n) == [p \in 1..n |-> {<<kd, MK!Winner(D, p-1, kd)>> : kd \in MK!Kinds(D)}]
Sorted(D) == \A i \in 1..(Len(D)-1) : D[i][3] <= D[i+1][3]
SameAttrs(t, want, got, n) ==
  /\ ExpectEq(Id, k+1, t \o "attributes", Count(want), Count(got))
  /\ Expect(Sorted(got), Id, k+1, t \o "sorted attributes", TRUE, got)
  /\ ExpectEq(Id, k+1, t \o "values by character", Wins(want, n), Wins(got, n))
CheckOne(o) ==
  LET m == TLCEval(MK!Parsed(In.tks, In.m)) l == IF In.m = 0 THEN m ELSE TLCEval(MK!Parsed(In.tks, 0)) IN
  /\ ExpectEq(Id, k+1, "an error", m.err, o.err)
  /\ (~m.err => /\ ExpectEq(Id, k+1, "text", m.text, o.text)
                /\ ExpectEq(Id, k+1, "accelerator", m.accel, o.accel)
                /\ SameAttrs("", MK!Attributes(m), o.attrs, Len(m.text)))
  /\ ExpectEq(Id, k+1, "an error of the layout", l.err, o.lerr)
  /\ IF l.err THEN ExpectEq(Id, k+1, "text kept by the layout", <<97, 98, 99>>, o.ltext) /\ ExpectEq(Id, k+1, "attributes kept by the layout", o.lbefore, o.lattrs)
     ELSE ExpectEq(Id, k+1, "text of the layout", l.text, o.ltext) /\ SameAttrs("layout: ", MK!Attributes(l), o.lattrs, Len(l.text))
Next == \/ /\ k >= 0 /\ k < Len(Obs) /\ UNCHANGED c
           /\ k' = IF CheckOne(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
