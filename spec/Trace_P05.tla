----------------------------- MODULE Trace_P05 -----------------------------
(* in: the settings of a layout, then operations.  obs, for each operation: the settings which
   should be known, the exported fields and attributes of the layout, and for queries the answer of
   the layout and the one of a fresh layout with the settings which should be known *)
EXTENDS TraceBase, Settings
VARIABLE s
Init == CaseInit /\ s = Cases[c].in.cfg
Id == Cases[c].id
Step == /\ k >= 0 /\ k < Len(Obs)
        /\ LET op == In.ops[k+1] o == Obs[k+1] n == Set(s, op)
               at(x) == op.f \o " (operation " \o ToString(k+1) \o "): " \o x
               ok == /\ ExpectEq(Id, k+1, at("settings"), n, o.cfg)
                     /\ ExpectEq(Id, k+1, at("fields"), Fields(n) @@ [lang |-> n.lang], o.fields)
                     /\ ExpectEq(Id, k+1, at("attributes"), o.want_attrs, o.attrs)
                     /\ IF op.f = "query" /\ Defined(n) THEN ExpectEq(Id, k+1, at(op.v), o.want, o.got) ELSE TRUE
           IN /\ s' = n
              /\ k' = IF ok THEN k + 1 ELSE -1
        /\ UNCHANGED c
Next == Step \/ (CaseEnd /\ UNCHANGED s)
=============================================================================
