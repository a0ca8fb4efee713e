----------------------------- MODULE Trace_P12 -----------------------------
(* in: characters with their script and pair, and a range; the observation: the script of each character *)
EXTENDS TraceBase, Itemize
Init == CaseInit
Id == Cases[c].id
Step(o) ==
  LET T == TLCEval(SubSeq(In.chars, In.start + 1, In.start + In.len))
      s == Scripts(T) IN
  ExpectEq(Id, k+1, "scripts", [i \in 1..In.len |-> s[i][2]], o.scripts)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
