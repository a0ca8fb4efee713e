----------------------------- MODULE TraceBase -----------------------------
(* Common part of all trace specifications.  A trace file holds one case per
   line: {"id", "in": the input, "obs": what the real code returned, one entry
   per call, "crash": "" or the way the run died}.  A trace specification has
   one initial state per case and consumes one observation per transition; the
   abstract state is carried along.  Mismatches are printed, the case stops. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.TRACE)
NCases == Len(Cases)

VARIABLES c,    \* case number
          k     \* observations consumed; -1 once the case has been rejected

Report(id, step, what, exp, got) ==
  PrintT("MISMATCH " \o ToJson([id |-> id, step |-> step, what |-> what, exp |-> exp, got |-> got]))

\* Reports when the condition is false; value is the condition
Expect(cond, id, step, what, exp, got) ==
  IF cond THEN TRUE ELSE Report(id, step, what, exp, got) /\ FALSE
ExpectEq(id, step, what, exp, got) == Expect(exp = got, id, step, what, exp, got)

Obs == Cases[c].obs
In == Cases[c].in
CaseInit == c \in 1..NCases /\ k = 0

\* the end of a case: the run must have ended by itself
Finished == k = Len(Obs)
CaseEnd == /\ Finished
           /\ k' = -1
           /\ UNCHANGED c
           /\ IF Cases[c].crash = "" THEN TRUE
              ELSE Report(Cases[c].id, k+1, "crash", "the call returns", Cases[c].crash)
=============================================================================
