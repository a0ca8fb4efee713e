------------------------------ MODULE MC_Rules ------------------------------
(* One rule with one test and two edits on a list of families: every list,
   qualifier, comparison and pair of modes. *)
EXTENDS Rules, TLC, Json
CONSTANTS PrintHist
VARIABLES l, t, e1, e2
Sx(s) == <<"String", s>>
A == Sx(<<97>>)  B == Sx(<<98>>)  C == Sx(<<99>>)  D == Sx(<<100>>)
Lists == { <<>>, <<A>>, <<A, B>>, <<B, A>>, <<B, A, B>>, <<A, B, A>> }
Quals == {"any", "all", "first", "not_first"}
Cmps == {"eq", "not_eq"}
Modes == {"assign", "assign_replace", "prepend", "prepend_first", "append", "append_last", "delete", "delete_all"}
TestsU == {<<"none", "eq">>} \cup (Quals \X Cmps)
Init == l \in Lists /\ t \in TestsU /\ e1 \in Modes /\ e2 \in Modes
Next == UNCHANGED <<l, t, e1, e2>>
Spec == Init /\ [][Next]_<<l, t, e1, e2>>
Lit(v) == [op |-> "lit", v |-> v]
T == IF t[1] = "none" THEN <<>> ELSE << [name |-> "family", tgt |-> "default", qual |-> t[1], cmp |-> t[2], ib |-> FALSE, e |-> Lit(A)] >>
Del1(m) == m \in {"delete", "delete_all"}
E1 == [name |-> "family", mode |-> e1, bind |-> "same", es |-> IF Del1(e1) THEN <<>> ELSE <<Lit(C), Lit(D)>>]
E2 == [name |-> "family", mode |-> e2, bind |-> "strong", es |-> IF Del1(e2) THEN <<>> ELSE <<Lit(B)>>]
R == [kind |-> "pattern", tests |-> T, edits |-> <<E1, E2>>]
P0 == Put(Put(EmptyPat, "family", [i \in 1..Len(l) |-> <<l[i], "s">>]), "style", << <<A, "s">> >>)
Res == Substitute(P0, EmptyPat, <<R>>, "pattern")
Fired == Res.fired = 1
F == Get(Res.p, "family")
\* declarative description of tests
Holds == CASE t[1] = "none" -> TRUE
           [] t[1] = "any" -> \E i \in 1..Len(l) : (l[i] = A) = (t[2] = "eq")
           [] t[1] = "all" -> \A i \in 1..Len(l) : (l[i] = A) = (t[2] = "eq")
           [] t[1] = "first" -> l # <<>> /\ (l[1] = A) = (t[2] = "eq")
           [] t[1] = "not_first" -> l # <<>> /\ (l[1] = A) # (t[2] = "eq") /\ \E i \in 1..Len(l) : (l[i] = A) = (t[2] = "eq")
InvFired == Res.bad \/ Fired = Holds
InvOther == Get(Res.p, "style") = Get(P0, "style") /\ DOMAIN Res.p \subseteq {"family", "style"}
InvNotFired == ~Fired /\ ~Res.bad => Res.p = P0
InvAssignReplace == (Fired /\ e2 = "assign_replace") => Vals(F) = <<B>>
InvDeleteAll == (Fired /\ e2 = "delete_all") => F = <<>>
Adding == {"prepend", "prepend_first", "append", "append_last"}
InvGrow == (Fired /\ e1 \in Adding /\ e2 \in Adding) =>
   /\ Len(F) = Len(l) + 3
   /\ \E f \in [1..Len(l) -> 1..Len(F)] :        \* the original values are kept, in order
        /\ \A i, j \in 1..Len(l) : i < j => f[i] < f[j]
        /\ \A i \in 1..Len(l) : F[f[i]][1] = l[i]
InvEnds == Fired /\ ~Res.bad => CASE e2 = "prepend_first" -> F[1][1] = B [] e2 = "append_last" -> F[Len(F)][1] = B [] OTHER -> TRUE
InvSame == \A i \in 1..Len(F) : F[i][2] # "m"
Emit == PrintHist => PrintT("HIST " \o ToJson([l |-> l, q |-> t[1], c |-> t[2], e1 |-> e1, e2 |-> e2]))
=============================================================================
