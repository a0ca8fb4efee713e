----------------------------- MODULE MC_Listing -----------------------------
(* Lists over three fonts: every pair of small queries and sets. *)
EXTENDS Listing, TLC, Json
CONSTANTS PrintHist
VARIABLES q, fs, objs, st
Str(s) == <<"String", s>>
A == <<Str(<<97>>), "s">>  B == <<Str(<<98>>), "s">>  Fr == <<Str(<<102, 114>>), "s">>  EnV == <<Str(En), "s">>
F1 == {[family |-> <<A>>], [family |-> <<B>>]}
F2 == {[family |-> <<A, B>>, familylang |-> l] : l \in {<<EnV, Fr>>, <<Fr, EnV>>}}
Ls == {{<<102, 114>>}, {En, <<102, 114, 45, 99, 97>>}}
F3 == {Put(f, "lang", << <<<<"Langset", l>>, "s">> >>) : f \in F1 \cup F2, l \in Ls}
Fonts == F1 \cup F3
Queries == {EmptyPat, [family |-> <<A>>], [family |-> <<B, A>>], [lang |-> << <<<<"Langset", {<<102, 114>>}>>, "s">> >>], [family |-> <<A>>, namelang |-> <<Fr>>]}
Objss == {{"family"}, {"familylang", "family"}, {"lang"}, {"lang", "family"}}
Init == q \in Queries /\ fs = <<>> /\ objs \in Objss /\ st = 0
Next == /\ st = 0 /\ st' = 1 /\ UNCHANGED <<q, objs>>
        /\ \E a \in Fonts, b \in F1 \cup F3, d \in F3 : fs' = <<a, b, d>>
Spec == Init /\ [][Next]_<<q, fs, objs, st>>
Kept == {i \in 1..Len(fs) : MatchesAll(q, fs[i])}
InvAll == q = EmptyPat => Kept = 1..Len(fs)
InvMore == \A o \in DOMAIN q : Kept \subseteq {i \in 1..Len(fs) : MatchesAll([x \in DOMAIN q \ {o} |-> q[x]], fs[i])}
InvOwn == \A i \in 1..Len(fs) : MatchesAll(fs[i], fs[i])       \* a font contains itself
InvPerm == \A i \in 1..Len(fs) : LET g == Project(fs[i], objs, NameLangIn(q)) IN
   DOMAIN g = DOMAIN fs[i] \cap objs /\ \A o \in DOMAIN g : SeqToSet(g[o]) = SeqToSet(Vals(fs[i][o]))
J(v) == IF Ty(v) = "Langset" THEN <<v[1], SetToSeq(v[2])>> ELSE v
JP(r) == [o \in DOMAIN r |-> [i \in 1..Len(r[o]) |-> <<J(r[o][i][1]), r[o][i][2]>>]]
Emit == (PrintHist /\ st = 1) => PrintT("HIST " \o ToJson([p |-> JP(q), fs |-> [i \in 1..3 |-> JP(fs[i])], objs |-> SetToSeq(objs)]))
=============================================================================
