------------------------------- MODULE MC_Scan -------------------------------
(* Every list of up to three directories, with small sets of globs and patterns:
   each file is kept once, whatever the order and repetitions of the directories;
   accepting more never removes a font, rejecting more never adds one. *)
EXTENDS Scan, TLC, Json
CONSTANTS PrintHist, Big
VARIABLES dirs, ga, gr, pa, pr, st
vars == <<dirs, ga, gr, pa, pr, st>>
R == <<47, 82>>
D1 == R \o <<47, 113>>  D2 == D1 \o <<47, 98>>  D3 == R \o <<47, 99>>
F(d, n) == d \o <<47, n, 46, 116>>
E(d, n, f) == [path |-> F(d, n), rep |-> F(d, n), font |-> f]
Tree == << E(D3, 120, "cmap"), E(D2, 121, "ahem"), E(D2, 122, "three"), E(D1, 120, "ahem"), E(R, 122, "") >>
Fam(s) == [o |-> "family", v |-> <<<<"String", s>>>>]
Wt(n) == [o |-> "weight", v |-> <<<<"Int", n>>>>]
Base == [cmap |-> << <<Fam(<<99>>), Wt(80)>> >>, ahem |-> << <<Fam(<<97>>), Wt(80)>> >>,
         three |-> << <<Fam(<<97>>), Wt(80)>>, <<Fam(<<102>>), Wt(200)>>, <<Fam(<<99>>), Wt(80)>> >>]
Star == <<42>>
Globs == { Star, Star \o <<47, 98, 47>> \o Star, Star \o <<120, 46, 116>>, D1 \o <<63, 120, 46, 116>> } \cup (IF Big THEN {D1 \o <<47, 63, 46, 116>>} ELSE {})
P(o, v) == [x \in {o} |-> << <<v, "s">> >>]
Pats == { EmptyPat, P("family", <<"String", <<97>>>>), P("family", <<"String", <<99>>>>), P("weight", <<"Int", 80>>) } \ (IF Big THEN {} ELSE {P("family", <<"String", <<97>>>>)})
Small(S) == {<<>>} \cup {<<x>> : x \in S}

Dirs == {D1, D2, R} \cup (IF Big THEN {D3} ELSE {})
Init == dirs \in UNION {[1..n -> Dirs] : n \in 1..2} /\ ga = <<>> /\ gr = <<>> /\ pa = <<>> /\ pr = <<>> /\ st = 0
Next == /\ st = 0 /\ st' = 1
        /\ \/ UNCHANGED dirs
           \/ Len(dirs) = 2 /\ \E d \in Dirs : dirs' = Append(dirs, d)
        /\ ga' \in Small(Globs) /\ gr' \in Small(Globs) /\ pa' \in Small(Pats) /\ pr' \in Small(Pats)
Spec == Init /\ [][Next]_vars
Got(d, a, b, c, e) == ScanDirs(Base, Tree, d, <<>>, a, b, c, e)
Now == Got(dirs, ga, gr, pa, pr)
All == Got(dirs, <<>>, <<>>, <<>>, <<>>)
Rev == Got([i \in 1..Len(dirs) |-> dirs[Len(dirs)+1-i]], ga, gr, pa, pr)
InvOnce == Cardinality(SeqToSet(Now)) = Len(Now)
InvOrder == SeqToSet(Rev) = SeqToSet(Now)
InvAll == SeqToSet(Now) \subseteq SeqToSet(All) /\ (gr = <<>> /\ pr = <<>> => Now = All)
InvAccept == SeqToSet(Got(dirs, <<>>, gr, <<>>, pr)) \subseteq SeqToSet(Now)
InvReject == SeqToSet(Now) \subseteq SeqToSet(Got(dirs, ga, <<>>, pa, <<>>))
InvWins == ga = gr /\ pa = pr => SeqToSet(Now) = SeqToSet(All)      \* acceptance overrides rejection
InvTop == R \in SeqToSet(dirs) => Len(All) = 6
JP(r) == [o \in DOMAIN r |-> [i \in 1..Len(r[o]) |-> <<r[o][i][1], r[o][i][2]>>]]
JPs(s) == [i \in 1..Len(s) |-> JP(s[i])]
Emit == (PrintHist /\ st = 1) => PrintT("HIST " \o ToJson([dirs |-> dirs, ga |-> ga, gr |-> gr, pa |-> JPs(pa), pr |-> JPs(pr)]))
=============================================================================
