---------------------------- MODULE MC_FontFile ----------------------------
(* Tables of names built one name at a time: families and styles, of two kinds each, in several platforms,
   encodings and languages; with or without metrics *)
EXTENDS FontFile, FontWords, Json
CONSTANTS N, PrintHist
VARIABLES names, os2
A == <<97>>  B == <<98>>  A2 == <<65, 32>>   \* "a", "b", and "A " which is "a"
Bold == <<66, 111, 108, 100>>
Where == {<<3, 1, 1033>>, <<3, 1, 1036>>, <<3, 10, 1033>>, <<1, 0, 0>>, <<1, 0, 1>>, <<0, 3, 0>>}
Entries == {[pl |-> w[1], en |-> w[2], la |-> w[3], id |-> i, s |-> t] : w \in Where, i \in {1, 16}, t \in {A, B, A2}}
      \cup {[pl |-> w[1], en |-> w[2], la |-> w[3], id |-> i, s |-> t] : w \in {<<3, 1, 1033>>, <<3, 1, 1036>>, <<1, 0, 0>>}, i \in {2, 17}, t \in {RegularName, Bold}}
NoOs2 == [has |-> FALSE, ver |-> 0, weight |-> 0, width |-> 5, vendor |-> <<0, 0, 0, 0>>, lower |-> 0, upper |-> 0]
Os2 == [NoOs2 EXCEPT !.has = TRUE, !.ver = 5, !.weight = 450, !.width = 3, !.lower = 200, !.upper = 240]
Same(a, b) == a.pl = b.pl /\ a.en = b.en /\ a.la = b.la /\ a.id = b.id
Init == names = <<>> /\ os2 \in {NoOs2, Os2}
Add == Len(names) < N /\ \E n \in Entries : (\A i \in 1..Len(names) : ~Same(names[i], n)) /\ names' = Append(names, n) /\ UNCHANGED os2
Next == Add
Spec == Init /\ [][Next]_<<names, os2>>
File == [names |-> names, os2 |-> os2, flags |-> [italic |-> FALSE, bold |-> TRUE], rev |-> 65536, axes |-> <<>>, insts |-> <<>>,
         path |-> <<47, 102, 46, 116>>, ps |-> FALSE]
L(i) == IF i = 1 THEN Listed(File, <<21, 16, 1>>) ELSE Listed(File, <<22, 17, 2>>)
\* no name is given twice, and each one of the table is there
InvNames == \A i \in 1..2 : LET l == L(i) IN
  /\ \A x, y \in 1..Len(l) : x # y => FamilyKey(l[x].s) # FamilyKey(l[y].s)
  /\ \A n \in 1..Len(names) : (names[n].id \in (IF i = 1 THEN {1, 16} ELSE {2, 17})) => \E x \in 1..Len(l) : FamilyKey(l[x].s) = FamilyKey(Trim(names[n].s))
\* the order of the table does not matter
InvOrder == \A i \in 1..2 : LET r == [File EXCEPT !.names = Reverse(names)] IN
  Listed(r, IF i = 1 THEN <<21, 16, 1>> ELSE <<22, 17, 2>>) = L(i)
\* languages go with the names
InvLangs == \A i \in 1..2 : LET l == L(i)  la == LangsOf(l) IN
  /\ Len(la) <= Len(l) /\ \A x \in 1..Len(la) : la[x] = l[x].la \/ (la[x] = "und" /\ l[x].la = "")
  /\ (la # <<>> => la[Len(la)] # "und")
\* the modern family in the first platform comes before the old one
InvPreferred == LET l == L(1) IN \A n \in 1..Len(names) : (names[n].pl = 3 /\ names[n].id = 16) => \E m \in 1..Len(names) : names[m].pl = 3 /\ names[m].id = 16 /\ Trim(names[m].s) = l[1].s
\* there is always a family, and a full name when there is a style
InvFamily == Families(File) # <<>> /\ \A x \in 1..Len(Families(File)) : Families(File)[x].s # <<>>
InvFull == L(2) # <<>> => LET f == FullName(Families(File), L(2)) IN \E x \in 1..Len(Families(File)) : LET s == Families(File)[x].s IN SubSeq(f, 1, Len(s)) = s
\* names of styles do not matter when the metrics are there
InvMetrics == os2.has => WeightV(File, 0, Texts(L(2)), WeightWords) = <<"Float", 90*FS>> /\ WidthV(File, 0, Texts(L(2)), WidthWords) = <<"Float", 75*FS>>
ASSUME \A x \in 0..1100 : WeightOf(x*100) <= WeightOf(x*100 + 100) /\ WeightOf(x*100) \in 0..215*FS
ASSUME \A i \in 1..Len(WeightTable) : i > 2 => WeightOf(WeightTable[i][1]*100) = WeightTable[i][2]*FS
HasStyle == \E i \in 1..Len(names) : names[i].id = 2 /\ names[i].pl = 3
Emit == (PrintHist /\ HasStyle) => PrintT("HIST " \o ToJson(File))
=============================================================================
