------------------------------ MODULE MC_Match ------------------------------
(* Small queries and sets of two or three fonts. *)
EXTENDS Match, TLC, Json
CONSTANTS PrintHist
VARIABLES p, f1, f2, f3, st
St(s) == <<"String", s>>
A == St(<<97>>)  B == St(<<98>>)  En == <<101, 110>>  Fr == <<102, 114>>
Fams == { << <<A, "s">>, <<B, "w">> >>, << <<A, "w">>, <<B, "s">> >>, << <<A, "s">> >>, << <<B, "w">> >> }
Langs == { << <<<<"Langset", {En}>>, "s">>, <<<<"Langset", {Fr}>>, "s">> >>, << <<St(Fr), "s">> >> }
Pats == {[family |-> f, lang |-> l, weight |-> << <<<<"Int", 80>>, "s">> >>, order |-> << <<<<"Int", 0>>, "s">> >>] : f \in Fams, l \in Langs}
One(v) == << <<v, "s">> >>
Fonts == {[family |-> One(f), lang |-> One(<<"Langset", l>>), weight |-> One(<<"Int", w>>), charset |-> One(<<"Charset", cs>>)] :
           f \in {A, B}, l \in {{En}, {Fr}, {En, Fr}}, w \in {80, 200}, cs \in {{1}, {1, 2}}}
F2 == {f \in Fonts : f.weight = One(<<"Int", 80>>)}
F3 == {f \in Fonts : f.weight = One(<<"Int", 200>>) /\ f.charset = One(<<"Charset", {1}>>)}
Some == CHOOSE f \in Fonts : TRUE
Init == p \in Pats /\ f1 \in Fonts /\ f2 = Some /\ f3 = Some /\ st = 0
Next == st = 0 /\ st' = 1 /\ f2' \in F2 /\ f3' \in F3 /\ UNCHANGED <<p, f1>>
Spec == Init /\ [][Next]_<<p, f1, f2, f3, st>>
Fs == <<f1, f2, f3>>
Fo == [i \in 1..3 |-> Put(Fs[i], "order", One(<<"Int", i>>))]
\* the closest is no worse than any other, whatever the order of the set
InvClosest == LET i == Closest(p, Fs)  r == Closest(p, <<f3, f2, f1>>) IN
  /\ \A j \in 1..3 : ~Less(Score(p, Fs[j]), Score(p, Fs[i]))
  /\ Score(p, <<f3, f2, f1>>[r]) = Score(p, Fs[i])
\* a strong family is more important than the language, a weak one is not
InvStrong == (p.family[1] = <<A, "s">> /\ f1.family = One(A) /\ f2.family # One(A) /\ f3.family # One(A)) => Closest(p, Fs) = 1
InvPerm == LET o == SortedFonts(p, Fo) IN Len(o) = 3 /\ {o[i] : i \in 1..3} = 1..3
InvTrim == LET o == SortedFonts(p, Fo)  t == Trimmed(o, 1, {}, Fo) IN
  /\ UNION {CharsOf(Fo[t[i]]) : i \in 1..Len(t)} = AllChars(Fo)
  /\ t # <<>> /\ t[1] = o[1]
InvRender == LET r == Rendered(p, f1) IN DOMAIN r = DOMAIN p \cup DOMAIN f1 /\ r.family = f1.family
J(v) == IF Ty(v) \in {"Charset", "Langset"} THEN <<v[1], SetToSeq(v[2])>> ELSE v
JP(q) == [o \in DOMAIN q |-> [i \in 1..Len(q[o]) |-> <<J(q[o][i][1]), q[o][i][2]>>]]
Emit == (PrintHist /\ st = 1) => PrintT("HIST " \o ToJson([p |-> JP(p), fs |-> [i \in 1..3 |-> JP(Fs[i])]]))
=============================================================================
