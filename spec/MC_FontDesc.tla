---------------------------- MODULE MC_FontDesc ----------------------------
(* Histories of setters, resets and merges over two descriptions, and the text form of every
   description reached: written as words and read back it is the same. *)
EXTENDS FontDesc, Json
CONSTANTS Depth, PrintHist
VARIABLES d, e, h
vars == <<d, e, h>>
Tok(cs) == [w |-> cs, num |-> FALSE, size |-> 0, px |-> FALSE]
Foo == Tok(<<"F","o","o">>)
Bold == Tok(<<"B","o","l","d">>)
Ten == [w |-> <<"1","0">>, num |-> TRUE, size |-> 10240, px |-> FALSE]
Comma(ts) == Append(Front(ts), [Last(ts) EXCEPT !.w = Append(@, ","), !.num = FALSE])
\* family names with the tokens that write them
Fams == {<<Foo>>, <<Foo, Bold>>, <<Bold>>, <<Foo, Ten>>, <<Ten>>, Comma(<<Foo>>) \o <<Bold>>, Comma(<<Foo, Ten>>) \o <<Foo>>}
FamToks(f) == CHOOSE ts \in Fams : FamilyOf(ts) = f
Values(f) == CASE f = "family" -> {FamilyOf(ts) : ts \in Fams} \cup {""}
               [] f = "style" -> {0, 2}
               [] f = "variant" -> {0, 1}
               [] f = "weight" -> {400, 700, 555}
               [] f = "stretch" -> {4, 2}
               [] f = "size" -> {<<10240, FALSE>>, <<10240, TRUE>>, <<-1, FALSE>>}
               [] f = "gravity" -> {0, 2, AUTO}
               [] f = "variations" -> {"", "wght=2"}
Init == d = Default /\ e = Default /\ h = <<>>
Next == Len(h) < Depth /\
  \/ \E f \in Fields : \E v \in Values(f) : d' = Set(d, f, v) /\ h' = Append(h, [op |-> "set", f |-> f, v |-> v]) /\ UNCHANGED e
  \/ \E f \in Fields : d' = Unset(d, {f}) /\ h' = Append(h, [op |-> "unset", f |-> f, v |-> ""]) /\ UNCHANGED e
  \/ \E r \in BOOLEAN : e' = Merge(e, d, r) /\ h' = Append(h, [op |-> "merge", f |-> "", v |-> r]) /\ UNCHANGED d
  \/ d # Default /\ d' = Default /\ h' = Append(h, [op |-> "new", f |-> "", v |-> ""]) /\ UNCHANGED e
Spec == Init /\ [][Next]_vars
View == <<d, e, Len(h)>>

Chars(s) == CHOOSE w \in {<<"w","e","i","g","h","t","=","5","5","5">>} : TRUE
WToks(x, f) ==
  LET v == Get(x, f) IN
  IF v = Get(Default, f) /\ ~(f = "gravity" /\ f \in x.mask) THEN <<>>
  ELSE IF WordOf(f, v) = "" THEN <<Tok(Chars(v))>>
  ELSE <<[w |-> <<WordOf(f, v)>>, num |-> FALSE, size |-> 0, px |-> FALSE]>>
SizeTok(x) == IF "size" \notin x.mask THEN <<>> ELSE <<[w |-> <<"1", "0">>, num |-> TRUE, size |-> x.size, px |-> x.abs]>>
Written(x) ==
  LET opts == WToks(x, "weight") \o WToks(x, "style") \o WToks(x, "stretch") \o WToks(x, "variant") \o WToks(x, "gravity")
      ft == IF x.family = "" THEN <<>> ELSE FamToks(x.family)
      fam == IF ft = <<>> THEN <<>>
             ELSE IF IsOption(Last(ft).w) \/ (Last(ft).num /\ opts = <<>> /\ "size" \notin x.mask) THEN Comma(ft) ELSE ft IN
  fam \o opts \o SizeTok(x) \o (IF x.variations = "" THEN <<>> ELSE <<Tok(<<"@", x.variations>>)>>)
InvRoundTrip == \A x \in {d, e} : Fieldsof(Parse(Written(x))) = Fieldsof(x)
InvUnset == \A x \in {d, e} : \A f \in Fields \ x.mask : Get(x, f) = Get(Default, f)
InvMerge == \A r \in BOOLEAN : \A f \in Fields :
   Get(Merge(d, e, r), f) = IF f \in e.mask /\ (r \/ f \notin d.mask) THEN Get(e, f) ELSE Get(d, f)
Emit == (PrintHist /\ Len(h) = Depth) => PrintT("HIST " \o ToJson(h))
=============================================================================
