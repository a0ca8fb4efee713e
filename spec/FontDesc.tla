----------------------------- MODULE FontDesc -----------------------------
(* Font descriptions: a map from fields to values, with the set of fields that
   were set.  A word is a sequence of one-character strings; a family list is a
   sequence of names, a name a sequence of words. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Fields == {"family", "style", "variant", "weight", "stretch", "size", "gravity", "variations"}
Default == [family |-> "", style |-> 0, variant |-> 0, weight |-> 400, stretch |-> 4,
            size |-> 0, abs |-> FALSE, gravity |-> 0, variations |-> "", mask |-> {}]

Put(d, f, v) == CASE f = "family" -> [d EXCEPT !.family = v]
                  [] f = "style" -> [d EXCEPT !.style = v]
                  [] f = "variant" -> [d EXCEPT !.variant = v]
                  [] f = "weight" -> [d EXCEPT !.weight = v]
                  [] f = "stretch" -> [d EXCEPT !.stretch = v]
                  [] f = "size" -> [d EXCEPT !.size = v[1], !.abs = v[2]]
                  [] f = "gravity" -> [d EXCEPT !.gravity = v]
                  [] f = "variations" -> [d EXCEPT !.variations = v]
Get(d, f) == CASE f = "family" -> d.family
               [] f = "style" -> d.style
               [] f = "variant" -> d.variant
               [] f = "weight" -> d.weight
               [] f = "stretch" -> d.stretch
               [] f = "size" -> <<d.size, d.abs>>
               [] f = "gravity" -> d.gravity
               [] f = "variations" -> d.variations
AUTO == 4
Unset(d, fs) == LET e == FoldSet(LAMBDA f, acc : Put(acc, f, Get(Default, f)), d, fs) IN [e EXCEPT !.mask = @ \ fs]
\* the public setters
Set(d, f, v) ==
  CASE f = "size" /\ v[1] < 0 -> d
    [] f = "family" /\ v = "" -> Unset(d, {"family"})
    [] f = "variations" /\ v = "" -> Unset(d, {"variations"})
    [] f = "gravity" /\ v = AUTO -> Unset(d, {"gravity"})
    [] OTHER -> [Put(d, f, v) EXCEPT !.mask = @ \cup {f}]
Merge(d, e, replace) ==
  LET fs == IF replace THEN e.mask ELSE e.mask \ d.mask
      r == FoldSet(LAMBDA f, acc : Put(acc, f, Get(e, f)), d, fs) IN
  [r EXCEPT !.mask = @ \cup fs]

\* what an observer sees: the values of all the fields
Fieldsof(d) == [d EXCEPT !.mask = {}]

-----------------------------------------------------------------------------
(* text form *)
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerL == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
LowMap == TLCEval([x \in Range(Upper) |-> LowerL[CHOOSE i \in 1..26 : Upper[i] = x]])
Low(ch) == IF ch \in DOMAIN LowMap THEN LowMap[ch] ELSE ch
Str(w) == FoldLeft(LAMBDA acc, ch : acc \o ch, "", w)
Norm(w) == FoldLeft(LAMBDA acc, ch : IF ch = "-" THEN acc ELSE acc \o Low(ch), "", w)
LowStr(w) == FoldLeft(LAMBDA acc, ch : acc \o Low(ch), "", w)

\* word -> <<field, value>>, dashes removed
Words ==
  [x \in {"thin"} |-> <<"weight", 100>>] @@ [x \in {"ultralight", "extralight"} |-> <<"weight", 200>>] @@
  [x \in {"light"} |-> <<"weight", 300>>] @@ [x \in {"semilight", "demilight"} |-> <<"weight", 350>>] @@
  [x \in {"book"} |-> <<"weight", 380>>] @@ [x \in {"regular"} |-> <<"weight", 400>>] @@
  [x \in {"medium"} |-> <<"weight", 500>>] @@ [x \in {"semibold", "demibold"} |-> <<"weight", 600>>] @@
  [x \in {"bold"} |-> <<"weight", 700>>] @@ [x \in {"ultrabold", "extrabold"} |-> <<"weight", 800>>] @@
  [x \in {"heavy", "black"} |-> <<"weight", 900>>] @@
  [x \in {"ultraheavy", "extraheavy", "ultrablack", "extrablack"} |-> <<"weight", 1000>>] @@
  [x \in {"roman"} |-> <<"style", 0>>] @@ [x \in {"oblique"} |-> <<"style", 1>>] @@ [x \in {"italic"} |-> <<"style", 2>>] @@
  [x \in {"smallcaps"} |-> <<"variant", 1>>] @@ [x \in {"allsmallcaps"} |-> <<"variant", 2>>] @@
  [x \in {"petitecaps"} |-> <<"variant", 3>>] @@ [x \in {"allpetitecaps"} |-> <<"variant", 4>>] @@
  [x \in {"unicase"} |-> <<"variant", 5>>] @@ [x \in {"titlecaps"} |-> <<"variant", 6>>] @@
  [x \in {"ultracondensed"} |-> <<"stretch", 0>>] @@ [x \in {"extracondensed"} |-> <<"stretch", 1>>] @@
  [x \in {"condensed"} |-> <<"stretch", 2>>] @@ [x \in {"semicondensed"} |-> <<"stretch", 3>>] @@
  [x \in {"semiexpanded"} |-> <<"stretch", 5>>] @@ [x \in {"expanded"} |-> <<"stretch", 6>>] @@
  [x \in {"extraexpanded"} |-> <<"stretch", 7>>] @@ [x \in {"ultraexpanded"} |-> <<"stretch", 8>>] @@
  [x \in {"south", "notrotated"} |-> <<"gravity", 0>>] @@ [x \in {"east", "rotatedleft"} |-> <<"gravity", 1>>] @@
  [x \in {"north", "upsidedown"} |-> <<"gravity", 2>>] @@ [x \in {"west", "rotatedright"} |-> <<"gravity", 3>>]

DigitVal == [x \in {"0","1","2","3","4","5","6","7","8","9"} |->
   CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "4" -> 4
     [] x = "5" -> 5 [] x = "6" -> 6 [] x = "7" -> 7 [] x = "8" -> 8 [] x = "9" -> 9]
AllDigits(w) == w # <<>> /\ Range(w) \subseteq DOMAIN DigitVal
IntOf(w) == FoldLeft(LAMBDA acc, ch : 10*acc + DigitVal[ch], 0, w)
WeightPrefix == <<"w","e","i","g","h","t","=">>
IsWeightInt(w) == /\ Len(w) > 7 /\ SubSeq(w, 1, 7) = WeightPrefix /\ AllDigits(SubSeq(w, 8, Len(w)))

IsOption(w) == Norm(w) = "normal" \/ Norm(w) \in DOMAIN Words \/ IsWeightInt(w)
ApplyOption(d, w) ==
  IF Norm(w) = "normal" THEN d
  ELSE IF IsWeightInt(w) THEN Set(d, "weight", IntOf(SubSeq(w, 8, Len(w))))
  ELSE LET p == Words[Norm(w)] IN Set(d, p[1], p[2])

(* a token is a record: w the word, num: is it a decimal number with an optional "px",
   size its value in 1/1024 (rounded), -1 when out of the accepted range *)
RECURSIVE Options(_, _)
Options(d, ts) == IF ts # <<>> /\ IsOption(Last(ts).w) THEN Options(ApplyOption(d, Last(ts).w), Front(ts)) ELSE [d |-> d, rest |-> ts]

\* the names of a list of words: joined by spaces, separated by commas, trimmed; the trailing commas are dropped
RECURSIVE DropEmptyEnd(_)
DropEmptyEnd(ns) == IF ns # <<>> /\ Last(ns) = "" THEN DropEmptyEnd(Front(ns)) ELSE ns
Trim(s) == LET i0 == {i \in 1..Len(s) : s[i] # " "} IN
           IF i0 = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in i0 : \A j \in i0 : i <= j, CHOOSE i \in i0 : \A j \in i0 : i >= j)
RECURSIVE SplitComma(_)
SplitComma(s) == LET is == {i \in 1..Len(s) : s[i] = ","} IN
  IF is = {} THEN <<Str(Trim(s))>>
  ELSE LET i == CHOOSE i \in is : \A j \in is : i <= j IN
       <<Str(Trim(SubSeq(s, 1, i-1)))>> \o SplitComma(SubSeq(s, i+1, Len(s)))
JoinWords(ts) == FoldLeft(LAMBDA acc, t : IF acc = <<>> THEN t.w ELSE acc \o <<" ">> \o t.w, <<>>, ts)
JoinNames(ns) == FoldLeft(LAMBDA acc, n : IF acc[1] THEN <<FALSE, n>> ELSE <<FALSE, acc[2] \o "," \o n>>, <<TRUE, "">>, ns)[2]
FamilyOf(ts) == JoinNames(DropEmptyEnd(SplitComma(JoinWords(ts))))

ParsedDefault == [Default EXCEPT !.mask = {"style", "weight", "variant", "stretch"}]
Parse(ts) ==
  LET hasV == ts # <<>> /\ Last(ts).w[1] = "@"
      d1 == IF hasV THEN [ParsedDefault EXCEPT !.variations = Str(Tail(Last(ts).w)), !.mask = @ \cup {"variations"}] ELSE ParsedDefault
      t1 == IF hasV THEN Front(ts) ELSE ts
      hasS == t1 # <<>> /\ Last(t1).num /\ Last(t1).size >= 0
      d2 == IF hasS THEN Set(d1, "size", <<Last(t1).size, Last(t1).px>>) ELSE d1
      o == Options(d2, IF hasS THEN Front(t1) ELSE t1)
      fam == IF o.rest = <<>> THEN "" ELSE FamilyOf(o.rest) IN
  IF fam = "" THEN o.d ELSE Set(o.d, "family", fam)

(* one way to write a description so that it reads back: used to check the grammar itself.
   dm: family as a sequence of names, each a sequence of tokens *)
WordOf(f, v) ==   \* a word for each value of each field, "" for none
  IF \E x \in DOMAIN Words : Words[x] = <<f, v>> THEN CHOOSE x \in DOMAIN Words : Words[x] = <<f, v>> ELSE ""
=============================================================================
