------------------------------ MODULE Segment ------------------------------
(* Text boundaries: UAX #29 (grapheme clusters, words, sentences) and UAX #14 (line breaks), as rules
   over a text t of characters (records of properties). Position p (0..Len(t)) is in front of
   character p+1 (1-based); rules are read at the positions 1..Len(t)-1. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max2(a, b) == IF a > b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : y >= x

(* ---------------------------------------------------------------- grapheme clusters *)
GRIBefore(t, p) == LET S == {j \in 0..p : \A i \in j+1..p : t[i].gcb = "Regional_Indicator"} IN p - SetMin(S)
GEmojiBefore(t, p) ==      \* ExtPict Extend* ZWJ ends at p
  /\ t[p].gcb = "ZWJ"
  /\ \E j \in 1..p-1 : t[j].ep /\ \A i \in j+1..p-1 : t[i].gcb = "Extend"
GBreak(t, p) ==
  LET a == t[p].gcb  b == t[p+1].gcb IN
  IF a = "CR" /\ b = "LF" THEN FALSE
  ELSE IF a \in {"CR", "LF", "Control"} \/ b \in {"CR", "LF", "Control"} THEN TRUE
  ELSE IF a = "L" /\ b \in {"L", "V", "LV", "LVT"} THEN FALSE
  ELSE IF a \in {"LV", "V"} /\ b \in {"V", "T"} THEN FALSE
  ELSE IF a \in {"LVT", "T"} /\ b = "T" THEN FALSE
  ELSE IF b \in {"Extend", "ZWJ", "SpacingMark"} THEN FALSE
  ELSE IF a = "Prepend" THEN FALSE
  ELSE IF t[p+1].ep /\ GEmojiBefore(t, p) THEN FALSE
  ELSE IF b = "Regional_Indicator" /\ GRIBefore(t, p) % 2 = 1 THEN FALSE
  ELSE TRUE

(* ---------------------------------------------------------------- words *)
WNl == {"CR", "LF", "Newline"}
WEx == {"Extend", "Format", "ZWJ"}
(* WB4: i is absorbed by the character before *)
WAbs(t, i) == i > 1 /\ t[i].wb \in WEx /\ t[i-1].wb \notin WNl
WBase(t, i) == SetMax({j \in 1..i : ~WAbs(t, j)})      \* the character that i belongs to
WPrev(t, i) == WBase(t, i - 1)                       \* the one before i, a base character
WCls(t, i) == IF i < 1 \/ i > Len(t) THEN "none" ELSE t[i].wb
WNextI(t, i) == LET S == {j \in i+1..Len(t) : ~WAbs(t, j)} IN IF S = {} THEN 0 ELSE SetMin(S)
AHL == {"ALetter", "Hebrew_Letter"}
MidLQ == {"MidLetter", "MidNumLet", "Single_Quote"}
MidNQ == {"MidNum", "MidNumLet", "Single_Quote"}
RECURSIVE WRI(_, _)
WRI(t, b) == IF t[b].wb /= "Regional_Indicator" THEN 0 ELSE 1 + (IF b = 1 THEN 0 ELSE WRI(t, WPrev(t, b)))
WBreak(t, p) ==
  LET cur == t[p+1].wb
      bi == WBase(t, p)                 pr == t[bi].wb
      ppi == IF bi = 1 THEN 0 ELSE WPrev(t, bi)   pp == WCls(t, ppi)
      ni == WNextI(t, p+1)              nx == WCls(t, ni) IN
  IF t[p].wb = "CR" /\ cur = "LF" THEN FALSE
  ELSE IF t[p].wb \in WNl \/ cur \in WNl THEN TRUE
  ELSE IF t[p].wb = "ZWJ" /\ t[p+1].ep THEN FALSE
  ELSE IF t[p].wb = "WSegSpace" /\ cur = "WSegSpace" THEN FALSE
  ELSE IF cur \in WEx THEN FALSE
  ELSE IF pr \in AHL /\ cur \in AHL THEN FALSE
  ELSE IF pr \in AHL /\ cur \in MidLQ /\ nx \in AHL THEN FALSE
  ELSE IF pp \in AHL /\ pr \in MidLQ /\ cur \in AHL THEN FALSE
  ELSE IF pr = "Hebrew_Letter" /\ cur = "Single_Quote" THEN FALSE
  ELSE IF pr = "Hebrew_Letter" /\ cur = "Double_Quote" /\ nx = "Hebrew_Letter" THEN FALSE
  ELSE IF pp = "Hebrew_Letter" /\ pr = "Double_Quote" /\ cur = "Hebrew_Letter" THEN FALSE
  ELSE IF pr \in AHL \cup {"Numeric"} /\ cur \in AHL \cup {"Numeric"} THEN FALSE
  ELSE IF pp = "Numeric" /\ pr \in MidNQ /\ cur = "Numeric" THEN FALSE
  ELSE IF pr = "Numeric" /\ cur \in MidNQ /\ nx = "Numeric" THEN FALSE
  ELSE IF pr = "Katakana" /\ cur = "Katakana" THEN FALSE
  ELSE IF pr \in AHL \cup {"Numeric", "Katakana", "ExtendNumLet"} /\ cur = "ExtendNumLet" THEN FALSE
  ELSE IF pr = "ExtendNumLet" /\ cur \in AHL \cup {"Numeric", "Katakana"} THEN FALSE
  ELSE IF cur = "Regional_Indicator" /\ WRI(t, bi) % 2 = 1 THEN FALSE
  ELSE TRUE

(* ---------------------------------------------------------------- sentences *)
SPara == {"Sep", "CR", "LF"}
SEx == {"Extend", "Format"}
SAbs(t, i) == i > 1 /\ t[i].sb \in SEx /\ t[i-1].sb \notin SPara
SBases(t, lo, hi) == LET RECURSIVE F(_)
                         F(i) == IF i > hi THEN <<>> ELSE IF SAbs(t, i) THEN F(i+1) ELSE <<t[i].sb>> \o F(i+1)
                     IN F(lo)
(* the lengths of the suffixes of s that match SATerm Close* Sp* *)
STail(s, terms) == {j \in 1..Len(s) : s[j] \in terms /\ \E m \in j..Len(s) : (\A i \in j+1..m : s[i] = "Close") /\ (\A i \in m+1..Len(s) : s[i] = "Sp")}
SBreak(t, p) ==
  LET cur == t[p+1].sb
      s == SBases(t, 1, p)
      after == SBases(t, p+1, Len(t))
      n == Len(s)
      SAT == {"ATerm", "STerm"} IN
  IF t[p].sb = "CR" /\ cur = "LF" THEN FALSE
  ELSE IF t[p].sb \in SPara THEN TRUE
  ELSE IF SAbs(t, p+1) THEN FALSE
  ELSE IF s[n] = "ATerm" /\ cur = "Numeric" THEN FALSE
  ELSE IF n > 1 /\ s[n-1] \in {"Upper", "Lower"} /\ s[n] = "ATerm" /\ cur = "Upper" THEN FALSE
  ELSE IF STail(s, {"ATerm"}) /= {} /\ \E j \in 1..Len(after) : after[j] = "Lower" /\ \A i \in 1..j-1 : after[i] \notin {"OLetter", "Upper", "Lower", "Sep", "CR", "LF", "STerm", "ATerm"} THEN FALSE
  ELSE IF STail(s, SAT) /= {} /\ cur \in {"SContinue"} \cup SAT THEN FALSE
  ELSE IF (\E j \in STail(s, SAT) : \A i \in j+1..n : s[i] = "Close") /\ cur \in {"Close", "Sp"} \cup SPara THEN FALSE
  ELSE IF STail(s, SAT) /= {} /\ cur \in {"Sp"} \cup SPara THEN FALSE
  ELSE IF STail(s, SAT) /= {} THEN TRUE
  ELSE FALSE

(* ---------------------------------------------------------------- lines *)
LHard == {"BK", "CR", "LF", "NL"}
LCls(ch) == IF ch.lb \in {"AI", "SG", "XX"} THEN "AL"
            ELSE IF ch.lb = "SA" THEN IF ch.gc \in {"Mn", "Mc"} THEN "CM" ELSE "AL"
            ELSE IF ch.lb = "CJ" THEN "NS" ELSE ch.lb
LComb == {"CM", "ZWJ"}
LAbs(t, i) == LCls(t[i]) \in LComb /\ i > 1 /\ LCls(t[i-1]) \notin LHard \cup {"SP", "ZW"}
LBases(t, lo, hi) == LET RECURSIVE F(_)
                         F(i) == IF i > hi THEN <<>>
                                 ELSE IF LAbs(t, i) THEN F(i+1)
                                 ELSE <<[cl |-> IF LCls(t[i]) \in LComb THEN "AL" ELSE LCls(t[i])] >> \o F(i+1)
                     IN F(lo)
(* s without the spaces at its end *)
RECURSIVE Unspaced(_)
Unspaced(s) == IF s /= <<>> /\ s[Len(s)].cl = "SP" THEN Unspaced(SubSeq(s, 1, Len(s) - 1)) ELSE s
LastCl(s) == IF s = <<>> THEN "sot" ELSE s[Len(s)].cl
ALL == {"AL", "HL"}
IDL == {"ID", "EB", "EM"}
Jamo == {"JL", "JV", "JT", "H2", "H3"}
(* NU (NU|SY|IS)* (CL|CP)? ends s; closed: with the closing mark *)
RECURSIVE NumEnd(_)
NumEnd(s) == IF s = <<>> THEN FALSE
             ELSE IF LastCl(s) = "NU" THEN TRUE
             ELSE IF LastCl(s) \in {"SY", "IS"} THEN NumEnd(SubSeq(s, 1, Len(s) - 1))
             ELSE FALSE
NumClosed(s) == NumEnd(s) \/ (LastCl(s) \in {"CL", "CP"} /\ NumEnd(SubSeq(s, 1, Len(s) - 1)))
LRI(s) == LET S == {j \in 0..Len(s) : \A i \in j+1..Len(s) : s[i].cl = "RI"} IN Len(s) - SetMin(S)
LBreak(t, p) ==
  LET s == LBases(t, 1, p)
      n == Len(s)
      pr == s[n].cl
      u == Unspaced(s)      \* before the spaces
      pu == LastCl(u)
      raw == LCls(t[p+1])
      cur == IF raw \in LComb THEN "AL" ELSE raw
      pp == IF n > 1 THEN s[n-1].cl ELSE "sot"
      rest == LBases(t, p+1, Len(t))
      nx == IF Len(rest) > 1 THEN rest[2].cl ELSE "eot" IN
  CASE pr = "BK" -> TRUE
    [] pr = "CR" /\ cur = "LF" -> FALSE
    [] pr \in {"CR", "LF", "NL"} -> TRUE
    [] cur \in LHard -> FALSE                                                   \* 6
    [] cur \in {"SP", "ZW"} -> FALSE                                            \* 7
    [] pu = "ZW" -> TRUE                                                        \* 8
    [] LCls(t[p]) = "ZWJ" -> FALSE                                              \* 8a
    [] LAbs(t, p+1) -> FALSE                                                    \* 9
    [] cur = "WJ" \/ pr = "WJ" -> FALSE                                         \* 11
    [] pr = "GL" -> FALSE                                                       \* 12
    [] cur = "GL" /\ pr \notin {"SP", "BA", "HY"} -> FALSE                      \* 12a
    [] cur = "EX" -> FALSE                                                      \* 13
    [] cur \in {"CL", "CP", "IS", "SY"} /\ pr /= "NU" -> FALSE
    [] pu = "OP" -> FALSE                                                       \* 14
    [] pu = "QU" /\ cur = "OP" -> FALSE                                         \* 15
    [] pu \in {"CL", "CP"} /\ cur = "NS" -> FALSE                               \* 16
    [] pu = "B2" /\ cur = "B2" -> FALSE                                         \* 17
    [] pr = "SP" -> TRUE                                                        \* 18
    [] cur = "QU" \/ pr = "QU" -> FALSE                                         \* 19
    [] cur = "CB" \/ pr = "CB" -> TRUE                                          \* 20
    [] cur \in {"BA", "HY", "NS"} \/ pr = "BB" -> FALSE                         \* 21
    [] pp = "HL" /\ pr \in {"HY", "BA"} -> FALSE                                \* 21a
    [] pr = "SY" /\ cur = "HL" -> FALSE                                         \* 21b
    [] cur = "IN" /\ pr \in ALL \cup IDL \cup {"EX", "IN", "NU"} -> FALSE       \* 22
    [] pr \in ALL /\ cur = "NU" -> FALSE                                        \* 23
    [] pr = "NU" /\ cur \in ALL -> FALSE
    [] pr = "PR" /\ cur \in IDL -> FALSE                                        \* 23a
    [] pr \in IDL /\ cur = "PO" -> FALSE
    [] pr \in {"PR", "PO"} /\ cur \in ALL -> FALSE                              \* 24
    [] pr \in ALL /\ cur \in {"PR", "PO"} -> FALSE
    [] pr \in {"PR", "PO"} /\ cur = "NU" -> FALSE                               \* 25, example 7 of the customizations
    [] pr \in {"PR", "PO"} /\ cur \in {"OP", "HY"} /\ nx = "NU" -> FALSE
    [] pr \in {"OP", "HY"} /\ cur = "NU" -> FALSE
    [] NumEnd(s) /\ cur \in {"NU", "SY", "IS", "CL", "CP"} -> FALSE
    [] NumClosed(s) /\ cur \in {"PO", "PR"} -> FALSE
    [] pr = "JL" /\ cur \in {"JL", "JV", "H2", "H3"} -> FALSE                   \* 26
    [] pr \in {"JV", "H2"} /\ cur \in {"JV", "JT"} -> FALSE
    [] pr \in {"JT", "H3"} /\ cur = "JT" -> FALSE
    [] pr \in Jamo /\ cur \in {"PO", "IN"} -> FALSE                                      \* 27
    [] pr = "PR" /\ cur \in Jamo -> FALSE
    [] pr \in ALL /\ cur \in ALL -> FALSE                                       \* 28
    [] pr = "IS" /\ cur \in ALL -> FALSE                                        \* 29
    [] pr \in ALL \cup {"NU"} /\ cur = "OP" -> FALSE                              \* 30
    [] pr = "CP" /\ cur \in ALL \cup {"NU"} -> FALSE
    [] cur = "RI" /\ LRI(s) % 2 = 1 -> FALSE                                    \* 30a
    [] pr = "EB" /\ cur = "EM" -> FALSE                                         \* 30b
    [] OTHER -> TRUE                                                            \* 31
LMandatory(t, p) == LCls(t[p]) \in {"BK", "LF", "NL"} \/ (LCls(t[p]) = "CR" /\ t[p+1].r /= 10)

(* the classes before which a line may break inside a grapheme cluster *)
LInside == LComb \cup Jamo \cup {"EM", "RI"}

(* ---------------------------------------------------------------- spaces, words as ranges, sentences as ranges *)
White(ch) == ch.gc \in {"Zs", "Zl", "Zp"} \/ ch.r \in {9, 10, 12, 13}
Expandable(ch) == ch.r \in {32, 160}

Letters == {"Lu", "Ll", "Lt", "Lm", "Lo"}
Digits == {"Nd", "Nl", "No"}
Marks == {"Mn", "Mc", "Me", "Cf"}
InWord(ch) == ch.gc \in Letters \cup Digits
JaKind(r) == IF r >= 12352 /\ r <= 12447 THEN "hira"
             ELSE IF r >= 12448 /\ r <= 12543 THEN "kata"
             ELSE IF r >= 12032 /\ r <= 12255 THEN "kanji"
             ELSE IF r >= 12256 /\ r <= 12351 THEN "ja" ELSE "no"
(* words: maximal runs of letters and digits, with the marks and format characters between; in a
   word that began with a letter, a change of Japanese writing starts another word *)
JaCut(a, b) == LET x == JaKind(a)  y == JaKind(b) IN
  \/ x = "hira" /\ y /= "hira"
  \/ x = "kata" /\ y \notin {"kata", "hira"}
  \/ x = "kanji" /\ y \notin {"hira", "kanji"}
  \/ x = "ja" /\ y = "no"
  \/ x = "no" /\ y /= "no"
WordFlags(t) ==
  LET n == Len(t)
      step(st, i) ==       \* st: [in: "none"/"L"/"N", last: rune, start, end: sets of positions]
        LET ch == t[i]  p == i - 1 IN
        IF st.in /= "none" THEN
           IF ch.gc \in Marks THEN st
           ELSE IF ch.gc \in Letters THEN
             IF st.in = "L" /\ JaCut(st.last, ch.r) THEN [st EXCEPT !.last = ch.r, !.start = @ \cup {p}, !.end = @ \cup {p}]
             ELSE [st EXCEPT !.last = ch.r]
           ELSE IF ch.gc \in Digits THEN [st EXCEPT !.last = ch.r]
           ELSE [st EXCEPT !.in = "none", !.end = @ \cup {p}]
        ELSE IF ch.gc \in Letters THEN [st EXCEPT !.in = "L", !.last = ch.r, !.start = @ \cup {p}]
        ELSE IF ch.gc \in Digits THEN [st EXCEPT !.in = "N", !.last = ch.r, !.start = @ \cup {p}]
        ELSE st
      RECURSIVE F(_, _)
      F(st, i) == IF i > n THEN st ELSE F(step(st, i), i + 1)
      f == F([in |-> "none", last |-> 0, start |-> {}, end |-> {}], 1)
  IN [start |-> f.start, end |-> IF f.in = "none" THEN f.end ELSE f.end \cup {n}]

(* ---------------------------------------------------------------- deleting, hyphens *)
KeepsCluster(r) == \E q \in {<<32, 687>>, <<7680, 7935>>, <<1024, 1327>>, <<880, 1023>>, <<7936, 8191>>, <<12352, 12543>>, <<44032, 55203>>} : r >= q[1] /\ r <= q[2]
BaseBefore(t, p) == LET S == {j \in 1..p : t[j].gc \notin {"Mn", "Mc", "Me"}} IN IF S = {} THEN 0 ELSE t[SetMax(S)].r
HyphenChars == {45, 1418, 5120, 6150, 8208, 11799, 11840, 12448, 65123, 65293}
SpaceOrHyphen(ch) == White(ch) \/ ch.r \in HyphenChars
InsertsHyphen(t, p, wordBoundary) ==    \* p in 1..Len(t)-1
  \/ t[p].r = 8231
  \/ /\ ~wordBoundary
     /\ ~SpaceOrHyphen(t[p]) /\ ~SpaceOrHyphen(t[p+1])
     /\ IF t[p].sc = "zyyy" THEN t[p].r = 173 ELSE t[p].sc \notin {"hani", "hang", "hira", "kana"}
(* in front of the cursor position p: backspace deletes one character only *)
DeletesChar(t, p) ==
  LET b == BaseBefore(t, p) IN
  \/ ~KeepsCluster(b) /\ ~(\E j \in 1..p : t[j].r = b /\ t[j].em)
  \/ p > 0 /\ t[p].iv /= ""

(* the sentences between boundaries: without the spaces at their ends *)
Sentences(t, SB) ==
  LET next(b) == SetMin({e \in SB : e > b})
      bs == {b \in SB : \E e \in SB : e > b}
      inner(b) == {p \in b..next(b)-1 : ~White(t[p+1])} IN
  {[s |-> SetMin(inner(b)), e |-> SetMax(inner(b)) + 1] : b \in {x \in bs : inner(x) /= {}}}

(* ---------------------------------------------------------------- tailoring by script: t is one run
   st: [cursor, line, must, chr, del] *)
NotCursor(st, p) == IF p \in st.must THEN st ELSE [st EXCEPT !.cursor = @ \ {p}, !.line = @ \ {p}, !.chr = @ \ {p}]
Viramas == {2509, 2765, 2381, 3277, 3405, 2893, 2637, 3021, 3149}
RuneAt(t, i) == IF i \in 1..Len(t) THEN t[i].r ELSE 0
IndicStep(t, st, i) ==      \* character i (1-based) at position i-1
  IF i > 1 /\ RuneAt(t, i) \in {8204, 8205} THEN
    LET a == NotCursor(st, i - 1)
        b == IF i + 1 <= Len(t) THEN NotCursor(a, i) ELSE a
    IN IF i + 2 <= Len(t) /\ RuneAt(t, i+1) \in Viramas THEN NotCursor(b, i + 1) ELSE b
  ELSE st
SinhalaStep(t, st, i) ==
  LET r == RuneAt(t, i)  nx == RuneAt(t, i+1)  pr == RuneAt(t, i-1) IN
  IF (r = 3530 /\ nx = 8205) \/ (r = 8205 /\ nx = 3530) THEN [NotCursor(NotCursor(st, i - 1), i) EXCEPT !.conj = TRUE]
  ELSE IF st.conj /\ pr \in {8205, 3530} /\ r >= 3482 /\ r <= 3526 THEN [NotCursor(st, i - 1) EXCEPT !.conj = FALSE]
  ELSE IF ~st.conj /\ pr = 3530 /\ r /= 8205 THEN [st EXCEPT !.cursor = @ \cup {i - 1}]
  ELSE st
IndicComposites == {2507, 2508, 2524, 2525, 2526, 2527, 2611, 2614, 2649, 2650, 2651, 2652, 2654, 2888, 2891, 2892, 3144, 3271, 3272, 3274, 3275, 3018, 3019, 3020, 3143, 3402, 3403, 3404, 2353} \cup 2392..2399
ArabicKeeps(t, i) ==
  \/ RuneAt(t, i) \in 1570..1574
  \/ RuneAt(t, i-1) = 1575 /\ RuneAt(t, i) \in 1619..1621
  \/ RuneAt(t, i) = 1620 /\ RuneAt(t, i-1) \in {1608, 1610}
Tailor(script, t, st0) ==
  LET n == Len(t)
      st1 == [cursor |-> st0.cursor, line |-> st0.line, must |-> st0.must, chr |-> st0.chr, del |-> st0.del, conj |-> FALSE]
      RECURSIVE F(_, _)
      F(st, i) == IF i > n THEN st ELSE F(IF script = "indic" THEN IndicStep(t, st, i) ELSE SinhalaStep(t, st, i), i + 1)
      fin == CASE script \in {"indic", "sinh"} ->
                    LET f == F(st1, 1) IN
                    [f EXCEPT !.cursor = @ \cup ({0} \cap st0.cursor), !.del = @ \ {i \in 1..n : RuneAt(t, i) \in IndicComposites}]
               [] script = "arab" -> [st1 EXCEPT !.del = @ \ {i \in 1..n : ArabicKeeps(t, i)}]
               [] OTHER -> st1
  IN [cursor |-> fin.cursor, line |-> fin.line, must |-> fin.must, chr |-> fin.chr, del |-> fin.del]
(* ---------------------------------------------------------------- everything about one paragraph *)
Expected(t, script) ==
  LET n == Len(t)
      inner == 1..n-1
      ends == {0, n}
      gb == TLCEval({p \in inner : GBreak(t, p)})
      wb == TLCEval({p \in inner : WBreak(t, p) /\ (p \in gb \/ (t[p].gcb = "Regional_Indicator" /\ t[p+1].gcb = "Regional_Indicator"))})
      sb == TLCEval({p \in wb : SBreak(t, p)} \cup ends)
      lb == {p \in inner : (p \in gb \/ LCls(t[p+1]) \in LInside) /\ LBreak(t, p)} \cup {n}
      must == {p \in inner : LMandatory(t, p)} \cup {n}
      cursor == gb \cup ends
      tl == TLCEval(Tailor(script, t, [cursor |-> cursor, line |-> lb, must |-> must, chr |-> gb, del |-> {p \in cursor \ {n} : DeletesChar(t, p)}]))
      words == TLCEval(WordFlags(t))
      sents == TLCEval(IF n = 0 THEN {} ELSE Sentences(t, sb)) IN
  [cursor |-> tl.cursor, wordb |-> wb \cup ends, sentb |-> sb, line |-> tl.line, must |-> must,
   white |-> {p \in 0..n-1 : White(t[p+1])}, expand |-> {p \in 0..n-1 : Expandable(t[p+1])}, chr |-> tl.chr,
   words |-> words.start, worde |-> words.end, sents |-> {q.s : q \in sents}, sente |-> {q.e : q \in sents}, del |-> tl.del,
   hyphen |-> {p \in inner : InsertsHyphen(t, p, p \in wb)}, removes |-> {p \in inner : t[p].r = 8231},
   \* in front of a character that joins two words or not depending on what follows, a hyphen is not judged
   mid |-> {p \in inner : t[p+1].wb \in MidLQ \cup MidNQ \cup {"Double_Quote"}}]

(* Catalan: a middle dot between two l does not break a word *)
Ell == {108, 76}
Catalan(t, st) ==
  LET dots == {i \in 2..Len(t)-1 : t[i].r = 183 /\ t[i-1].r \in Ell /\ t[i+1].r \in Ell} IN
  [st EXCEPT !.worde = @ \ {i - 1 : i \in dots}, !.words = @ \ dots]

(* ---------------------------------------------------------------- attributes about breaks: a is
   [kind, start, end, v], the range in positions of the paragraph *)
BreakingHyphens == {173, 1440, 8208, 8210, 8211, 1470, 3851, 4961, 6104, 6106, 8231, 124}
KeptBreak(t, s, p) ==
  \/ p - 1 > s /\ t[p].r \in BreakingHyphens
  \/ t[p+1].lb # "SP" /\ \E j \in s+2..p : t[j].lb = "ZW" /\ \A i \in j+1..p : t[i].lb = "SP"
RemoveBreaks(t, st, s, e) ==
  [st EXCEPT !.line = {p \in @ : p <= s \/ p >= e \/ p \in st.must} \cup {p \in s+1..e-1 : KeptBreak(t, s, p)}]
Inside(S, s, e) == {p \in S : p > s /\ p < e}
ClosestBefore(S, p) == IF \E q \in S : q <= p THEN SetMax({q \in S : q <= p}) ELSE -1
ClosestAfter(S, p) == IF \E q \in S : q >= p THEN SetMin({q \in S : q >= p}) ELSE 1000000
Put(S, p, yes) == IF yes THEN S \cup {p} ELSE S \ {p}
ApplyBreakAttr(t, st0, a) ==
  LET n == Len(t)
      s == Max2(a.start, 0)
      e == IF a.end > n THEN n ELSE a.end IN
  CASE a.kind = "breaks" /\ a.v = 0 -> RemoveBreaks(t, [st0 EXCEPT !.chr = @ \ (s+1..e-1)], s, e)
    [] a.kind = "hyphens" /\ a.v = 0 -> [st0 EXCEPT !.hyphen = {p \in @ : p <= s \/ p >= e \/ p \in st0.removes}]
    [] a.kind = "word" ->
         LET st1 == RemoveBreaks(t, [st0 EXCEPT !.words = @ \ Inside(@, s, e), !.worde = @ \ Inside(@, s, e), !.wordb = @ \ Inside(@, s, e)], s, e)
             \* a word is under way at s, at e
             le == ClosestBefore(st1.worde, s)  ls == ClosestBefore(st1.words \ {s}, s - 1)
             inS == IF s \in st1.worde THEN TRUE ELSE ls > le
             st2 == IF a.start < 0 THEN st1
                    ELSE [st1 EXCEPT !.words = @ \cup {s}, !.worde = Put(@, s, inS), !.wordb = @ \cup {s}, !.line = IF s > 0 THEN @ \cup {s} ELSE @]
             ne == ClosestAfter(st2.worde \ {e}, e + 1)  ns == ClosestAfter(st2.words, e + 1)
             inE == IF e \in st2.words THEN TRUE ELSE ne < ns
         IN [st2 EXCEPT !.words = Put(@, e, inE), !.worde = @ \cup {e}, !.wordb = @ \cup {e}, !.line = IF inE THEN @ \cup {e} ELSE @]
    [] a.kind = "sentence" ->
         LET st1 == [st0 EXCEPT !.sents = @ \ Inside(@, s, e), !.sente = @ \ Inside(@, s, e), !.sentb = @ \ Inside(@, s, e)]
             le == ClosestBefore(st1.sente, s - 1)  ls == ClosestBefore(st1.sents, s - 1)
             inS == ls > le
             st2 == IF a.start < 0 THEN st1 ELSE [st1 EXCEPT !.sents = @ \cup {s}, !.sente = Put(@, s, inS), !.sentb = @ \cup {s}]
             ne == ClosestAfter(st2.sente, e + 1)  ns == ClosestAfter(st2.sents, e + 1)
             inE == ne < ns
         IN [st2 EXCEPT !.sents = Put(@, e, inE), !.sente = @ \cup {e}, !.sentb = @ \cup {e}]
    [] OTHER -> st0
(* the attributes on the paragraph [from, from+n) of the text, by kind *)
RECURSIVE ApplyAll(_, _, _)
ApplyAll(t, st, as) == IF as = <<>> THEN st ELSE ApplyAll(t, TLCEval(ApplyBreakAttr(t, st, Head(as))), Tail(as))
ParaAttrs(attrs, kind, from, n) ==
  LET here == SelectSeq(attrs, LAMBDA a : a.kind = kind /\ a.start < from + n /\ a.end > from)
  IN [i \in 1..Len(here) |-> [kind |-> kind, start |-> here[i].start - from, end |-> here[i].end - from, v |-> here[i].v]]
ParaFlags(t, single, lang, attrs, from) ==
  LET n == Len(t)
      e == Expected(t, "")
      base == IF lang = "ca" THEN Catalan(t, e) ELSE e
      blank == n = 0 \/ (~single /\ t[1].r \in {10, 13, 8233}) IN      \* a paragraph without a line of text keeps the default
  IF blank THEN e ELSE ApplyAll(t, base, ParaAttrs(attrs, "breaks", from, n) \o ParaAttrs(attrs, "word", from, n) \o ParaAttrs(attrs, "sentence", from, n) \o ParaAttrs(attrs, "hyphens", from, n))

(* paragraphs end with a newline; a text that ends with one has an empty paragraph after *)
ParaEnds(t, single) == {p \in 1..Len(t) : ~single /\ t[p].r \in {10, 13, 8233} /\ ~(t[p].r = 13 /\ p < Len(t) /\ t[p+1].r = 10)}
LayoutFlags(t, single, lang, attrs) ==
  LET n == Len(t)
      ends == ParaEnds(t, single)
      starts == {0} \cup ends
      to(s) == IF \E e \in ends : e > s THEN SetMin({e \in ends : e > s}) ELSE n
      pf == TLCEval([s \in starts |-> ParaFlags(SubSeq(t, s + 1, to(s)), single, lang, attrs, s)])
      all(F(_)) == UNION {{s + p : p \in {q \in F(pf[s]) : q < to(s) - s \/ to(s) = s \/ (to(s) = n /\ n \notin ends)}} : s \in starts}
  IN [starts |-> starts, cursor |-> all(LAMBDA r : r.cursor) \cup ends, line |-> all(LAMBDA r : r.line) \cup ends, must |-> all(LAMBDA r : r.must) \cup ends,
      wordb |-> all(LAMBDA r : r.wordb), sentb |-> all(LAMBDA r : r.sentb), white |-> all(LAMBDA r : r.white), expand |-> all(LAMBDA r : r.expand),
      chr |-> all(LAMBDA r : r.chr), words |-> all(LAMBDA r : r.words), worde |-> all(LAMBDA r : r.worde), sents |-> all(LAMBDA r : r.sents),
      sente |-> all(LAMBDA r : r.sente), del |-> all(LAMBDA r : r.del), hyphen |-> all(LAMBDA r : r.hyphen), removes |-> all(LAMBDA r : r.removes), mid |-> all(LAMBDA r : r.mid)]
=============================================================================
