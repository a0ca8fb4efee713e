------------------------------ MODULE Breaking ------------------------------
(* Breaking of a paragraph in lines (property P04).
   q: a text, [w: natural widths of the characters, a: their attributes (one more than characters),
   hy: the width of a hyphen after the character].  Positions are from 0: position b is before
   character b+1.  Attributes: [lb: a line may end here, cb: a line may be broken here when
   words are, ins: a hyphen is inserted, rem: it replaces the character before, sp: white space] *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
LS == 8232
Sum(w, s, b) == FoldLeft(LAMBDA x, y : x + y, 0, SubSeq(w, s+1, b))
\* what ending a line at b changes: a hyphen, or the space before b which is not shown
Adjust(q, s, b) ==
  LET at == q.a[b+1] IN
  IF at.ins THEN q.hy[b] - (IF at.rem THEN q.w[b] ELSE 0)
  ELSE IF q.a[b].sp THEN -q.w[b] ELSE 0
Total(q, s, b) == Sum(q.w, s, b) + Adjust(q, s, b)
CanEnd(q, b, mode) == IF mode = "char" THEN q.a[b+1].cb ELSE q.a[b+1].lb
Opportunities(q, s, fe, mode) == {b \in (s+1)..(fe-1) : CanEnd(q, b, mode)}
\* fe: where the line has to end: the end of the paragraph, or after a line separator
NaturalEnd(q, s, fe) == Sum(q.w, s, fe)
\* the last space of a paragraph may not be counted
ShortEnd(q, s, fe) ==
  LET b == IF fe - 1 > s /\ q.ls[fe] THEN fe - 1 ELSE fe IN
  NaturalEnd(q, s, fe) - (IF q.a[b].sp THEN q.w[b] ELSE 0)
Max0(S) == CHOOSE x \in S : \A y \in S : y <= x
\* nothing fits: the first opportunity, or one which is not worse than those before
Least(q, s, fe, C) ==
  LET t(b) == IF b = fe THEN ShortEnd(q, s, fe) ELSE Total(q, s, b) IN
  {b \in C \cup {fe} : \A d \in C : d < b => t(b) <= t(d)}
Fitting(q, s, C, W) == {b \in C : Total(q, s, b) <= W}
\* when no word fits, the text is broken between characters in the first item which does not fit
\* (spaces at the end of a paragraph may be split from the item they were in: white)
ItemEnds(q, s, fe, white) == {b \in (s+1)..fe : b = fe \/ (q.item[b+1] # q.item[b] /\ (white \/ \E i \in (b+1)..fe : ~q.a[i].sp))}
\* (a line has at least one character, with those without width which follow)
FitsWhole(q, s, b, fe, W) == b = s+1 \/ (q.w[s+1] > W /\ Sum(q.w, s+1, b) = 0) \/ Sum(q.w, s, b) + (IF b < fe /\ q.a[b+1].lb THEN Adjust(q, s, b) ELSE 0) <= W
Min0(S) == CHOOSE x \in S : \A y \in S : x <= y
Misfits(q, s, fe, W, white) == {b \in ItemEnds(q, s, fe, white) : ~FitsWhole(q, s, b, fe, W)}
TooWide(q, s, fe, W, white) ==
  LET bad == Misfits(q, s, fe, W, white) IN
  IF bad = {} THEN s ELSE LET before == {b \in ItemEnds(q, s, fe, white) : b < Min0(bad)} IN IF before = {} THEN s ELSE Max0(before)
\* a line may end in, or before, the first item which does not fit with the hyphen it would end with
Near(q, s, fe, C, W, white) ==
  LET bad == Misfits(q, s, fe, W, white) n == IF bad = {} THEN {} ELSE {b \in C : b <= Min0(bad)} f == Fitting(q, s, n, W) IN
  IF f # {} THEN {Max0(f)} ELSE {b \in n : \A d \in n : d < b => Total(q, s, b) <= Total(q, s, d)}
NearChar(q, s, fe, word, C, W, white) ==
  LET bad == Misfits(q, s, fe, W, white) near == IF bad = {} THEN {} ELSE {b \in word : b <= Min0(bad)} IN
  IF bad = {} \/ Fitting(q, s, near, W) # {} THEN {}
  ELSE IF near = {} THEN Near(q, s, fe, C, W, white)
  ELSE {b \in C : b <= Min0(bad)}      \* a word could end, but its hyphen does not fit
WordChar(q, s, fe, W, C, from) ==
  LET cs == {b \in C : b >= from} IN
  IF Fitting(q, s, cs, W) # {} THEN {Max0(Fitting(q, s, cs, W))} ELSE Least(q, s, fe, cs) \cup Least(q, s, fe, C)
Pick(q, s, fe, C, W) == LET f == Fitting(q, s, C, W) IN IF f = {} THEN Least(q, s, fe, C)
  ELSE {Max0(f)} \cup UNION {Near(q, s, fe, C, W, white) : white \in BOOLEAN}
\* spaces which follow, when another item begins in them, may be put at the end of the line
Hanging(q, s, fe, C, res) ==
  {b \in C \cup {fe} :
     \E m \in res : /\ m < b
                    /\ \A i \in m..b : q.a[i].sp \/ q.w[i] = 0
                    /\ \E i \in (m+1)..b : q.item[i] # q.item[i-1]}
\* where a line which starts at s may end, W < 0: without limit
Ends(q, s, fe, W, mode) ==
  IF W < 0 \/ (NaturalEnd(q, s, fe) <= W /\ \A white \in BOOLEAN : Misfits(q, s, fe, W, white) = {}) THEN {fe}
  ELSE LET word == Opportunities(q, s, fe, "word")
           char == Opportunities(q, s, fe, "char")
           res == CASE mode = "word" -> Pick(q, s, fe, word, W)
                    [] mode = "char" -> Pick(q, s, fe, char, W)
                    [] OTHER -> (IF Fitting(q, s, word, W) # {} THEN Pick(q, s, fe, word, W)
                                 ELSE UNION {WordChar(q, s, fe, W, char \cup word, TooWide(q, s, fe, W, white)) : white \in BOOLEAN})
                                \cup UNION {NearChar(q, s, fe, word, char \cup word, W, white) : white \in BOOLEAN}
       IN res \cup Hanging(q, s, fe, CASE mode = "word" -> word [] mode = "char" -> char [] OTHER -> word \cup char, res) \cup (IF ShortEnd(q, s, fe) <= W THEN {fe} ELSE {})
\* the width of a line with an indent: first lines when it is positive, the others when negative
LineWidth(width, indent, center, first) ==
  IF width < 0 THEN -1
  ELSE LET d == IF center THEN 0 ELSE IF first /\ indent >= 0 THEN indent ELSE IF ~first /\ indent < 0 THEN -indent ELSE 0
       IN IF width < d THEN 0 ELSE width - d
\* the width of the glyphs of the line
Shown(q, s, e, fe) == IF e = fe THEN NaturalEnd(q, s, fe) ELSE Total(q, s, e)
=============================================================================
