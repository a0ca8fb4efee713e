---------------------------- MODULE MC_Segment ----------------------------
(* Boundaries found while a text is read character after character (with the few things such a reader
   remembers, and the boundaries it takes back), against the rules of UAX #29 on the whole text; and
   what holds between the kinds of boundaries. *)
EXTENDS Segment, SegChars, Json
CONSTANTS Len0, Chars0, PrintHist
VARIABLES txt, g, w, s
vars == <<txt, g, w, s>>
T == TLCEval([i \in 1..Len(txt) |-> SegChar(txt[i])])

(* graphemes: last class, parity of the regional indicators, state of the emoji sequence *)
G0 == [last |-> "sot", odd |-> FALSE, emoji |-> "no", brk |-> {}]
GStep(q, ch, p) ==
  LET a == q.last  b == ch.gcb
      joined == \/ a = "CR" /\ b = "LF"
                \/ /\ a \notin {"CR", "LF", "Control"} /\ b \notin {"CR", "LF", "Control"}
                   /\ \/ a = "L" /\ b \in {"L", "V", "LV", "LVT"}
                      \/ a \in {"LV", "V"} /\ b \in {"V", "T"}
                      \/ a \in {"LVT", "T"} /\ b = "T"
                      \/ b \in {"Extend", "ZWJ", "SpacingMark"}
                      \/ a = "Prepend"
                      \/ ch.ep /\ q.emoji = "zwj"
                      \/ b = "Regional_Indicator" /\ q.odd IN
  [last |-> b,
   odd |-> b = "Regional_Indicator" /\ ~q.odd,
   emoji |-> IF ch.ep THEN "pict" ELSE IF q.emoji = "pict" /\ b = "Extend" THEN "pict" ELSE IF q.emoji = "pict" /\ b = "ZWJ" THEN "zwj" ELSE "no",
   brk |-> IF p = 0 \/ joined THEN q.brk ELSE q.brk \cup {p}]

(* words: the two classes before, where the last one began *)
W0 == [pp |-> "sot", pr |-> "sot", at |-> 0, odd |-> FALSE, lastraw |-> "sot", brk |-> {}]
WStep(q, ch, p) ==
  LET b == ch.wb  nl == q.lastraw \in WNl
      ext == p > 0 /\ ~nl /\ b \in WEx
      crlf == q.lastraw = "CR" /\ b = "LF"
      zw == q.lastraw = "ZWJ" /\ ch.ep
      ss == q.lastraw = "WSegSpace" /\ b = "WSegSpace"
      plain == ~nl /\ b \notin WNl
      near == \/ q.pr \in AHL \cup {"Numeric"} /\ b \in AHL \cup {"Numeric"}
              \/ q.pr = "Hebrew_Letter" /\ b = "Single_Quote"
              \/ q.pr = "Katakana" /\ b = "Katakana"
              \/ q.pr \in AHL \cup {"Numeric", "Katakana", "ExtendNumLet"} /\ b = "ExtendNumLet"
              \/ q.pr = "ExtendNumLet" /\ b \in AHL \cup {"Numeric", "Katakana"}
              \/ b = "Regional_Indicator" /\ q.odd
      over == \/ q.pp \in AHL /\ q.pr \in MidLQ /\ b \in AHL
              \/ q.pp = "Hebrew_Letter" /\ q.pr = "Double_Quote" /\ b = "Hebrew_Letter"
              \/ q.pp = "Numeric" /\ q.pr \in MidNQ /\ b = "Numeric"
      joined == p = 0 \/ crlf \/ (plain /\ (zw \/ ss \/ ext \/ near \/ over))
      kept == IF plain /\ ~ext /\ over THEN q.brk \ {q.at} ELSE q.brk IN
  [pp |-> IF ext THEN q.pp ELSE q.pr, pr |-> IF ext THEN q.pr ELSE b, at |-> IF ext THEN q.at ELSE p,
   odd |-> IF ext THEN q.odd ELSE b = "Regional_Indicator" /\ ~(q.odd /\ plain), lastraw |-> b,
   brk |-> IF joined THEN kept ELSE kept \cup {p}]

(* sentences: where the reader stands after a terminator; a boundary after a full stop is taken back
   when the first letter after it turns out to be lower case *)
S0 == [letter |-> FALSE, mode |-> "no", back |-> -1, lastraw |-> "sot", brk |-> {}]
\* mode: no; A AC AS after a full stop (then closed, then spaced); S SC SS after another terminator; "AL" a full stop after a letter
SStep(q, ch, p) ==
  LET b == ch.sb
      para == q.lastraw \in SPara
      absorbed == p > 0 /\ ~para /\ b \in SEx
      term == IF b = "ATerm" THEN IF q.letter THEN "AL" ELSE "A" ELSE IF b = "STerm" THEN "S" ELSE "no"
      at == q.mode \in {"A", "AL", "AC", "AS"}
      fresh == [letter |-> b \in {"Upper", "Lower"}, mode |-> term, back |-> -1, lastraw |-> b, brk |-> q.brk] IN
  IF p = 0 THEN fresh
  ELSE IF q.lastraw = "CR" /\ b = "LF" THEN [fresh EXCEPT !.mode = "no"]
  ELSE IF para THEN [fresh EXCEPT !.brk = @ \cup {p}]
  ELSE IF absorbed THEN [q EXCEPT !.lastraw = b]
  ELSE IF q.mode \in {"A", "AL"} /\ b = "Numeric" THEN [fresh EXCEPT !.back = -1]
  ELSE IF q.mode = "AL" /\ b = "Upper" THEN fresh
  ELSE IF q.mode # "no" /\ (b \in SPara \cup {"SContinue", "ATerm", "STerm"}) THEN fresh
  ELSE IF q.mode # "no" /\ b = "Sp" THEN [q EXCEPT !.mode = IF at THEN "AS" ELSE "SS", !.letter = FALSE, !.lastraw = b]
  ELSE IF q.mode \in {"A", "AL", "AC"} /\ b = "Close" THEN [q EXCEPT !.mode = "AC", !.letter = FALSE, !.lastraw = b]
  ELSE IF q.mode \in {"S", "SC"} /\ b = "Close" THEN [q EXCEPT !.mode = "SC", !.letter = FALSE, !.lastraw = b]
  ELSE IF at /\ b = "Lower" THEN fresh
  ELSE IF q.mode # "no" THEN [fresh EXCEPT !.brk = @ \cup {p}, !.back = IF at /\ b \notin {"OLetter", "Upper"} THEN p ELSE -1]
  ELSE IF q.back >= 0 /\ b = "Lower" THEN [fresh EXCEPT !.brk = @ \ {q.back}]
  ELSE [fresh EXCEPT !.back = IF b \in {"OLetter", "Upper", "Lower", "ATerm", "STerm"} \cup SPara THEN -1 ELSE q.back]

Init == txt = <<>> /\ g = G0 /\ w = W0 /\ s = S0
Next == /\ Len(txt) < Len0
        /\ \E x \in Chars0 : LET ch == SegChar(x)  p == Len(txt) IN
             txt' = Append(txt, x) /\ g' = GStep(g, ch, p) /\ w' = WStep(w, ch, p) /\ s' = SStep(s, ch, p)
Spec == Init /\ [][Next]_vars
N == Len(txt)
Inner == 1..N-1
GB == TLCEval({p \in Inner : GBreak(T, p)})
WB == TLCEval({p \in Inner : WBreak(T, p)})
SB == TLCEval({p \in Inner : SBreak(T, p)})
LB == TLCEval({p \in Inner : LBreak(T, p)})
InvReaders == g.brk = GB /\ w.brk = WB /\ s.brk = SB
(* the kinds of boundaries *)
InvNested ==
  /\ \A p \in Inner : LMandatory(T, p) => p \in LB /\ p \in GB /\ p \in WB /\ p \in SB
  /\ \A p \in Inner : txt[p] = 13 /\ txt[p+1] = 10 => p \notin GB \cup WB \cup SB \cup LB
  /\ \A p \in LB \ GB : LCls(T[p+1]) \in LInside \/ T[p].gcb = "Prepend"
(* a newline separates: what comes after does not depend on what came before *)
InvParagraphs ==
  \A m \in 1..N-1 : txt[m] = 10 =>
    LET A == SubSeq(T, m+1, N) IN
    \A p \in 1..Len(A)-1 : /\ GBreak(A, p) = (p + m \in GB) /\ WBreak(A, p) = (p + m \in WB)
                           /\ SBreak(A, p) = (p + m \in SB) /\ LBreak(A, p) = (p + m \in LB)
(* an accent (of a character that is no newline) moves no word boundary *)
Accented(m) == SubSeq(T, 1, m) \o <<SegChar(2381)>> \o SubSeq(T, m+1, N)
InvAccent ==
  N >= 1 /\ N < Len0 => \A m \in 1..N : T[m].wb \notin WNl /\ T[m].gcb # "Control" /\ T[m].wb # "ZWJ" /\ ~(m < N /\ T[m].wb = "WSegSpace" /\ T[m+1].wb = "WSegSpace") =>
    LET A == Accented(m) IN
    \A p \in 1..N : IF p < m THEN WBreak(A, p) = (p \in WB) ELSE IF p = m THEN ~WBreak(A, p) ELSE WBreak(A, p) = (p - 1 \in WB)
(* words and sentences are disjoint ranges in order *)
InvRanges ==
  LET f == TLCEval(WordFlags(T))
      B == {p \in Inner : p \in WB /\ p \in SB} \cup {0, N}
      ss == IF N = 0 THEN {} ELSE Sentences(T, B) IN
  /\ Cardinality(f.start) = Cardinality(f.end)
  /\ \A p \in f.start : \E e \in f.end : e > p /\ \A q \in f.start : q > p => q >= e
  /\ \A q \in ss : q.s < q.e /\ ~White(T[q.s+1]) /\ ~White(T[q.e])
  /\ \A q, r \in ss : q = r \/ q.e <= r.s \/ r.e <= q.s
  /\ \A p \in Inner : ~White(T[p]) => \E q \in ss : q.s < p /\ p <= q.e
(* tailoring never moves a mandatory break *)
InvTailor ==
  LET must == {p \in Inner : LMandatory(T, p)} \cup {N}
      base == [cursor |-> GB \cup {0, N}, line |-> LB \cup {N}, must |-> must, chr |-> GB, del |-> {p \in GB : DeletesChar(T, p)}] IN
  \A sc \in {"indic", "sinh", "arab", ""} :
    LET q == Tailor(sc, T, base) IN
    /\ q.must = must /\ must \subseteq q.line /\ N \in q.cursor
    /\ q.line \subseteq base.line /\ q.chr \subseteq base.chr /\ (sc # "sinh" => q.cursor \subseteq base.cursor)
Emit == (PrintHist /\ N = Len0) => PrintT("HIST " \o ToJson(txt))
=============================================================================
