------------------------------ MODULE Itemize ------------------------------
(* Itemization: a text becomes a sequence of items, homogeneous in embedding level,
   script, language, requested attributes, orientation and font (property P02), the
   scripts of the characters being resolved as in UAX #24 (property P12).
   A text is a sequence of characters, records with the Unicode properties used. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Bidi, FontDesc

-----------------------------------------------------------------------------
(* script runs.  The script of a run is its first real script, Common if it has none.
   stack: the opening characters seen, with the run each is in; a closing character has
   the script of the run of its opening one *)
Unreal == {"zyyy", "zinh", "zzzz"}
Real(sc) == sc \notin Unreal
\* s: [runs: sequence of [from, to, sc], stack: sequence of [pr, run]]
StepScript(s, ch, i) ==
  LET n == Len(s.runs)
      cur == s.runs[n].sc
      m == IF ch.pr < 0 THEN {j \in 1..Len(s.stack) : s.stack[j].pr = -ch.pr} ELSE {}
      top == IF m = {} THEN 0 ELSE CHOOSE j \in m : \A o \in m : o <= j
      \* an unmatched closing character empties the stack
      st == CASE ch.pr < 0 -> SubSeq(s.stack, 1, IF top = 0 THEN 0 ELSE top - 1)
              [] OTHER -> s.stack
      sc == IF top # 0 THEN s.runs[s.stack[top].run].sc ELSE ch.sc
      same == ~Real(cur) \/ ~Real(sc) \/ cur = sc
      runs == IF same THEN [s.runs EXCEPT ![n].to = i, ![n].sc = IF Real(@) THEN @ ELSE IF Real(sc) THEN sc ELSE @]
              ELSE Append(s.runs, [from |-> i, to |-> i, sc |-> sc]) IN
  [runs |-> runs, stack |-> IF ch.pr > 0 THEN Append(st, [pr |-> ch.pr, run |-> Len(runs)]) ELSE st]
RECURSIVE ScriptFrom(_, _, _)
ScriptFrom(txt, i, s) == IF i > Len(txt) THEN s.runs ELSE ScriptFrom(txt, i+1, StepScript(s, txt[i], i))
ScriptRuns(txt) == IF txt = <<>> THEN <<>>
  ELSE ScriptFrom(txt, 1, [runs |-> <<[from |-> 1, to |-> 0, sc |-> "zyyy"]>>, stack |-> <<>>])
Scripts(txt) == LET rs == TLCEval(ScriptRuns(txt)) IN
  TLCEval([i \in 1..Len(txt) |-> LET n == CHOOSE n \in 1..Len(rs) : rs[n].from <= i /\ i <= rs[n].to IN <<n, rs[n].sc>>])

-----------------------------------------------------------------------------
(* emoji runs: the longest matches of the grammar of emoji sequences *)
AnyEmoji == {"EMOJI", "TEXT", "KEYCAP_BASE", "MOD_BASE", "TAG_BASE"}
Em(txt, i) == IF i > Len(txt) THEN "end" ELSE txt[i].em
\* the end of an element of a ZWJ sequence starting at i, or 0
Element(txt, i) ==
  CASE Em(txt, i) \notin AnyEmoji -> 0
    [] Em(txt, i+1) = "VS16" -> i+1
    [] Em(txt, i) = "MOD_BASE" /\ Em(txt, i+1) = "MOD" -> i+1
    [] OTHER -> i
RECURSIVE ZwjFrom(_, _)
\* the end of the ZWJ sequence going on after an element which ends at e
ZwjFrom(txt, e) == IF Em(txt, e+1) = "ZWJ" /\ Element(txt, e+2) # 0 THEN ZwjFrom(txt, Element(txt, e+2)) ELSE e
RECURSIVE TagsEnd(_, _)
TagsEnd(txt, i) == IF Em(txt, i) = "TAG" THEN TagsEnd(txt, i+1) ELSE i
\* the end of the longest emoji sequence starting at i, or 0
EmojiEnd(txt, i) ==
  LET e == Em(txt, i)
      el == Element(txt, i)
      zw == IF el = 0 THEN 0 ELSE ZwjFrom(txt, el)
      \* a joined element may also be the bare character
      zb == IF el = 0 THEN 0 ELSE ZwjFrom(txt, i)
      tg == TagsEnd(txt, i+1)
      cands == {0} \cup (IF e \in {"EMOJI", "TAG_BASE", "MOD_BASE"} THEN {i} ELSE {})
               \cup (IF el > i THEN {el} ELSE {})
               \cup (IF zw > el THEN {zw} ELSE {}) \cup (IF zb > i THEN {zb} ELSE {})
               \cup (IF e = "RI" /\ Em(txt, i+1) = "RI" THEN {i+1} ELSE {})
               \cup (IF e = "TAG_BASE" /\ tg > i+1 /\ Em(txt, tg) = "TAG_TERM" THEN {tg} ELSE {})
               \cup (IF e = "KEYCAP_BASE" /\ Em(txt, i+1) = "VS16" /\ Em(txt, i+2) = "KEYCAP" THEN {i+2} ELSE {})
               \cup (IF e \in AnyEmoji /\ Em(txt, i+1) = "CIRCLE" THEN {i+1} ELSE {})
  IN MaxOf(cands)
\* text presentation: an emoji followed by VS15 is text
RECURSIVE EmojiFrom(_, _, _)
EmojiFrom(txt, i, acc) ==
  IF i > Len(txt) THEN acc
  ELSE LET e == EmojiEnd(txt, i)
           t == IF Em(txt, i) \in AnyEmoji /\ Em(txt, i+1) = "VS15" THEN i+1 ELSE i IN
       IF e # 0 /\ e >= t THEN EmojiFrom(txt, e+1, acc \o [j \in 1..(e-i+1) |-> TRUE])
       ELSE EmojiFrom(txt, t+1, acc \o [j \in 1..(t-i+1) |-> FALSE])
IsEmoji(txt) == TLCEval(EmojiFrom(txt, 1, <<>>))

-----------------------------------------------------------------------------
(* orientation runs of vertical text: [upright, number of the run] of each character *)
Stays(ch) == ch.em \in {"VS15", "VS16", "MOD", "TAG", "TAG_TERM"}
RECURSIVE WidthFrom(_, _, _, _, _, _)
\* up, n: the current run; skip: TRUE after a joiner; em: emoji flags
WidthFrom(txt, em, i, up, n, acc) ==
  IF i > Len(txt) THEN acc
  ELSE LET ch == txt[i]
           joined == i > 1 /\ txt[i-1].em = "ZWJ" /\ acc[i-1][3]
           \* inside an emoji run no orientation change, except at its start
           inEmoji == i > 1 /\ em[i] /\ em[i-1]
           stay == i > 1 /\ (inEmoji \/ ch.em = "ZWJ" \/ joined \/ Stays(ch) \/ ch.up = up)
       IN IF stay THEN WidthFrom(txt, em, i+1, up, n, Append(acc, <<up, n, TRUE>>))
          ELSE WidthFrom(txt, em, i+1, ch.up, n+1, Append(acc, <<ch.up, n+1, TRUE>>))

-----------------------------------------------------------------------------
(* gravity *)
G_SOUTH == 0  G_EAST == 1  G_NORTH == 2  G_WEST == 3
Vertical(g) == g \in {G_EAST, G_WEST}
RtlScripts == {"hebr", "arab"}
Ttb == {"hani", "hira", "kana", "hang"}
Btt == {"ogam"}
ResolveGravity(sc, up, base, hint) ==
  CASE ~Vertical(base) \/ up -> base
    [] hint = 1 -> base
    [] hint = 2 -> IF (base = G_EAST) # (sc \in RtlScripts) THEN G_SOUTH ELSE G_NORTH
    [] sc \notin Ttb \cup Btt -> G_SOUTH
    [] OTHER -> IF (base = G_EAST) # (sc \in Btt) THEN G_SOUTH ELSE G_NORTH
LevelFor(level, g) == CASE g = G_NORTH -> level + 1
                        [] g = G_EAST -> 2 * ((level + 1) \div 2)
                        [] g = G_WEST -> 2 * (level \div 2) + 1
                        [] OTHER -> level

(* levels: unidirectional text is not submitted to the algorithm *)
TextLevels(txt, dir) ==
  LET ty == TLCEval([i \in 1..Len(txt) |-> txt[i].ty])
      T == Range(ty) IN
  CASE T \cap (Isolates \cup {"R", "AL", "AN", "RLE", "RLO"}) = {} /\ (dir \in {"L", "WL"} \/ (dir = "WR" /\ "L" \in T)) -> [i \in 1..Len(txt) |-> 0]
    [] T \cap (Isolates \cup {"EN", "AN", "L", "LRE", "LRO"}) = {} /\ (dir \in {"R", "WR"} \/ (dir = "WL" /\ T \cap {"R", "AL"} # {})) -> [i \in 1..Len(txt) |-> 1]
    [] OTHER -> Levels(ty, dir, [i \in 1..Len(txt) |-> txt[i].bk])

-----------------------------------------------------------------------------
(* languages *)
LangScripts(l) == CASE l \in {"en", "en-us", "fr"} -> {"latn"} [] l \in {"el", "el-gr"} -> {"grek"} [] l \in {"ru", "uk"} -> {"cyrl"}
                    [] l \in {"he", "yi"} -> {"hebr"} [] l \in {"ar", "ur"} -> {"arab"} [] l \in {"zh-cn", "zh-tw"} -> {"hani"}
                    [] l = "ja" -> {"hani", "kana", "hira"} [] l = "ko" -> {"hang"} [] OTHER -> {}
Includes(l, sc) == ~Real(sc) \/ LangScripts(l) = {} \/ sc \in LangScripts(l)
SampleLang(sc) == CASE sc = "latn" -> "en" [] sc = "grek" -> "el" [] sc = "cyrl" -> "ru" [] sc = "hebr" -> "he"
                    [] sc = "arab" -> "ar" [] sc \in {"hira", "kana"} -> "ja" [] sc = "hang" -> "ko" [] OTHER -> "xx"
\* defaults: the languages of the user
DerivedLang(l, sc, defaults) ==
  IF Includes(l, sc) THEN l
  ELSE LET ok == SelectSeq(defaults, LAMBDA d : Includes(d, sc)) IN IF ok # <<>> THEN ok[1] ELSE SampleLang(sc)

-----------------------------------------------------------------------------
(* attributes: records [kind, v, s, d, start, end], positions from 0, end exclusive; the list is
   in order.  The last of a kind wins, except for the kinds which add up *)
AddUp == {"features", "rise_shift", "fontscale"}
FontKinds == {"family", "size", "abssize", "weight", "style", "variant", "stretch", "desc", "scale", "lang"}
Covering(attrs, p) == SelectSeq(attrs, LAMBDA a : a.start <= p /\ p < a.end)
FieldOf(a) == CASE a.kind \in {"size", "abssize"} -> "size" [] OTHER -> a.kind
\* the description of a "desc" attribute
DescOf(a) == FoldLeft(LAMBDA d, fv : Set(d, fv[1], fv[2]), Default, a.d)
ApplyFontAttr(d, a) ==
  CASE a.kind = "size" -> Set(d, "size", <<a.v, FALSE>>)
    [] a.kind = "abssize" -> Set(d, "size", <<a.v, TRUE>>)
    [] a.kind = "family" -> Set(d, "family", a.s)
    [] a.kind = "desc" -> Merge(d, DescOf(a), TRUE)
    [] OTHER -> Set(d, a.kind, a.v)
LastOf(as, kd) == LET s == SelectSeq(as, LAMBDA a : a.kind = kd) IN IF s = <<>> THEN <<>> ELSE <<Last(s)>>
FontFor(base, as) ==
  LET d == FoldLeft(LAMBDA acc, a : IF a.kind \in FontKinds \ {"scale", "lang"} THEN ApplyFontAttr(acc, a) ELSE acc, base, as)
      sc == LastOf(as, "scale") IN
  IF sc = <<>> THEN d ELSE Set(d, "size", <<(d.size * sc[1].v) \div 100, d.abs>>)
LangFor(base, as) == LET l == LastOf(as, "lang") IN IF l = <<>> \/ l[1].s = "" THEN base ELSE l[1].s
ExtraFor(as) == LET ix == SelectSeq([i \in 1..Len(as) |-> i], LAMBDA i :
                     as[i].kind \notin FontKinds /\ (as[i].kind \in AddUp \/ \A j \in (i+1)..Len(as) : as[j].kind # as[i].kind)) IN
                [i \in 1..Len(ix) |-> as[ix[i]]]
IntFor(as, kd, def) == LET l == LastOf(as, kd) IN IF l = <<>> THEN def ELSE l[1].v

-----------------------------------------------------------------------------
(* the font of a character: the first of the fontset which covers it; NoFont when there is none *)
NoFont == <<"", 99>>
FirstFont(fams, ch) == LET is == {i \in 1..Len(fams) : fams[i] \in Range(ch.cov)} IN
  IF is = {} THEN NoFont ELSE LET i == CHOOSE i \in is : \A j \in is : i <= j IN <<fams[i], i>>
\* Fonts of the characters of a run: chs, with picks the font each of them would choose (NoFont for the
\* spaces).  s: the items so far [from, len, font], sp0 the first of the spaces just seen (0: none)
AddChar(s, chs, picks, i) ==
  LET ch == chs[i]
      sp0 == IF ch.sp THEN (IF s.sp0 = 0 THEN i ELSE s.sp0) ELSE 0
      pk == picks[i]
      forced == ch.fb \/ (i > 1 /\ chs[i-1].fb)
      n == Len(s.items) IN
  IF n = 0 THEN [items |-> <<[from |-> i, len |-> 1, font |-> pk]>>, sp0 |-> sp0]
  ELSE LET \* items without a font yet take the first font found
           found == s.items[n].font[1] = "" /\ pk[1] # ""
           items == TLCEval(IF found THEN [j \in 1..n |-> IF s.items[j].font[1] = "" THEN [s.items[j] EXCEPT !.font = pk] ELSE s.items[j]] ELSE s.items)
           it == items[n]
           cur == it.font
           f == IF pk[1] = "" THEN cur ELSE pk IN
       IF ~forced /\ f[1] = cur[1] THEN [items |-> [items EXCEPT ![n].len = @ + 1], sp0 |-> sp0]
       \* the spaces before a better font go with it
       ELSE IF it.from < s.sp0 /\ f[2] < cur[2]
            THEN [items |-> Append([items EXCEPT ![n].len = s.sp0 - it.from], [from |-> s.sp0, len |-> i - s.sp0 + 1, font |-> f]), sp0 |-> sp0]
            ELSE [items |-> Append([items EXCEPT ![n].len = i - it.from], [from |-> i, len |-> 1, font |-> f]), sp0 |-> sp0]
RECURSIVE FontItemsFrom(_, _, _, _)
FontItemsFrom(s, chs, picks, i) == IF i > Len(chs) THEN s.items ELSE FontItemsFrom(TLCEval(AddChar(s, chs, picks, i)), chs, picks, i+1)
FontItems(chs, picks, spaceFont) ==
  LET items == TLCEval(FontItemsFrom([items |-> <<>>, sp0 |-> 0], chs, picks, 1)) IN
  TLCEval([j \in 1..Len(items) |-> IF items[j].font[1] = "" THEN [items[j] EXCEPT !.font = spaceFont] ELSE items[j]])

-----------------------------------------------------------------------------
(* The whole.  q: [txt, start, len, desc, lang, gravity, defaults, attrs, fams, base], with fams the
   families tried for a family list, attrs in the order of their starts *)
Bounds(q, lv, sr, em, wd) ==
  {i \in 1..q.len :
     LET p == q.start + i - 1 IN
     \/ i = 1 \/ lv[i] # lv[i-1] \/ sr[i][1] # sr[i-1][1] \/ em[i] # em[i-1] \/ wd[i][2] # wd[i-1][2]
     \/ \E a \in Range(q.attrs) : p \in {a.start, a.end}}
AsSeq(S) == SetToSortSeq(S, <)
\* casing variants the font has not: text in the other case
VariantDone(fam, v) == v \in {0, 6} \/ (fam = "smcp" /\ v = 1)
\* case of each character: "s" for the spaces, "l" lower, "u" the others
CaseOf(ch, tr) == CASE tr = 1 -> "l" [] ch.sp -> "s" [] ch.lo /\ tr # 2 -> "l" [] OTHER -> "u"
RECURSIVE CaseRuns(_, _, _, _)
\* a segment goes on over spaces; the first one, of spaces only, is lower case
CaseRuns(cs, i, cur, acc) ==
  IF i > Len(cs) THEN acc
  ELSE LET x == IF cs[i] = "s" THEN (IF cur = "" THEN "l" ELSE cur) ELSE cs[i] IN
       IF x = cur THEN CaseRuns(cs, i+1, cur, [acc EXCEPT ![Len(acc)].len = @ + 1])
       ELSE CaseRuns(cs, i+1, x, Append(acc, [from |-> i, len |-> 1, cs |-> x]))
\* the attributes added to a segment
AddedFor(v, cs, o, n) ==
  LET at(kd, x) == <<[kind |-> kd, v |-> x, s |-> "", d |-> <<>>, start |-> o, end |-> o + n]>> IN
  IF cs = "l" THEN (IF v \in 1..4 THEN at("transform", 2) \o at("fontscale", 3) ELSE <<>>)
  ELSE IF v \in {2, 4, 5} THEN at("fontscale", 3) ELSE <<>>
SplitCases(it, chs) ==
  IF it.fam = "" \/ VariantDone(it.fam, it.variant) THEN <<it>>
  ELSE LET tr == IntFor(it.extra, "transform", 0)
           cs == TLCEval([j \in 1..it.len |-> CaseOf(chs[it.off + j], tr)])
           rs == TLCEval(CaseRuns(cs, 1, "", <<>>)) IN
       TLCEval([j \in 1..Len(rs) |-> LET o == it.off + rs[j].from - 1 IN
          [it EXCEPT !.off = o, !.len = rs[j].len, !.extra = @ \o AddedFor(it.variant, rs[j].cs, o, rs[j].len)]])
\* size ratio of a font scale, after an item in the family prev
Ratio(v, prev) == CASE v = 0 -> <<1, 1>>
                    [] v \in {1, 2} -> IF prev = "rich" THEN <<1, 2>> ELSE <<5, 6>>
                    [] OTHER -> IF prev = "rich" THEN <<3, 4>> ELSE <<4, 5>>
\* items of the runs
RunItems(q, f, t, lv, sr, em, wd) ==
  LET as == TLCEval(Covering(q.attrs, q.start + f - 1))
      sc == sr[f][2]
      desc == TLCEval(FontFor(q.desc, as))
      ag == IntFor(as, "gravity", 4)
      g == IF "gravity" \in desc.mask THEN desc.gravity
           ELSE ResolveGravity(sc, wd[f][1], IF ag = 4 THEN q.gravity ELSE ag, IntFor(as, "hint", 0))
      fams == IF em[f] THEN q.fams["emoji"] ELSE q.fams[desc.family]
      \* without fallback the first font is taken, if it has a glyph or not
      fb == IntFor(as, "fallback", 1) # 0
      one == IF q.fams[desc.family] = <<>> THEN NoFont ELSE <<q.fams[desc.family][1], 1>>
      chs == TLCEval(SubSeq(q.txt, q.start + f, q.start + t))
      pick(ch) == CASE ch.sp -> NoFont [] fb -> FirstFont(fams, ch) [] OTHER -> one
      picks == TLCEval([i \in 1..Len(chs) |-> pick(chs[i])])
      spf == IF fb THEN FirstFont(fams, q.space) ELSE one
      items == TLCEval(FontItems(chs, picks, spf))
      ex == TLCEval(ExtraFor(as))
      dl == DerivedLang(LangFor(q.lang, as), sc, q.defaults) IN
  TLCEval([n \in 1..Len(items) |->
    [off |-> q.start + f + items[n].from - 2, len |-> items[n].len, lv |-> LevelFor(lv[f], g), g |-> g, ctr |-> Vertical(q.gravity),
     sc |-> sc, lang |-> dl, flang |-> IF fb THEN dl ELSE q.setlang, emoji |-> em[f],
     fam |-> items[n].font[1], late |-> n = 1 /\ picks[1][1] = "", size |-> desc.size, abs |-> desc.abs,
     weight |-> desc.weight, style |-> desc.style, variant |-> desc.variant, stretch |-> desc.stretch, num |-> 1, den |-> 1, scaled |-> FALSE, extra |-> ex]])
\* items left without a font take the first one found later, when a run begins without one
JoinRuns(acc, run) ==
  LET f == run[1]
      take(j) == acc[j].fam = "" /\ \A m \in j..Len(acc) : acc[m].fam = "" IN
  (IF f.late /\ f.fam # ""
   THEN TLCEval([j \in 1..Len(acc) |-> IF take(j) THEN [acc[j] EXCEPT !.fam = f.fam, !.size = f.size, !.abs = f.abs, !.weight = f.weight,
                                                          !.style = f.style, !.variant = f.variant, !.stretch = f.stretch, !.flang = f.flang] ELSE acc[j]])
   ELSE acc) \o run
ScaleItems(items) ==
  LET fold[n \in 0..Len(items)] ==
        IF n = 0 THEN [acc |-> <<>>, seen |-> <<>>]
        ELSE LET s == fold[n-1]
                 it == items[n]
                 fs == SelectSeq(it.extra, LAMBDA a : a.kind = "fontscale")
                 prev == IF n = 1 THEN "" ELSE items[n-1].fam
                 \* the ratio of an attribute is the one at its first item
                 old(a) == SelectSeq(s.seen, LAMBDA x : x.a = a)
                 rat(a) == IF old(a) # <<>> THEN old(a)[1].r ELSE Ratio(a.v, prev)
                 seen == s.seen \o FoldLeft(LAMBDA acc, a : IF old(a) # <<>> THEN acc ELSE Append(acc, [a |-> a, r |-> Ratio(a.v, prev)]), <<>>, fs)
                 pr == FoldLeft(LAMBDA acc, a : <<acc[1] * rat(a)[1], acc[2] * rat(a)[2]>>, <<1, 1>>, fs) IN
             [acc |-> Append(s.acc, [it EXCEPT !.num = pr[1], !.den = pr[2], !.scaled = fs # <<>>]), seen |-> seen] IN
  fold[Len(items)].acc
Itemize(q) ==
  IF q.len = 0 THEN <<>>
  ELSE LET T == TLCEval(SubSeq(q.txt, q.start + 1, q.start + q.len))
           lv == TLCEval(TextLevels(T, "WL"))
           sr == TLCEval(Scripts(T))
           em == IsEmoji(T)
           wd == IF Vertical(q.gravity) THEN TLCEval(WidthFrom(T, em, 1, FALSE, 0, <<>>)) ELSE TLCEval([i \in 1..q.len |-> <<FALSE, 1, TRUE>>])
           bs == TLCEval(AsSeq(Bounds(q, lv, sr, em, wd)))
           runs == TLCEval([n \in 1..Len(bs) |-> RunItems(q, bs[n], IF n = Len(bs) THEN q.len ELSE bs[n+1] - 1, lv, sr, em, wd)])
           items == TLCEval(FoldLeft(JoinRuns, <<>>, [n \in 1..Len(runs) |-> runs[n]]))
           cased == TLCEval(FlattenSeq([n \in 1..Len(items) |-> SplitCases(items[n], q.txt)])) IN
       ScaleItems(cased)
=============================================================================
