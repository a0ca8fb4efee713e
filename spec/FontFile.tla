------------------------------ MODULE FontFile ------------------------------
(* What a font file says about its faces, as patterns.  A file F:
     names  [pl, en, la, id, s]: platform, encoding, language, name and text (codes)
     os2    [has, ver, weight, width, vendor (codes), lower, upper]
     flags  [italic, bold]      rev   the revision
     axes   [tag, min, def, max] (of a variable font)     insts [coords, id (of the name of the style)]
     path   where it is
   Numbers of patterns are scaled by FS *)
EXTENDS FcValues, TLC
FS == 1000
NamesOf(F, pl, id) ==
  LET idx == {i \in 1..Len(F.names) : F.names[i].pl = pl /\ F.names[i].id = id}
      English(n) == (n.pl = 1 /\ n.la = 0) \/ (n.pl = 3 /\ n.la = 1033)
      Before(i, j) == LET a == F.names[i]  b == F.names[j] IN
        IF a.en # b.en THEN a.en < b.en
        ELSE IF a.la = b.la THEN i < j
        ELSE IF English(a) THEN TRUE ELSE IF English(b) THEN FALSE ELSE a.la < b.la
      s == SetToSortSeq(idx, Before) IN
  [i \in 1..Len(s) |-> F.names[s[i]]]
\* Microsoft, Unicode, Macintosh, ISO
Platforms == <<3, 0, 1, 2>>
MsLangs == (1033 :> "en") @@ (2057 :> "en") @@ (1036 :> "fr") @@ (1031 :> "de") @@ (1041 :> "ja") @@ (2052 :> "zh-cn") @@ (3082 :> "es")
MacLangs == (0 :> "en") @@ (1 :> "fr") @@ (2 :> "de") @@ (11 :> "ja") @@ (33 :> "zh-cn")
LangOf(n) == CASE n.pl = 3 /\ n.la \in DOMAIN MsLangs -> MsLangs[n.la]
               [] n.pl = 1 /\ n.la \in DOMAIN MacLangs -> MacLangs[n.la]
               [] OTHER -> ""
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ s[1] = 32 THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN TrimR(SubSeq(s, 1, Len(s)-1)) ELSE s
Trim(s) == TrimR(TrimL(s))
\* the names of an object: the ones of the given identifiers, by platform, then identifier; no repeats; each with its language
RECURSIVE Gather(_, _)
Gather(ns, acc) ==
  IF ns = <<>> THEN acc
  ELSE LET n == Head(ns)  t == Trim(n.s) IN
       IF n.s = <<>> \/ \E i \in 1..Len(acc) : FamilyKey(acc[i].s) = FamilyKey(t) THEN Gather(Tail(ns), acc)
       ELSE Gather(Tail(ns), Append(acc, [s |-> t, la |-> LangOf(n)]))
Listed(F, ids) == Gather(FlattenSeq([p \in 1..4 |-> FlattenSeq([i \in 1..Len(ids) |-> NamesOf(F, Platforms[p], ids[i])])]), <<>>)
\* the languages: "und" for names without one, but not for the last ones
LangsOf(l) ==
  LET q == {i \in 1..Len(l) : l[i].la # ""}
      n == IF q = {} THEN 0 ELSE CHOOSE i \in q : \A j \in q : j <= i IN
  [i \in 1..n |-> IF l[i].la = "" THEN "und" ELSE l[i].la]
Texts(l) == [i \in 1..Len(l) |-> l[i].s]
FileName(p) ==
  LET a == {i \in 1..Len(p) : p[i] = 47}  from == IF a = {} THEN 1 ELSE 1 + (CHOOSE i \in a : \A j \in a : j <= i)
      b == {i \in from..Len(p) : p[i] = 46}  to == IF b = {} THEN Len(p) ELSE (CHOOSE i \in b : \A j \in b : j <= i) - 1 IN
  SubSeq(p, from, to)
Families(F) == LET l == Listed(F, <<21, 16, 1>>) IN IF l = <<>> THEN <<[s |-> FileName(F.path), la |-> "en"]>> ELSE l
RegularName == <<82, 101, 103, 117, 108, 97, 114>>
\* inst: 0 or the number of a named instance, whose name is the one of the style; fonts which vary have no style
Styles(F, inst) ==
  LET l == IF inst = 0 THEN Listed(F, <<22, 17, 2>>) ELSE Listed(F, <<F.insts[inst].id>>) IN l

WeightTable == <<<<0, 0>>, <<100, 0>>, <<200, 40>>, <<300, 50>>, <<350, 55>>, <<380, 75>>, <<400, 80>>, <<500, 100>>, <<600, 180>>, <<700, 200>>,
                 <<800, 205>>, <<900, 210>>, <<1000, 215>>>>
\* an OpenType weight, linear between the known ones; x is in 100ths
WeightOf(x) ==
  LET y == IF x > 100000 THEN 100000 ELSE x
      i == CHOOSE i \in 1..Len(WeightTable)-1 : WeightTable[i][1]*100 <= y /\ y <= WeightTable[i+1][1]*100
      a == WeightTable[i]  b == WeightTable[i+1] IN
  a[2]*FS + ((y - a[1]*100) * (b[2] - a[2]) * (FS \div 100)) \div (b[1] - a[1])
WidthTable == <<50, 63, 75, 87, 100, 113, 125, 150, 200>>
Low(s) == NoBlanks(Fold(s))
\* words that tell something in the name of a style: the first of the list which is there
HasWord(s, w) == \E i \in 0..Len(Low(s)) - Len(w) : SubSeq(Low(s), i+1, i+Len(w)) = w
RECURSIVE FirstWord(_, _, _)
FirstWord(s, ws, none) == IF ws = <<>> THEN none ELSE IF HasWord(s, Head(ws)[1]) THEN Head(ws)[2] ELSE FirstWord(s, Tail(ws), none)
\* ... in the first style where there is one
RECURSIVE InStyles(_, _, _)
InStyles(l, ws, none) == IF l = <<>> THEN none ELSE LET v == FirstWord(Head(l), ws, -1) IN IF v # -1 THEN v ELSE InStyles(Tail(l), ws, none)

Axis(F, tag) == {i \in 1..Len(F.axes) : F.axes[i].tag = tag /\ F.axes[i].min <= F.axes[i].def /\ F.axes[i].def <= F.axes[i].max /\ F.axes[i].min # F.axes[i].max}
Known == {"wght", "wdth", "opsz"}
Varies(F, inst) == inst = 0 /\ \E t \in Known : Axis(F, t) # {}
\* factor of an instance, in 100ths
Mult(F, inst, tag) ==
  LET q == {i \in 1..Len(F.axes) : F.axes[i].tag = tag} IN
  IF inst = 0 \/ q = {} THEN 100 ELSE LET i == CHOOSE i \in q : TRUE IN
  IF F.axes[i].def = 0 THEN 100 ELSE (F.insts[inst].coords[i] * 100) \div F.axes[i].def
AxisRange(F, tag) == LET i == CHOOSE i \in Axis(F, tag) : TRUE IN <<F.axes[i].min, F.axes[i].max>>
WeightV(F, inst, st, words) ==
  IF inst = 0 /\ Axis(F, "wght") # {} THEN LET r == AxisRange(F, "wght") IN <<"Range", <<WeightOf(r[1]*100), WeightOf(r[2]*100)>>>>
  ELSE IF F.os2.has THEN <<"Float", WeightOf(F.os2.weight * Mult(F, inst, "wght"))>>
  ELSE <<"Float", FS * InStyles(st, words, IF F.flags.bold THEN 200 ELSE 100)>>
WidthV(F, inst, st, words) ==
  IF inst = 0 /\ Axis(F, "wdth") # {} THEN LET r == AxisRange(F, "wdth") IN <<"Range", <<r[1]*FS, r[2]*FS>>>>
  ELSE IF F.os2.has THEN <<"Float", WidthTable[F.os2.width] * Mult(F, inst, "wdth") * (FS \div 100)>>
  ELSE <<"Float", FS * InStyles(st, words, 100)>>
SizeV(F, inst) ==
  LET q == {i \in 1..Len(F.axes) : F.axes[i].tag = "opsz"}
      s1 == IF inst = 0 THEN IF Axis(F, "opsz") # {} THEN LET r == AxisRange(F, "opsz") IN <<<<"Range", <<r[1]*FS, r[2]*FS>>>>>> ELSE <<>>
            ELSE IF q # {} THEN <<<<"Float", F.insts[inst].coords[CHOOSE i \in q : TRUE] * FS>>>> ELSE <<>>
      s2 == IF ~F.os2.has \/ F.os2.ver < 5 \/ (inst = 0 /\ Axis(F, "opsz") # {}) THEN <<>>
            ELSE IF F.os2.lower = F.os2.upper THEN <<<<"Float", F.os2.lower * (FS \div 20)>>>>
            ELSE <<<<"Range", <<F.os2.lower * (FS \div 20), F.os2.upper * (FS \div 20)>>>>>> IN
  s1 \o s2
\* index of the English name, or of the first one
English1(l) == LET la == LangsOf(l)  q == {i \in 1..Len(la) : la[i] = "en"} IN IF q = {} THEN 1 ELSE CHOOSE i \in q : \A j \in q : i <= j
FullName(fam, st) == LET f == TrimR(fam[English1(fam)].s)  s == st[English1(st)].s IN
  IF FamilyKey(s) = FamilyKey(RegularName) THEN f ELSE f \o <<32>> \o s
\* the vendor, or the notices
Foundry(F, notices, unknown) ==
  IF F.os2.has /\ F.os2.ver >= 1 /\ F.os2.vendor # <<0, 0, 0, 0>> THEN F.os2.vendor
  ELSE LET ns == FlattenSeq([p \in 1..4 |-> NamesOf(F, Platforms[p], 7) \o NamesOf(F, Platforms[p], 8)])
           Found(s) == {i \in 1..Len(notices) : IsSubstr(notices[i][1], s)}
           q == {i \in 1..Len(ns) : Found(ns[i].s) # {}} IN
       IF q = {} THEN unknown ELSE LET f == Found(ns[CHOOSE i \in q : \A j \in q : i <= j].s) IN notices[CHOOSE i \in f : \A j \in f : i <= j][2]
\* the faces of a file: the font itself, and its named instances but the default one
Default(F, i) == \A a \in 1..Len(F.axes) : F.insts[i].coords[a] = F.axes[a].def
Faces1(F) == <<0>> \o SetToSortSeq({i \in 1..Len(F.insts) : F.axes # <<>> /\ ~Default(F, i)}, LAMBDA i, j : i < j)
=============================================================================
