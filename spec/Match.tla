-------------------------------- MODULE Match --------------------------------
(* Closeness of a font to a pattern, selection, rendering and sorting.
   Distances are counted in units of 1/2000, so that half a unit is left for the
   half open end of a size range. *)
EXTENDS Rules

MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Inf == 1000000000

(* ---- file globs: '*' any sequence, '?' one byte ---- *)
RECURSIVE Glob(_, _)
Glob(g, s) == IF g = <<>> THEN s = <<>>
  ELSE IF g[1] = 42 THEN \E i \in 0..Len(s) : Glob(SubSeq(g, 2, Len(g)), SubSeq(s, i+1, Len(s)))
  ELSE s # <<>> /\ (g[1] = 63 \/ g[1] = s[1]) /\ Glob(SubSeq(g, 2, Len(g)), SubSeq(s, 2, Len(s)))

(* ---- distances ---- *)
NoDelim(s) == SelectSeq(Fold(s), LAMBDA x : x # 32 /\ x # 45)
RECURSIVE Common(_, _)
Common(a, b) == IF a = <<>> \/ b = <<>> THEN 0 ELSE IF a[1] # b[1] THEN 0
                ELSE 1 + Common(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
PSDist(a, b) == LET x == NoDelim(a)  y == NoDelim(b) IN
  IF x = <<>> THEN IF y = <<>> THEN 0 ELSE 2000
  ELSE (2000 * (Len(x) - Common(x, y))) \div Len(x)
AsRange(v) == IF Ty(v) = "Range" THEN v[2] ELSE <<FloatOf(v), FloatOf(v)>>
AsTags(v) == IF Ty(v) = "Langset" THEN v[2] ELSE {Fold(v[2])}
Gap(a, b) == IF a[2] < b[1] \/ b[2] < a[1] THEN 2 * MinI(Abs(b[1]-a[2]), Abs(a[1]-b[2])) ELSE 0

NumberObjs == {"slant", "spacing", "pixelsize", "fontversion", "order"}
CmpStrObjs == {"style", "foundry", "rasterizer", "fontformat"}
CmpBoolObjs == {"antialias", "outline", "scalable", "decorative", "color", "symbol", "variable", "fonthashint"}
Compared(o) == o \in NumberObjs \cup CmpStrObjs \cup CmpBoolObjs \cup
   {"family", "weight", "width", "size", "file", "charset", "lang", "postscriptname"}
\* <<distance, the value retained>> for a value of the pattern and one of the font
Dist(o, v, w) ==
  CASE o \in NumberObjs -> <<2 * Abs(FloatOf(w) - FloatOf(v)), w>>
    [] o \in CmpStrObjs -> <<IF Fold(v[2]) = Fold(w[2]) THEN 0 ELSE 2000, w>>
    [] o \in CmpBoolObjs -> <<IF v = w THEN 0 ELSE 2000, IF w[2] # 2 THEN w ELSE v>>
    [] o = "family" -> <<IF FamilyKey(v[2]) = FamilyKey(w[2]) THEN 0 ELSE 2000, w>>
    [] o = "postscriptname" -> <<PSDist(v[2], w[2]), w>>
    [] o = "charset" -> <<2000 * Cardinality(v[2] \ w[2]), w>>
    [] o = "lang" -> <<2000 * LangDist(AsTags(v), AsTags(w)), w>>
    [] o = "file" -> <<IF v[2] = w[2] THEN 0 ELSE IF Fold(v[2]) = Fold(w[2]) THEN 2000
                       ELSE IF Glob(v[2], w[2]) THEN 4000 ELSE 6000, w>>
    [] o = "size" -> LET a == AsRange(v)  b == AsRange(w) IN
         <<IF Gap(a, b) # 0 THEN Gap(a, b) ELSE IF b[1] # b[2] /\ a[1] = b[2] THEN 1 ELSE 0,
           <<"Float", (a[1] + a[2]) \div 2>>>>
    [] o \in {"weight", "width"} -> LET a == AsRange(v)  b == AsRange(w) IN
         <<Gap(a, b), <<"Float", IF a[2] < b[1] THEN b[1] ELSE IF b[2] < a[1] THEN b[2]
                                 ELSE (MaxI(a[1], b[1]) + MinI(a[2], b[2])) \div 2>>>>

\* the pairs (j, k) of the two lists; the rank of the value of the pattern breaks ties
Cost(o, pl, fl, x) == Dist(o, pl[x[1]][1], fl[x[2]][1])[1] + 2 * (x[1] - 1)
Pairs(pl, fl) == (1..Len(pl)) \X (1..Len(fl))
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
BestPair(o, pl, fl) ==
  CHOOSE x \in Pairs(pl, fl) : \A y \in Pairs(pl, fl) :
     \/ Cost(o, pl, fl, x) < Cost(o, pl, fl, y)
     \/ Cost(o, pl, fl, x) = Cost(o, pl, fl, y) /\ (x = y \/ Before(x, y))
BestValue(o, pl, fl) == LET x == BestPair(o, pl, fl) IN Dist(o, pl[x[1]][1], fl[x[2]][1])[2]

(* ---- vectors ---- *)
Priorities == << "file", "fontformat", "variable", "scalable", "color", "foundry", "charset", "family strong",
  "postscriptname strong", "lang", "family weak", "postscriptname weak", "symbol", "spacing", "size", "pixelsize",
  "style", "slant", "weight", "width", "fonthashint", "decorative", "antialias", "rasterizer", "outline", "order", "fontversion" >>
NPri == Len(Priorities)
LangPri == 10
MinCost(o, pl, fl, J) ==
  LET S == {Cost(o, pl, fl, x) : x \in {y \in Pairs(pl, fl) : y[1] \in J}} IN IF S = {} THEN Inf ELSE MinOf(S)
\* families: the rank of the first value of the pattern equal to one of the font
FamRank(pl, fl, J) ==
  LET S == {2 * (j - 1) : j \in {i \in J : \E n \in 1..Len(fl) : FamilyKey(pl[i][1][2]) = FamilyKey(fl[n][1][2])}} IN
  IF S = {} THEN Inf ELSE MinOf(S)
BoundAs(pl, strong) == {j \in 1..Len(pl) : (pl[j][2] = "s") = strong}
ObjScore(p, f, o) == IF Has(p, o) /\ Has(f, o) THEN MinCost(o, p[o], f[o], 1..Len(p[o])) ELSE 0
SplitScore(p, f, o, strong) ==
  IF ~(Has(p, o) /\ Has(f, o)) THEN 0
  ELSE IF o = "family" THEN FamRank(p[o], f[o], BoundAs(p[o], strong))
  ELSE MinCost(o, p[o], f[o], BoundAs(p[o], strong))
Score(p, f) == [i \in 1..NPri |->
  CASE Priorities[i] = "family strong" -> SplitScore(p, f, "family", TRUE)
    [] Priorities[i] = "family weak" -> SplitScore(p, f, "family", FALSE)
    [] Priorities[i] = "postscriptname strong" -> SplitScore(p, f, "postscriptname", TRUE)
    [] Priorities[i] = "postscriptname weak" -> SplitScore(p, f, "postscriptname", FALSE)
    [] OTHER -> ObjScore(p, f, Priorities[i])]
Less(a, b) == \E i \in 1..NPri : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]

(* ---- match ---- *)
Closest(p, fs) == LET sc == [i \in 1..Len(fs) |-> Score(p, fs[i])] IN
  CHOOSE i \in 1..Len(fs) : \A j \in 1..Len(fs) : ~Less(sc[j], sc[i]) /\ (j < i => Less(sc[i], sc[j]))

LangOf == [family |-> "familylang", style |-> "stylelang", fullname |-> "fullnamelang"]
NameLangs == {"familylang", "stylelang", "fullnamelang"}
MoveFront(l, n) == IF n > Len(l) THEN l ELSE <<l[n]>> \o SubSeq(l, 1, n-1) \o SubSeq(l, n+1, Len(l))
\* the settings of the axes of a variable font; <<>> when there are none
OTWeights == << <<0, 100>>, <<40, 200>>, <<50, 300>>, <<55, 350>>, <<75, 380>>, <<80, 400>>, <<100, 500>>,
                <<180, 600>>, <<200, 700>>, <<205, 800>>, <<210, 900>>, <<215, 1000>> >>
OTWeight(k) == LET S == {i \in 1..Len(OTWeights) : OTWeights[i][1] * Scale = k} IN
               IF S = {} THEN -1 ELSE OTWeights[MinOf(S)][2] * Scale
AxisObjs == << "weight", "width", "size" >>
Tag == [weight |-> <<119, 103, 104, 116>>, width |-> <<119, 100, 116, 104>>, size |-> <<111, 112, 115, 122>>]
IsTrueish(l) == l # <<>> /\ Ty(l[1][1]) = "Bool" /\ l[1][1][2] # 0
Axes(p, f) ==
  IF ~IsTrueish(Get(f, "variable")) THEN <<>>
  ELSE LET os == SelectSeq(AxisObjs, LAMBDA o : Has(p, o) /\ Has(f, o) /\ Ty(f[o][1][1]) = "Range") IN
       [i \in 1..Len(os) |-> LET v == BestValue(os[i], p[os[i]], f[os[i]])[2] IN
           <<Tag[os[i]], IF os[i] = "weight" THEN OTWeight(v) ELSE v>>]

\* what a font becomes for a pattern, before the font rules; axes are kept apart
Rendered(p, f) ==
  LET named == {o \in DOMAIN LangOf : Has(f, o) /\ Has(f, LangOf[o])}
      \* the entry of the language asked for comes first
      pos(o) == IF Has(p, LangOf[o]) THEN BestPair("lang", p[LangOf[o]], f[LangOf[o]])[2] ELSE 1
      objs == (DOMAIN f \ NameLangs) \cup {LangOf[o] : o \in named} \cup ((DOMAIN p \ DOMAIN f) \ NameLangs)
      S(v) == << <<v, "s">> >> IN
  [o \in objs |->
     IF o \in named THEN MoveFront(f[o], pos(o))
     ELSE IF o \in NameLangs THEN LET b == CHOOSE b \in named : LangOf[b] = o IN MoveFront(f[o], pos(b))
     ELSE IF ~Has(f, o) THEN p[o]
     ELSE IF ~Has(p, o) THEN f[o]
     ELSE IF Compared(o) THEN S(BestValue(o, p[o], f[o]))
     ELSE S(f[o][1][1])]

(* ---- sort ---- *)
\* scores once languages have been settled: a font keeps its language score when it is
\* the first one close to some requested language
RECURSIVE Settle(_, _, _, _, _)
Settle(order, i, sat, p, fs) ==      \* sequence of the indexes satisfying a language
  IF i > Len(order) THEN {}
  ELSE LET f == fs[order[i]]
           near == {j \in 1..Len(Get(p, "lang")) : j \notin sat /\ Has(f, "lang")
                      /\ LangDist(AsTags(p["lang"][j][1]), AsTags(f["lang"][1][1])) < 2}
           ok == Score(p, f)[LangPri] < 4000 /\ near # {} IN
       IF ok THEN {order[i]} \cup Settle(order, i+1, sat \cup {MinOf(near)}, p, fs)
       ELSE Settle(order, i+1, sat, p, fs)
Ordered(sc, n) == \* indexes by increasing score (all scores distinct)
  SortSeq([i \in 1..n |-> i], LAMBDA a, b : Less(sc[a], sc[b]))
SortedFonts(p, fs) ==
  LET sc == [i \in 1..Len(fs) |-> Score(p, fs[i])]
      kept == Settle(Ordered(sc, Len(fs)), 1, {}, p, fs)
      sc2 == [i \in 1..Len(fs) |-> IF i \in kept THEN sc[i] ELSE [sc[i] EXCEPT ![LangPri] = 20000]] IN
  Ordered(sc2, Len(fs))
CharsOf(f) == IF Has(f, "charset") THEN f["charset"][1][1][2] ELSE {}
RECURSIVE Trimmed(_, _, _, _)
Trimmed(order, i, seen, fs) ==
  IF i > Len(order) THEN <<>>
  ELSE IF CharsOf(fs[order[i]]) \subseteq seen THEN Trimmed(order, i+1, seen, fs)
  ELSE <<order[i]>> \o Trimmed(order, i+1, seen \cup CharsOf(fs[order[i]]), fs)
AllChars(fs) == UNION {CharsOf(fs[i]) : i \in 1..Len(fs)}
=============================================================================
