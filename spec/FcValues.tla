------------------------------- MODULE FcValues -------------------------------
(* Values of font patterns, their comparison and the expressions of the
   configuration language (fonts-conf).  A value is <<type, payload>>:
     <<"Int", n>> <<"Float", thousandths>> <<"String", byte codes>>
     <<"Bool", 0 | 1 | 2>>  (2: don't care)
     <<"Charset", set>> <<"Langset", set of tags>> <<"Matrix", <<xx,xy,yx,yy>>>>
     <<"Range", <<begin, end>>>>  and <<"Nil", 0>>.
   <<"Unknown", 0>> is a value this specification does not fix (a quotient which
   is not a multiple of 1/1000, say): whatever depends on it is not judged. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Scale == 1000
Nil == <<"Nil", 0>>
Unknown == <<"Unknown", 0>>
Ty(v) == v[1]
SeqToSet(s) == {s[i] : i \in 1..Len(s)}

(* ---- strings and tags ---- *)
FoldC(x) == IF x >= 65 /\ x <= 90 THEN x + 32 ELSE x
Fold(s) == [i \in 1..Len(s) |-> FoldC(s[i])]
NoBlanks(s) == SelectSeq(s, LAMBDA x : x # 32 /\ x # 9)
FamilyKey(s) == NoBlanks(Fold(s))
IsSubstr(t, s) == \E i \in 0..(Len(s) - Len(t)) : \A j \in 1..Len(t) : s[i+j] = t[j]

\* tags: components separated by '-'
Dashes(t) == {i \in 1..Len(t) : t[i] = 45}
Primary(t) == IF Dashes(t) = {} THEN t
              ELSE SubSeq(t, 1, (CHOOSE i \in Dashes(t) : \A j \in Dashes(t) : i <= j) - 1)
\* one tag is the other followed by further components, or the same
Extends1(a, b) == a = b \/ (IsPrefix(a, b) /\ b[Len(a)+1] = 45)
TagContains(a, b) == Extends1(Fold(a), Fold(b)) \/ Extends1(Fold(b), Fold(a))
Und == <<117, 110, 100>>
\* 0: same tag, 1: same language but other territory, 2: other language
TagDist(a, b) == LET x == Fold(a)  y == Fold(b) IN
  IF x = y THEN 0 ELSE IF Primary(x) = Primary(y) THEN 1 ELSE 2
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
LangDist(A, B) == IF A = {} \/ B = {} THEN 2 ELSE MinOf({TagDist(a, b) : a \in A, b \in B})
\* every tag of B is matched by a tag of A
Includes(A, B) == \A b \in B : \E a \in A : TagContains(a, b)

(* ---- normal form ---- *)
Norm(v) == CASE v[1] = "Charset" -> <<"Charset", SeqToSet(v[2])>>
             [] v[1] = "Langset" -> <<"Langset", {Fold(v[2][i]) : i \in 1..Len(v[2])}>>
             [] OTHER -> v
NormSeq(s) == [i \in 1..Len(s) |-> Norm(s[i])]

Identity == <<"Matrix", <<Scale, 0, 0, Scale>>>>

(* ---- comparison ---- *)
IsNum(v) == Ty(v) \in {"Int", "Float"}
FloatOf(v) == IF Ty(v) = "Int" THEN v[2] * Scale ELSE v[2]
\* v as it is seen next to u
Promote(v, u) ==
  CASE IsNum(v) /\ Ty(u) = "Range" -> <<"Range", <<FloatOf(v), FloatOf(v)>>>>
    [] Ty(v) = "Int" /\ Ty(u) = "Float" -> <<"Float", FloatOf(v)>>
    [] Ty(v) = "Nil" /\ Ty(u) = "Matrix" -> Identity
    [] Ty(v) = "Nil" /\ Ty(u) = "Langset" -> <<"Langset", {}>>
    [] Ty(v) = "Nil" /\ Ty(u) = "Charset" -> <<"Charset", {}>>
    [] Ty(v) = "String" /\ Ty(u) = "Langset" -> <<"Langset", IF v[2] = <<>> THEN {} ELSE {Fold(v[2])}>>
    [] OTHER -> v

CmpNum(a, op, b) == CASE op \in {"eq", "contains"} -> a = b
                      [] op \in {"not_eq", "not_contains"} -> a # b
                      [] op = "less" -> a < b
                      [] op = "less_eq" -> a <= b
                      [] op = "more" -> a > b
                      [] op = "more_eq" -> a >= b

CmpSame(l, op, r, ib) ==   \* same type
  LET a == l[2]  b == r[2] IN
  CASE IsNum(l) -> CmpNum(a, op, b)
    [] Ty(l) = "Bool" ->
         (CASE op = "eq" -> a = b
            [] op = "not_eq" -> a # b
            [] op = "contains" -> a = b \/ a = 2
            [] op = "not_contains" -> ~(a = b \/ a = 2)
            [] op = "less" -> a # b /\ b = 2
            [] op = "less_eq" -> a = b \/ b = 2
            [] op = "more" -> a # b /\ a = 2
            [] op = "more_eq" -> a = b \/ a = 2)
    [] Ty(l) = "String" ->
         LET same == IF ib THEN FamilyKey(a) = FamilyKey(b) ELSE Fold(a) = Fold(b)
             sub == IsSubstr(Fold(b), Fold(a)) IN
         (CASE op = "eq" -> same [] op = "not_eq" -> ~same
            [] op = "contains" -> sub [] op = "not_contains" -> ~sub
            [] OTHER -> FALSE)
    [] Ty(l) = "Matrix" -> (CASE op \in {"eq", "contains"} -> a = b
                              [] op \in {"not_eq", "not_contains"} -> a # b
                              [] OTHER -> FALSE)
    [] Ty(l) = "Charset" -> (CASE op = "eq" -> a = b [] op = "not_eq" -> a # b
                               [] op = "contains" -> b \subseteq a
                               [] op = "not_contains" -> ~(b \subseteq a)
                               [] OTHER -> FALSE)
    [] Ty(l) = "Langset" -> (CASE op = "eq" -> a = b [] op = "not_eq" -> a # b
                               [] op = "contains" -> Includes(a, b)
                               [] op = "not_contains" -> ~Includes(a, b)
                               [] OTHER -> FALSE)
    [] Ty(l) = "Nil" -> op \in {"eq", "contains"}
    [] Ty(l) = "Range" ->
         (CASE op = "eq" -> a = b
            [] op = "not_eq" -> a # b
            [] op = "contains" -> a[1] >= b[1] /\ a[2] <= b[2]
            [] op = "not_contains" -> ~(a[1] >= b[1] /\ a[2] <= b[2])
            [] op = "less" -> a[2] < b[1]
            [] op = "less_eq" -> a[2] <= b[1]
            [] op = "more" -> a[1] > b[2]
            [] op = "more_eq" -> a[1] >= b[2])
    [] OTHER -> FALSE

Compare(l0, op, r0, ib) ==
  LET l == Promote(l0, r0)  r == Promote(r0, l) IN
  IF Ty(l) = Ty(r) THEN CmpSame(l, op, r, ib)
  ELSE op \in {"not_eq", "not_contains"}

(* ---- arithmetic ---- *)
Abs(x) == IF x < 0 THEN -x ELSE x
Whole(f) == f % Scale = 0
\* a whole float is an integer
OfFloat(f) == IF Whole(f) THEN <<"Int", f \div Scale>> ELSE <<"Float", f>>
\* product of thousandths, when it is one
MulK(a, b) == LET lo == (Abs(a) % Scale) * Abs(b)
                  p == (Abs(a) \div Scale) * Abs(b) + lo \div Scale IN
  IF Abs(a) > 2000000 \/ Abs(b) > 2000000 \/ (Abs(a) \div Scale) * (Abs(b) \div Scale) > 2000 \/ lo % Scale # 0
  THEN <<"Unknown", 0>> ELSE <<"Float", IF (a < 0) # (b < 0) THEN -p ELSE p>>
\* quotients that binary fractions hold exactly
DivK(a, b) == IF b = 0 \/ Abs(a) > 2000000 \/ Abs(b) > 2000000 \/ (Abs(a) * Scale) % (Abs(b) * 125) # 0 THEN <<"Unknown", 0>>
              ELSE LET q == (Abs(a) * Scale) \div Abs(b) IN <<"Float", IF (a < 0) # (b < 0) THEN -q ELSE q>>
Plus2(x, y) == IF Ty(x) = "Unknown" \/ Ty(y) = "Unknown" THEN Unknown ELSE <<"Float", x[2] + y[2]>>
MatMul(m, n) ==
  LET r == << Plus2(MulK(m[1], n[1]), MulK(m[2], n[3])), Plus2(MulK(m[1], n[2]), MulK(m[2], n[4])),
              Plus2(MulK(m[3], n[1]), MulK(m[4], n[3])), Plus2(MulK(m[3], n[2]), MulK(m[4], n[4])) >> IN
  IF \E i \in 1..4 : Ty(r[i]) = "Unknown" THEN Unknown
  ELSE <<"Matrix", [i \in 1..4 |-> r[i][2]]>>

BitOr(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a = b THEN a ELSE 3
BitAnd(a, b) == IF a = b THEN a ELSE 0

\* numbers meet as floats; the result is an integer again when whole
Arith(l, op, r) ==
  LET a == FloatOf(l)  b == FloatOf(r)
      f == CASE op = "plus" -> <<"Float", a + b>>
             [] op = "minus" -> <<"Float", a - b>>
             [] op = "times" -> MulK(a, b)
             [] op = "divide" -> DivK(a, b) IN
  IF Ty(f) = "Unknown" THEN Unknown ELSE OfFloat(f[2])

Binary(l0, op, r0) ==
  IF Ty(l0) = "Unknown" \/ Ty(r0) = "Unknown" THEN Unknown
  ELSE IF IsNum(l0) /\ IsNum(r0) THEN IF op \in {"or", "and"} THEN Nil ELSE Arith(l0, op, r0)
  ELSE
  LET l == Promote(l0, r0)  r == Promote(r0, l)  a == l[2]  b == r[2] IN
  IF Ty(l) # Ty(r) THEN Nil
  ELSE CASE Ty(l) = "Bool" /\ op \in {"or", "and"} /\ (a \notin {0,1} \/ b \notin {0,1}) -> Unknown
         [] Ty(l) = "Bool" /\ op = "or" -> <<"Bool", BitOr(a, b)>>
         [] Ty(l) = "Bool" /\ op = "and" -> <<"Bool", BitAnd(a, b)>>
         [] Ty(l) = "String" /\ op = "plus" -> <<"String", a \o b>>
         [] Ty(l) = "Matrix" /\ op = "times" -> MatMul(a, b)
         [] Ty(l) = "Charset" /\ op = "plus" -> <<"Charset", a \union b>>
         [] Ty(l) = "Charset" /\ op = "minus" -> <<"Charset", a \ b>>
         [] Ty(l) = "Langset" /\ op = "plus" -> <<"Langset", a \union b>>
         [] Ty(l) = "Langset" /\ op = "minus" -> <<"Langset", a \ b>>
         [] OTHER -> Nil

FloorI(f) == f \div Scale                     \* TLA+ \div rounds down
CeilI(f) == -((-f) \div Scale)
TruncI(f) == IF f >= 0 THEN FloorI(f) ELSE CeilI(f)
RoundI(f) == IF f >= 0 THEN (f + Scale \div 2) \div Scale ELSE -((-f + Scale \div 2) \div Scale)
RoundOp(op, v) ==
  CASE Ty(v) = "Unknown" -> Unknown
    [] Ty(v) = "Int" -> v
    [] Ty(v) = "Float" -> <<"Int", CASE op = "floor" -> FloorI(v[2]) [] op = "ceil" -> CeilI(v[2])
                                     [] op = "round" -> RoundI(v[2]) [] op = "trunc" -> TruncI(v[2])>>
    [] OTHER -> Nil

(* ---- patterns and expressions ---- *)
(* A pattern is a function from object names to non-empty sequences of
   <<value, binding>>, binding "s"trong, "w"eak or "m" (same). *)
EmptyPat == [o \in {} |-> <<>>]
Has(p, o) == o \in DOMAIN p
Get(p, o) == IF Has(p, o) THEN p[o] ELSE <<>>
Put(p, o, l) == IF l = <<>> THEN [x \in DOMAIN p \ {o} |-> p[x]]
                ELSE [x \in DOMAIN p \union {o} |-> IF x = o THEN l ELSE p[x]]
Vals(l) == [i \in 1..Len(l) |-> l[i][1]]
\* from the trace: list of {o, v [, b]}
RECURSIVE PatOf(_, _)
PatOf(js, i) == IF i > Len(js) THEN EmptyPat
  ELSE LET e == js[i] IN
       Put(PatOf(js, i+1), e.o, [n \in 1..Len(e.v) |-> <<Norm(e.v[n]), IF "b" \in DOMAIN e THEN e.b[n] ELSE "s">>])
ValuesOf(p) == [o \in DOMAIN p |-> Vals(p[o])]

Constants == [ thin |-> 0, extralight |-> 40, ultralight |-> 40, light |-> 50, demilight |-> 55, semilight |-> 55,
  book |-> 75, regular |-> 80, medium |-> 100, demibold |-> 180, semibold |-> 180, bold |-> 200,
  extrabold |-> 205, ultrabold |-> 205, black |-> 210, heavy |-> 210, roman |-> 0, italic |-> 100, oblique |-> 110,
  ultracondensed |-> 50, extracondensed |-> 63, condensed |-> 75, semicondensed |-> 87,
  semiexpanded |-> 113, expanded |-> 125, extraexpanded |-> 150, ultraexpanded |-> 200,
  proportional |-> 0, dual |-> 90, mono |-> 100, charcell |-> 110,
  rgb |-> 1, bgr |-> 2, vrgb |-> 3, vbgr |-> 4, none |-> 5,
  hintnone |-> 0, hintslight |-> 1, hintmedium |-> 2, hintfull |-> 3,
  lcdnone |-> 0, lcddefault |-> 1, lcdlight |-> 2, lcdlegacy |-> 3 ]

First1(l) == IF l = <<>> THEN Nil ELSE l[1][1]
CompareOps == {"eq", "not_eq", "less", "less_eq", "more", "more_eq", "contains", "not_contains"}

(* res: the pattern being edited; qry: the query of a font rule; kind: of the rule.
   Operators with more than two operands associate to the right, as in fontconfig. *)
RECURSIVE Eval(_, _, _, _), EvalN(_, _, _, _, _), EvalAll(_, _, _, _, _)
EvalN(e, n, res, qry, kind) ==       \* the operands from the n-th on combined
  IF n = Len(e.a) THEN Eval(e.a[n], res, qry, kind)
  ELSE LET l == Eval(e.a[n], res, qry, kind)  r == EvalN(e, n+1, res, qry, kind) IN
       IF e.op \in CompareOps
       THEN IF Ty(l) = "Unknown" \/ Ty(r) = "Unknown" THEN Unknown
            ELSE <<"Bool", IF Compare(l, e.op, r, FALSE) THEN 1 ELSE 0>>
       ELSE Binary(l, e.op, r)
EvalAll(as, i, res, qry, kind) ==
  IF i > Len(as) THEN <<>> ELSE <<Eval(as[i], res, qry, kind)>> \o EvalAll(as, i+1, res, qry, kind)
Eval(e, res, qry, kind) ==
  CASE e.op = "lit" -> Norm(e.v)
    [] e.op = "const" -> <<"Int", Constants[e.name]>>
    [] e.op = "name" ->
         LET tgt == IF "tgt" \in DOMAIN e THEN e.tgt ELSE "default" IN
         IF kind = "font" /\ tgt = "pattern" THEN First1(Get(qry, e.name))
         ELSE IF kind = "pattern" /\ tgt = "font" THEN Nil
         ELSE First1(Get(res, e.name))
    [] e.op = "matrix" ->
         LET xs == EvalAll(e.a, 1, res, qry, kind) IN
         IF \E i \in 1..4 : Ty(xs[i]) = "Unknown" THEN Unknown
         ELSE IF \A i \in 1..4 : IsNum(xs[i]) THEN <<"Matrix", [i \in 1..4 |-> FloatOf(xs[i])]>> ELSE Nil
    [] e.op = "if" ->
         LET t == Eval(e.a[1], res, qry, kind) IN
         IF Ty(t) = "Unknown" THEN Unknown
         ELSE IF Ty(t) # "Bool" THEN Nil
         ELSE Eval(IF t[2] # 0 THEN e.a[2] ELSE e.a[3], res, qry, kind)
    [] e.op = "not" ->
         LET t == Eval(e.a[1], res, qry, kind) IN
         IF Ty(t) = "Unknown" THEN Unknown
         ELSE IF Ty(t) = "Bool" /\ t[2] \notin {0, 1} THEN Unknown
         ELSE IF Ty(t) # "Bool" THEN Nil ELSE <<"Bool", IF t[2] = 0 THEN 1 ELSE 0>>
    [] e.op \in {"floor", "ceil", "round", "trunc"} -> RoundOp(e.op, Eval(e.a[1], res, qry, kind))
    [] OTHER -> EvalN(e, 1, res, qry, kind)
=============================================================================
