----------------------------- MODULE MC_FcValues -----------------------------
(* Laws of comparison and arithmetic on all pairs of a universe of values. *)
EXTENDS Pattern, TLC, Json
CONSTANTS PrintHist
VARIABLES a, b, ib
S(s) == <<"String", s>>
Universe == << <<"Int", 0>>, <<"Int", 2>>, <<"Int", -3>>, <<"Float", 2000>>, <<"Float", 2500>>, <<"Float", -3000>>,
  S(<<>>), S(<<97, 98>>), S(<<65, 32, 98>>), S(<<97>>), S(<<102, 114>>),
  <<"Bool", 0>>, <<"Bool", 1>>, <<"Bool", 2>>,
  <<"Charset", {65}>>, <<"Charset", {65, 300}>>, <<"Charset", {66, 300}>>,
  <<"Langset", {<<102, 114>>}>>, <<"Langset", {<<102, 114, 45, 99, 97>>, <<101, 110>>}>>, <<"Langset", {<<120, 113>>}>>,
  Identity, <<"Matrix", <<2000, 500, 0, 1000>>>>,
  <<"Range", <<2000, 2000>>>>, <<"Range", <<1000, 3000>>>>, <<"Range", <<2500, 4000>>>>, <<"Range", <<-3000, 2500>>>> >>
Init == a \in 1..Len(Universe) /\ b \in 1..Len(Universe) /\ ib \in BOOLEAN
Next == UNCHANGED <<a, b, ib>>
Spec == Init /\ [][Next]_<<a, b, ib>>
A == Universe[a]
B == Universe[b]
Neg(x, y) == Compare(A, x, B, ib) # Compare(A, y, B, ib)
InvNegEq == Neg("eq", "not_eq")
\* contains ignores the blanks flag; it is the complement of not_contains
InvNegContains == Neg("contains", "not_contains")
InvEqSym == Compare(A, "eq", B, ib) = Compare(B, "eq", A, ib)
InvEqContains == (Compare(A, "eq", B, FALSE) /\ Ty(A) # "Range") => Compare(A, "contains", B, FALSE)
InvRefl == Compare(A, "eq", A, ib) /\ Compare(A, "contains", A, ib) \* (a range is inside itself)
InvOrder == (IsNum(A) /\ IsNum(B)) =>
   /\ Compare(A, "less", B, ib) = Compare(B, "more", A, ib)
   /\ Compare(A, "less_eq", B, ib) = ~Compare(A, "more", B, ib)
   /\ Compare(A, "more_eq", B, ib) = ~Compare(A, "less", B, ib)
InvArith == (IsNum(A) /\ IsNum(B)) => Binary(Binary(A, "plus", B), "minus", B) = OfFloat(FloatOf(A))
InvSet == (Ty(A) = Ty(B) /\ Ty(A) \in {"Charset", "Langset"}) =>
   /\ Compare(Binary(A, "plus", B), "contains", A, ib) /\ Compare(Binary(A, "plus", B), "contains", B, ib)
   /\ Binary(A, "minus", B)[2] \intersect B[2] = {}
InvMatrix == Ty(A) = "Matrix" => Binary(Identity, "times", A) = A /\ Binary(A, "times", Identity) = A
InvRound == IsNum(A) => LET f == FloatOf(A) IN
   /\ FloorI(f) <= CeilI(f) /\ CeilI(f) - FloorI(f) <= 1
   /\ TruncI(f) \in {FloorI(f), CeilI(f)} /\ RoundI(f) \in {FloorI(f), CeilI(f)}
   /\ Abs(RoundI(f) * Scale - f) * 2 <= Scale
J(v) == IF Ty(v) \in {"Charset", "Langset"} THEN <<v[1], SetToSeq(v[2])>> ELSE v
Emit == PrintHist => PrintT("HIST " \o ToJson([A |-> J(A), B |-> J(B), IB |-> ib]))
=============================================================================
