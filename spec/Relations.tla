------------------------------ MODULE Relations ------------------------------
(* What rules, listing and hashing must say about two values of one object. *)
EXTENDS TraceBase, FcValues
CheckRel(id, step, rel, a0, b0) ==
  LET a == Norm(a0)  b == Norm(b0)
      exp == << Compare(a, "eq", b, FALSE), Compare(a, "not_eq", b, FALSE),
                Compare(a, "contains", b, FALSE), Compare(a, "not_contains", b, FALSE) >> IN
  /\ ExpectEq(id, step, "test eq/not_eq/contains/not_contains", exp, rel.rules)
  /\ Expect(Binary(a, "plus", b) = Norm(rel.plus), id, step, "plus", Binary(a, "plus", b), rel.plus)
  /\ Expect(Binary(a, "minus", b) = Norm(rel.minus), id, step, "minus", Binary(a, "minus", b), rel.minus)
  /\ Expect(Norm(rel.left) = a, id, step, "left operand kept", a0, rel.left)
  /\ Expect(Norm(rel.right) = b, id, step, "right operand kept", b0, rel.right)
  /\ ExpectEq(id, step, "listed", Compare(a, "contains", b, FALSE), rel.listed)
  /\ ExpectEq(id, step, "same hash", a = b, rel.samehash)
=============================================================================
