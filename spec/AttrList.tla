------------------------------ MODULE AttrList ------------------------------
(* Attribute lists (property P01).  An attribute is <<kind, value, start, end>>,
   a list a sequence of attributes ordered by start. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

AKind(a) == a[1]   AVal(a) == a[2]   AStart(a) == a[3]   AEnd(a) == a[4]

Ordered(l) == \A i \in 1..Len(l)-1 : AStart(l[i]) <= AStart(l[i+1])
OfKind(l, kd) == SelectSeq(l, LAMBDA a : AKind(a) = kd)
NotOfKind(l, kd) == SelectSeq(l, LAMBDA a : AKind(a) # kd)

\* after every attribute with the same start
InsertAttr(l, a) ==
  LET n == Cardinality({i \in 1..Len(l) : AStart(l[i]) <= AStart(a)})
  IN SubSeq(l, 1, n) \o <<a>> \o SubSeq(l, n+1, Len(l))

RECURSIVE InsertAll(_, _)
InsertAll(l, s) == IF s = <<>> THEN l ELSE InsertAll(InsertAttr(l, Head(s)), Tail(s))

\* the attributes of one kind do not overlap: where "the value at a position" is one value
Disjoint(l, kd) ==
  LET s == OfKind(l, kd)
  IN /\ \A i \in 1..Len(s) : AStart(s[i]) < AEnd(s[i])
     /\ \A i, j \in 1..Len(s) : i < j => AEnd(s[i]) <= AStart(s[j])

\* the values of a kind at a position
ValuesAt(l, kd, p) == {AVal(l[i]) : i \in {i \in 1..Len(l) : AKind(l[i]) = kd /\ AStart(l[i]) <= p /\ p < AEnd(l[i])}}

\* what is left of b outside of a's range
Cut(b, a) ==
  (IF AStart(b) < AStart(a) THEN << <<AKind(b), AVal(b), AStart(b), IF AEnd(b) < AStart(a) THEN AEnd(b) ELSE AStart(a)>> >> ELSE <<>>)
  \o
  (IF AEnd(b) > AEnd(a) THEN << <<AKind(b), AVal(b), IF AStart(b) > AEnd(a) THEN AStart(b) ELSE AEnd(a), AEnd(b)>> >> ELSE <<>>)

\* the attributes of the kind after changing a: the others are cut to the outside
\* of the range, an equal neighbour is merged with the new one
ChangeSegs(l, a) ==
  LET old == OfKind(l, AKind(a))
      rest == FlattenSeq([i \in 1..Len(old) |-> Cut(old[i], a)])
      L == {i \in 1..Len(rest) : AEnd(rest[i]) = AStart(a) /\ AVal(rest[i]) = AVal(a)}
      R == {i \in 1..Len(rest) : AStart(rest[i]) = AEnd(a) /\ AVal(rest[i]) = AVal(a)}
      s == IF L = {} THEN AStart(a) ELSE AStart(rest[CHOOSE i \in L : TRUE])
      e == IF R = {} THEN AEnd(a) ELSE AEnd(rest[CHOOSE i \in R : TRUE])
      keep == SelectSeq([i \in 1..Len(rest) |-> <<i, rest[i]>>], LAMBDA x : x[1] \notin (L \union R))
      kept == [i \in 1..Len(keep) |-> keep[i][2]]
      n == Cardinality({i \in 1..Len(kept) : AStart(kept[i]) < s})
  IN SubSeq(kept, 1, n) \o << <<AKind(a), AVal(a), s, e>> >> \o SubSeq(kept, n+1, Len(kept))

ChangeAttr(l, a) ==
  IF AStart(a) = AEnd(a) THEN l
  ELSE InsertAll(NotOfKind(l, AKind(a)), ChangeSegs(l, a))

\* Change as a relation: how attributes of different kinds with one start are
\* interleaved is left open, everything else is determined
ChangeRel(l, a, l2) ==
  IF AStart(a) = AEnd(a) THEN l2 = l
  ELSE /\ Ordered(l2)
       /\ NotOfKind(l2, AKind(a)) = NotOfKind(l, AKind(a))
       /\ Disjoint(l, AKind(a)) => OfKind(l2, AKind(a)) = ChangeSegs(l, a)

FilterOut(l, kinds) == SelectSeq(l, LAMBDA a : AKind(a) \in kinds)
FilterKeep(l, kinds) == SelectSeq(l, LAMBDA a : AKind(a) \notin kinds)
=============================================================================
