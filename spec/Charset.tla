------------------------------- MODULE Charset -------------------------------
(* A charset is a set of characters; three charset variables evolve by
   additions, removals and copies. *)
EXTENDS Integers, FiniteSets, Sequences
Apply(cs, op) ==
  CASE op.op = "add" -> [cs EXCEPT ![op.i + 1] = @ \union {op.r}]
    [] op.op = "del" -> [cs EXCEPT ![op.i + 1] = @ \ {op.r}]
    [] op.op = "copy" -> [cs EXCEPT ![op.i + 1] = cs[op.j + 1]]
CharDist(pat, font) == Cardinality(pat \ font)

\* fonts (charsets) in order of distance from a request, first come first
RECURSIVE SortBy(_, _)
SortBy(idx, d) == IF idx = {} THEN <<>>
  ELSE LET m == CHOOSE i \in idx : \A j \in idx : d[i] < d[j] \/ (d[i] = d[j] /\ i <= j) IN
       <<m>> \o SortBy(idx \ {m}, d)
\* keep the fonts that add a character to those before (the first one always)
RECURSIVE TrimFrom(_, _, _, _)
TrimFrom(order, n, fonts, acc) ==
  IF n > Len(order) THEN <<>>
  ELSE LET f == fonts[order[n]] IN
       (IF n = 1 \/ ~(f \subseteq acc) THEN <<order[n]>> ELSE <<>>) \o TrimFrom(order, n+1, fonts, acc \union f)
=============================================================================
