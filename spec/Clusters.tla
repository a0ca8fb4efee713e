------------------------------ MODULE Clusters ------------------------------
(* Clusters of a run, walked both ways, and attributes which split runs and items (property P07) *)
EXTENDS Geometry

(* The clusters in the order of the text: [from, to], in the run *)
LogicalClusters(run) ==
  LET v == VisualClusters(run) m == Len(v) IN IF Even(run.lv) THEN v ELSE TLCEval([j \in 1..m |-> v[m + 1 - j]])
\* an iterator is at a cluster; it stays there when it can't go further
StepCluster(m, at, op) == IF op = 1 THEN (IF at < m THEN <<TRUE, at + 1>> ELSE <<FALSE, at>>)
                          ELSE IF at > 1 THEN <<TRUE, at - 1>> ELSE <<FALSE, at>>
RECURSIVE WalkFrom(_, _, _)
WalkFrom(m, at, ops) == IF ops = <<>> THEN <<>>
  ELSE LET s == StepCluster(m, at, Head(ops)) IN <<s>> \o WalkFrom(m, s[2], Tail(ops))
Walked(run, ops, start) ==
  LET cl == LogicalClusters(run) m == Len(cl) a == IF start THEN 1 ELSE m IN
  [j \in 1..(Len(ops) + 1) |->
     LET s == (<<<<TRUE, a>>>> \o WalkFrom(m, a, ops))[j] x == cl[s[2]] IN
     <<IF s[1] THEN 1 ELSE 0, x.from, x.to, run.o + x.from, run.o + x.to>>]
\* the width of a cluster is shared by its characters, the first one has what is left
Shares(run) == TLCEval(Flat([j \in 1..Len(LogicalClusters(run)) |->
   LET x == LogicalClusters(run)[j] n == x.to - x.from q == TruncDiv(x.w, n) IN
   [i \in 1..n |-> IF i = 1 THEN x.w - (n-1)*q ELSE q]]))

(* Attributes [kind, v, start, end] in a list: at a place, the one which starts last, of each kind *)
Covers(a, p) == a.start <= p /\ p < a.end
Later(D, i, j) == D[i].start > D[j].start \/ (D[i].start = D[j].start /\ i > j)
Multiple == {"desc", "rise_shift", "fontscale"}
At(D, p) == {i \in 1..Len(D) : Covers(D[i], p) /\ (D[i].kind \in Multiple
               \/ ~\E j \in 1..Len(D) : j # i /\ D[j].kind = D[i].kind /\ Covers(D[j], p) /\ Later(D, j, i))}
Value(a) == <<a.kind, a.v, a.start, a.end>>
AtRange(D, from, to) == TLCEval({Value(D[i]) : i \in UNION {At(D, p) : p \in from..(to-1)}})
\* where the set of attributes changes
RangeBounds(D) == TLCEval({D[i].start : i \in 1..Len(D)} \cup {D[i].end : i \in {j \in 1..Len(D) : D[j].start < D[j].end}})
\* a run is split between two clusters when a range ends in the first one, or inside the second one
SplitAt(B, o, x, y) == (\E b \in B : o + x.from < b /\ b <= o + x.to) \/ (\E b \in B : o + y.from < b /\ b < o + y.to)
\* the pieces of a run in the order of the text: <<from, to>> in the text
Pieces(run, B) ==
  LET cl == LogicalClusters(run) m == Len(cl)
      cuts == {j \in 1..m : j = m \/ SplitAt(B, run.o, cl[j], cl[j+1])}
      s == SetToSortSeq(cuts, <) IN
  IF run.ell THEN <<<<run.o, run.o + run.n>>>>
  ELSE TLCEval([q \in 1..Len(s) |-> <<run.o + (IF q = 1 THEN 0 ELSE cl[s[q-1]].to), run.o + cl[s[q]].to>>])
=============================================================================
