----------------------------- MODULE MC_Layout -----------------------------
(* Paragraphs as a reader finds them character after character; runs reordered by splitting
   at the lowest level, and walked: every character once, in the order of its run *)
EXTENDS Layout, Json
CONSTANTS TextLen, RunsLen, MaxLevel, MaxRun, PrintHist
VARIABLES txt, paras, from, cr, single, auto, runs
vars == <<txt, paras, from, cr, single, auto, runs>>
Chars0 == {97, 1488, 32, 49, LF, CR, PS, 8232}
Init == /\ txt = <<>> /\ paras = <<>> /\ from = 0 /\ cr = FALSE
        /\ single \in BOOLEAN /\ auto \in BOOLEAN /\ runs = <<>>
\* the reader: an end of paragraph is known at once, and longer when LF follows CR
Read(r) ==
  LET p == Len(txt) IN
  /\ txt' = Append(txt, r)
  /\ IF single THEN UNCHANGED <<paras, from, cr>>
     ELSE IF r = LF /\ cr
     THEN /\ paras' = [paras EXCEPT ![Len(paras)].next = p+1]
          /\ from' = p+1 /\ cr' = FALSE
     ELSE IF r \in Separators
     THEN /\ paras' = Append(paras, [from |-> from, to |-> p, next |-> p+1])
          /\ from' = p+1 /\ cr' = (r = CR)
     ELSE cr' = FALSE /\ UNCHANGED <<paras, from>>
  /\ UNCHANGED <<single, auto, runs>>
\* runs with all sets of clusters
Clusters(n, lv) == {IF Even(lv) THEN x ELSE Reverse(x) : x \in {SetToSortSeq(S \cup {0}, <) : S \in SUBSET (1..(n-1))}}
AddRun(n, lv, lc) ==
  /\ runs' = Append(runs, [o |-> IF runs = <<>> THEN 0 ELSE Last(runs).o + Last(runs).n, n |-> n, lv |-> lv, lc |-> lc,
                           w |-> [i \in 1..Len(lc) |-> i], ell |-> FALSE])
  /\ UNCHANGED <<txt, paras, from, cr, single, auto>>
Next == \/ runs = <<>> /\ Len(txt) < TextLen /\ \E r \in Chars0 : Read(r)
        \/ txt = <<>> /\ ~single /\ ~auto /\ Len(runs) < RunsLen /\ \E n \in 1..MaxRun, lv \in 0..MaxLevel : \E lc \in Clusters(n, lv) : AddRun(n, lv, lc)
Spec == Init /\ [][Next]_vars
InvParas == Paras(txt, single) = Append(paras, [from |-> from, to |-> Len(txt), next |-> Len(txt)])
InvCover == LET ps == Paras(txt, single) IN
  /\ ps[1].from = 0 /\ Last(ps).next = Len(txt)
  /\ \A i \in 2..Len(ps) : ps[i].from = ps[i-1].next
  /\ ~single => \A i \in 1..Len(ps) : \A j \in (ps[i].from+1)..ps[i].to : txt[j] \notin Separators
\* the way of the code: the lowest level is kept or turned, what is above is reordered first
RECURSIVE Recurse(_)
Recurse(rs) ==
  IF rs = <<>> THEN <<>>
  ELSE LET min == MinOf({rs[i].lv : i \in 1..Len(rs)})
           at(i) == rs[i].lv = min
           starts == {i \in 1..Len(rs) : at(i) \/ i = 1 \/ at(i-1)}
           pieces == [i \in starts |-> IF at(i) THEN <<rs[i]>>
                        ELSE Recurse(SubSeq(rs, i, MinOf({j \in i..(Len(rs)+1) : j = Len(rs)+1 \/ (j <= Len(rs) /\ at(j))}) - 1))]
           ord == SetToSortSeq(starts, <)
           out == [i \in 1..Len(ord) |-> pieces[ord[i]]] IN
       Flat(IF Even(min) THEN out ELSE Reverse(out))
Shown == LET f == Recurse(runs) IN TLCEval([i \in 1..Len(f) |-> f[i].o])
InvOrder == VisualOrder(runs) = Shown
Ln == [s |-> 0, n |-> IF runs = <<>> THEN 0 ELSE Last(runs).o + Last(runs).n, par |-> TRUE, dir |-> 0, runs |-> Recurse(runs)]
InvWalk ==
  LET w == CharWalk(<<Ln>>, [i \in 1..Ln.n |-> 97])
      x == ClusterWalk(<<Ln>>)
      r == RunWalk(<<Ln>>) IN
  runs # <<>> =>
  /\ Len(w) = Ln.n /\ {w[i][2] : i \in 1..Len(w)} = 0..(Ln.n - 1)
  /\ \A i \in 1..Len(runs) : Ordered(runs[i])
  \* the first character of each cluster is one of the walk
  /\ \A i \in 1..Len(x) : \E j \in 1..Len(w) : w[j] = x[i]
  /\ Len(r) = Len(runs) + 1 /\ {r[i][2] : i \in 1..Len(r)} = {-1} \cup {runs[i].o : i \in 1..Len(runs)}
  \* clusters partition their run
  /\ \A i \in 1..Len(runs) : LET cl == VisualClusters(runs[i]) IN
       \A m \in 0..(runs[i].n - 1) : Cardinality({j \in 1..Len(cl) : cl[j].from <= m /\ m < cl[j].to}) = 1
Emit == (PrintHist /\ txt # <<>>) => PrintT("HIST " \o ToJson([txt |-> txt, single |-> single, auto |-> auto]))
=============================================================================
