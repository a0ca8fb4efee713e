----------------------------- MODULE Trace_F01 -----------------------------
(* in: a list of paragraphs, each with types, brackets and direction asked for;
   one observation per paragraph *)
EXTENDS TraceBase, Bidi
Init == CaseInit
Id == Cases[c].id
Step(o) ==
  LET p == In.pars[k+1]
      dir == Direction(p.types, p.dir)
      base == BaseLevel(p.types, p.dir)
      raw == TLCEval(Resolved(p.types, p.dir, p.brackets))
      lv == TLCEval(L1(p.types, base, raw))
      all == MaxOf({raw[i] : i \in 1..Len(raw)} \cup {base})
      fin == MaxOf({lv[i] : i \in 1..Len(lv)} \cup {base}) IN
  /\ ExpectEq(Id, k+1, "direction", dir, o.dir)
  /\ Expect(lv = o.levels, Id, k+1, "levels", <<p, lv>>, o.levels)
  /\ Expect(o.max >= fin + 1 /\ o.max <= all + 1, Id, k+1, "maximum", <<p, fin + 1, all + 1>>, o.max)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
