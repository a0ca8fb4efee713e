----------------------------- MODULE Trace_F02 -----------------------------
(* in.lines: lines [from..to] of paragraphs with types and levels *)
EXTENDS TraceBase, Bidi
Init == CaseInit
Id == Cases[c].id
Step(o) ==
  LET l == In.lines[k+1]
      n == Len(l.types)
      lv == LineLevels(l.types, IF l.base \in {"R", "WR"} THEN 1 ELSE 0, l.levels, l.from, l.to)
      ord == LineOrder([i \in 1..n |-> i], l.types, lv, l.from, l.to, l.nsm) IN
  /\ Expect(lv = o.levels, Id, k+1, "levels", lv, o.levels)
  /\ Expect(~l.hasmap \/ o.map = ord, Id, k+1, "map", <<l, ord>>, o.map)
  /\ Expect(~l.hasstr \/ o.str = ord, Id, k+1, "text", <<l, ord>>, o.str)
  /\ ExpectEq(Id, k+1, "maximum", MaxOf({lv[i] : i \in l.from..l.to} \cup {0}) + 1, o.max)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
