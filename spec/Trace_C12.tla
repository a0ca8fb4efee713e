----------------------------- MODULE Trace_C12 -----------------------------
(* After every operation both configurations are probed: substitution of a query, of
   a font, of a scanned font, and selection of the faces of a file. *)
EXTENDS TraceBase, Config, Scan
VARIABLE slots
Init == CaseInit /\ slots = [s \in 1..2 |-> NoConfig]
Id == Cases[c].id
RulesOf(cfg) == LET rs == SelectSeq(cfg, LAMBDA it : it.k = "rule") IN [i \in 1..Len(rs) |-> rs[i].rule]
GlobsOf(cfg, kind) == LET gs == SelectSeq(cfg, LAMBDA it : it.k = kind /\ "glob" \in DOMAIN it) IN [i \in 1..Len(gs) |-> gs[i].glob]
PatsOf(cfg, kind) == LET ps == SelectSeq(cfg, LAMBDA it : it.k = kind /\ "pat" \in DOMAIN it) IN [i \in 1..Len(ps) |-> PatOf(ps[i].pat, 1)]
Probe == PatOf(In.probe, 1)  Query == PatOf(In.query, 1)
\* the values which the user then changes are his own
Same(r, pat) == r.bad \/ ValuesOf(PatOf(pat, 1)) = ValuesOf(r.p)
ProbeOk(s, i, o) ==
  LET rs == RulesOf(s)
      q == Substitute(Probe, EmptyPat, rs, "pattern")
      f == Substitute(Probe, Query, rs, "font")
      fs == Faces(In.base, In.file.font, In.file.path, rs)
      kept == KeptFaces(IF AcceptFile(In.file.path, GlobsOf(s, "accept"), GlobsOf(s, "reject")) THEN fs ELSE <<>>, PatsOf(s, "accept"), PatsOf(s, "reject")) IN
  /\ Expect(Same(q, o.pattern), Id, k+1, "query with configuration " \o ToString(i), ValuesOf(q.p), o.pattern)
  /\ Expect(Same(f, o.font), Id, k+1, "font with configuration " \o ToString(i), ValuesOf(f.p), o.font)
  /\ Expect(~Judged(fs) \/ [n \in 1..Len(kept) |-> ValuesOf(kept[n])] = [n \in 1..Len(o.scan) |-> ValuesOf(PatOf(o.scan[n], 1))],
            Id, k+1, "scan with configuration " \o ToString(i), kept, o.scan)
Step(o) ==
  LET op == In.ops[k+1]  s == Do(slots, op) IN
  /\ ExpectEq(Id, k+1, "error of " \o op.op, ErrOf(slots, op), o.err)
  /\ \A i \in 1..2 : ProbeOk(s[i], i, o.probes[i])
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
           /\ slots' = Do(slots, In.ops[k+1])
        \/ CaseEnd /\ UNCHANGED slots
=============================================================================
