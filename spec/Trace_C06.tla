----------------------------- MODULE Trace_C06 -----------------------------
EXTENDS TraceBase, Match
VARIABLE x
Init == CaseInit /\ x = 0
Id == Cases[c].id
Pats(s) == [i \in 1..Len(s) |-> PatOf(s[i], 1)]
Q0 == Substitute(PatOf(In.pat, 1), EmptyPat, In.prules, "pattern")
Final(p, f) == Substitute(Rendered(p, f), p, In.frules, "font")
RECURSIVE Join(_, _)
Join(cs, i) == IF i > Len(cs) THEN <<>> ELSE IF i = Len(cs) THEN cs[i].c ELSE cs[i].c \o <<44>> \o Join(cs, i+1)
\* the axes asked for come first in the variations, followed by the ones given
VarsOk(ax, old, got) ==
  IF ax = <<>> THEN got.n = Len(old) /\ (old = <<>> \/ Join(got.chunks, 1) = old[1][1][2])
  ELSE /\ got.n = 1 /\ Len(got.chunks) >= Len(ax)
       /\ \A i \in 1..Len(ax) : got.chunks[i].t = ax[i][1] /\ (ax[i][2] = -1 \/ got.chunks[i].v = ax[i][2])
       /\ Join(got.chunks, Len(ax)+1) = IF old = <<>> THEN <<>> ELSE old[1][1][2]
NoVars(p) == [o \in DOMAIN p \ {"fontvariations"} |-> p[o]]
Check(p, f, o, what) ==
  LET r == Final(p, f) IN
  IF r.bad THEN TRUE
  ELSE /\ Expect(ValuesOf(NoVars(PatOf(o.pat, 1))) = ValuesOf(NoVars(r.p)), Id, k+1, what, ValuesOf(NoVars(r.p)), o.pat)
       /\ Expect(VarsOk(Axes(p, f), Get(r.p, "fontvariations"), o.vars), Id, k+1, what \o ": variations",
                 <<Axes(p, f), Get(r.p, "fontvariations")>>, o.vars)
Step(o) ==
  LET q == Q0 IN
  IF q.bad THEN TRUE
  ELSE LET p == q.p  fs == Pats(In.fonts)  b == Closest(p, fs) IN
    /\ Expect(ValuesOf(PatOf(o.query, 1)) = ValuesOf(p), Id, k+1, "query", ValuesOf(p), o.query)
    /\ Expect(o.chosen = b, Id, k+1, "closest font", <<b, Score(p, fs[b])>>, <<o.chosen, IF o.chosen \in 1..Len(fs) THEN Score(p, fs[o.chosen]) ELSE <<>> >>)
    /\ Check(p, fs[b], o.match, "match")
    /\ Check(p, fs[In.render], o.render, "render")
    /\ ExpectEq(Id, k+1, "query and fonts unchanged", TRUE, o.same)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED <<c, x>>
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd /\ UNCHANGED x
=============================================================================
