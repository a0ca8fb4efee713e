----------------------------- MODULE Trace_F03 -----------------------------
(* in.texts: a text, its characters, the direction asked for and the options.
   The visual string, then the marks removed from it and from the text. *)
EXTENDS TraceBase, Visual
Init == CaseInit
Id == Cases[c].id
\* positions of s which are kept
KeptOf(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : ~Marked(s[i]))
Same(s, ks, t) == t = [i \in 1..Len(ks) |-> s[ks[i]]]
\* what is left of s, with the map from it and the map to it (from 0)
RemovalOk(name, p, s, from, r) ==
  LET ks == KeptOf(p)  n == Len(ks) IN
  /\ Expect(Same(s, ks, r.str), Id, k+1, name \o ": text", <<s, ks>>, r.str)
  /\ Expect(~r.hasfrom \/ Same(from, ks, r.from), Id, k+1, name \o ": map from it", <<from, ks>>, r.from)
  /\ Expect(~r.hasto \/ r.to = [x \in 1..Len(s) |-> LET m == {i \in 1..n : from[ks[i]] = x-1} IN IF m = {} THEN -1 ELSE (CHOOSE i \in m : TRUE) - 1],
            Id, k+1, name \o ": map to it", <<from, ks>>, r.to)
  /\ Expect(~r.haslv \/ Same(r.lv0, ks, r.lv), Id, k+1, name \o ": levels", <<r.lv0, ks>>, r.lv)
Step(o) ==
  LET t == In.texts[k+1]
      w == t.chars
      n == Len(w)
      ty == TLCEval(TypesOf(w))
      base == BaseLevel(ty, t.dir)
      lv == TLCEval(L1(ty, base, TLCEval(Resolved(ty, t.dir, BracketsOf(w)))))
      fl == {t.flags[i] : i \in 1..Len(t.flags)}
      vis == Shaped(w, lv, fl)
      ord == TLCEval(LineOrder([i \in 1..n |-> i], ty, lv, 1, n, "nsm" \in fl))
      v == [i \in 1..n |-> vis[ord[i]]]
      vp == [i \in 1..n |-> [w[ord[i]] EXCEPT !.c = v[i], !.t = IF v[i] = Filler THEN "BN" ELSE @]] IN
  /\ ExpectEq(Id, k+1, "direction", Direction(ty, t.dir), o.dir)
  /\ Expect(lv = o.levels, Id, k+1, "levels", <<w, lv>>, o.levels)
  /\ Expect([i \in 1..n |-> ord[i] - 1] = o.v2l, Id, k+1, "map", <<w, lv, ord>>, o.v2l)
  /\ Expect(\A i \in 1..n : o.l2v[o.v2l[i]+1] = i-1, Id, k+1, "inverse map", o.v2l, o.l2v)
  /\ Expect(v = o.str, Id, k+1, "visual text", <<w, lv, v>>, o.str)
  /\ Expect(o.same, Id, k+1, "the text is not changed", TRUE, o.same)
  /\ RemovalOk("visual text", vp, v, o.v2l, o.vrem)
  /\ RemovalOk("text", w, [i \in 1..n |-> w[i].c], o.l2v, o.lrem)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
