----------------------------- MODULE Trace_P09 -----------------------------
(* in: a text, or texts set one after the other in a layout; an observation: the positions which have
   each attribute *)
EXTENDS TraceBase, Segment
Init == CaseInit
Id == Cases[c].id
SetOf(s) == {s[i] : i \in 1..Len(s)}
Judge(o, n, x, starts) ==
  LET Seen(f) == SetOf(o[f])
      Inner == (1..n-1) \ starts IN
  /\ ExpectEq(Id, k+1, "entries", n + 1, o.n)
  /\ ExpectEq(Id, k+1, "cursor positions", x.cursor, Seen("cursor"))
  /\ ExpectEq(Id, k+1, "word boundaries", x.wordb, Seen("wordb"))
  /\ ExpectEq(Id, k+1, "sentence boundaries", x.sentb, Seen("sentb"))
  /\ ExpectEq(Id, k+1, "line breaks", x.line, Seen("line"))
  /\ ExpectEq(Id, k+1, "mandatory breaks", x.must, Seen("must"))
  /\ ExpectEq(Id, k+1, "white", x.white, Seen("white") \ {n})
  /\ ExpectEq(Id, k+1, "expandable", x.expand, Seen("expand"))
  /\ ExpectEq(Id, k+1, "char breaks", x.chr \cap Inner, Seen("char") \cap Inner)
  /\ ExpectEq(Id, k+1, "word starts", x.words, Seen("words"))
  /\ ExpectEq(Id, k+1, "word ends", x.worde, Seen("worde"))
  /\ ExpectEq(Id, k+1, "sentence starts", x.sents, Seen("sents"))
  /\ ExpectEq(Id, k+1, "sentence ends", x.sente, Seen("sente"))
  /\ ExpectEq(Id, k+1, "characters deleted", x.del \cap Inner, Seen("del") \cap Inner)
  /\ ExpectEq(Id, k+1, "hyphens", (x.hyphen \cap Inner) \ x.mid, (Seen("hyphen") \cap Inner) \ x.mid)
  /\ ExpectEq(Id, k+1, "removed", x.removes \cap Inner, Seen("removes") \cap Inner)
Step(o) ==
  IF In.kind # "layout" THEN Judge(o, Len(In.t), TLCEval(Expected(In.t, In.script)), {})
  ELSE LET q == In.texts[k+1]
           x == TLCEval(LayoutFlags(q.t, q.single, In.lang, q.attrs)) IN
       Judge(o, Len(q.t), x, x.starts)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
