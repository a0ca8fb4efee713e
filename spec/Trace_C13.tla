----------------------------- MODULE Trace_C13 -----------------------------
(* in: a font file; the observation: the patterns read from it *)
EXTENDS TraceBase, FontFile, FontWords
Init == CaseInit
Id == Cases[c].id
F == In
Str(s) == [i \in 1..Len(s) |-> <<"String", s[i]>>]
Codes(la) == CASE la = "en" -> <<101, 110>> [] la = "fr" -> <<102, 114>> [] la = "de" -> <<100, 101>> [] la = "ja" -> <<106, 97>>
               [] la = "zh-cn" -> <<122, 104, 45, 99, 110>> [] la = "es" -> <<101, 115>> [] la = "und" -> <<117, 110, 100>>
StrL(l) == [i \in 1..Len(l) |-> <<"String", Codes(l[i])>>]
\* the values of an object of the pattern
V(p, o) == LET q == {i \in 1..Len(p) : p[i].o = o} IN IF q = {} THEN <<>> ELSE p[CHOOSE i \in q : TRUE].v
Face(p, inst) ==
  LET var == Varies(F, inst)
      fam == Families(F)
      st == IF var THEN <<>> ELSE Styles(F, inst)
      sts == Texts(st)
      Chk(o, exp) == ExpectEq(Id, k+1, o \o " of face " \o ToString(inst), exp, V(p, o)) IN
  /\ Chk("family", Str(Texts(fam))) /\ Chk("familylang", StrL(LangsOf(fam)))
  /\ Chk("style", Str(sts)) /\ Chk("stylelang", StrL(LangsOf(st)))
  /\ Chk("fullname", IF var THEN <<>> ELSE Str(<<FullName(fam, st)>>)) /\ Chk("fullnamelang", IF var THEN <<>> ELSE StrL(<<"en">>))
  /\ Chk("variable", <<<<"Bool", IF var THEN 1 ELSE 0>>>>)
  /\ Chk("index", <<<<"Int", inst * 65536>>>>)
  /\ Chk("weight", <<WeightV(F, inst, sts, WeightWords)>>)
  /\ Chk("width", <<WidthV(F, inst, sts, WidthWords)>>)
  /\ Chk("size", SizeV(F, inst))
  /\ Chk("slant", <<<<"Int", InStyles(sts, SlantWords, IF F.flags.italic THEN 100 ELSE 0)>>>>)
  /\ Chk("decorative", <<<<"Bool", InStyles(sts, DecorWords, 0)>>>>)
  /\ Chk("foundry", Str(<<Foundry(F, Notices, UnknownFoundry)>>))
  /\ Chk("fontversion", <<<<"Int", F.rev>>>>)
  /\ Chk("file", Str(<<F.path>>))
Step(o) ==
  LET fs == Faces1(F) IN
  /\ ExpectEq(Id, k+1, "number of faces", Len(fs), Len(o.faces))
  /\ \A i \in 1..Len(fs) : Face(o.faces[i], fs[i])
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
