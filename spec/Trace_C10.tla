----------------------------- MODULE Trace_C10 -----------------------------
EXTENDS TraceBase, Scan
Init == CaseInit
Id == Cases[c].id
Pats(s) == [i \in 1..Len(s) |-> PatOf(s[i], 1)]
PA == Pats(In.pa)  PR == Pats(In.pr)
Values(s) == [i \in 1..Len(s) |-> ValuesOf(s[i])]
Got(o) == Values(Pats(o.fonts))
\* a whole scan of directories
Dirs(o) ==
  IF In.missing THEN ExpectEq(Id, k+1, "error for a missing directory", TRUE, o.err)
  ELSE /\ ExpectEq(Id, k+1, "error", FALSE, o.err)
       /\ JudgedDirs(In.base, In.tree, In.dirs, In.rules, In.ga, In.gr) =>
            ExpectEq(Id, k+1, "fonts of the directories", Values(ScanDirs(In.base, In.tree, In.dirs, In.rules, In.ga, In.gr, PA, PR)), Got(o))
\* one file or resource: path globs do not apply
One(o, font, path) ==
  LET fs == Faces(In.base, font, path, In.rules) IN
  /\ ExpectEq(Id, k+1, "error", fs = <<>>, o.err)
  /\ Judged(fs) => ExpectEq(Id, k+1, "fonts of the " \o o.what, Values(KeptFaces(fs, PA, PR)), Got(o))
\* the partial scan visits the same files, without any rule
Families(e) == IF ValidName(BaseName(e.path)) /\ e.font \in DOMAIN In.families THEN In.families[e.font] ELSE <<>>
Partial(o) ==
  LET es == Reached(In.tree, In.dirs) IN
  IF In.missing THEN ExpectEq(Id, k+1, "error for a missing directory", TRUE, o.err)
  ELSE /\ ExpectEq(Id, k+1, "error", FALSE, o.err)
       /\ ExpectEq(Id, k+1, "families of the directories", FlattenSeq([i \in 1..Len(es) |-> Families(es[i])]), o.families)
Step(o) == CASE o.what = "dirs" -> Dirs(o)
             [] o.what = "partial" -> Partial(o)
             [] OTHER -> One(o, o.font, o.path)
Next == \/ /\ k >= 0 /\ k < Len(Obs)
           /\ UNCHANGED c
           /\ k' = IF Step(Obs[k+1]) THEN k+1 ELSE -1
        \/ CaseEnd
=============================================================================
