-------------------------------- MODULE Scan --------------------------------
(* Scanning of directories, files and resources.
   A tree is a sequence of entries [path, rep, font] in walking order: path is the
   path of the entry, rep the path of the file it leads to (itself, or the target of
   a link), font the name of its content ("": nothing that can be read as a font).
   base gives the faces of each content, as scanned without any rule. *)
EXTENDS Listing, Rules

MaxOf(S) == CHOOSE n \in S : \A m \in S : m <= n
Slash == 47
EndsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s)-Len(x)+1, Len(s)) = x
StartsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, 1, Len(x)) = x
BaseName(s) == LET at == {i \in 1..Len(s) : s[i] = Slash} IN SubSeq(s, (IF at = {} THEN 0 ELSE MaxOf(at)) + 1, Len(s))
\* .enc.gz .afm .pfm .dir .scale .alias
NoFont == { <<46,101,110,99,46,103,122>>, <<46,97,102,109>>, <<46,112,102,109>>, <<46,100,105,114>>,
            <<46,115,99,97,108,101>>, <<46,97,108,105,97,115>> }
ValidName(n) == n # <<>> /\ n[1] # 46 /\ ~\E x \in NoFont : EndsWith(n, x)
Under(path, dir) == StartsWith(path, dir \o <<Slash>>)

\* the entries reached from the directories, in order, each once
Reached(tree, dirs) ==
  LET from(i) == SelectSeq(tree, LAMBDA e : Under(e.path, dirs[i]) /\ ~\E j \in 1..i-1 : Under(e.path, dirs[j])) IN
  FlattenSeq([i \in 1..Len(dirs) |-> from(i)])

\* the faces of a file once the scan rules have been applied
Faces(base, font, path, rules) ==
  IF font \notin DOMAIN base THEN <<>>
  ELSE [i \in 1..Len(base[font]) |->
         Substitute(Put(PatOf(base[font][i], 1), "file", << <<<<"String", path>>, "s">> >>), EmptyPat, rules, "scan")]
\* undefined edits are not judged
Judged(fs) == \A i \in 1..Len(fs) : ~fs[i].bad
KeptFaces(fs, accept, reject) == SelectSeq([i \in 1..Len(fs) |-> fs[i].p], LAMBDA p : AcceptFont(p, accept, reject))

EntryFaces(base, e, rules, ga, gr) ==
  IF ValidName(BaseName(e.path)) /\ AcceptFile(e.rep, ga, gr) THEN Faces(base, e.font, e.rep, rules) ELSE <<>>
ScanDirs(base, tree, dirs, rules, ga, gr, pa, pr) ==
  LET es == Reached(tree, dirs) IN
  FlattenSeq([i \in 1..Len(es) |-> KeptFaces(EntryFaces(base, es[i], rules, ga, gr), pa, pr)])
JudgedDirs(base, tree, dirs, rules, ga, gr) ==
  \A i \in 1..Len(tree) : Judged(EntryFaces(base, tree[i], rules, ga, gr))
=============================================================================
