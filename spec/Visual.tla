------------------------------- MODULE Visual -------------------------------
(* Visual strings: Arabic joining, presentation forms, mandatory ligatures, mirroring and
   reordering; and the removal of the bidi marks.
   A character is [c: code, t: bidi type, b: bracket, j: joining type, m: its mirror or
   itself, f: isolated, final, initial and medial forms]. *)
EXTENDS Bidi
(* Joining types: U, R, D, C (join causing), L, T (transparent), G (ignored) *)
JoinsRight(j) == j \in {"R", "D", "C"}
JoinsLeft(j) == j \in {"L", "D", "C"}
HasForms(j) == j \in {"R", "D", "L", "T"}
\* the level of a character for joining: explicit marks and boundary neutrals have any
AnyLevel == -1
JoinLevel(w, lv, i) == IF w[i].t \in Removed THEN AnyLevel ELSE lv[i]
SameLevel(a, b) == a = b \/ a = AnyLevel \/ b = AnyLevel
\* the side of a character which is towards the following one
TowardsNext(level, j) == IF level # AnyLevel /\ level % 2 = 1 THEN JoinsLeft(j) ELSE JoinsRight(j)
TowardsPrev(level, j) == IF level # AnyLevel /\ level % 2 = 1 THEN JoinsRight(j) ELSE JoinsLeft(j)
Joining(w, i) == w[i].j \notin {"T", "G"}
Connected(w, lv, i, n) ==
  /\ i < n /\ Joining(w, i) /\ Joining(w, n)
  /\ \A x \in (i+1)..(n-1) : ~Joining(w, x) /\ (w[x].j = "T" => SameLevel(JoinLevel(w, lv, i), JoinLevel(w, lv, x)))
  /\ SameLevel(JoinLevel(w, lv, i), JoinLevel(w, lv, n))
  /\ TowardsNext(JoinLevel(w, lv, i), w[i].j)
  /\ TowardsPrev(JoinLevel(w, lv, n), w[n].j)
RECURSIVE NextJoining(_, _)
NextJoining(w, i) == IF i > Len(w) THEN 0 ELSE IF Joining(w, i) THEN i ELSE NextJoining(w, i+1)
RECURSIVE PrevJoining(_, _)
PrevJoining(w, i) == IF i < 1 THEN 0 ELSE IF Joining(w, i) THEN i ELSE PrevJoining(w, i-1)
WithNext(w, lv, i) == LET n == NextJoining(w, i+1) IN n # 0 /\ Connected(w, lv, i, n)
WithPrev(w, lv, i) == LET p == PrevJoining(w, i-1) IN p # 0 /\ Connected(w, lv, p, i)
\* 1: isolated, 2: joined on the right only, 3: on the left only, 4: on both sides
Form(w, lv, i) ==
  LET odd == JoinLevel(w, lv, i) # AnyLevel /\ lv[i] % 2 = 1
      right == IF odd THEN WithPrev(w, lv, i) ELSE WithNext(w, lv, i)
      left == IF odd THEN WithNext(w, lv, i) ELSE WithPrev(w, lv, i) IN
  1 + (IF right THEN 1 ELSE 0) + (IF left THEN 2 ELSE 0)
Forms(w, lv) == TLCEval([i \in 1..Len(w) |-> IF w[i].j \in {"R", "D", "L"} THEN w[i].f[Form(w, lv, i)] ELSE w[i].c])
(* lam followed by alef; the place of the lam is kept, with a filler *)
Filler == 65279
Lams == <<65247, 65248>>
Alefs == <<65154, 65156, 65160, 65166>>
Ligature(x, y) ==
  IF ~Contains(Lams, x) \/ ~Contains(Alefs, y) THEN 0
  ELSE 65269 + 2 * (SelectInSeq(Alefs, LAMBDA a : a = y) - 1) + (SelectInSeq(Lams, LAMBDA a : a = x) - 1)
Ligated(s, lv) == TLCEval([i \in 1..Len(s) |->
  CASE i < Len(s) /\ lv[i] = lv[i+1] /\ lv[i] % 2 = 1 /\ Ligature(s[i], s[i+1]) # 0 -> Filler
    [] i > 1 /\ lv[i-1] = lv[i] /\ lv[i] % 2 = 1 /\ Ligature(s[i-1], s[i]) # 0 -> Ligature(s[i-1], s[i])
    [] OTHER -> s[i]])
(* mirrors of the characters which are not those of w are given by mirror *)
Shaped(w, lv, fl) ==
  LET a == IF "arabic" \in fl THEN Forms(w, lv) ELSE [i \in 1..Len(w) |-> w[i].c]
      b == IF "ligatures" \in fl THEN Ligated(a, lv) ELSE a IN
  TLCEval([i \in 1..Len(w) |-> IF "mirror" \in fl /\ lv[i] % 2 = 1 /\ b[i] = w[i].c THEN w[i].m ELSE b[i]])

TypesOf(w) == [i \in 1..Len(w) |-> w[i].t]
BracketsOf(w) == [i \in 1..Len(w) |-> w[i].b]

(* Removal: bidi control characters and boundary neutrals *)
Marked(ch) == ch.t \in Removed \cup Isolates \/ ch.c \in {8206, 8207}
=============================================================================
