------------------------------ MODULE MC_Markup ------------------------------
(* Markup read token by token: the attributes in the list give each character what its open tags say *)
EXTENDS Markup, Json
CONSTANTS MaxTokens, PrintHist
VARIABLES m, over,  \* over: the open tags of each character
          hist
vars == <<m, over, hist>>
UL == 95
Opens == {<<"b", <<>>>>, <<"u", <<>>>>, <<"span", <<<<"weight", "light">>>>>>, <<"big", <<>>>>, <<"small", <<>>>>, <<"span", <<<<"size", "small">>>>>>,
          <<"span", <<<<"font", "Sans 11">>>>>>, <<"x", <<>>>>}
Tokens == {[t |-> "open", tag |-> o[1], at |-> o[2]] : o \in Opens}
  \cup {[t |-> "text", cs |-> <<<<97, 0>>>>], [t |-> "text", cs |-> <<<<UL, 0>>>>], [t |-> "close", tag |-> "b"]}
  \cup (IF m.stack = <<>> THEN {} ELSE {[t |-> "close", tag |-> Top(m).tag]})
Init == m = Start /\ over = <<>> /\ hist = <<>>
Next == /\ Len(hist) < MaxTokens /\ ~m.err
        /\ \E tk \in Tokens :
             /\ m' = Token(m, tk, UL)
             /\ over' = over \o [i \in 1..(Len(m'.text) - Len(over)) |-> m.stack]
             /\ hist' = Append(hist, tk)
        /\ (PrintHist => PrintT("HIST " \o ToJson([tks |-> hist', m |-> UL])))
Spec == Init /\ [][Next]_vars
View == <<m, over, Len(hist)>>
End == Finish(m, UL)
D == Attributes(End)
Ok == ~End.err
\* (a pending marker at the end is over nothing)
N == Len(over)
\* ranges of tags are nested or disjoint, and in the text
InvNested == LET A == End.applied IN \A i, j \in 1..Len(A) :
  /\ 0 <= A[i][3] /\ A[i][3] <= A[i][4] /\ A[i][4] <= Len(End.text)
  /\ (A[i][4] <= A[j][3] \/ A[j][4] <= A[i][3] \/ (A[i][3] <= A[j][3] /\ A[j][4] <= A[i][4]) \/ (A[j][3] <= A[i][3] /\ A[i][4] <= A[j][4]))
\* the innermost tag wins
InnerOf(st, kind) ==
  LET S == {i \in 1..Len(st) : \E j \in 1..Len(st[i].a) : st[i].a[j][1] = kind} IN
  IF S = {} THEN "" ELSE LET f == st[CHOOSE i \in S : \A j \in S : j <= i] IN f.a[CHOOSE j \in 1..Len(f.a) : f.a[j][1] = kind][2]
InvInner == Ok => \A p \in 1..N : \A kind \in {"weight", "desc"} : Winner(D, p-1, kind) = InnerOf(over[p], kind)
\* sizes compose with those around: those of the tags of a character, outermost first
RECURSIVE SizesOf(_, _)
SizesOf(st, z) == \* z: <<current, size n, e, scale n, e>>
  IF st = <<>> THEN z
  ELSE LET f == Head(st) s == f.sz prev == z IN
    SizesOf(Tail(st),
      IF f.tag \notin {"big", "small"} /\ ~(\E j \in 1..Len(f.a) : f.a[j][1] \in {"size", "scale", "desc"}) THEN z
      ELSE IF f.tag \in {"big", "small"} THEN LET d == IF f.tag = "big" THEN 1 ELSE -1 IN
             IF z[1] = "size" THEN <<"size", z[2], z[3] + d, z[4], z[5]>> ELSE <<"scale", z[2], z[3], z[4], z[5] + d>>
      ELSE IF s[1] = "size" THEN <<"size", s[2], s[3], z[4], z[5]>> ELSE <<"scale", z[2], z[3], s[2], s[3]>>)
Steps(st) == {i \in 1..Len(st) : st[i].tag \in {"big", "small"}}
InvSizes == Ok => \A p \in 1..N : Steps(over[p]) # {} =>
  LET z == SizesOf(over[p], <<"scale", 0, 0, 10000, 0>>)
      last == CHOOSE i \in Steps(over[p]) : \A j \in Steps(over[p]) : j <= i IN
  \* after the innermost step, nothing has been said about sizes
  (last = Len(over[p])) => IF z[1] = "size" THEN Winner(D, p-1, "size") = SizeAttr(z[2], z[3])[2] ELSE Winner(D, p-1, "scale") = ScaleAttr(z[4], z[5])[2]
\* the accelerator is the first marked character, marked ones are underlined in the list
InvAccel == /\ (End.accel = 0) = (End.accels = <<>>)
            /\ \A i \in 1..Len(End.accels) : End.text[End.accels[i][3] + 1] # UL
            /\ End.accel # 0 => End.text[End.accels[1][3] + 1] = End.accel
\* what is read only grows
Grows == [][IsPrefix(m.text, m'.text) /\ IsSuffix(m.applied, m'.applied)]_vars
=============================================================================
