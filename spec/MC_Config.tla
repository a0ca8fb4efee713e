------------------------------ MODULE MC_Config ------------------------------
(* Histories of loads, rejected loads, directories and copies over two configurations;
   the items are opaque, their order is what matters. *)
EXTENDS Config, TLC, Json, FiniteSets
CONSTANTS Depth, PrintHist
VARIABLES slots, h
vars == <<slots, h>>
Doc(d) == [bad |-> d < 0, items |-> IF d < 0 THEN <<-d>> ELSE <<d>>]
Name(b) == <<b>> \o ConfSuffix
\* 1.conf and b.conf (ignored), then 2.conf
Files(x, y) == << [name |-> Name(49), doc |-> Doc(x)], [name |-> Name(50), doc |-> Doc(y)], [name |-> Name(98), doc |-> Doc(3)] >>
Base(o, s) == [op |-> o, slot |-> s, from |-> 3 - s, doc |-> Doc(1), files |-> <<>>]
Ops == {[Base("load", s) EXCEPT !.doc = Doc(d)] : s \in 1..2, d \in {1, 2, -2}}
       \cup {[Base("dir", 1) EXCEPT !.files = Files(x, y)] : x \in {2, -1}, y \in {1, -2}}
       \cup {Base("copy", 2), Base("copy", 1)}
Init == slots = [s \in 1..2 |-> NoConfig] /\ h = <<>>
Next == Len(h) < Depth /\ \E op \in Ops : slots' = Do(slots, op) /\ h' = Append(h, op)
Spec == Init /\ [][Next]_vars
\* replaying only the loads which were accepted gives the same configurations
RECURSIVE Replay(_, _)
Replay(s, ops) == IF ops = <<>> THEN s
  ELSE Replay(IF ops[1].op = "load" /\ ops[1].doc.bad THEN s ELSE Do(s, ops[1]), Tail(ops))
InvAccepted == slots = Replay([s \in 1..2 |-> NoConfig], h)
InvOnly == \A s \in 1..2 : \A i \in 1..Len(slots[s]) : slots[s][i] \in {1, 2}     \* nothing from ignored files
InvMono == h # <<>> /\ h[Len(h)].op \in {"load", "dir"} =>
   LET before == Replay([s \in 1..2 |-> NoConfig], SubSeq(h, 1, Len(h)-1)) IN
   \A s \in 1..2 : IsPrefix(before[s], slots[s]) /\ (s # h[Len(h)].slot => before[s] = slots[s])
\* documents are printed as numbers, negative when rejected
D(doc) == IF doc.bad THEN -doc.items[1] ELSE doc.items[1]
Out(op) == [op |-> op.op, slot |-> op.slot, from |-> op.from, d |-> D(op.doc),
            fs |-> [i \in 1..Len(op.files) |-> [name |-> op.files[i].name, d |-> D(op.files[i].doc)]]]
Emit == (PrintHist /\ Len(h) = Depth) => PrintT("HIST " \o ToJson([i \in 1..Len(h) |-> Out(h[i])]))
=============================================================================
