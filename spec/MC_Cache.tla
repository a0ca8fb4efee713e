------------------------------ MODULE MC_Cache ------------------------------
(* Histories of saves, damages and loads over two slots and two sets. *)
EXTENDS Cache, TLC, Json
CONSTANTS Depth, PrintHist
VARIABLES slots, h
vars == <<slots, h>>
Op(o, s, x) == [op |-> o, slot |-> s, set |-> x]
Ops == {Op("save", s, x) : s \in 1..2, x \in 1..2} \cup {Op(o, 1, 0) : o \in {"cut", "add", "flip", "cutinside", "forge", "load"}}
       \cup {Op("copy", 2, 1), Op("load", 2, 0)}
Init == slots = [s \in 1..2 |-> Empty] /\ h = <<>>
Next == Len(h) < Depth /\ \E op \in Ops : slots' = Apply(slots, op) /\ h' = Append(h, op)
Spec == Init /\ [][Next]_vars
\* an intact slot holds the set saved last in it, and nothing else can be loaded from it
LastSave(s) == LET at == {i \in 1..Len(h) : h[i].slot = s /\ h[i].op \in {"save", "copy"}} IN
  IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : j <= i
InvSaved == \A s \in 1..2 : slots[s].kind = "ok" =>
  LET i == LastSave(s) IN i > 0 /\ (h[i].op = "save" => slots[s].set = h[i].set)
InvLoad == \A s \in 1..2, e \in BOOLEAN, g \in -1..2 : LoadOk(slots[s], e, g) /\ slots[s].kind # "forged" => e \/ g = slots[s].set
InvNone == \A s \in 1..2 : LastSave(s) = 0 => ~LoadOk(slots[s], FALSE, 1) \/ slots[s].kind = "forged"
Emit == (PrintHist /\ Len(h) = Depth /\ h[Depth].op = "load") => PrintT("HIST " \o ToJson(h))
=============================================================================
