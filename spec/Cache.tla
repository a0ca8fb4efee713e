-------------------------------- MODULE Cache --------------------------------
(* Saved font sets.  A slot holds what Serialize wrote, possibly damaged since:
     kind "none"    nothing written
          "ok"      as written
          "cut"     some bytes missing at the end, or bytes added
          "hurt"    a bit changed: detected, unless it carries no meaning
          "forged"  contents changed and compressed again: no promise on the result,
                    but no panic, and what is loaded can be saved again *)
EXTENDS Integers, Sequences, FiniteSets

Empty == [kind |-> "none", set |-> 0]
Worse(a, b) == LET rank(x) == CASE x = "ok" -> 0 [] x = "hurt" -> 1 [] x = "cut" -> 2 [] x = "forged" -> 3 [] x = "none" -> 4 IN
  IF rank(a) >= rank(b) THEN a ELSE b
\* op: [op, slot, set]
Apply(slots, op) ==
  CASE op.op = "save" -> [slots EXCEPT ![op.slot] = [kind |-> "ok", set |-> op.set]]
    [] op.op \in {"cut", "add", "cutinside", "addinside"} -> [slots EXCEPT ![op.slot].kind = Worse(@, "cut")]
    [] op.op = "flip" -> [slots EXCEPT ![op.slot].kind = Worse(@, "hurt")]
    [] op.op = "forge" -> [slots EXCEPT ![op.slot].kind = Worse(@, "forged")]
    [] op.op = "copy" -> [slots EXCEPT ![op.slot] = slots[op.set]]
    [] OTHER -> slots
\* what a load may give: an error, the set saved (its number), or another set (-1)
LoadOk(s, err, got) ==
  CASE s.kind \in {"none", "cut"} -> err
    [] s.kind = "ok" -> ~err /\ got = s.set
    [] s.kind = "hurt" -> err \/ got = s.set
    [] OTHER -> TRUE
=============================================================================
