---------------------------- MODULE MC_AttrList ----------------------------
(* All histories of Insert / Change / Filter on small constants.  `over` is the
   meaning by definition: for each kind and position the value last changed. *)
EXTENDS AttrList, TLC, Json
CONSTANTS Kinds, Vals, MaxPos, Depth, PrintHist, WithInsert
VARIABLES list, over, h
vars == <<list, over, h>>
Pos == 0..MaxPos-1
Ranges == {r \in (0..MaxPos) \X (0..MaxPos) : r[1] < r[2]}
NoVal == -1
Init == list = <<>> /\ over = [kd \in Kinds |-> [p \in Pos |-> NoVal]] /\ h = <<>>
Op(o, kd, v, s, e, ks) == [op |-> o, kind |-> kd, v |-> v, s |-> s, e |-> e, kinds |-> ks]
Change == \E kd \in Kinds, v \in Vals, r \in Ranges :
   /\ list' = ChangeAttr(list, <<kd, v, r[1], r[2]>>)
   /\ over' = [over EXCEPT ![kd] = [p \in Pos |-> IF r[1] <= p /\ p < r[2] THEN v ELSE @[p]]]
   /\ h' = Append(h, Op("change", kd, v, r[1], r[2], <<>>))
Insert == \E kd \in Kinds, v \in Vals, r \in Ranges :
   /\ WithInsert
   /\ \A p \in r[1]..r[2]-1 : ValuesAt(list, kd, p) = {}   \* disjoint from the others of its kind
   /\ list' = InsertAttr(list, <<kd, v, r[1], r[2]>>)
   /\ over' = [over EXCEPT ![kd] = [p \in Pos |-> IF r[1] <= p /\ p < r[2] THEN v ELSE @[p]]]
   /\ h' = Append(h, Op("insert", kd, v, r[1], r[2], <<>>))
Filter == \E kd \in Kinds :
   /\ list # <<>>
   /\ list' = FilterKeep(list, {kd})
   /\ over' = [over EXCEPT ![kd] = [p \in Pos |-> NoVal]]
   /\ h' = Append(h, Op("filter", "", 0, 0, 0, <<kd>>))
Next == Len(h) < Depth /\ (Change \/ Insert \/ Filter)
Spec == Init /\ [][Next]_vars
View == <<list, over, Len(h)>>

InvOrdered == Ordered(list)
InvDisjoint == \A kd \in Kinds : Disjoint(list, kd)
InvOverlay == \A kd \in Kinds, p \in Pos :
   ValuesAt(list, kd, p) = IF over[kd][p] = NoVal THEN {} ELSE {over[kd][p]}
\* the relation accepts the deterministic operator
InvRel == \A kd \in Kinds, v \in Vals, r \in Ranges :
   LET a == <<kd, v, r[1], r[2]>> IN ChangeRel(list, a, ChangeAttr(list, a))
Emit == (PrintHist /\ Len(h) = Depth) => PrintT("HIST " \o ToJson(h))
=============================================================================
