------------------------------- MODULE Config -------------------------------
(* Configurations as values: what has been loaded, in order.  A document is
   [bad, items]; an item is a substitution rule or a font selector
     [k = "rule", rule]   [k = "accept" | "reject", glob | pat]
   A document which is rejected leaves the configuration as it was; reading a
   directory stops at the first document rejected, keeping those before. *)
EXTENDS Sequences, Integers, SequencesExt

NoConfig == <<>>      \* a configuration is the sequence of its items
Load(cfg, doc) == IF doc.bad THEN cfg ELSE cfg \o doc.items
LoadErr(doc) == doc.bad

Digit(b) == b >= 48 /\ b <= 57
ConfSuffix == <<46, 99, 111, 110, 102>>
IsConf(name) == /\ name # <<>> /\ Digit(name[1])
                /\ Len(name) >= 5 /\ SubSeq(name, Len(name)-4, Len(name)) = ConfSuffix
\* files: in walking order, [name, doc]
ConfFiles(files) == SelectSeq(files, LAMBDA f : IsConf(f.name))
RECURSIVE LoadAll(_, _)
LoadAll(cfg, fs) == IF fs = <<>> THEN [cfg |-> cfg, err |-> FALSE]
  ELSE IF Head(fs).doc.bad THEN [cfg |-> cfg, err |-> TRUE]
  ELSE LoadAll(Load(cfg, Head(fs).doc), Tail(fs))
LoadDir(cfg, files) == LoadAll(cfg, ConfFiles(files))

\* op: [op, slot, from, doc, files]
Do(slots, op) ==
  CASE op.op = "load" -> [slots EXCEPT ![op.slot] = Load(@, op.doc)]
    [] op.op = "dir" -> [slots EXCEPT ![op.slot] = LoadDir(@, op.files).cfg]
    [] op.op = "copy" -> [slots EXCEPT ![op.slot] = slots[op.from]]
    [] op.op = "new" -> [slots EXCEPT ![op.slot] = NoConfig]
    [] OTHER -> slots
ErrOf(slots, op) == CASE op.op = "load" -> op.doc.bad [] op.op = "dir" -> LoadDir(slots[op.slot], op.files).err [] OTHER -> FALSE
=============================================================================
