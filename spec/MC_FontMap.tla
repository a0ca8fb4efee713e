----------------------------- MODULE MC_FontMap -----------------------------
(* Sequences of requests, metrics, layouts and configurations on a font map with caches *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, PrintHist
VARIABLES m, said, lay, hist
vars == <<m, said, lay, hist>>
\* three requests, the first two with the same pattern (they differ by their matrix)
Keys == {1, 2, 3}
PatDef(x) == IF x = 3 THEN "q" ELSE "p"
FoundDef(d, p) == IF d = 1 THEN (IF p = "p" THEN <<"A", "B", "C">> ELSE <<"B", "A">>) ELSE IF d = 2 THEN (IF p = "p" THEN <<"A", "C">> ELSE <<"C">>) ELSE <<>>
FailsDef(d, f) == d = 1 /\ f = "B"
M == INSTANCE FontMap WITH PatOf <- PatDef, Found <- FoundDef, Fails <- FailsDef
Init == m = M!New(1) /\ said = {} /\ lay = [x \in Keys |-> [serial |-> 0, ans |-> <<>>]] /\ hist = <<>>
DoVisit(x, n) == LET m2 == M!Visit(m, x, n) got == M!Visited(m2, x, n) IN
  /\ m' = m2 /\ UNCHANGED lay
  /\ said' = said \cup {<<m.serial, x, i, got[i]>> : i \in 1..Len(got)}
  /\ hist' = Append(hist, [op |-> "fonts", q |-> x, n |-> n, lang |-> "", d |-> 0])
DoMetrics(x, lang) == LET m2 == M!Visit(m, x, 1) got == M!Visited(m2, x, 1) IN
  /\ got # <<>>
  /\ m' = M!Metrics(m2, got[1], lang) /\ UNCHANGED lay
  /\ said' = said \cup {<<m.serial, x, 1, got[1]>>}
  /\ hist' = Append(hist, [op |-> "metrics", q |-> x, n |-> 1, lang |-> lang, d |-> 0])
DoConfig(d) == m' = M!SetConfig(m, d) /\ UNCHANGED <<said, lay>> /\ hist' = Append(hist, [op |-> "config", q |-> 1, n |-> 0, lang |-> "", d |-> d])
DoLayout(x) == LET m2 == M!Visit(m, x, 9) got == M!Visited(m2, x, 9) IN
  /\ IF lay[x].serial = m.serial THEN UNCHANGED <<m, lay, said>>
     ELSE m' = m2 /\ lay' = [lay EXCEPT ![x] = [serial |-> m.serial, ans |-> [i \in 1..Len(got) |-> m2.info[got[i]].c]]] /\ UNCHANGED said
  /\ hist' = Append(hist, [op |-> "layout", q |-> x, n |-> 0, lang |-> "", d |-> 0])
Next == /\ Len(hist) < Depth
        /\ \/ \E x \in Keys, n \in {1, 2, 9} : DoVisit(x, n)
           \/ \E x \in Keys, l \in {"", "ja"} : DoMetrics(x, l)
           \/ \E d \in {1, 2, 3} : DoConfig(d)
           \/ \E x \in Keys : DoLayout(x)
        /\ (PrintHist => PrintT("HIST " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
View == <<m, said, lay, Len(hist)>>
\* a fontset holds a prefix of the fonts of a map without caches
InvFresh == \A x \in DOMAIN m.sets : LET s == m.sets[x] f == M!Fresh(m.db, x) IN
  /\ Len(s.fonts) <= Len(f) /\ (s.done => Len(s.fonts) = Len(f))
  /\ \A i \in 1..Len(s.fonts) : m.info[s.fonts[i]].c = f[i] /\ m.info[s.fonts[i]].serial = m.serial
\* the same request gives the same font, a font is one thing, and those of other configurations are out of reach
InvSame == \A a, b \in said : (a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3]) => a[4] = b[4]
InvShared == \A a, b \in said : a[4] = b[4] => a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3]
InvMetrics == \A x \in DOMAIN m.metrics : m.metrics[x] = <<m.info[x[1]].c, x[2]>>
\* layouts which are up to date
InvLayout == \A x \in Keys : lay[x].serial = m.serial => lay[x].ans = M!Fresh(m.db, x)
=============================================================================
