------------------------------- MODULE FontMap -------------------------------
(* A font map with caches (property M01): requests have a key (everything that matters), keys have a
   pattern (what the database is asked, shared by several keys); fontsets are filled lazily, from the best match first
   and from the sorted list after *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS PatOf(_),       \* key -> pattern
          Found(_, _),    \* database, pattern -> files, closest first
          Fails(_, _)     \* database, file -> it can't be loaded

(* Without caches *)
Content(d, key, file) == <<d, PatOf(key), file, key>>
Fresh(d, key) == LET F == Found(d, PatOf(key)) ok == SelectSeq(F, LAMBDA f : ~Fails(d, f)) IN [i \in 1..Len(ok) |-> Content(d, key, ok[i])]

(* With caches. info: what each font is, in the order of creation; sets: key -> [next, fonts, done];
   pats: pattern -> best match known, list known; fonts: content -> font; metrics: font, language -> value *)
New(d) == [db |-> d, serial |-> 1, sets |-> <<>>, pats |-> <<>>, fonts |-> <<>>, metrics |-> <<>>, info |-> <<>>]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
GetSet(m, key) == IF key \in DOMAIN m.sets THEN m.sets[key] ELSE [next |-> 1, fonts |-> <<>>, done |-> FALSE]
GetPat(m, p) == IF p \in DOMAIN m.pats THEN m.pats[p] ELSE [match |-> FALSE, list |-> FALSE]
\* the file at i for a pattern, "" at the end
FileAt(m, p, i) == LET F == Found(m.db, p) IN IF i <= Len(F) THEN F[i] ELSE ""
AfterFile(m, p, i) == LET st == GetPat(m, p) IN
  IF i = 1 /\ (st.match \/ ~st.list) THEN [m EXCEPT !.pats = Put(@, p, [match |-> TRUE, list |-> FALSE])]
  ELSE [m EXCEPT !.pats = Put(@, p, [match |-> FALSE, list |-> TRUE])]
\* one more font in a fontset
RECURSIVE LoadNext(_, _)
LoadNext(m, key) ==
  LET s == GetSet(m, key) f == FileAt(m, PatOf(key), s.next) m2 == AfterFile(m, PatOf(key), s.next) IN
  IF f = "" THEN [m2 EXCEPT !.sets = Put(@, key, [s EXCEPT !.done = TRUE])]
  ELSE IF Fails(m.db, f) THEN LoadNext([m2 EXCEPT !.sets = Put(@, key, [s EXCEPT !.next = @ + 1])], key)
  ELSE LET x == Content(m.db, key, f) IN
       IF x \in DOMAIN m.fonts THEN [m2 EXCEPT !.sets = Put(@, key, [s EXCEPT !.next = @ + 1, !.fonts = Append(@, m.fonts[x])])]
       ELSE LET id == Len(m.info) + 1 IN
            [m2 EXCEPT !.sets = Put(@, key, [s EXCEPT !.next = @ + 1, !.fonts = Append(@, id)]), !.fonts = Put(@, x, id),
                       !.info = Append(@, [c |-> x, serial |-> m.serial])]
\* the first n fonts
RECURSIVE Visit(_, _, _)
Visit(m, key, n) == LET s == GetSet(m, key) IN IF s.done \/ Len(s.fonts) >= n THEN m ELSE Visit(LoadNext(m, key), key, n)
Visited(m, key, n) == LET s == GetSet(m, key) IN SubSeq(s.fonts, 1, IF n < Len(s.fonts) THEN n ELSE Len(s.fonts))
\* metrics: of a font in a language; computing some asks for those of the default language
Metrics(m, id, lang) ==
  IF <<id, lang>> \in DOMAIN m.metrics THEN m
  ELSE LET a == [m EXCEPT !.metrics = Put(@, <<id, "">>, <<m.info[id].c, "">>)] IN [a EXCEPT !.metrics = Put(@, <<id, lang>>, <<m.info[id].c, lang>>)]
\* a new configuration or database: the caches are emptied, those who use the map see another serial
SetConfig(m, d) == [m EXCEPT !.db = d, !.serial = @ + 1, !.sets = <<>>, !.pats = <<>>, !.fonts = <<>>]
=============================================================================
