------------------------------- MODULE Listing -------------------------------
(* Listing of fonts, and the selection of scanned fonts. *)
EXTENDS Match

\* the value of the font contains the one asked for; strings must be equal (case and blanks aside)
ListHas(w, v) == IF Ty(w) = "String" /\ Ty(v) = "String" THEN FamilyKey(w[2]) = FamilyKey(v[2])
                 ELSE Compare(w, "contains", v, FALSE)
MatchesAll(q, f) == \A o \in DOMAIN q \ {"namelang"} :
  \A j \in 1..Len(q[o]) : \E n \in 1..Len(Get(f, o)) : ListHas(f[o][n][1], q[o][j][1])

En == <<101, 110>>
NameLangOf == [family |-> "familylang", familylang |-> "familylang", style |-> "stylelang", stylelang |-> "stylelang",
               fullname |-> "fullnamelang", fullnamelang |-> "fullnamelang"]
\* the entry shown first: the language asked for, else another country of it, else english
FirstIndex(l, lang) ==
  LET at(t, d) == {i \in 1..Len(l) : Ty(l[i][1]) = "String" /\ TagDist(l[i][1][2], t) = d} IN
  CASE at(lang, 0) # {} -> MinOf(at(lang, 0))
    [] at(lang, 1) # {} /\ MinOf(at(lang, 1)) > 1 -> MinOf(at(lang, 1))
    [] at(En, 0) # {} -> MinOf(at(En, 0))
    [] OTHER -> 1
\* an object which is not there gives no value
Project(f, objs, lang) ==
  [o \in objs \cap DOMAIN f |->
     IF o \in DOMAIN NameLangOf THEN MoveFront(Vals(f[o]), FirstIndex(Get(f, NameLangOf[o]), lang)) ELSE Vals(f[o])]
RestrictTo(f, objs) == [o \in objs \cap DOMAIN f |-> Vals(f[o])]
NameLangIn(q) == IF Has(q, "namelang") THEN q["namelang"][1][1][2] ELSE En
\* one projection per restriction; fonts with the same values may order names differently
ListOk(q, fs, objs, got) ==
  LET kept == {i \in 1..Len(fs) : MatchesAll(q, fs[i])}
      classes == {RestrictTo(fs[i], objs) : i \in kept}
      shown(cl) == {Project(fs[i], objs, NameLangIn(q)) : i \in {j \in kept : RestrictTo(fs[j], objs) = cl}}
      of(g) == {cl \in classes : g \in shown(cl)} IN
  /\ Len(got) = Cardinality(classes)
  /\ \A i \in 1..Len(got) : of(got[i]) # {}
  /\ \A cl \in classes : \E i \in 1..Len(got) : got[i] \in shown(cl)

\* file globs and font patterns: acceptance is stronger than rejection
AcceptFile(path, accept, reject) ==
  \/ \E i \in 1..Len(accept) : Glob(accept[i], path)
  \/ ~\E i \in 1..Len(reject) : Glob(reject[i], path)
AcceptFont(f, accept, reject) ==
  \/ \E i \in 1..Len(accept) : MatchesAll(accept[i], f)
  \/ ~\E i \in 1..Len(reject) : MatchesAll(reject[i], f)
=============================================================================
