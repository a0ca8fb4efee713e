------------------------------ MODULE Defaults ------------------------------
(* Default substitution.  Sizes are judged within 1/1000. *)
EXTENDS Pattern

One(v) == << <<v, "s">> >>
St(s) == <<"String", s>>
Plain == [ weight |-> <<"Int", 80>>, slant |-> <<"Int", 0>>, width |-> <<"Int", 100>>,
  hinting |-> <<"Bool", 1>>, verticallayout |-> <<"Bool", 0>>, autohint |-> <<"Bool", 0>>, globaladvance |-> <<"Bool", 1>>,
  embeddedbitmap |-> <<"Bool", 1>>, decorative |-> <<"Bool", 0>>, symbol |-> <<"Bool", 0>>, variable |-> <<"Bool", 0>>,
  fontversion |-> <<"Int", 2147483647>>, hintstyle |-> <<"Int", 3>>, order |-> <<"Int", 0>> ]
FirstFloat(p, o, dflt) == IF Has(p, o) /\ IsNum(p[o][1][1]) THEN FloatOf(p[o][1][1]) ELSE dflt
SizeOf(p) == IF ~Has(p, "size") THEN 12000
             ELSE LET v == p["size"][1][1] IN IF Ty(v) = "Range" THEN (v[2][1] + v[2][2]) \div 2 ELSE FloatOf(v)
\* dpi and scale are multiples of 1/2
Halves(x) == x \div 500
PixelOf(p) == (SizeOf(p) * Halves(FirstFloat(p, "dpi", 75000)) * Halves(FirstFloat(p, "scale", 1000))) \div 288
PointOf(p) == (FirstFloat(p, "pixelsize", 0) * 288) \div (Halves(FirstFloat(p, "dpi", 75000)) * Halves(FirstFloat(p, "scale", 1000)))
\* the default language is "en"
Fill(p) ==
  LET a == [o \in DOMAIN p \cup DOMAIN Plain |-> IF Has(p, o) THEN p[o] ELSE One(Plain[o])]
      n == IF Has(p, "namelang") THEN p["namelang"] ELSE One(St(<<101, 110>>))
      names == << n[1], <<St(<<101, 110, 45, 117, 115>>), "w">> >>
      b == [o \in DOMAIN a \cup {"namelang", "familylang", "stylelang", "fullnamelang"} |->
             IF Has(a, o) THEN a[o] ELSE IF o = "namelang" THEN n ELSE names]
      sized == IF Has(p, "pixelsize") THEN Put(b, "size", One(<<"Float", PointOf(p)>>))
               ELSE Put(Put(Put(Put(b, "size", One(<<"Float", SizeOf(p)>>)), "pixelsize", One(<<"Float", PixelOf(p)>>)),
                            "dpi", One(<<"Float", FirstFloat(p, "dpi", 75000)>>)), "scale", One(<<"Float", FirstFloat(p, "scale", 1000)>>)) IN
  sized
Near(a, b, tol) == a = b \/ (Ty(a) = "Float" /\ Ty(b) = "Float" /\ Abs(a[2] - b[2]) <= tol)
SameDefaults(a, b, tol) ==   \* the program name, when it was missing, is not judged
  /\ DOMAIN a \ {"prgname"} = DOMAIN b \ {"prgname"}
  /\ \A o \in DOMAIN a : Has(b, o) => Len(a[o]) = Len(b[o]) /\ \A i \in 1..Len(a[o]) :
        IF o \in {"size", "pixelsize"} THEN Near(a[o][i][1], b[o][i][1], tol) ELSE a[o][i][1] = b[o][i][1]
=============================================================================
