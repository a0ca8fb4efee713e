------------------------------- MODULE Pattern -------------------------------
(* A pattern maps objects to ordered lists of values.  Values of a wrong type
   for a standard object are refused. *)
EXTENDS FcValues

StringObjs == {"family", "familylang", "style", "stylelang", "fullname", "fullnamelang", "foundry", "rasterizer",
  "capability", "namelang", "fontfeatures", "prgname", "hash", "postscriptname", "fontformat", "file", "fontvariations"}
IntObjs == {"order", "slant", "spacing", "hintstyle", "rgba", "index", "charwidth", "lcdfilter", "fontversion", "charheight"}
RangeObjs == {"weight", "width", "size"}
FloatObjs == {"aspect", "pixelsize", "scale", "dpi"}
BoolObjs == {"antialias", "hinting", "verticallayout", "autohint", "globaladvance", "outline", "scalable",
  "minspace", "embolden", "color", "symbol", "variable", "fonthashint", "embeddedbitmap", "decorative"}
Accepts(o, v) ==
  CASE o \in StringObjs -> Ty(v) = "String"
    [] o \in IntObjs -> Ty(v) = "Int"
    [] o \in RangeObjs -> Ty(v) \in {"Int", "Float", "Range"}
    [] o \in FloatObjs -> Ty(v) \in {"Int", "Float"}
    [] o \in BoolObjs -> Ty(v) = "Bool"
    [] o = "matrix" -> Ty(v) = "Matrix"
    [] o = "charset" -> Ty(v) = "Charset"
    [] o = "lang" -> Ty(v) \in {"Langset", "String"}
    [] OTHER -> TRUE

\* adding a list: all or nothing
AddList(p, o, l, app) ==
  IF \E i \in 1..Len(l) : ~Accepts(o, l[i][1]) THEN p
  ELSE Put(p, o, IF app THEN Get(p, o) \o l ELSE l \o Get(p, o))
Add(p, o, v, b, app) == AddList(p, o, << <<v, b>> >>, app)
Del(p, o) == Put(p, o, <<>>)

\* results of a lookup: 0 match, 1 no such object, 3 no such index
LookupResult(p, o, i) == IF ~Has(p, o) THEN 1 ELSE IF i < Len(p[o]) THEN 0 ELSE 3

\* numbers are the same value whatever their type: hashes of such patterns are not compared
NumEq(x, y) == IF IsNum(x) /\ IsNum(y) THEN FloatOf(x) = FloatOf(y) ELSE x = y
SamePat(p, q) == ValuesOf(p) = ValuesOf(q)
SameUpToNum(p, q) == DOMAIN p = DOMAIN q /\ \A o \in DOMAIN p :
   Len(p[o]) = Len(q[o]) /\ \A i \in 1..Len(p[o]) : NumEq(p[o][i][1], q[o][i][1])
=============================================================================
