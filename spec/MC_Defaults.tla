---------------------------- MODULE MC_Defaults ----------------------------
(* Every combination of sizes, resolutions and names given or not. *)
EXTENDS Defaults, TLC, Json
CONSTANTS PrintHist
VARIABLES p, st
V == [ size |-> {<<"Int", 10>>, <<"Float", 7500>>, <<"Range", <<8000, 11000>>>>}, dpi |-> {<<"Int", 96>>, <<"Float", 72500>>},
       scale |-> {<<"Float", 500>>, <<"Int", 2>>}, pixelsize |-> {<<"Int", 16>>, <<"Float", 12500>>},
       namelang |-> {St(<<102, 114>>)}, familylang |-> {St(<<100, 101>>)}, weight |-> {<<"Int", 200>>}, hinting |-> {<<"Bool", 0>>} ]
Objs == {"size", "dpi", "scale", "pixelsize", "namelang", "familylang", "weight", "hinting"}
Opt(o) == V[o] \cup {Nil}
Init == p = EmptyPat /\ st = 0
Next == st = 0 /\ st' = 1 /\
  \E a \in Opt("size"), b \in Opt("dpi"), c \in Opt("scale"), d \in Opt("pixelsize"), n \in Opt("namelang"), f \in Opt("familylang"), w \in Opt("weight"), h \in Opt("hinting") :
    LET g == [size |-> a, dpi |-> b, scale |-> c, pixelsize |-> d, namelang |-> n, familylang |-> f, weight |-> w, hinting |-> h] IN
    p' = [o \in {x \in Objs : g[x] # Nil} |-> One(g[o])]
Spec == Init /\ [][Next]_<<p, st>>
Sized == {"size", "dpi", "scale"}
InvKeep == \A o \in DOMAIN p \ Sized : Fill(p)[o] = p[o]
InvAll == DOMAIN Plain \cup {"size", "pixelsize", "namelang", "familylang", "stylelang", "fullnamelang"} \subseteq DOMAIN Fill(p)
InvIdem == SameDefaults(Fill(Fill(p)), Fill(p), 6)   \* rounding to 1/1000 in between
Emit == (PrintHist /\ st = 1) => PrintT("HIST " \o ToJson(p))
=============================================================================
