------------------------------- MODULE Markup -------------------------------
(* Markup (property P10): a machine with a stack of open tags reads tokens; it gives a text, attributes
   of ranges of the text and the accelerator character, or an error *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

(* Sizes: a number times (6/5)^e *)
RECURSIVE Pow(_, _)
Pow(x, e) == IF e = 0 THEN 1 ELSE x * Pow(x, e-1)
Rounded(n, e) == IF e >= 0 THEN (2*n*Pow(6, e) + Pow(5, e)) \div (2*Pow(5, e))
                 ELSE (2*n*Pow(5, 0-e) + Pow(6, 0-e)) \div (2*Pow(6, 0-e))
Truncated(n, e) == IF e >= 0 THEN (n*Pow(6, e)) \div Pow(5, e) ELSE (n*Pow(5, 0-e)) \div Pow(6, 0-e)
ScaleAttr(n, e) == <<"scale", "f" \o ToString(Rounded(n, e))>>   \* n in 1/10000
SizeAttr(n, e) == <<"size", ToString(Truncated(n, e))>>

(* The attributes of <span>: [n |-> name, v |-> value, a |-> attributes, s |-> what it does to sizes];
   values which are not here are errors. s: <<"abs", n>>: a size; <<"pct", n, e>>: a scale; <<"step", d>>; <<>>: nothing *)
V(n, v, kind, val) == [n |-> n, v |-> v, a |-> <<<<kind, val>>>>, s |-> <<>>]
Enum(n, kind, vs, xs) == {V(n, vs[i], kind, ToString(xs[i])) : i \in 1..Len(vs)}
Colors == {<<"red", "65535,0,0">>, <<"Blue", "0,0,65535">>, <<"#0f0", "0,65535,0">>, <<"#123", "4369,8738,13107">>, <<"#ff8000", "65535,32896,0">>,
           <<"#00FF7F", "0,65535,32639">>, <<"#123456789", "4657,17764,30871">>, <<"#000100020003", "1,2,3">>}
\* with an alpha
AlphaColors == {<<"#1238", "4369,8738,13107", "34952">>, <<"#ff800040", "65535,32896,0", "16448">>, <<"#0001000200030004", "1,2,3", "4">>}
Bools == {<<"true", "1">>, <<"yes", "1">>, <<"t", "1">>, <<"y", "1">>, <<"false", "0">>, <<"no", "0">>, <<"f", "0">>, <<"n", "0">>}
Bool(n, kind) == {V(n, b[1], kind, b[2]) : b \in Bools}
Color(n, kind) == {V(n, x[1], kind, x[2]) : x \in Colors}
ColorA(n, kind, alpha) == Color(n, kind) \cup {[n |-> n, v |-> x[1], a |-> <<<<kind, x[2]>>, <<alpha, x[3]>>>>, s |-> <<>>] : x \in AlphaColors}
Alphas(n, kind) == {V(n, "1", kind, "1"), V(n, "50%", kind, "32767"), V(n, "100%", kind, "65535"), V(n, "1234", kind, "1234"), V(n, "65535", kind, "65535"), V(n, "1%", kind, "655")}
Lengths == {<<"0", 0>>, <<"-2000", -2000>>, <<"3000", 3000>>, <<"5.5pt", 5632>>, <<"-2pt", -2048>>, <<"10pt", 10240>>}
AbsSize(v, x) == [n |-> "size", v |-> v, a |-> <<SizeAttr(x, 0)>>, s |-> <<"abs", x>>]
Pct(v, x, e) == [n |-> "size", v |-> v, a |-> <<ScaleAttr(x, e)>>, s |-> <<"pct", x, e>>]
Step(v, d) == [n |-> "size", v |-> v, a |-> <<>>, s |-> <<"step", d>>]
Desc(v, s) == [n |-> "font", v |-> v, a |-> <<<<"desc", v>>>>, s |-> s]
SpanValues == TLCEval(
  Enum("style", "style", <<"normal", "oblique", "italic", "Italic">>, <<0, 1, 2, 2>>)
  \cup Enum("weight", "weight", <<"ultralight", "light", "normal", "bold", "ultrabold", "heavy", "Bold", "650", "book">>, <<200, 300, 400, 700, 800, 900, 700, 650, 380>>)
  \cup Enum("variant", "variant", <<"normal", "small-caps", "smallcaps", "unicase">>, <<0, 1, 1, 5>>)
  \cup Enum("stretch", "stretch", <<"ultracondensed", "condensed", "normal", "semi-expanded", "ultraexpanded">>, <<0, 2, 4, 5, 8>>)
  \cup Enum("underline", "underline", <<"none", "single", "double", "low", "error", "single-line", "double-line", "error-line">>, <<0, 1, 2, 3, 4, 5, 6, 7>>)
  \cup Enum("overline", "overline", <<"none", "single">>, <<0, 1>>)
  \cup Enum("gravity", "gravity", <<"south", "east", "north", "west">>, <<0, 1, 2, 3>>)
  \cup Enum("gravity_hint", "gravityhint", <<"natural", "strong", "line">>, <<0, 1, 2>>)
  \cup Enum("show", "show", <<"none", "spaces", "line-breaks", "ignorables", "spaces|line-breaks", "spaces | ignorables", "spaces|line-breaks|ignorables">>, <<0, 1, 2, 4, 3, 5, 7>>)
  \cup Enum("text_transform", "transform", <<"none", "lowercase", "uppercase", "capitalize">>, <<0, 1, 2, 3>>)
  \cup Enum("baseline_shift", "baselineshift", <<"none", "superscript", "subscript", "2000", "-1500", "5.5pt">>, <<0, 1, 2, 2000, -1500, 5632>>)
  \cup Enum("font_scale", "fontscale", <<"none", "superscript", "subscript">>, <<0, 1, 2>>)
  \cup {V("rise", x[1], "rise", ToString(x[2])) : x \in Lengths}
  \cup Enum("letter_spacing", "letterspacing", <<"0", "300", "-20">>, <<0, 300, -20>>)
  \cup {V("line_height", "1.5", "lineheight", "f15000"), V("line_height", "2", "lineheight", "f20000"), V("line_height", "1024", "lineheight", "f10240000"),
        V("line_height", "3000", "abslineheight", "3000"), V("line_height", "2000.5", "lineheight", "f20005000")}
  \cup {V("lang", "fr", "lang", "fr"), V("lang", "de-DE", "lang", "de-de"), V("lang", "zh_CN", "lang", "zh-cn")}
  \cup {V("font_features", "dlig=1, -kern", "features", "dlig=1, -kern")}
  \cup {V("family", "Sans", "family", "Sans"), V("family", "a,b", "family", "a,b")}
  \cup {V("segment", "word", "word", "1"), V("segment", "sentence", "sentence", "1")}
  \cup Bool("strikethrough", "strikethrough") \cup Bool("fallback", "fallback") \cup Bool("allow_breaks", "allowbreaks") \cup Bool("insert_hyphens", "inserthyphens")
  \cup ColorA("foreground", "foreground", "foregroundalpha") \cup ColorA("background", "background", "backgroundalpha")
  \cup Color("underline_color", "underlinecolor") \cup Color("overline_color", "overlinecolor") \cup Color("strikethrough_color", "strikethroughcolor")
  \cup Alphas("alpha", "foregroundalpha") \cup Alphas("background_alpha", "backgroundalpha")
  \cup {AbsSize("10241", 10241), AbsSize("11pt", 11264), AbsSize("20.5pt", 20992), Pct("xx-small", 10000, -3), Pct("x-small", 10000, -2), Pct("small", 10000, -1),
        Pct("medium", 10000, 0), Pct("large", 10000, 1), Pct("x-large", 10000, 2), Pct("xx-large", 10000, 3), Pct("50%", 5000, 0), Pct("120.5%", 12050, 0),
        Step("smaller", -1), Step("larger", 1)}
  \cup {Desc("Sans 11", <<"abs", 11264>>), Desc("Serif", <<>>), Desc("Sans Bold 20.5", <<"abs", 20992>>), Desc("Sans Bold", <<>>)})
Names == {<<"face", "family">>, <<"font_family", "family">>, <<"font_size", "size">>, <<"size", "size">>, <<"font_style", "style">>, <<"style", "style">>,
  <<"font_weight", "weight">>, <<"weight", "weight">>, <<"font_variant", "variant">>, <<"variant", "variant">>, <<"font_stretch", "stretch">>, <<"stretch", "stretch">>,
  <<"font", "font">>, <<"font_desc", "font">>, <<"font-desc", "font">>, <<"foreground", "foreground">>, <<"fgcolor", "foreground">>, <<"color", "foreground">>,
  <<"background", "background">>, <<"bgcolor", "background">>, <<"alpha", "alpha">>, <<"fgalpha", "alpha">>, <<"background_alpha", "background_alpha">>,
  <<"background-alpha", "background_alpha">>, <<"bgalpha", "background_alpha">>, <<"letter-spacing", "letter_spacing">>, <<"underline-color", "underline_color">>,
  <<"font-size", "size">>, <<"allow-breaks", "allow_breaks">>}
  \cup {<<n, n>> : n \in {"underline", "underline_color", "overline", "overline_color", "strikethrough", "strikethrough_color", "rise", "baseline_shift", "letter_spacing", "lang",
        "fallback", "gravity", "gravity_hint", "font_features", "allow_breaks", "insert_hyphens", "show", "line_height", "text_transform", "segment", "font_scale"}}
Known(n) == \E x \in Names : x[1] = n
Canon(n) == (CHOOSE x \in Names : x[1] = n)[2]

(* What opening a tag with attributes at (a sequence of <<name, value>>) does *)
Bad == [ok |-> FALSE, a |-> <<>>, s |-> <<>>]
Good(a, s) == [ok |-> TRUE, a |-> a, s |-> s]
SpanOf(at) ==
  IF \E i \in 1..Len(at) : ~Known(at[i][1]) THEN Bad ELSE
  LET cn == TLCEval([i \in 1..Len(at) |-> Canon(at[i][1])])
      Of(i) == {x \in SpanValues : x.n = cn[i] /\ x.v = at[i][2]} IN
  IF (\E i, j \in 1..Len(at) : i # j /\ cn[i] = cn[j]) \/ (\E i \in 1..Len(at) : Of(i) = {}) THEN Bad
  ELSE LET vs == TLCEval([i \in 1..Len(at) |-> CHOOSE x \in Of(i) : TRUE])
           f == SelectSeq(vs, LAMBDA x : x.n = "font") z == SelectSeq(vs, LAMBDA x : x.n = "size")
           al == SelectSeq(vs, LAMBDA x : x.n \in {"alpha", "background_alpha"})
           others == SelectSeq(vs, LAMBDA x : x.n \notin {"font", "size", "alpha", "background_alpha"})
           \* the other attributes override the description, alpha the one of a color, a size the one of a description
           all == f \o others \o al \o z
           sz == SelectSeq(f \o z, LAMBDA x : x.s # <<>>) IN
       Good(FoldLeft(LAMBDA acc, x : acc \o x.a, <<>>, all), IF sz = <<>> THEN <<>> ELSE sz[Len(sz)].s)
TagOf(tag, at) ==
  IF tag = "span" THEN SpanOf(at)
  ELSE IF at # <<>> THEN Bad
  ELSE CASE tag = "markup" -> Good(<<>>, <<>>)
         [] tag = "b" -> Good(<<<<"weight", "700">>>>, <<>>)
         [] tag = "i" -> Good(<<<<"style", "2">>>>, <<>>)
         [] tag = "s" -> Good(<<<<"strikethrough", "1">>>>, <<>>)
         [] tag = "u" -> Good(<<<<"underline", "1">>>>, <<>>)
         [] tag = "tt" -> Good(<<<<"family", "Monospace">>>>, <<>>)
         [] tag = "sub" -> Good(<<<<"fontscale", "2">>, <<"baselineshift", "2">>>>, <<>>)
         [] tag = "sup" -> Good(<<<<"fontscale", "1">>, <<"baselineshift", "1">>>>, <<>>)
         [] tag = "big" -> Good(<<>>, <<"step", 1>>)
         [] tag = "small" -> Good(<<>>, <<"step", -1>>)
         [] OTHER -> Bad

(* The machine. A frame: [tag, at: its attributes, start, sz: <<"scale" or "size", n, e>>, step] *)
Root == [tag |-> "", a |-> <<>>, start |-> 0, sz |-> <<"scale", 10000, 0>>, step |-> FALSE]
Start == [stack |-> <<>>, text |-> <<>>, applied |-> <<>>, accels |-> <<>>, accel |-> 0, pending |-> FALSE, err |-> FALSE]
Top(m) == IF m.stack = <<>> THEN Root ELSE m.stack[Len(m.stack)]
Sized(parent, s) == IF s = <<>> THEN parent
  ELSE CASE s[1] = "abs" -> <<"size", s[2], 0>> [] s[1] = "pct" -> <<"scale", s[2], s[3]>> [] s[1] = "step" -> <<parent[1], parent[2], parent[3] + s[2]>>
\* a marker which nothing follows is a character of the text
Flush(m, marker) == IF m.pending THEN [m EXCEPT !.text = Append(@, marker), !.pending = FALSE] ELSE m
\* ranges which touch are one
Underlined(A, p) == IF A # <<>> /\ A[Len(A)][4] = p THEN [A EXCEPT ![Len(A)][4] = p + 1] ELSE Append(A, <<"underline", "3", p, p + 1>>)
Char(m, x, marker) ==
  IF marker = 0 THEN [m EXCEPT !.text = Append(@, x)]
  ELSE IF ~m.pending THEN (IF x = marker THEN [m EXCEPT !.pending = TRUE] ELSE [m EXCEPT !.text = Append(@, x)])
  ELSE IF x = marker THEN [m EXCEPT !.text = Append(@, x), !.pending = FALSE]
  ELSE [m EXCEPT !.accels = Underlined(@, Len(m.text)), !.accel = IF @ = 0 THEN x ELSE @,
                 !.text = Append(@, x), !.pending = FALSE]
Open(m, tag, at) == LET t == TLCEval(TagOf(tag, at)) IN
  IF ~t.ok THEN [m EXCEPT !.err = TRUE]
  ELSE [m EXCEPT !.stack = Append(@, [tag |-> tag, a |-> t.a, start |-> Len(m.text), sz |-> Sized(Top(m).sz, t.s), step |-> t.s # <<>> /\ t.s[1] = "step"])]
Close(m, tag) ==
  IF m.stack = <<>> \/ Top(m).tag # tag THEN [m EXCEPT !.err = TRUE]
  ELSE LET f == Top(m) z == f.sz
           a == (IF f.step THEN <<IF z[1] = "size" THEN SizeAttr(z[2], z[3]) ELSE ScaleAttr(z[2], z[3])>> ELSE <<>>) \o f.a IN
       [m EXCEPT !.stack = Front(@), !.applied = [i \in 1..Len(a) |-> <<a[i][1], a[i][2], f.start, Len(m.text)>>] \o @]
Token(m0, tk, marker) ==
  IF m0.err THEN m0 ELSE
  LET m == IF tk.t = "text" THEN m0 ELSE Flush(m0, marker) IN
  CASE tk.t = "text" -> FoldLeft(LAMBDA acc, x : Char(acc, x[1], marker), m, tk.cs)
    [] tk.t = "open" -> Open(m, tk.tag, tk.at)
    [] tk.t = "close" -> Close(m, tk.tag)
    [] tk.t = "cut" -> m
    [] tk.t = "bad" -> [m EXCEPT !.err = TRUE]
Finish(m0, marker) == LET m == Flush(m0, marker) IN IF m.stack # <<>> THEN [m EXCEPT !.err = TRUE] ELSE m
Parsed(tks, marker) == Finish(FoldLeft(LAMBDA m, tk : Token(m, tk, marker), Start, tks), marker)
\* in the order they are put in the list
Attributes(m) == m.accels \o m.applied

(* The value of a kind at a place: the attribute which starts last, the last one of them in the list *)
Winner(D, p, kind) ==
  LET S == {i \in 1..Len(D) : D[i][1] = kind /\ D[i][3] <= p /\ p < D[i][4]}
      B == {i \in S : \A j \in S : D[j][3] < D[i][3] \/ (D[j][3] = D[i][3] /\ j <= i)} IN
  IF S = {} THEN "" ELSE D[CHOOSE i \in B : TRUE][2]
Kinds(D) == {D[i][1] : i \in 1..Len(D)}
=============================================================================
