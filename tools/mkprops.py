#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one source of truth)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
        mechanism=[dict(name=a, where=b) for a,b in mechanism],
        observe_at=observe, hook_needed=None)))

prop("F01","Embedding levels follow the Unicode Bidirectional Algorithm",
 "For every sequence of bidi character types (with bracket data) and every requested base direction, the paragraph direction and the embedding levels returned are those of UAX #9 rules P2-P3, X1-X10, W1-W7, N0-N2, I1-I2 (explicit formatting characters, boundary neutrals and trailing/segment white space as in rule L1, once a line is reordered). The returned maximum level is the largest level assigned plus one.",
 ["inputs"],"all sequences of bidi classes/brackets, all base directions (LTR, RTL, auto weak/strong)",
 "TestBidi and TestBidiCharacters cannot run (their Unicode data files are missing), the remaining tests sample a handful of strings; the rules interact over arbitrary sequences.",
 ["fribidi/bidi.go","fribidi/run.go","fribidi/brackets.go"],
 [("X/W/N/I rules","fribidi/bidi.go GetParEmbeddingLevels"),("run list","fribidi/run.go")],
 ["fribidi.GetParEmbeddingLevels","fribidi.LogicalToVisual"])
prop("F02","Line reordering is exactly the UAX #9 reversal permutation",
 "For every line of characters with embedding levels, reordering produces the permutation of rule L2 (reverse every maximal run of level >= k, for k from the highest level down to the lowest odd one), after resetting separators and trailing white space as rule L1 says and, when asked, keeping combining marks after their base (L3). The reordered text and the reordered position map are permuted identically, and nothing outside the line is touched.",
 ["inputs"],"all level arrays, types, line offsets and flags",
 "Existing tests only compare whole strings for a few fixed texts.",
 ["fribidi/bidi.go","fribidi/fridibi.go"],
 [("ReorderLine","fribidi/bidi.go")],["fribidi.ReorderLine"])
prop("F03","Visual strings keep every character: mirroring, Arabic shaping, maps",
 "The visual string is the logical string with mirrored characters replaced at odd levels, Arabic letters replaced by the presentation form their joining neighbours imply (with mandatory lam-alef ligatures), then permuted; the visual-to-logical map is a permutation of the positions, names for each visual character the logical one it comes from, and its inverse agrees with it. Removing bidi marks removes exactly the bidi control characters from text, levels and maps, keeping the rest in order and consistent.",
 ["inputs"],"all strings over letters/marks of every joining type, brackets and controls; all base directions and flags",
 "Tests compare a few strings; joining context and removal depend on arbitrary neighbours.",
 ["fribidi/arabic.go","fribidi/joining.go","fribidi/shape.go","fribidi/fridibi.go","fribidi/mirroring.go"],
 [("joining state machine","fribidi/joining.go"),("shaping","fribidi/arabic.go"),("RemoveBidiMarks, LogicalToVisual","fribidi/fridibi.go")],
 ["fribidi.LogicalToVisual","fribidi.Visual.LogicalToVisual","fribidi.RemoveBidiMarks","fribidi.Shape"])
prop("P01","Attribute lists behave as per-position overlays",
 "After any sequence of list operations the list is ordered by start index; Insert adds the attribute after those with the same start and changes nothing else; Change makes the new attribute the only one of its kind on its range and leaves every other kind and every position outside the range as it was (when no two attributes of the kind overlapped before), so that each position carries, per kind, the value most recently changed there. Filter splits a list in two lists which together are the original, in order.",
 ["histories"],"all sequences of Insert/Change/Filter operations on attributes with arbitrary ranges, kinds and values",
 "Tests check a dozen fixed sequences; overlap handling depends on the whole history of ranges.",
 ["pango/attributes.go"],[("AttrList.Change / Insert / Filter","pango/attributes.go")],
 ["pango.AttrList.Change","pango.AttrList.Insert","pango.AttrList.Filter"])
prop("P02","Itemization partitions the text into homogeneous items",
 "Itemizing covers the requested range with contiguous, non-empty items in logical order, and inside an item embedding level, script, language, font and requested attributes are constant. Levels are those of the bidi algorithm for the base direction in force, each item carries exactly the extra attributes whose range covers it, its language and font request are those of the most specific attributes in force, and a new item starts only where one of those changes.",
 ["inputs"],"all texts (mixed scripts, directions, neutrals), sub-ranges, base directions and attribute lists",
 "Itemization tests of the repository do not run offline (unreadable font cache) and sample fixed texts.",
 ["pango/context.go","pango/itemize.go","pango/item.go","pango/script.go","pango/direction_bidi.go"],
 [("itemizeState","pango/context.go"),("Item","pango/item.go")],["pango.Context.Itemize"])
prop("P03","Layout lines and runs cover the text exactly, in visual order",
 "The lines of a layout, in order, partition the text minus paragraph separators: no character is lost, duplicated or displayed in two lines, and a line ends at every paragraph separator. The runs of a line cover exactly its characters, are arranged in the visual order that the bidi reversal of their levels gives, and every glyph of a run belongs to a character of that run; the layout iterator visits lines, runs, clusters and characters in that order, each once.",
 ["inputs","configurations"],"all texts, widths, wrap modes, directions and attributes",
 "Layout tests cannot run offline and check fixed texts only.",
 ["pango/layout.go","pango/layout_line.go","pango/layout_iter.go"],
 [("checkLines/processItem","pango/layout.go, pango/layout_line.go"),("reorder","pango/layout_line.go"),("LayoutIter","pango/layout_iter.go")],
 ["pango.Layout.GetLinesReadonly","pango.Layout.GetIter"])
prop("P04","Lines are broken only where allowed, and never wider than needed",
 "With a width set, a line breaks inside a paragraph only at a position the wrap mode allows (line break opportunity for word, cursor position for char, either with word preferred for word-char); a wrapped line fits in the width unless no allowed break would make it fit, and the next word (or character) would not have fitted: breaking is greedy, and counts the hyphen or the collapsed space of the break. Without a width, or with wrapping off, lines end only at paragraph separators. Justified lines take the width.",
 ["inputs","configurations"],"all texts, widths, indents and wrap modes",
 "No existing test exercises wrapping offline; each width/text pair is a different execution.",
 ["pango/layout_line.go","pango/layout.go"],[("processItem/breakState","pango/layout_line.go")],
 ["pango.Layout.GetLinesReadonly","pango.Layout.IsWrapped"])
prop("P05","A layout depends on its current settings only, never on its history",
 "After any sequence of setters and queries, every query on a layout answers as it would for a fresh layout given the final settings (text, attributes, font, width, height, wrap, ellipsize, indent, spacing, justification, alignment, direction, tabs, single paragraph, context settings). Queries change no answer of later queries, getters return what was last set, and copies are independent of the original.",
 ["histories"],"all interleavings of setters and queries on a layout and its context",
 "Staleness only appears for particular orders of setters and queries; the tests set once and read once.",
 ["pango/layout.go","pango/context.go"],[("layoutChanged / clearLines / checkLines","pango/layout.go"),("context serial","pango/context.go")],
 ["pango.Layout setters and getters","pango.Context setters"],
 [("lines cache, logAttrs, isWrapped, isEllipsized","results cached until a setter invalidates them","pango/layout.go")])
prop("P06","Positions, extents and cursors are consistent with each other",
 "In a layout, the extents of clusters, characters, runs, lines and of the layout, the x position of the leading and trailing edges of each character (IndexToX), the rectangles of IndexToPos, the strong and weak cursor positions and the visual ranges of a selection all describe one placement of the same glyphs: runs follow each other from left to right from the offset of the line (alignment, indent), the edges in a cluster divide it between its cursor positions and are those of the grapheme, the ranges of a selection add up to the width of what is selected, lines follow each other by their extents (line height, spacing, baseline shifts included). Moving the cursor visually goes to the next place in visual order, on the next or previous line past the ends, and ends after finitely many steps; in lines of one direction every place is visited and moving back returns.",
 ["inputs","histories"],"all texts (mixed direction, combining marks, several lines) and positions",
 "Tests call each mapping for fixed points and never compare them with each other.",
 ["pango/layout_line.go","pango/layout.go","pango/layout_cursors.go","pango/layout_iter.go","pango/glyphs.go","pango/glyph_item.go"],
 [("IndexToX, GetXRanges, extents","pango/layout_line.go"),("cursor movement","pango/layout_cursors.go")],
 ["pango.LayoutLine.IndexToX","pango.LayoutLine.GetXRanges","pango.LayoutLine.GetExtents","pango.Layout.IndexToPos","pango.Layout.GetCursorPos","pango.Layout.MoveCursorVisually","pango.LayoutIter extents"])
prop("P07","Clusters: iteration is reversible and splitting loses nothing",
 "Iterating over the clusters of a run forward and backward visits the same clusters in opposite order, and these partition the glyphs and the characters of the run. Applying attributes to items or to runs splits them only at attribute (and cluster) boundaries, keeps offsets, lengths, glyphs and extents, and gives every piece exactly the attributes that cover it.",
 ["inputs"],"all runs (LTR and RTL, multi-character and multi-glyph clusters) and attribute ranges",
 "Tests use two or three fixed runs.",
 ["pango/glyph_item.go","pango/item.go"],[("GlyphItemIter","pango/glyph_item.go"),("ApplyAttributes","pango/item.go")],
 ["pango.GlyphItemIter","pango.ItemList.ApplyAttributes"])
prop("P08","Ellipsized lines fit, keep whole clusters and account for all text",
 "When ellipsization is requested, a line wider than the available width is shortened to fit by replacing one contiguous range of whole clusters, at the end the mode names, by one ellipsis; a line that fits is untouched and not reported as ellipsized. The runs before and after the ellipsis are unchanged, the ellipsis run accounts for the removed characters, and no more text is removed than needed.",
 ["inputs","configurations"],"all texts, widths and ellipsization modes, with height limits",
 "The ellipsization tests cannot run offline and use one text.",
 ["pango/ellipsize.go","pango/layout.go"],[("ellipsize state","pango/ellipsize.go")],
 ["pango.Layout.IsEllipsized","pango.LayoutLine.Runs"])
prop("P09","Text boundaries obey the Unicode segmentation rules",
 "For every text, the character attributes have one entry per character plus one, and mark grapheme cluster boundaries (cursor positions), word and sentence boundaries by the default rules of UAX #29 and line break opportunities by those of UAX #14, with the documented tailorings only (Indic, Sinhala, Arabic and Catalan texts). Mandatory breaks are line breaks; word boundaries are at cursor positions (except between two regional indicators), sentence boundaries at word boundaries, and a line only breaks inside a cluster where UAX #14 says so; word starts and ends alternate, and so do sentence starts and ends; a character is white space exactly when Unicode says so (Z*, tab, newlines, form feed). In a layout, the attributes are those of its paragraphs, changed only inside the ranges of the attributes that forbid breaks or hyphens or that mark words or sentences, and they do not depend on the texts the layout had before.",
 ["inputs"],"all sequences of break classes",
 "The conformance data files are absent, tests look at fixed strings; the rules are context dependent over unbounded sequences.",
 ["pango/break.go","pango/break_arabic.go","pango/break_indic.go","pango/break_latin.go"],
 [("pangoDefaultBreak","pango/break.go")],["pango.ComputeCharacterAttributes"])
prop("P10","Markup is parsed as nested ranges, innermost tag winning",
 "For well-formed markup, the text is the character data with entities decoded and accelerator markers resolved (doubled marker = literal, first marked character reported and underlined), and every attribute set by a tag covers exactly the text between its opening and closing tags, an inner tag overriding the outer one for the same kind. Size steps (big, small, sub, sup, smaller, larger) compose multiplicatively with enclosing ones; malformed markup, unknown tags, attributes or values give an error and never a panic, and a failed SetMarkup leaves the layout as it was.",
 ["inputs"],"all trees of tags and texts, and all ways to corrupt them",
 "Tests parse a fixed list of snippets, without accelerators mixed with tags.",
 ["pango/markup.go"],[("markupData stack","pango/markup.go")],["pango.ParseMarkup","pango.Layout.SetMarkup"])
prop("P11","Font descriptions are field maps with a reversible text form",
 "A font description is a set of explicitly set fields: setting, unsetting and merging (with or without replacing) change exactly the fields named and keep the mask in step, an unset field always reads as its default, equality compares exactly the fields, and hashing agrees with equality. Writing a description as text and parsing it back gives an equal description.",
 ["histories","inputs"],"all sequences of set/unset/merge operations; all descriptions made of parsable fields",
 "Tests round-trip a fixed list of strings.",
 ["pango/fonts.go"],[("FontDescription mask","pango/fonts.go")],["pango.FontDescription"])
prop("P12","Script runs partition the text following UAX #24",
 "Script runs partition the text; common and inherited characters take the script of their surroundings (the preceding one, or the first one found at the start), and a closing paired character takes the script its opening one had. Two adjacent runs always have different scripts.",
 ["inputs"],"all sequences of scripts, common characters and paired punctuation",
 "Tests use three fixed texts.",
 ["pango/script.go","pango/context.go"],[("scriptIter","pango/script.go")],["pango.Context.Itemize (Item.Analysis.Script)"])
prop("P13","Text after a tab is at its tab stop",
 "In each line of a layout, the text after a tab is placed with respect to the first tab stop beyond the text before the tab: it starts at the stop (left), ends there (right), has its middle there (center) or the middle of its first decimal point there (decimal, its end if there is no decimal point), unless there is not enough room for it before the stop: the tab then has no width. Tab stops are the ones of the tab array, sorted, in units or pixels, then the gap between the last two (or the last one and 0) again and again; without any, every 8 spaces of the font of the start of the text, leaving at least one space. Positions are counted from the margin: the indent of the line is taken into account, except when lines are centered.",
 ["inputs"],"all texts with tabs, tab arrays, fonts, indents and alignments (the end of wrapped lines is left out for other than left tabs)",
 "The tests compare a few layouts with tabs to recorded positions.",
 ["pango/layout_line.go","pango/layout.go","pango/tabs.go"],[("shapeTab","pango/layout_line.go"),("get_tab_pos","pango/layout.go"),("TabArray","pango/tabs.go")],["pango.Layout.SetTabs","pango.Layout.GetLinesReadonly"])
prop("M01","Font map caches are invisible",
 "Whatever was queried before, a font map answers a font request (fonts of the fontset in order, metrics, coverage, description) as a fresh font map with the same configuration and database would. Distinct requests never share a result they should not share, repeated requests give the same fonts, and changing the configuration or the database makes earlier results unreachable and the change visible to the contexts and layouts using the map. Fonts which can't be loaded are skipped.",
 ["histories"],"all sequences of font requests, metric queries and configuration changes",
 "The repository's tests create one map and query it once.",
 ["pango/fcfonts/fontmap.go","pango/fcfonts/fonset.go","pango/fcfonts/fonts.go","pango/fcfonts/types.go"],
 [("fontsetCache, patternHash, fontHash","pango/fcfonts/types.go"),("SetConfig/clearCache","pango/fcfonts/fontmap.go")],
 ["fcfonts.FontMap.LoadFontset","fcfonts.Font.GetMetrics","pango.Layout"])
prop("C01","A charset is a mathematical set of characters",
 "After any sequence of additions, removals and copies a charset contains exactly the characters added and not removed since, its length is their number, and copies evolve independently. Set relations used by the library (subset, equality, union, difference, size of difference), observed through matching, sorting, listing and rule evaluation, are those of the sets.",
 ["histories"],"all sequences of AddChar/DelChar/Copy over all code points, and all pairs of resulting sets",
 "Tests add a few ranges and never remove; page boundaries and emptied pages are history dependent.",
 ["fontconfig/charset.go"],[("pages","fontconfig/charset.go")],["fontconfig.Charset","fontconfig.Fontset.Sort/List/Match"])
prop("C02","Language sets are sets, with the documented inclusion between tags",
 "A language set holds exactly the tags put in, known or not; rules and listing that test inclusion hold exactly when each required tag is matched by a tag of the set (same language, and same territory or one of the two without territory). The distance between language requests and fonts is 0 for an exact tag, 1 for a different territory, 2 otherwise, independently of the order in which tags were added.",
 ["inputs"],"all pairs of sets of known, territory-qualified and unknown tags",
 "Tests compare a few fixed pairs, with one unknown tag at most.",
 ["fontconfig/lang.go"],[("bitmap + extra","fontconfig/lang.go")],["fontconfig.NewLangset","fontconfig.Fontset.List","fontconfig.Fontset.Match/Sort"])
prop("C03","Patterns are ordered value lists with faithful copies and hashes",
 "After any sequence of operations a pattern maps each object to the list of the values accepted (values of a wrong type are refused), appended or prepended in order; a duplicate and the values given in are independent of later changes, and lookups report match, no such object or no such index exactly. Two patterns have the same hash exactly when they have the same objects with the same values in the same order.",
 ["histories"],"all sequences of Add/Del/Duplicate/lookup on builtin and custom objects",
 "Tests build a few patterns once.",
 ["fontconfig/pattern.go","fontconfig/values.go"],[("Pattern map","fontconfig/pattern.go")],["fontconfig.Pattern"])
prop("C04","Substitution applies the rules exactly as configured",
 "Substitute runs the rules of the requested kind in load order; a rule's edits are applied, in order, exactly when all its tests hold on the current pattern (any/all/first/not_first, on the object and target named), and each edit (assign, assign_replace, prepend, prepend_first, append, append_last, delete, delete_all) acts on the value its test matched, or on the whole list when there is none, with the binding given. Objects no edit names keep their values, and no accepted configuration makes it panic.",
 ["programs","inputs"],"all configurations accepted by the parser, all patterns, all three kinds",
 "Scenario tests run a few fixed configurations; the meaning of an edit depends on tests and on previous edits and rules.",
 ["fontconfig/substitutions.go","fontconfig/values.go","fontconfig/xml.go"],
 [("ruleTest.match, ruleEdit.edit","fontconfig/substitutions.go"),("valueList.insert/del, familyTable","fontconfig/values.go")],
 ["fontconfig.Config.LoadFromMemory","fontconfig.Config.Substitute"])
prop("C05","Configuration expressions evaluate as documented",
 "An expression (constants, fields of pattern or font, arithmetic, string, matrix, charset and language operations, comparisons, boolean operators, conditional, rounding) evaluates to the value of its definition with the documented promotions, and to no value when operand types do not fit; the comparison operators of tests behave likewise, contains/not_contains and eq/not_eq being complementary.",
 ["programs","inputs"],"all expression trees the parser accepts, all patterns",
 "Tests check two type equalities.",
 ["fontconfig/expr.go","fontconfig/xml.go"],[("expression.evaluate, compareValue, promote","fontconfig/expr.go")],
 ["fontconfig.Config.Substitute"])
prop("C06","Match returns the font closest in the documented priority order",
 "Match selects the font whose vector of distances (file, format, variable, scalable, color, foundry, charset, strong family, postscript name, language, weak family, ..., version) is lexicographically smallest, the first one in set order when equal. The result contains the font's own properties, the query's properties the font lacks, and for shared properties the best value, then transformed by the font rules; neither the query, the fonts nor the configuration are modified.",
 ["inputs"],"all font sets and queries with weak and strong bindings",
 "Tests match a few queries on one cached set, comparing only with recorded output.",
 ["fontconfig/match.go"],[("compare, fdFromPatternList, matchInternal","fontconfig/match.go"),("PrepareRender","fontconfig/match.go")],
 ["fontconfig.Fontset.Match","fontconfig.Config.PrepareRender"])
prop("C07","Sort orders by closeness, and trimming never loses a character",
 "Sort returns the fonts by non-decreasing distance, the first font satisfying each requested language keeping its language priority and later ones ranking as not matching it; with trimming it drops exactly the fonts that add no character to the ones before, so the coverage of the result is that of the whole set. The returned charset is the union of the coverage of all fonts.",
 ["inputs"],"all font sets, queries and trim settings",
 "Tests sort one cached set and check that it does not crash.",
 ["fontconfig/match.go","fontconfig/charset.go"],[("Sort, sortWalk","fontconfig/match.go")],["fontconfig.Fontset.Sort"])
prop("C08","List returns every matching font projected once",
 "List keeps exactly the fonts that, for each object of the query, contain each of its values, and returns one pattern per distinct projection on the requested objects, holding the same values as the font (the entry for the requested name language first). The font set and the query are left unchanged.",
 ["inputs"],"all font sets, queries and object lists",
 "No test covers List beyond a smoke run.",
 ["fontconfig/list.go","fontconfig/pattern.go"],[("patternMatchAny, listAppend","fontconfig/list.go")],["fontconfig.Fontset.List"])
prop("C09","Default substitution completes a pattern once and for all",
 "Default substitution only adds missing properties (and normalises size): every value already present is kept, all documented defaults are present afterwards, size, pixel size, dpi and scale are tied by their documented relation, and applying it again changes nothing.",
 ["inputs"],"all patterns",
 "Tests look at pixel size for one pattern.",
 ["fontconfig/pattern.go"],[("SubstituteDefault","fontconfig/pattern.go")],["fontconfig.Pattern.SubstituteDefault"])
prop("C10","Font selection rules decide which scanned fonts are kept",
 "A scanned font is kept exactly when an accept rule matches it or no reject rule does, file globs being applied to paths and patterns to font properties (acceptance overriding rejection), for directory, file and in-memory scans alike. Each file is reported once however often its directory is reached, and unreadable or invalid font files are skipped without hiding others.",
 ["configurations","inputs"],"all sets of accept/reject globs and patterns, all directory layouts",
 "One test loads a configuration; none combines selectors.",
 ["fontconfig/config.go","fontconfig/scan.go"],[("acceptFilename, acceptFont, readDir","fontconfig/config.go")],
 ["fontconfig.Config.ScanFontDirectories","fontconfig.Config.ScanFontFile","fontconfig.Config.ScanFontRessource"])
prop("C11","A saved font set is loaded back identical, or rejected",
 "Loading what Serialize wrote gives the same font set: same fonts in the same order with the same objects, values, and matching behaviour (bindings included). Truncated or corrupted data gives an error, never a panic.",
 ["inputs","fault_sequences"],"all font sets made of every value type; all truncations and damaged bytes of the decoded stream",
 "Tests round-trip random patterns but never corrupt data nor check bindings through matching.",
 ["fontconfig/cache.go"],[("serializeBin / deserializeBin","fontconfig/cache.go")],["fontconfig.Fontset.Serialize","fontconfig.LoadFontset"])
prop("C12","Configurations accumulate, copy and fail cleanly",
 "Rules loaded from several sources apply in load order, files of a directory in lexical order and only those named like configuration files; a source rejected by the parser contributes no rule. A copy of a configuration behaves as the original did when copied, whatever is loaded in either afterwards, and using a configuration never modifies it.",
 ["histories","fault_sequences"],"all sequences of loads (valid or not), copies and substitutions",
 "Tests load one directory once and compare one copy.",
 ["fontconfig/config.go","fontconfig/xml.go","fontconfig/name.go"],[("parseAndLoadFromMemory, Copy","fontconfig/config.go, fontconfig/xml.go")],
 ["fontconfig.Config.LoadFromMemory","fontconfig.Config.LoadFromDir","fontconfig.Config.Copy"])
prop("C13","A font file is described as it says",
 "The description of the faces of a font file is what its tables say. All its family and style names are listed, the preferred kinds before the old ones, Microsoft names before Unicode and Macintosh ones and English before other languages, each once and each with its language; a file without family has the name of the file. The full name is made of the English family and style. Weight and width come from the metrics (weights linear between the named ones), else from the words of the style, else from the flags; slant and decoration from the words, else the flags; the design size from the metrics or the optical axis; the foundry from the vendor, else the notices. A variable font gives one face with the ranges of its axes, and one face for each named instance but the default one, with the values of the instance and its name as style.",
 ["inputs"],"all tables of names, metrics, flags, axes and named instances",
 "Tests scan the fonts at hand and check almost nothing of what is said of them.",
 ["fontconfig/scan.go","fontconfig/pattern.go"],[("queryFace, getFirstName, isLess","fontconfig/scan.go"),("addFullname","fontconfig/pattern.go")],
 ["fontconfig.Config.ScanFontRessource","fontconfig.Config.ScanFontFile"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
