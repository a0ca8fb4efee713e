"""What each check runs: TLC models, history generators, trace specification."""
CHECKS = {}
def check(id, **kw):
    CHECKS[id] = kw

check("P01", trace="Trace_P01",
  mc=[("MC_AttrList", "MC_AttrList.cfg")],
  gen=[("MC_AttrList", "Gen_AttrList.cfg")],
  rule="every Change history of length 3 over 4 positions and 2 values from the model, plus seeded random histories of Insert/Change/Filter over 6 kinds; non-trivial: more than one operation",
  title="attribute list histories")

check("C01", trace="Trace_C01",
  mc=[("MC_Charset", "MC_Charset.cfg")],
  gen=[("MC_Charset", "Gen_Charset.cfg")],
  rule="every history of length 4 over 2 charsets and 3 characters in 2 pages, and seeded random histories over 3 charsets and 22 characters; each followed by the relations, the sort and the match of the sets reached",
  title="charset histories and relations")
check("C02", trace="Trace_C02",
  mc=[("MC_Langset", "MC_Langset.cfg")],
  gen=[("MC_Langset", "Gen_Langset.cfg")],
  rule="all pairs of subsets of 6 tags (known and not) from the model, and seeded random sets over all known tags, unknown ones, and families of tags of one language; set relations through rules in both directions and order of insertion, and the closest of 2 to 4 fonts for 1 or 2 requested values",
  title="language sets")
check("C03", trace="Trace_C03",
  mc=[("MC_Pattern", "MC_Pattern.cfg")],
  gen=[("MC_Pattern", "Gen_Pattern.cfg")],
  rule="every history of 4 additions, deletions and copies over 2 patterns from the model, seeded random histories over 3 patterns, 23 objects and all value types (wrong ones included, values changed after being given), and pairs of close patterns for the hashes",
  title="patterns")
check("C05", trace="Trace_C05",
  mc=[("MC_FcValues", "MC_FcValues.cfg")],
  gen=[("MC_FcValues", "Gen_FcValues.cfg")],
  rule="all pairs of 26 values of all types with all comparison and arithmetic operators from the model, and seeded random well-typed expression trees of depth up to 4 over all operators, constants and fields of pattern and font, with random tests",
  title="expressions")
check("C04", trace="Trace_C04",
  mc=[("MC_Rules", "MC_Rules.cfg")],
  gen=[("MC_Rules", "Gen_Rules.cfg")],
  rule="every rule with one test and two edits over 6 family lists, 9 tests and 64 pairs of modes from the model, and seeded random sequences of 1 to 5 rules and aliases of all kinds (up to 3 tests and 4 edits each over 11 objects) split in several sources, applied twice",
  title="substitution")
check("C06", trace="Trace_C06",
  mc=[("MC_Match", "MC_Match.cfg")],
  gen=[("MC_Match", "Gen_Match.cfg")],
  rule="queries and sets of three fonts from the model (family with strong and weak values, language, weight, coverage), and seeded random queries (with weak values added by rules) and sets of 1 to 5 fonts over 25 compared and 11 other objects, names with languages, variable axes and font rules; match and rendering of a given font, twice",
  title="match")
check("C07", trace="Trace_C07",
  mc=[("MC_Match", "MC_Match.cfg")],
  gen=[("MC_Match", "Gen_Match.cfg")],
  rule="queries and sets of three fonts from the model, and seeded random queries and sets of 1 to 5 fonts, with coverages and languages, sorted with and without trimming, twice",
  title="sort")
check("C08", trace="Trace_C08",
  mc=[("MC_Listing", "MC_Listing.cfg")],
  gen=[("MC_Listing", "Gen_Listing.cfg")],
  rule="queries, sets of three fonts and objects from the model, and seeded random queries, sets of 1 to 6 fonts (some equal but for one object) and lists of requested objects (none, or repeated), over 14 objects and names with languages",
  title="list")
check("C09", trace="Trace_C09",
  mc=[("MC_Defaults", "MC_Defaults.cfg")],
  gen=[("MC_Defaults", "Gen_Defaults.cfg")],
  rule="every presence of sizes, resolutions, names, weight and hinting from the model, and seeded random patterns over 33 objects; applied twice",
  title="default substitution")
check("C10", trace="Trace_C10",
  mc=[("MC_Scan", "MC_Scan.cfg")],
  mc_thorough=[("MC_Scan", "MC_Scan_big.cfg")],
  gen=[("MC_Scan", "Gen_Scan.cfg")],
  rule="directories (nested, repeated), globs and patterns from the model (a quarter of the combinations in the quick tier), and seeded random trees (links, dangling links, files of other kinds, hidden ones, collections), directory spellings, selectors in several sources and scan rules; scan of the directories, of each file and of each content, and partial scan",
  title="font selection")
check("C11", trace="Trace_C11",
  mc=[("MC_Cache", "MC_Cache.cfg")],
  gen=[("MC_Cache", "Gen_Cache.cfg")],
  rule="every history of four saves, copies, damages and loads over two slots and two sets which ends with a load, and seeded random damages (truncation, added bytes, changed bits, contents changed under a valid compression) of a saved set of up to 3 fonts over 14 objects, all value types and weak families",
  title="saved font sets")
check("C12", trace="Trace_C12",
  mc=[("MC_Config", "MC_Config.cfg")],
  gen=[("MC_Config", "Gen_Config.cfg")],
  rule="half of the histories of three loads, rejected loads, directories and copies over two configurations from the model, and seeded random histories of 1 to 5 of them with up to 3 rules and font selectors by document, directories with nested files, links and other names, 9 ways of being rejected; both configurations are probed after each operation (query, font, scanned font, selection)",
  title="configurations")
check("F01", trace="Trace_F01",
  mc=[("MC_Bidi", "MC_Bidi.cfg")],
  mc_thorough=[("MC_Bidi", "MC_Bidi_big.cfg")],
  gen=[("MC_Bidi", "Gen_Bidi.cfg")],
  rule="all the paragraphs of 3 symbols over all the character types and a pair of brackets from the model, and seeded random paragraphs of 4 to 16 characters which mix embeddings, overrides, isolates, numbers, marks, three kinds of brackets, and paragraphs nested around the maximum depth; 5 requested directions",
  title="embedding levels")
check("F02", trace="Trace_F02",
  mc=[("MC_Reorder", "MC_Reorder.cfg")],
  gen=[("MC_Reorder", "Gen_Reorder.cfg")],
  rule="the lines of 4 characters over 4 types and 3 levels from the model (a third of them in the quick tier), and seeded random lines and parts of lines of 1 to 16 characters over all types and levels, with and without reordering of marks, map and text",
  title="line reordering")
check("F03", trace="Trace_F03",
  mc=[("MC_Visual", "MC_Visual.cfg")],
  gen=[("MC_Visual", "Gen_Visual.cfg")],
  rule="the words of 3 letters over all joining types and two levels from the model, each of 1228 characters (all mirrored ones, brackets and Arabic letters, some of each class) among right to left letters, and seeded random texts of 2 to 14 of them with options and directions; visual text, maps, and removal of the marks with and without maps and levels",
  title="visual text")
check("P11", trace="Trace_P11",
  mc=[("MC_FontDesc", "MC_FontDesc.cfg")],
  gen=[("MC_FontDesc", "Gen_FontDesc.cfg")],
  rule="every history of 2 settings, resets and merges from the model, seeded random texts of up to 6 words (options in any case, sizes, variations, commas), and seeded random histories over 3 descriptions and all fields, families that look like options or sizes included; each description written and read back, compared and hashed",
  title="font descriptions")
check("P02", trace="Trace_P02",
  mc=[("MC_Itemize", "MC_Itemize.cfg")],
  mc_thorough=[("MC_Itemize", "MC_Itemize_big.cfg")],
  gen=[("MC_Itemize", "Gen_Itemize.cfg")],
  rule="every text of 3 characters of 9 sorts with a font attribute on every range from the model, and seeded random texts over 90 characters (scripts, directions, pairs, emoji sequences, marks, controls), font maps with several coverages, attribute lists of 30 kinds, sub-ranges, languages and gravities, several calls on one context",
  title="itemization")
check("C13", trace="Trace_C13",
  mc=[("MC_FontFile", "MC_FontFile.cfg")],
  mc_thorough=[("MC_FontFile", "MC_FontFile_big.cfg")],
  gen=[("MC_FontFile", "Gen_FontFile.cfg")],
  rule="every table of two names (families and styles of two kinds, in 6 platforms, encodings and languages), with and without metrics, from the model, and seeded random font files made from a real one: tables of up to 40 names of 10 kinds in 3 platforms and 9 languages, metrics of all versions or none (weights, widths, vendors, design sizes), words in the names of styles, notices, 4 axes of variation with named instances; non-trivial: variable fonts, and the tables of the model",
  title="font files")
check("P12", trace="Trace_P12",
  mc=[("MC_Script", "MC_Script.cfg")],
  gen=[("MC_Script", "Gen_Script.cfg")],
  rule="every text of 5 characters out of 2 scripts, common and 2 pairs of brackets from the model, every pair of paired punctuation, and seeded random texts over 25 scripts, common, inherited and unknown characters and all the pairs, with sub-ranges",
  title="script runs")
check("P09", trace="Trace_P09",
  mc=[("MC_Segment", "MC_Segment.cfg")],
  mc_thorough=[("MC_Segment", "MC_Segment_big.cfg")],
  gen=[("MC_Segment", "Gen_Segment.cfg")],
  rule="every text of 3 characters of 30 sorts from the model; each character alone and between letters; all pairs of classes of each of the four properties, also around a combining mark and a space; seeded random texts over 1613 characters (all combinations of Unicode properties that occur), over Indic, Sinhala and Arabic texts, and over alphabets chosen for each kind of boundary; texts of several paragraphs in a layout with attributes that forbid breaks and hyphens and mark words and sentences, several texts after another in the same layout",
  title="text boundaries")
check("P13", trace="Trace_P13",
  mc=[("MC_Tabs", "MC_Tabs.cfg")],
  mc_thorough=[("MC_Tabs", "MC_Tabs_big.cfg")],
  gen=[("MC_Tabs", "Gen_Tabs.cfg")],
  rule="every line of 4 runs out of a tab and 4 texts with 9 arrays of tab stops and indents from the model; seeded random layouts: texts of tabs, words, decimal numbers in several scripts and directions, up to 4 tab stops of the 4 alignments in units or pixels, decimal points, indents, alignments, fonts and sizes which change, with and without a width; the width of each tab judged",
  title="tab stops")
check("P03", trace="Trace_P03", chunk=6000,
  mc=[("MC_Layout", "MC_Layout.cfg")],
  mc_thorough=[("MC_Layout", "MC_Layout_big.cfg")],
  gen=[("MC_Layout", "Gen_Layout.cfg")],
  rule="every text of 1 to 3 characters of 8 sorts (separators included) from the model, with and without single paragraphs and automatic directions, at 4 widths; seeded random layouts: texts of up to 24 characters over 90 characters and the separators, up to 5 attributes of 40 kinds, widths, indents, wrapping, ellipsization, heights, justification, tabs, gravities; lines, runs, clusters, and all walks of the iterator judged",
  title="lines and runs")
check("P04", trace="Trace_P04", chunk=6000,
  mc=[("MC_Breaking", "MC_Breaking.cfg")],
  mc_thorough=[("MC_Breaking", "MC_Breaking_big.cfg")],
  gen=[("MC_Breaking", "Gen_Breaking.cfg")],
  rule="every paragraph of 1 to 3 letters, ideographs, spaces and soft hyphens in one or several runs from the model, with 3 widths and 3 wrap modes; seeded random layouts: texts of up to 24 characters of many scripts, up to 5 attributes of 40 kinds (hyphens, words and breaks forbidden or asked for included), widths from 0, indents, wrap modes, justification; the ends, widths and hyphens of all lines judged against the widths of the characters in a layout without limit",
  title="line breaking")
check("P05", trace="Trace_P05", chunk=6000,
  mc=[("MC_Settings", "MC_Settings.cfg")],
  mc_thorough=[("MC_Settings", "MC_Settings_big.cfg")],
  gen=[("MC_Settings", "Gen_Settings.cfg")],
  rule="every history of 3 settings and queries over 6 settings from the model, and seeded random histories of up to 20 operations over the 24 settings of layouts, contexts and font maps, on texts of up to 12 characters and separators with attributes, tabs, ellipsization; 14 sorts of queries compared with a fresh layout; what the caller gave is modified afterwards",
  title="settings and histories")
check("P06", trace="Trace_P06", chunk=6000,
  mc=[("MC_Geometry", "MC_Geometry.cfg")],
  mc_thorough=[("MC_Geometry", "MC_Geometry_big.cfg")],
  gen=[("MC_Layout", "Gen_Layout.cfg")],
  rule="every text of 1 to 3 characters of 8 sorts (separators included) from the model, at 4 widths, 3 wrap modes and 3 alignments; seeded random layouts (texts of up to 16 characters and separators over 90 characters, attributes, tabs, ellipsization, gravities, shapes, rises, decorations): extents of runs, clusters, characters, lines and layout from the glyphs of the fonts, x of both edges of every index of every line, rectangles, directions, strong and weak cursors of every index, ranges of 6 selections on each line, and every move of the cursor (4 directions and sorts from every place, leading and trailing)",
  title="positions, extents, cursors and ranges")
check("P07", trace="Trace_P07", chunk=6000,
  mc=[("MC_Clusters", "MC_Clusters.cfg")],
  mc_thorough=[("MC_Clusters", "MC_Clusters_big.cfg")],
  gen=[("MC_Clusters", "Gen_Clusters.cfg")],
  rule="every run of up to 3 clusters of 1 or 2 characters and glyphs and every range of an attribute from the model; seeded random layouts (texts of up to 16 characters over 90 characters in both directions, ligatures, marks, tabs, ellipsization, shapes) laid out without and with 1 to 3 attributes which do not change shapes (decorations, colors, links to the runs of every line), random walks of up to 12 steps of iterators over the clusters of every run from both ends, logical widths of runs, and attributes applied to itemized texts",
  title="clusters and attributes of runs")
check("P08", trace="Trace_P08", chunk=6000,
  mc=[("MC_Ellipsis", "MC_Ellipsis.cfg")],
  mc_thorough=[("MC_Ellipsis", "MC_Ellipsis_big.cfg")],
  gen=[("MC_Ellipsis", "Gen_Ellipsis.cfg")],
  rule="every line of up to 3 clusters (3 widths, wide or not, inside a grapheme or not), goal and mode from the model; seeded random layouts (texts of up to 24 characters and separators over 90 characters in both directions, attributes, tabs, gravities, indents, alignments, fonts with and without an ellipsis) with the 4 modes, 13 widths and the heights -1, -2, -3 and 0 to 4000",
  title="ellipsized lines")
check("P10", trace="Trace_P10", chunk=6000,
  mc=[("MC_Markup", "MC_Markup.cfg")],
  mc_thorough=[("MC_Markup", "MC_Markup_big.cfg")],
  gen=[("MC_Markup", "Gen_Markup.cfg")],
  rule="every sequence of up to 4 tokens (8 tags, text, markers, closing tags) from the model; every name of an attribute of span with every value of a table of valid and invalid ones; pairs of them; seeded random trees of tags of depth 6, with entities, comments, accelerator markers, wrong names and values, lost or doubled tags and malformed XML, given to ParseMarkup and SetMarkup",
  title="markup")
check("M01", trace="Trace_M01", chunk=6000,
  mc=[("MC_FontMap", "MC_FontMap.cfg")],
  mc_thorough=[("MC_FontMap", "MC_FontMap_big.cfg")],
  gen=[("MC_FontMap", "Gen_FontMap.cfg")],
  rule="every sequence of up to 3 operations (three requests read up to 1, 2 or all fonts, metrics, layouts, three databases one of which is empty) from the model, one in four in the quick tier; seeded random sequences of up to 10 operations on up to 4 requests (which mostly differ by one field), 3 databases of up to 12 fonts (faces which fail, variable ones, named instances, 8 coverages) and 6 configurations",
  title="font map caches")
NOT_APPLICABLE = {}
