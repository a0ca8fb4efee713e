------------------------------ MODULE SegChars ------------------------------
(* made by tools/mkbreakchars.py: properties of the characters of the models *)
EXTENDS Integers
SegChar(x) == CASE x = 97 -> [r |-> 97, gc |-> "Ll", gcb |-> "Other", ep |-> FALSE, wb |-> "ALetter", sb |-> "Lower", lb |-> "AL", wd |-> FALSE, sc |-> "latn", iv |-> "", em |-> FALSE]
  [] x = 65 -> [r |-> 65, gc |-> "Lu", gcb |-> "Other", ep |-> FALSE, wb |-> "ALetter", sb |-> "Upper", lb |-> "AL", wd |-> FALSE, sc |-> "latn", iv |-> "", em |-> FALSE]
  [] x = 49 -> [r |-> 49, gc |-> "Nd", gcb |-> "Other", ep |-> FALSE, wb |-> "Numeric", sb |-> "Numeric", lb |-> "NU", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> TRUE]
  [] x = 46 -> [r |-> 46, gc |-> "Po", gcb |-> "Other", ep |-> FALSE, wb |-> "MidNumLet", sb |-> "ATerm", lb |-> "IS", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 44 -> [r |-> 44, gc |-> "Po", gcb |-> "Other", ep |-> FALSE, wb |-> "MidNum", sb |-> "SContinue", lb |-> "IS", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 33 -> [r |-> 33, gc |-> "Po", gcb |-> "Other", ep |-> FALSE, wb |-> "Other", sb |-> "STerm", lb |-> "EX", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 39 -> [r |-> 39, gc |-> "Po", gcb |-> "Other", ep |-> FALSE, wb |-> "Single_Quote", sb |-> "Close", lb |-> "QU", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 34 -> [r |-> 34, gc |-> "Po", gcb |-> "Other", ep |-> FALSE, wb |-> "Double_Quote", sb |-> "Close", lb |-> "QU", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 45 -> [r |-> 45, gc |-> "Pd", gcb |-> "Other", ep |-> FALSE, wb |-> "Other", sb |-> "SContinue", lb |-> "HY", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 40 -> [r |-> 40, gc |-> "Ps", gcb |-> "Other", ep |-> FALSE, wb |-> "Other", sb |-> "Close", lb |-> "OP", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 41 -> [r |-> 41, gc |-> "Pe", gcb |-> "Other", ep |-> FALSE, wb |-> "Other", sb |-> "Close", lb |-> "CP", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 58 -> [r |-> 58, gc |-> "Po", gcb |-> "Other", ep |-> FALSE, wb |-> "MidLetter", sb |-> "SContinue", lb |-> "IS", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 95 -> [r |-> 95, gc |-> "Pc", gcb |-> "Other", ep |-> FALSE, wb |-> "ExtendNumLet", sb |-> "Other", lb |-> "AL", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 32 -> [r |-> 32, gc |-> "Zs", gcb |-> "Other", ep |-> FALSE, wb |-> "WSegSpace", sb |-> "Sp", lb |-> "SP", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 10 -> [r |-> 10, gc |-> "Cc", gcb |-> "LF", ep |-> FALSE, wb |-> "LF", sb |-> "LF", lb |-> "LF", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 13 -> [r |-> 13, gc |-> "Cc", gcb |-> "CR", ep |-> FALSE, wb |-> "CR", sb |-> "CR", lb |-> "CR", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 133 -> [r |-> 133, gc |-> "Cc", gcb |-> "Control", ep |-> FALSE, wb |-> "Newline", sb |-> "Sep", lb |-> "NL", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 8205 -> [r |-> 8205, gc |-> "Cf", gcb |-> "ZWJ", ep |-> FALSE, wb |-> "ZWJ", sb |-> "Extend", lb |-> "ZWJ", wd |-> FALSE, sc |-> "zinh", iv |-> "", em |-> FALSE]
  [] x = 8203 -> [r |-> 8203, gc |-> "Cf", gcb |-> "Control", ep |-> FALSE, wb |-> "Other", sb |-> "Format", lb |-> "ZW", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 173 -> [r |-> 173, gc |-> "Cf", gcb |-> "Control", ep |-> FALSE, wb |-> "Format", sb |-> "Format", lb |-> "BA", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 1488 -> [r |-> 1488, gc |-> "Lo", gcb |-> "Other", ep |-> FALSE, wb |-> "Hebrew_Letter", sb |-> "OLetter", lb |-> "HL", wd |-> FALSE, sc |-> "hebr", iv |-> "", em |-> FALSE]
  [] x = 12450 -> [r |-> 12450, gc |-> "Lo", gcb |-> "Other", ep |-> FALSE, wb |-> "Katakana", sb |-> "OLetter", lb |-> "ID", wd |-> FALSE, sc |-> "kana", iv |-> "", em |-> FALSE]
  [] x = 12354 -> [r |-> 12354, gc |-> "Lo", gcb |-> "Other", ep |-> FALSE, wb |-> "Other", sb |-> "OLetter", lb |-> "ID", wd |-> FALSE, sc |-> "hira", iv |-> "", em |-> FALSE]
  [] x = 44032 -> [r |-> 44032, gc |-> "Lo", gcb |-> "LV", ep |-> FALSE, wb |-> "ALetter", sb |-> "OLetter", lb |-> "H2", wd |-> FALSE, sc |-> "hang", iv |-> "", em |-> FALSE]
  [] x = 4352 -> [r |-> 4352, gc |-> "Lo", gcb |-> "L", ep |-> FALSE, wb |-> "ALetter", sb |-> "OLetter", lb |-> "JL", wd |-> FALSE, sc |-> "hang", iv |-> "", em |-> FALSE]
  [] x = 4520 -> [r |-> 4520, gc |-> "Lo", gcb |-> "T", ep |-> FALSE, wb |-> "ALetter", sb |-> "OLetter", lb |-> "JT", wd |-> FALSE, sc |-> "hang", iv |-> "", em |-> FALSE]
  [] x = 127462 -> [r |-> 127462, gc |-> "So", gcb |-> "Regional_Indicator", ep |-> FALSE, wb |-> "Regional_Indicator", sb |-> "Other", lb |-> "RI", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> TRUE]
  [] x = 127995 -> [r |-> 127995, gc |-> "Sk", gcb |-> "Extend", ep |-> FALSE, wb |-> "Extend", sb |-> "Other", lb |-> "EM", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> TRUE]
  [] x = 160 -> [r |-> 160, gc |-> "Zs", gcb |-> "Other", ep |-> FALSE, wb |-> "Other", sb |-> "Sp", lb |-> "GL", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 8212 -> [r |-> 8212, gc |-> "Pd", gcb |-> "Other", ep |-> FALSE, wb |-> "Other", sb |-> "SContinue", lb |-> "B2", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 36 -> [r |-> 36, gc |-> "Sc", gcb |-> "Other", ep |-> FALSE, wb |-> "Other", sb |-> "Other", lb |-> "PR", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 37 -> [r |-> 37, gc |-> "Po", gcb |-> "Other", ep |-> FALSE, wb |-> "Other", sb |-> "Other", lb |-> "PO", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 1536 -> [r |-> 1536, gc |-> "Cf", gcb |-> "Prepend", ep |-> FALSE, wb |-> "Format", sb |-> "Format", lb |-> "AL", wd |-> FALSE, sc |-> "arab", iv |-> "", em |-> FALSE]
  [] x = 2307 -> [r |-> 2307, gc |-> "Mc", gcb |-> "SpacingMark", ep |-> FALSE, wb |-> "Extend", sb |-> "Extend", lb |-> "CM", wd |-> FALSE, sc |-> "indic", iv |-> "", em |-> FALSE]
  [] x = 2381 -> [r |-> 2381, gc |-> "Mn", gcb |-> "Extend", ep |-> FALSE, wb |-> "Extend", sb |-> "Extend", lb |-> "CM", wd |-> FALSE, sc |-> "indic", iv |-> "v", em |-> FALSE]
  [] x = 2325 -> [r |-> 2325, gc |-> "Lo", gcb |-> "Other", ep |-> FALSE, wb |-> "ALetter", sb |-> "OLetter", lb |-> "AL", wd |-> FALSE, sc |-> "indic", iv |-> "", em |-> FALSE]
  [] x = 12288 -> [r |-> 12288, gc |-> "Zs", gcb |-> "Other", ep |-> FALSE, wb |-> "WSegSpace", sb |-> "Sp", lb |-> "BA", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 8288 -> [r |-> 8288, gc |-> "Cf", gcb |-> "Control", ep |-> FALSE, wb |-> "Format", sb |-> "Format", lb |-> "WJ", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> FALSE]
  [] x = 128102 -> [r |-> 128102, gc |-> "So", gcb |-> "Other", ep |-> TRUE, wb |-> "Other", sb |-> "Other", lb |-> "EB", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> TRUE]
  [] x = 8986 -> [r |-> 8986, gc |-> "So", gcb |-> "Other", ep |-> TRUE, wb |-> "Other", sb |-> "Other", lb |-> "ID", wd |-> FALSE, sc |-> "zyyy", iv |-> "", em |-> TRUE]
  [] x = 8204 -> [r |-> 8204, gc |-> "Cf", gcb |-> "Extend", ep |-> FALSE, wb |-> "Extend", sb |-> "Extend", lb |-> "CM", wd |-> FALSE, sc |-> "zinh", iv |-> "", em |-> FALSE]
  [] x = 3530 -> [r |-> 3530, gc |-> "Mn", gcb |-> "Extend", ep |-> FALSE, wb |-> "Extend", sb |-> "Extend", lb |-> "CM", wd |-> FALSE, sc |-> "sinh", iv |-> "v", em |-> FALSE]
  [] x = 3482 -> [r |-> 3482, gc |-> "Lo", gcb |-> "Other", ep |-> FALSE, wb |-> "ALetter", sb |-> "OLetter", lb |-> "AL", wd |-> FALSE, sc |-> "sinh", iv |-> "", em |-> FALSE]
=============================================================================
