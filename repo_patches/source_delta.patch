From 27dda9142f9276b00df3dd6e4d8f7ef1ba1e317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:30 +0000
Subject: [PATCH 001/110] fix: AttrList.Change trims or removes the later
 attributes of its kind it overlaps

---
 pango/attributes.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pango/attributes.go b/pango/attributes.go
index 3ea81b2..bd01f5e 100644
--- a/pango/attributes.go
+++ b/pango/attributes.go
@@ -831,7 +831,6 @@ func (list *AttrList) Change(attr *Attribute) {
 
 	if !inserted { // we didn't insert attr yet
 		list.Insert(attr)
-		return
 	}
 
 	/* We now have the range inserted into the list one way or the
@@ -848,14 +847,26 @@ func (list *AttrList) Change(attr *Attribute) {
 			continue
 		}
 
+		if tmp_attr == attr {
+			continue
+		}
+
 		if tmp_attr.EndIndex <= attr.EndIndex || tmp_attr.equals(*attr) {
 			/* We can merge the new attribute with this attribute. */
-			attr.EndIndex = max(endIndex, tmp_attr.EndIndex)
+			attr.EndIndex = max(attr.EndIndex, tmp_attr.EndIndex)
 			list.remove(i)
 			i--
 			p--
 			continue
 		}
+
+		/* Trim the start of this attribute so that it begins at the end
+		 * of the new attribute. This may involve moving it in the list
+		 * to maintain the required non-decreasing order of start indices. */
+		tmp_attr.StartIndex = attr.EndIndex
+		for k := i + 1; k < p && (*list)[k].StartIndex < tmp_attr.StartIndex; k++ {
+			(*list)[k-1], (*list)[k] = (*list)[k], tmp_attr
+		}
 	}
 }
 
-- 
2.43.0


From 07de3c9fc4ac7059d392c656246bf9c9b9bec14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 002/110] fix: compare and hash charsets ignoring the empty
 pages left by DelChar

---
 fontconfig/charset.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/fontconfig/charset.go b/fontconfig/charset.go
index 70c5c1e..e6ff7ae 100644
--- a/fontconfig/charset.go
+++ b/fontconfig/charset.go
@@ -21,6 +21,9 @@ type charPage [8]uint32
 // which is large enough for all valid Unicode points.
 const maxCharsetRune = 0xFFFFFF
 
+// isEmpty returns true for a page without any rune
+func (page charPage) isEmpty() bool { return page == charPage{} }
+
 // Charset is a compact rune set.
 //
 // Its internal representation is composed of a variable
@@ -46,12 +49,17 @@ func (s Charset) String() string {
 
 func (s Charset) hash() []byte {
 	const size = 2 + 4*8
-	out := make([]byte, size*len(s.pageNumbers))
+	out := make([]byte, 0, size*len(s.pageNumbers))
 	for i, p := range s.pageNumbers {
-		binary.BigEndian.PutUint16(out[size*i:], p)
+		if s.pages[i].isEmpty() { // left by DelChar
+			continue
+		}
+		var buf [size]byte
+		binary.BigEndian.PutUint16(buf[:], p)
 		for j, u := range s.pages[i] {
-			binary.BigEndian.PutUint32(out[size*i+2+4*j:], u)
+			binary.BigEndian.PutUint32(buf[2+4*j:], u)
 		}
+		out = append(out, buf[:]...)
 	}
 	return out
 }
@@ -161,6 +169,8 @@ func charsetSubtractCount(a, b Charset) uint32 {
 // Returns whether `a` and `b` contain the same set of Unicode chars.
 func charsetEqual(a, b Charset) bool {
 	ai, bi := newCharsetIter(a), newCharsetIter(b)
+	ai.skipEmpty()
+	bi.skipEmpty()
 	for ai.leaf != nil && bi.leaf != nil {
 		if ai.page() != bi.page() {
 			return false
@@ -170,6 +180,8 @@ func charsetEqual(a, b Charset) bool {
 		}
 		ai.next()
 		bi.next()
+		ai.skipEmpty()
+		bi.skipEmpty()
 	}
 	return ai.leaf == bi.leaf
 }
@@ -178,6 +190,10 @@ func charsetEqual(a, b Charset) bool {
 func (a Charset) isSubset(b Charset) bool {
 	ai, bi := 0, 0
 	for ai < len(a.pageNumbers) && bi < len(b.pageNumbers) {
+		if a.pages[ai].isEmpty() { // left by DelChar
+			ai++
+			continue
+		}
 		an := a.pageNumbers[ai]
 		bn := b.pageNumbers[bi]
 		// Check matching pages
@@ -204,6 +220,9 @@ func (a Charset) isSubset(b Charset) bool {
 			}
 		}
 	}
+	for ai < len(a.pageNumbers) && a.pages[ai].isEmpty() {
+		ai++
+	}
 	//  did we look at every page?
 	return ai >= len(a.pageNumbers)
 }
@@ -437,6 +456,13 @@ func (iter *charsetIter) set(pageNumber uint16) {
 	iter.updateLeaf()
 }
 
+// skipEmpty moves `iter` to the next page which is not empty, if needed
+func (iter *charsetIter) skipEmpty() {
+	for iter.leaf != nil && iter.leaf.isEmpty() {
+		iter.next()
+	}
+}
+
 func (iter *charsetIter) next() {
 	iter.pos += 1
 	iter.updateLeaf()
-- 
2.43.0


From 4061871499d2c18a878f07c85d3a38e4a54118c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 003/110] fix: Sort returns the union of the charsets without
 trimming as well

---
 fontconfig/match.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 9ed2872..2e91c5d 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -951,13 +951,11 @@ func sortWalk(n []*sortNode, trim bool) (Fontset, Charset) {
 	for i, node := range n {
 		addsChars := false
 
-		// Only fetch node charset if we'd need it
-		if trim {
-			ncs, ok := node.pattern.GetCharset(CHARSET)
-			if !ok {
-				continue
-			}
+		ncs, ok := node.pattern.GetCharset(CHARSET)
+		if ok {
 			addsChars = csp.merge(ncs)
+		} else if trim {
+			continue
 		}
 
 		// If this font isn't a subset of the previous fonts, add it to the list
-- 
2.43.0


From 3e9be47d1c405254faac1065eaf466c2829505d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 004/110] fix: inclusion of language sets takes the tags out of
 the tables into account

---
 fontconfig/lang.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index a2adc44..15f825e 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -372,13 +372,12 @@ func (ls Langset) containsLang(lang string) bool {
 		}
 	}
 
-	var extra string
-	for extra = range ls.extra {
+	for extra := range ls.extra {
 		if langContains(extra, lang) {
-			break
+			return true
 		}
 	}
-	return extra != ""
+	return false
 }
 
 // return true if lsa contains every language in lsb
@@ -400,18 +399,14 @@ func (lsa Langset) includes(lsb Langset) bool {
 			}
 		}
 	}
-	var extra string
 	for extra := range lsb.extra {
 		if !lsa.containsLang(extra) {
 			if debugMode {
 				fmt.Printf("\tMissing string %s\n", extra)
 			}
-			break
+			return false
 		}
 	}
-	if extra != "" {
-		return false
-	}
 	return true
 }
 
-- 
2.43.0


From 433a061b8334e3cb82b1793dc1253600e9232530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:09 +0000
Subject: [PATCH 005/110] fix: pa and pa-pk are territories of the same
 language

---
 fontconfig/lang_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/lang_table.go b/fontconfig/lang_table.go
index 59f9d86..c735444 100644
--- a/fontconfig/lang_table.go
+++ b/fontconfig/lang_table.go
@@ -3645,7 +3645,7 @@ var fcLangCountrySets = [][langPageSize]uint32{
 	{0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000003, 0x00000000, 0x00000000}, /* ber */
 	{0x00000000, 0x00000000, 0x00c00000, 0x00000000, 0x00000000, 0x00000000, 0x000c0000, 0x00000000, 0x00000000}, /* ku */
 	{0x00000000, 0x00000000, 0x00000000, 0x00000100, 0x00000000, 0x00000000, 0x01000000, 0x00000000, 0x00000000}, /* mn */
-	{0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x40000000, 0x00000000, 0x00000000}, /* pa */
+	{0x00000000, 0x00000000, 0x00000000, 0x04000000, 0x00000000, 0x00000000, 0x40000000, 0x00000000, 0x00000000}, /* pa */
 	{0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x80000000, 0x00000001, 0x00000000}, /* pap */
 	{0x00000000, 0x00000000, 0x00000000, 0x30000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000}, /* ps */
 	{0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x60000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000}, /* ti */
-- 
2.43.0


From 050d5f894ce2954fa3d8f4771a5a7ed6c5229ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 006/110] fix: hashes of value lists separate and type the
 values

---
 fontconfig/lang.go   |  4 ++--
 fontconfig/values.go | 35 +++++++++++++++++++++++++++++++++--
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index 15f825e..981af67 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -44,13 +44,13 @@ func (l Langset) hash() []byte {
 	for i, v := range l.page {
 		binary.BigEndian.PutUint32(out[4*i:], v)
 	}
-	extra := make([]string, len(l.extra))
+	extra := make([]string, 0, len(l.extra))
 	for ex := range l.extra {
 		extra = append(extra, ex)
 	}
 	sort.Strings(extra)
 	for _, s := range extra {
-		out = append(out, s...)
+		out = append(append(out, s...), 0)
 	}
 	return out
 }
diff --git a/fontconfig/values.go b/fontconfig/values.go
index fe957ab..b29c99a 100644
--- a/fontconfig/values.go
+++ b/fontconfig/values.go
@@ -1,6 +1,7 @@
 package fontconfig
 
 import (
+	"encoding/binary"
 	"fmt"
 	"io"
 	"log"
@@ -285,6 +286,29 @@ func (v valueElt) hash() []byte {
 	return []byte(fmt.Sprintf("%v", v.Value))
 }
 
+// kindTag distinguishes the values with the same string representation.
+// Integers and floats are both numbers.
+func (v valueElt) kindTag() byte {
+	switch v.Value.(type) {
+	case Int, Float:
+		return 1
+	case String:
+		return 2
+	case Bool:
+		return 3
+	case Charset:
+		return 4
+	case Langset:
+		return 5
+	case Matrix:
+		return 6
+	case Range:
+		return 7
+	default:
+		return 0
+	}
+}
+
 func (v valueElt) asGoSource() string {
 	return fmt.Sprintf("valueElt{Value: %s, Binding: %d}", v.Value.asGoSource(), v.Binding)
 }
@@ -313,9 +337,16 @@ func (b valueBinding) String() string {
 type valueList []valueElt
 
 func (vs valueList) Hash() []byte {
-	var hash []byte
+	var (
+		hash []byte
+		buf  [5]byte
+	)
 	for _, v := range vs {
-		hash = append(hash, v.hash()...)
+		// the kind and the length of each value make the hash of the list unique
+		tmp := v.hash()
+		buf[0] = v.kindTag()
+		binary.BigEndian.PutUint32(buf[1:], uint32(len(tmp)))
+		hash = append(append(hash, buf[:]...), tmp...)
 	}
 	return hash
 }
-- 
2.43.0


From 0ec692e5f542eaae419615e11e47ae94c93b7426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 007/110] fix: a range written with an integer then a double
 keeps its start

---
 fontconfig/xml.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index a18b6ab..d221fc5 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -872,8 +872,8 @@ func (parser *configParser) parseRange() error {
 				n[i] = int(vstack.u.(Int))
 			}
 		case vstackDouble:
-			if i == 0 && !dflag {
-				d[1] = float32(n[1])
+			if i == 1 && !dflag {
+				d[0] = float32(n[0])
 			}
 			d[i] = float32(vstack.u.(Float))
 			dflag = true
-- 
2.43.0


From 3221da6a6c00243d2fe14233c97461975fad51ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 008/110] fix: a family test with a value which is not a string
 does not panic

---
 fontconfig/substitutions.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index b44b32d..0ff6bd3 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -355,17 +355,18 @@ func matchValueList(p, pPat Pattern, kind matchKind,
 			e = nil
 		}
 
-		if t.object == FAMILY && table != nil {
+		// the table only knows about strings
+		if family, isString := value.(String); t.object == FAMILY && table != nil && isString {
 			op := t.op.getOp()
 			if op == opEqual || op == opListing {
-				if !table.lookup(t.op, value.(String)) {
+				if !table.lookup(t.op, family) {
 					ret = -1
 					continue
 				}
 			}
 			if op == opNotEqual && t.qual == qualAll {
 				ret = -1
-				if !table.lookup(t.op, value.(String)) {
+				if !table.lookup(t.op, family) {
 					ret = 0
 				}
 				continue
-- 
2.43.0


From f4e063d58f3a306c5fb056fc067fd665fec8db2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 009/110] fix: edits keep track of the value matched by the
 test

---
 fontconfig/pattern.go       |  5 +++--
 fontconfig/substitutions.go | 21 ++++++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/fontconfig/pattern.go b/fontconfig/pattern.go
index 681ce09..aa78424 100644
--- a/fontconfig/pattern.go
+++ b/fontconfig/pattern.go
@@ -381,13 +381,14 @@ func BuildPattern(elements ...PatternElement) Pattern {
 	return p
 }
 
-func (p Pattern) addWithTable(object Object, list valueList, append bool, table *familyTable) {
+// it returns false if `list` has an invalid type, and is ignored
+func (p Pattern) addWithTable(object Object, list valueList, append bool, table *familyTable) bool {
 	e := p[object]
 	if e == nil {
 		e = &valueList{}
 		p[object] = e
 	}
-	e.insert(-1, append, list, object, table)
+	return e.insert(-1, append, list, object, table)
 }
 
 // Delete all values associated with a field
diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index 0ff6bd3..28909bc 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -116,14 +116,15 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 			thisValue := valuePos[object]
 
 			// Append the newList list of values after the current value
-			targetList.insert(thisValue, true, l, object, table)
+			inserted := targetList.insert(thisValue, true, l, object, table)
 
 			//  Delete the marked value
-			if thisValue != -1 {
-				targetList.del(thisValue, object, table)
-			}
+			targetList.del(thisValue, object, table)
 
-			// Adjust a pointer into the value list to ensure future edits occur at the same place
+			// The first of the inserted values, if any, is now the marked one
+			if !inserted || len(l) == 0 {
+				valuePos[object] = -1
+			}
 			break
 		}
 		fallthrough
@@ -135,12 +136,16 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 		valuePos[object] = -1
 	case opPrepend:
 		if valuePos[object] != -1 {
-			targetList.insert(valuePos[object], false, l, object, table)
+			if targetList.insert(valuePos[object], false, l, object, table) {
+				valuePos[object] += len(l) // keep the mark on the same value
+			}
 			break
 		}
 		fallthrough
 	case opPrependFirst:
-		p.addWithTable(object, l, false, table)
+		if p.addWithTable(object, l, false, table) && valuePos[object] != -1 {
+			valuePos[object] += len(l)
+		}
 	case opAppend:
 		if valuePos[object] != -1 {
 			targetList.insert(valuePos[object], true, l, object, table)
@@ -152,11 +157,13 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 	case opDelete:
 		if valuePos[object] != -1 {
 			targetList.del(valuePos[object], object, table)
+			valuePos[object] = -1
 			break
 		}
 		fallthrough
 	case opDeleteAll:
 		p.delWithTable(object, table)
+		valuePos[object] = -1
 	}
 	// Now go through the pattern and eliminate any properties without data
 	p.canon(object)
-- 
2.43.0


From e3b512364756bdcb39518f0da9198f7396cf3171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:02 +0000
Subject: [PATCH 010/110] fix: edits always update the table of the families

---
 fontconfig/substitutions.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index 28909bc..b19ade6 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -461,7 +461,6 @@ func (config *Config) Substitute(p, testPattern Pattern, kind matchKind) {
 	}
 
 	data := newFamilyTable(p)
-	table := &data
 	for _, rs := range config.subst {
 		rulesList := rs.subst[kind]
 
@@ -480,8 +479,7 @@ func (config *Config) Substitute(p, testPattern Pattern, kind matchKind) {
 				if debugMode {
 					fmt.Println("\t\ttest for substitute", test)
 				}
-				var keep bool
-				table, keep = test.match(kind, p, testPattern, data, valuePos, targets, tst)
+				_, keep := test.match(kind, p, testPattern, data, valuePos, targets, tst)
 				if !keep {
 					if debugMode {
 						fmt.Println("\t\t-> dont pass")
@@ -493,7 +491,7 @@ func (config *Config) Substitute(p, testPattern Pattern, kind matchKind) {
 				if debugMode {
 					fmt.Println("\t\tsubstitute edit", edit)
 				}
-				edit.edit(kind, p, testPattern, table, valuePos, targets, tst)
+				edit.edit(kind, p, testPattern, &data, valuePos, targets, tst)
 
 				if debugMode {
 					fmt.Println("\t\tafter edit", p.String())
-- 
2.43.0


From 1980faf63f18abc88d904c6be533f9236bfcad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:47 +0000
Subject: [PATCH 011/110] fix: matching file names with globs neither panics
 nor recurses forever

---
 fontconfig/match.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 2e91c5d..f45f53f 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -307,30 +307,22 @@ func compareSize(v1, v2 Value) (Value, float32) {
 	return bestValue, 0.0
 }
 
+// strGlobMatch returns true if `st` matches `glob`, where '*' stands for
+// any sequence of bytes and '?' for any byte
 func strGlobMatch(glob, st string) bool {
 	var str int // index in st
 	for i, c := range []byte(glob) {
 		switch c {
 		case '*':
+			rest := glob[i+1:]
 			// short circuit common case
-			if i == len(glob)-1 {
+			if rest == "" {
 				return true
 			}
-			// short circuit another common case
-			if i < len(glob)-1 && glob[i+1] == '*' {
-
-				l1 := len(st) - str
-				l2 := len(glob)
-				if l1 < l2 {
-					return false
-				}
-				str += (l1 - l2)
-			}
-			for str < len(st) {
-				if strGlobMatch(glob, st[str:]) {
+			for ; str <= len(st); str++ {
+				if strGlobMatch(rest, st[str:]) {
 					return true
 				}
-				str++
 			}
 			return false
 		case '?':
@@ -339,7 +331,7 @@ func strGlobMatch(glob, st string) bool {
 			}
 			str++
 		default:
-			if st[str] != c {
+			if str == len(st) || st[str] != c {
 				return false
 			}
 			str++
-- 
2.43.0


From 63026bc028f6c61bdf19e74bcb0d7326a56a8631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:58 +0000
Subject: [PATCH 012/110] fix: distance between empty names, and between
 postscript names with delimiters

---
 fontconfig/match.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index f45f53f..82fb935 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -90,11 +90,6 @@ func compareFamily(v1, v2 Value) (Value, float32) {
 
 	bestValue := v2
 
-	if toLower(v1String) != toLower(v2String) &&
-		v1String[0] != ' ' && v2String[0] != ' ' {
-		return bestValue, 1.0
-	}
-
 	if ignoreBlanksAndCase(v1String) == ignoreBlanksAndCase(v2String) {
 		return bestValue, 0
 	}
@@ -125,13 +120,15 @@ func comparePostScript(v1, v2 Value) (Value, float32) {
 
 	bestValue := v2
 
-	if toLower(v1_string) != toLower(v2_string) &&
-		v1_string[0] != ' ' && v2_string[0] != ' ' {
-		return bestValue, 1.0
+	// the delimiters are not part of the comparison
+	length := len(delimReplacer.Replace(v1_string))
+	if length == 0 {
+		if len(delimReplacer.Replace(v2_string)) == 0 {
+			return bestValue, 0
+		}
+		return bestValue, 1
 	}
-
 	n := matchIgnoreCaseAndDelims(v1_string, v2_string)
-	length := len(v1_string)
 
 	return bestValue, float32(length-n) / float32(length)
 }
-- 
2.43.0


From 5ead5a5f910be086e5060e08d98a58a791fcd5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 013/110] fix: listing an object requested twice gives its
 values once

---
 fontconfig/list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fontconfig/list.go b/fontconfig/list.go
index d7273d6..29df273 100644
--- a/fontconfig/list.go
+++ b/fontconfig/list.go
@@ -103,6 +103,9 @@ func listAppend(table map[string]Pattern, font Pattern, os []Object, lang string
 
 	pattern := NewPattern()
 	for _, obj := range os {
+		if _, has := pattern[obj]; has {
+			continue // requested several times
+		}
 		switch obj {
 		case FAMILY, FAMILYLANG:
 			if familyidx < 0 {
-- 
2.43.0


From 78e2aa81c3cf8081bc5c7d2875bbc375e6b408f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:41 +0000
Subject: [PATCH 014/110] fix: an integer pixel size gives the size as a float
 one does

---
 fontconfig/pattern.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fontconfig/pattern.go b/fontconfig/pattern.go
index aa78424..1462d33 100644
--- a/fontconfig/pattern.go
+++ b/fontconfig/pattern.go
@@ -472,7 +472,7 @@ func (pattern Pattern) SubstituteDefault() {
 		dpi = 75.0
 	}
 
-	if pixelSize := pattern.getVals(PIXEL_SIZE); len(pixelSize) == 0 {
+	if pixelSize, ok := pattern.GetFloat(PIXEL_SIZE); !ok {
 		pattern.Del(SCALE)
 		pattern.AddFloat(SCALE, scale)
 		pixelsize := float32(size) * scale
@@ -481,8 +481,7 @@ func (pattern Pattern) SubstituteDefault() {
 		pixelsize *= dpi / 72.0
 		pattern.AddFloat(PIXEL_SIZE, pixelsize)
 	} else {
-		sizeF, _ := pixelSize[0].Value.(Float)
-		size = float32(sizeF) / dpi * 72.0 / scale
+		size = pixelSize / dpi * 72.0 / scale
 	}
 	pattern.Del(SIZE)
 	pattern.AddFloat(SIZE, size)
-- 
2.43.0


From da7f8100a2388c38a6fd7eb1a24cfaf195739b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:40 +0000
Subject: [PATCH 015/110] fix: scanning one font file applies the font
 selectors

---
 fontconfig/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/config.go b/fontconfig/config.go
index 2b36b1a..772fe6f 100644
--- a/fontconfig/config.go
+++ b/fontconfig/config.go
@@ -193,7 +193,7 @@ func (config *Config) ScanFontRessource(content fonts.Resource, contentID string
 			out = append(out, f)
 		}
 	}
-	return fonts, nil
+	return out, nil
 }
 
 // Recursively scan a directory and build the font patterns,
-- 
2.43.0


From d2c0ecbb06b22a5d7e9fcf50b6b22a6a275b5a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:40 +0000
Subject: [PATCH 016/110] fix: file globs match complete path names

---
 fontconfig/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/config.go b/fontconfig/config.go
index 772fe6f..316a68f 100644
--- a/fontconfig/config.go
+++ b/fontconfig/config.go
@@ -280,7 +280,7 @@ func (config *Config) patternsAdd(pattern Pattern, accept bool) {
 func (config *Config) acceptFilename(filename string) bool {
 	globsMatch := func(globs strSet, name string) bool {
 		for glob := range globs {
-			if ok, _ := filepath.Match(glob, name); ok {
+			if strGlobMatch(glob, name) {
 				return true
 			}
 		}
-- 
2.43.0


From 40f8cc8df4c9ba433217063e5afff7c4075472fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:40 +0000
Subject: [PATCH 017/110] fix: a directory is scanned once however its path is
 written

---
 fontconfig/config.go       | 1 +
 fontconfig/partial_scan.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/fontconfig/config.go b/fontconfig/config.go
index 316a68f..7ab039b 100644
--- a/fontconfig/config.go
+++ b/fontconfig/config.go
@@ -206,6 +206,7 @@ func (config *Config) readDir(dir string, seen strSet) (Fontset, error) {
 		fmt.Println("adding fonts from", dir)
 	}
 
+	dir = filepath.Clean(dir) // one path by directory, for seen
 	var out Fontset
 	walkFn := func(path string, info os.FileInfo, err error) error {
 		if err != nil {
diff --git a/fontconfig/partial_scan.go b/fontconfig/partial_scan.go
index a16d1ed..0b8532e 100644
--- a/fontconfig/partial_scan.go
+++ b/fontconfig/partial_scan.go
@@ -47,6 +47,7 @@ func validFontFile(name string) bool {
 
 // descriptions are appended to `dst`, which is returned
 func partialReadDir(dir string, seen map[string]bool, dst []fonts.FaceDescription) ([]fonts.FaceDescription, error) {
+	dir = filepath.Clean(dir) // one path by directory, for seen
 	walkFn := func(path string, info os.FileInfo, err error) error {
 		if err != nil {
 			return fmt.Errorf("invalid font location: %s", err)
-- 
2.43.0


From 7ded5decf913c29e6d202f4e03d451c36a9c189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:40 +0000
Subject: [PATCH 018/110] fix: scanning directories ignores the files which can
 not be opened

---
 fontconfig/config.go       | 8 ++++----
 fontconfig/partial_scan.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/fontconfig/config.go b/fontconfig/config.go
index 7ab039b..2095821 100644
--- a/fontconfig/config.go
+++ b/fontconfig/config.go
@@ -221,8 +221,8 @@ func (config *Config) readDir(dir string, seen strSet) (Fontset, error) {
 		}
 		if info.Mode()&os.ModeSymlink != 0 {
 			path, err = filepath.EvalSymlinks(path)
-			if err != nil {
-				return err
+			if err != nil { // invalid file
+				return nil
 			}
 		}
 		if !validFontFile(info.Name()) {
@@ -235,8 +235,8 @@ func (config *Config) readDir(dir string, seen strSet) (Fontset, error) {
 		}
 
 		file, err := os.Open(path)
-		if err != nil {
-			return err
+		if err != nil { // invalid file
+			return nil
 		}
 		fonts := scanOneFontFile(file, path, config)
 		file.Close()
diff --git a/fontconfig/partial_scan.go b/fontconfig/partial_scan.go
index 0b8532e..2e589c1 100644
--- a/fontconfig/partial_scan.go
+++ b/fontconfig/partial_scan.go
@@ -63,8 +63,8 @@ func partialReadDir(dir string, seen map[string]bool, dst []fonts.FaceDescriptio
 
 		if info.Mode()&os.ModeSymlink != 0 {
 			path, err = filepath.EvalSymlinks(path)
-			if err != nil {
-				return err
+			if err != nil { // invalid file
+				return nil
 			}
 		}
 		if !validFontFile(info.Name()) {
@@ -72,8 +72,8 @@ func partialReadDir(dir string, seen map[string]bool, dst []fonts.FaceDescriptio
 		}
 
 		file, err := os.Open(path)
-		if err != nil {
-			return err
+		if err != nil { // invalid file
+			return nil
 		}
 
 		fds, _ := scanFontFile(file)
-- 
2.43.0


From df976dc130df00041756f39d8b28a228db106530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:25 +0000
Subject: [PATCH 019/110] fix: loading a font set checks the end of the file

---
 fontconfig/cache.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index 8294d47..d8bc592 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -425,6 +425,13 @@ func LoadFontset(src io.Reader) (Fontset, error) {
 			return nil, fmt.Errorf("invalid fontset: %s", err)
 		}
 	}
+
+	// reach the end to verify the checksum
+	if _, err := io.ReadFull(r, buf[:1]); err == nil {
+		return nil, errors.New("invalid fontset: unexpected data at the end")
+	} else if err != io.EOF {
+		return nil, fmt.Errorf("invalid fontset: %s", err)
+	}
 	return fs, nil
 }
 
-- 
2.43.0


From f929084ef686c2d48d3d748c3886a2fdd0e4518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:25 +0000
Subject: [PATCH 020/110] fix: loading a font set rejects unknown value types

---
 fontconfig/cache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index d8bc592..f1deb07 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -301,6 +301,8 @@ func (v *valueElt) deserializeBin(data []byte) (int, error) {
 		var out Range
 		valueSize, err = out.deserializeBin(data[2:])
 		v.Value = out
+	default:
+		err = fmt.Errorf("invalid value type %d", type_)
 	}
 
 	return 2 + valueSize, err
-- 
2.43.0


From 4240109a5682bb4e404170c072e3e26d922e9b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:42 +0000
Subject: [PATCH 021/110] fix: loading a font set rejects languages out of the
 tables

---
 fontconfig/cache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index f1deb07..eeb68c4 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -235,6 +235,12 @@ func (v *Langset) deserializeBin(data []byte) (int, error) {
 	for j := range v.page {
 		v.page[j] = binary.BigEndian.Uint32(data[4*j:])
 	}
+	// the last page may be incomplete
+	if nbLangs := len(fcLangCharSetIndicesInv); nbLangs < 32*langPageSize {
+		if v.page[nbLangs>>5]>>(nbLangs&0x1f) != 0 {
+			return 0, errors.New("invalid Langset (unknown language)")
+		}
+	}
 	return 4 * langPageSize, nil
 }
 
-- 
2.43.0


From 090940083dff3809c3a02d359a3189c9e6900e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:37 +0000
Subject: [PATCH 022/110] fix: a rejected configuration source adds no font
 selector

---
 fontconfig/xml.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index d221fc5..d8d50db 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -25,6 +25,14 @@ func (config *Config) parseAndLoadFromMemory(filename string, content io.Reader)
 	}
 
 	config.subst = append(config.subst, parser.ruleset)
+	for _, selector := range parser.selectors {
+		switch u := selector.u.(type) {
+		case String:
+			config.globAdd(string(u), selector.accept)
+		case Pattern:
+			config.patternsAdd(u, selector.accept)
+		}
+	}
 
 	return nil
 }
@@ -208,11 +216,20 @@ type vstack struct {
 	tag vstackTag
 }
 
+// glob (String) or Pattern of an <acceptfont> or <rejectfont> element
+type fontSelector struct {
+	u      exprNode
+	accept bool
+}
+
 type configParser struct {
 	name string
 
 	config  *Config
 	ruleset ruleSet
+	// font selectors, added to the configuration once
+	// the whole source is accepted
+	selectors []fontSelector
 
 	pstack []pStack // the top of the stack is at the end of the slice
 }
@@ -1136,10 +1153,8 @@ func (parser *configParser) parseEdit() error {
 func (parser *configParser) parseAcceptRejectFont(element elemTag) error {
 	for _, vstack := range parser.p().values {
 		switch vstack.tag {
-		case vstackGlob:
-			parser.config.globAdd(string(vstack.u.(String)), element == elementAcceptfont)
-		case vstackPattern:
-			parser.config.patternsAdd(vstack.u.(Pattern), element == elementAcceptfont)
+		case vstackGlob, vstackPattern:
+			parser.selectors = append(parser.selectors, fontSelector{u: vstack.u, accept: element == elementAcceptfont})
 		default:
 			return parser.error("bad font selector")
 		}
-- 
2.43.0


From 39d990c3139296e3564dfbeb0f4279385ecfdd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:38 +0000
Subject: [PATCH 023/110] fix: values inserted by the rules are copies

---
 fontconfig/expr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fontconfig/expr.go b/fontconfig/expr.go
index b623134..8affcb6 100644
--- a/fontconfig/expr.go
+++ b/fontconfig/expr.go
@@ -764,6 +764,8 @@ func (e *expression) toValues(p, p_pat Pattern, kind matchKind, binding valueBin
 
 	if l[0].Value == nil {
 		l = l[1:]
+	} else { // the values of the rules must not be shared
+		l[0].Value = l[0].Value.copy()
 	}
 
 	return l
-- 
2.43.0


From 9038bf274281996da803cce2ff635e0b4b20d750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:55 +0000
Subject: [PATCH 024/110] fix: the direction of a first strong isolate is
 searched up to its end only

---
 fribidi/bidi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index a0f605f..89d11f8 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -359,7 +359,7 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 				for fsiPp := pp.next; fsiPp.type_ != maskSentinel; fsiPp = fsiPp.next {
 					if fsiPp.type_ == PDI {
 						isolateCount--
-						if validIsolateCount < 0 {
+						if isolateCount < 0 {
 							break
 						}
 					} else if fsiPp.type_.IsIsolate() {
-- 
2.43.0


From 91eb6c551e9a5cff8084759a567e2949d3c0de5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:55 +0000
Subject: [PATCH 025/110] fix: a non spacing mark does not hide the bracket
 following it

---
 fribidi/bidi.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 89d11f8..0f056f6 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -520,7 +520,8 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 			}
 
 			if prevType == nextType && pp.level == pp.next.level {
-				if pppNext == pp.next {
+				/* Don't join brackets! */
+				if pppNext == pp.next && pp.bracketType == NoBracket && pppNext.bracketType == NoBracket {
 					pp = pp.next.mergeWithPrev()
 				}
 			}
-- 
2.43.0


From 464ecb7bcd1cb4e1a1c2a87e68011ffed29ae879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:55 +0000
Subject: [PATCH 026/110] fix: isolates and embeddings beyond the maximum depth

---
 fribidi/bidi.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 0f056f6..2e0e3d3 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -303,7 +303,8 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 				/*   X7. With each PDF, determine the matching embedding or
 				     override code. */
 				for i := pp.len; i != 0; i-- {
-					if stackSize != 0 && statusStack[stackSize-1].isolate != 0 {
+					if isolateOverflow > 0 ||
+						(overPushed == 0 && stackSize != 0 && statusStack[stackSize-1].isolate != 0) {
 						break
 					}
 					statusStack.popStatus(vars, &isolate, &isolateLevel)
@@ -322,6 +323,8 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 				if isolateOverflow > 0 {
 					isolateOverflow--
 					pp.level = level
+					/* not the end of an isolate with its own level */
+					pp.type_ = ON
 				} else if validIsolateCount > 0 {
 					/* Pop away all LRE,RLE,LRO, RLO levels
 					   from the stack, as these are implicitly
@@ -380,16 +383,14 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 
 			pp.level = level
 			pp.isolateLevel = isolateLevel
-			if isolateLevel < maxExplicitLevel-1 {
-				isolateLevel++
-			}
 
 			if !override.isNeutral() {
 				pp.type_ = override
 			}
 
-			if newLevel <= maxExplicitLevel {
+			if newLevel <= maxExplicitLevel && overPushed == 0 && isolateOverflow == 0 {
 				validIsolateCount++
+				isolateLevel++
 				statusStack.pushStatus(isolateOverflow, isolate, isolateLevel, newLevel, newOverride, vars)
 				level = newLevel
 			} else {
@@ -646,8 +647,8 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 		numIsoLevels      = int(maxIsoLevel + 1)
 		pairingNodes      *pairingNode
 		localBracketStack [localBracketSize][maxNestedBracketPairs]*oneRun
-		bracketStack      [maxExplicitLevel][]*oneRun
-		bracketStackSize  [maxExplicitLevel]int
+		bracketStack      [bidiMaxResolvedLevels][]*oneRun
+		bracketStackSize  [bidiMaxResolvedLevels]int
 		lastLevel         = mainRunList.level
 		lastIsoLevel      Level
 	)
-- 
2.43.0


From 8a49dd3af5f494d2c28f4204755b36238e202cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:43 +0000
Subject: [PATCH 027/110] fix: the direction before brackets is the one of
 their level run

---
 fribidi/bidi.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 2e0e3d3..1d03403 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -746,8 +746,16 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 			precStrongLevel := embeddingLevel /* TBDov! Extract from Isolate level in effect */
 			isoLevel := ppairs.open.isolateLevel
 			for ppn = ppairs.open.prev; ppn.type_ != maskSentinel; ppn = ppn.prev {
+				if ppn.isolateLevel > isoLevel { /* inside another isolate */
+					continue
+				} else if ppn.isolateLevel < isoLevel { /* start of the isolate */
+					break
+				} else if ppn.level != embeddingLevel { /* start of the level run */
+					precStrongLevel = maxL(ppn.level, embeddingLevel)
+					break
+				}
 				thisType := ppn.typeAnEnAsRTL()
-				if thisType.IsStrong() && ppn.isolateLevel == isoLevel {
+				if thisType.IsStrong() {
 					precStrongLevel = ppn.level + (ppn.level.isRtl() ^ dirToLevel(thisType))
 					break
 				}
-- 
2.43.0


From 5b7fda7aacae6fd0114aa25d46b07277ddf3c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:17 +0000
Subject: [PATCH 028/110] fix: brackets of different isolates are not paired

---
 fribidi/bidi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 1d03403..4989321 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -676,6 +676,10 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 		if level != lastLevel && lastIsoLevel == isoLevel {
 			bracketStackSize[lastIsoLevel] = 0
 		}
+		/* A new isolate starts without the brackets of the previous one. */
+		if isoLevel > lastIsoLevel {
+			bracketStackSize[isoLevel] = 0
+		}
 
 		if brackProp != NoBracket && pp.type_ == ON {
 			if brackProp.isOpen() {
-- 
2.43.0


From e8922fa47c4aa369bfee4bc8bf5c149ecbbe049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:40 +0000
Subject: [PATCH 029/110] fix: isolate characters at the end of a line are
 reset to the base level

---
 fribidi/bidi.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 4989321..7b80ca2 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -999,8 +999,9 @@ func ReorderLine(
 	)
 
 	/* L1. Reset the embedding levels of some chars:
-	   4. any sequence of white space characters at the end of the line. */
-	for i := off + length - 1; i >= off && bidiTypes[i].isExplicitOrBnOrWs(); i-- {
+	   4. any sequence of white space characters and/or isolate formatting
+	      characters at the end of the line. */
+	for i := off + length - 1; i >= off && (bidiTypes[i].isExplicitOrBnOrWs() || bidiTypes[i].IsIsolate()); i-- {
 		embeddingLevels[i] = dirToLevel(baseDir)
 	}
 
-- 
2.43.0


From 0a65ca6510522fbc44f00058c315f531867e286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:39 +0000
Subject: [PATCH 030/110] fix: maps to a text without bidi marks

---
 fribidi/fridibi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fribidi/fridibi.go b/fribidi/fridibi.go
index 7090d51..301ab85 100644
--- a/fribidi/fridibi.go
+++ b/fribidi/fridibi.go
@@ -511,7 +511,7 @@ func RemoveBidiMarks(str []rune, positionsToThis, positionFromThis []int, embedd
 		for i := range positionsToThis {
 			positionsToThis[i] = -1
 		}
-		for i, from := range positionFromThis {
+		for i, from := range positionFromThis[:j] {
 			positionsToThis[from] = i
 		}
 	}
-- 
2.43.0


From 24de331fd131d01a1ac834f57dd254ffa0af9b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:06 +0000
Subject: [PATCH 031/110] fix: brackets which are only compatible are not
 paired

---
 fribidi/brackets_table.go | 40 +++++++++++++++++++--------------------
 fribidi/unidata/gen.go    |  6 ++++--
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/fribidi/brackets_table.go b/fribidi/brackets_table.go
index f9d66d8..c76e841 100644
--- a/fribidi/brackets_table.go
+++ b/fribidi/brackets_table.go
@@ -17,10 +17,10 @@ var bracketsTable = map[rune]rune{
 	0x169c: 5787,
 	0x2045: 8261,
 	0x2046: 8261,
-	0x207d: 40,
-	0x207e: 40,
-	0x208d: 40,
-	0x208e: 40,
+	0x207d: 8317,
+	0x207e: 8317,
+	0x208d: 8333,
+	0x208e: 8333,
 	0x2308: 8968,
 	0x2309: 8968,
 	0x230a: 8970,
@@ -107,20 +107,20 @@ var bracketsTable = map[rune]rune{
 	0x3019: 12312,
 	0x301a: 12314,
 	0x301b: 12314,
-	0xfe59: 40,
-	0xfe5a: 40,
-	0xfe5b: 123,
-	0xfe5c: 123,
-	0xfe5d: 12308,
-	0xfe5e: 12308,
-	0xff08: 40,
-	0xff09: 40,
-	0xff3b: 91,
-	0xff3d: 91,
-	0xff5b: 123,
-	0xff5d: 123,
-	0xff5f: 10629,
-	0xff60: 10629,
-	0xff62: 12300,
-	0xff63: 12300,
+	0xfe59: 65113,
+	0xfe5a: 65113,
+	0xfe5b: 65115,
+	0xfe5c: 65115,
+	0xfe5d: 65117,
+	0xfe5e: 65117,
+	0xff08: 65288,
+	0xff09: 65288,
+	0xff3b: 65339,
+	0xff3d: 65339,
+	0xff5b: 65371,
+	0xff5d: 65371,
+	0xff5f: 65375,
+	0xff60: 65375,
+	0xff62: 65378,
+	0xff63: 65378,
 }
diff --git a/fribidi/unidata/gen.go b/fribidi/unidata/gen.go
index 17d7ac7..ac556fb 100644
--- a/fribidi/unidata/gen.go
+++ b/fribidi/unidata/gen.go
@@ -91,8 +91,10 @@ func parseUnicodeData() error {
 			}
 		}
 
-		// equiv table
-		equivTable[c] = unshaped
+		// equiv table: only canonical equivalences
+		if tag == "" {
+			equivTable[c] = unshaped
+		}
 	}
 	shapingTable.min, shapingTable.max = min, max
 
-- 
2.43.0


From 632c83a322f43b1703d5169a56637303e4be877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 032/110] fix: pango: font description strings read back to the
 same description (final words of the family, gravity, NaN size)

---
 pango/fonts.go | 57 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index f205fd4..97c7bde 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -3,6 +3,7 @@ package pango
 import (
 	"fmt"
 	"log"
+	"math"
 	"strconv"
 	"strings"
 	"unicode"
@@ -376,24 +377,12 @@ func NewFontDescriptionFrom(str string) FontDescription {
 
 	/* Look for a size */
 	if len(fields) != 0 {
-		word := fields[len(fields)-1]
-		var sizeIsAbsolute bool
-		if strings.HasSuffix(word, "px") {
-			sizeIsAbsolute = true
-			word = strings.TrimSuffix(word, "px")
-		}
-		size, err := strconv.ParseFloat(word, 64)
-		if err != nil {
-			// just ignore invalid floats: they maybe do not refers to a size
-		} else if size < 0 || size > 1000000 {
-			log.Println("invalid size value:", size)
-		} else { // word is a valid float
-			desc.Size = int32(size*Scale + 0.5)
+		if size, sizeIsAbsolute, ok := parseFontSize(fields[len(fields)-1]); ok {
+			desc.Size = size
 			desc.SizeIsAbsolute = sizeIsAbsolute
 			desc.mask |= FmSize
 			fields = fields[:len(fields)-1]
 		}
-
 	}
 
 	// Now parse style words
@@ -421,6 +410,25 @@ func NewFontDescriptionFrom(str string) FontDescription {
 	return desc
 }
 
+// parseFontSize parses a decimal number of points, or of device units
+// if it is followed by "px", and returns it in Pango units.
+func parseFontSize(word string) (size int32, isAbsolute bool, ok bool) {
+	if strings.HasSuffix(word, "px") {
+		isAbsolute = true
+		word = strings.TrimSuffix(word, "px")
+	}
+	v, err := strconv.ParseFloat(word, 64)
+	if err != nil || math.IsNaN(v) {
+		// just ignore invalid floats: they maybe do not refers to a size
+		return 0, false, false
+	}
+	if v < 0 || v > 1000000 {
+		log.Println("invalid size value:", v)
+		return 0, false, false
+	}
+	return int32(v*Scale + 0.5), isAbsolute, true
+}
+
 func (desc *FontDescription) find_field_any(str string) bool {
 	if fieldMatches("Normal", str) {
 		return true
@@ -501,12 +509,19 @@ func (desc FontDescription) String() string {
 		* in a keyword like "Bold", or if the family name ends in
 		* a number and no keywords will be added.
 		 */
-		if desc.Weight == WEIGHT_NORMAL &&
-			desc.Style == STYLE_NORMAL &&
-			desc.Stretch == STRETCH_NORMAL &&
-			desc.Variant == VARIANT_NORMAL &&
-			(desc.mask&(FmGravity|FmSize) == 0) {
-			fam += ","
+		words := strings.FieldsFunc(fam, func(r rune) bool { return r == ',' || unicode.IsSpace(r) })
+		if len(words) != 0 && !strings.HasSuffix(fam, ",") {
+			word := words[len(words)-1]
+			var tmp FontDescription
+			_, _, isSize := parseFontSize(word)
+			if tmp.find_field_any(word) ||
+				(isSize && desc.Weight == WEIGHT_NORMAL &&
+					desc.Style == STYLE_NORMAL &&
+					desc.Stretch == STRETCH_NORMAL &&
+					desc.Variant == VARIANT_NORMAL &&
+					(desc.mask&(FmGravity|FmSize) == 0)) {
+				fam += ","
+			}
 		}
 		chunks = append(chunks, fam)
 	}
@@ -525,7 +540,7 @@ func (desc FontDescription) String() string {
 	}
 	if desc.mask&FmGravity != 0 {
 		if s := GravityMap.ToString("gravity", int(desc.Gravity)); s != "" {
-			chunks = append(chunks)
+			chunks = append(chunks, s)
 		}
 	}
 
-- 
2.43.0


From 7148d49069d6312c97be66bd6a0928cc160814b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 033/110] fix: pango: trim the trailing commas of the family
 list of a font description

---
 pango/fonts.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index 97c7bde..b27b670 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -396,8 +396,8 @@ func NewFontDescriptionFrom(str string) FontDescription {
 	}
 
 	// Remainder is family list. Trim off trailing commas and leading and trailing white space
-	if len(fields) != 0 {
-		families := strings.Split(strings.Join(fields, " "), ",")
+	if familyList := strings.TrimRight(strings.Join(fields, " "), ", "); familyList != "" {
+		families := strings.Split(familyList, ",")
 		/* Now sanitize it to trim space from around individual family names.
 		* bug #499624 */
 		for i, f := range families {
-- 
2.43.0


From 5712b0fec9b66604156b75caf00bda38058a8155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 034/110] fix: pango: a lone hyphen is not a style option of a
 font description

---
 pango/fonts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pango/fonts.go b/pango/fonts.go
index b27b670..a2d559b 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -433,6 +433,9 @@ func (desc *FontDescription) find_field_any(str string) bool {
 	if fieldMatches("Normal", str) {
 		return true
 	}
+	if fieldMatches("", str) { // only hyphens
+		return false
+	}
 	// try each of the possible field
 	if v, ok := weight_map.FromString(str); ok {
 		desc.SetWeight(Weight(v))
-- 
2.43.0


From 1508dc5b6a9cdc2eae07500ea35c788e9b883ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 035/110] fix: pango: accept the documented gravity words in
 font descriptions

---
 pango/fonts.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index a2d559b..e3dccc0 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -187,6 +187,18 @@ var StretchMap = enumMap{
 	{value: int(STRETCH_ULTRA_EXPANDED), str: "ultra-expanded"},
 }
 
+// the gravity words of a font description
+var descGravityMap = enumMap{
+	{value: int(GRAVITY_SOUTH), str: "Not-Rotated"},
+	{value: int(GRAVITY_SOUTH), str: "South"},
+	{value: int(GRAVITY_NORTH), str: "Upside-Down"},
+	{value: int(GRAVITY_NORTH), str: "North"},
+	{value: int(GRAVITY_EAST), str: "Rotated-Left"},
+	{value: int(GRAVITY_EAST), str: "East"},
+	{value: int(GRAVITY_WEST), str: "Rotated-Right"},
+	{value: int(GRAVITY_WEST), str: "West"},
+}
+
 // FontMask bits correspond to fields in a `FontDescription` that have been set.
 type FontMask uint16
 
@@ -453,7 +465,7 @@ func (desc *FontDescription) find_field_any(str string) bool {
 		desc.SetVariant(Variant(v))
 		return true
 	}
-	if v, ok := GravityMap.FromString(str); ok {
+	if v, ok := descGravityMap.FromString(str); ok {
 		desc.SetGravity(Gravity(v))
 		return true
 	}
-- 
2.43.0


From 06b979f15d80a77b7976c6e955f288d0e8dd1376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 036/110] fix: pango: read back the intermediate weights
 written in font descriptions

---
 pango/fonts.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pango/fonts.go b/pango/fonts.go
index e3dccc0..0cac2a5 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -449,6 +449,10 @@ func (desc *FontDescription) find_field_any(str string) bool {
 		return false
 	}
 	// try each of the possible field
+	if v, err := strconv.ParseUint(strings.TrimPrefix(str, "weight="), 10, 16); err == nil && strings.HasPrefix(str, "weight=") {
+		desc.SetWeight(Weight(v)) // intermediate weight, see String
+		return true
+	}
 	if v, ok := weight_map.FromString(str); ok {
 		desc.SetWeight(Weight(v))
 		return true
-- 
2.43.0


From 63db1951790f5afd3c6428b18d665d0fb63febaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 037/110] fix: pango: accept integers as font weight in markup

---
 pango/fonts.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pango/fonts.go b/pango/fonts.go
index 0cac2a5..6ced79a 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -497,6 +497,10 @@ func pango_parse_variant(str string) (Variant, bool) {
 // and integers. Case variations are ignored.
 func pango_parse_weight(str string) (Weight, bool) {
 	i, b := weight_map.parse_field(str)
+	if !b {
+		v, err := strconv.ParseUint(str, 10, 16)
+		i, b = int(v), err == nil
+	}
 	return Weight(i), b
 }
 
-- 
2.43.0


From a4b9a59384f813eea9a3237dc344caf44429c71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 038/110] fix: pango: hash font families with the case folding
 used to compare them

---
 pango/fonts.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index 6ced79a..f8efe9c 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -815,11 +815,25 @@ func (desc *FontDescription) UnsetFields(toUnset FontMask) {
 // to be used as map key. In particular, the FamilyName is lowered, and `mask`
 // is ignored.
 func (desc FontDescription) AsHash() FontDescription {
-	desc.FamilyName = strings.ToLower(desc.FamilyName)
+	desc.FamilyName = strings.Map(foldCase, desc.FamilyName)
 	desc.mask = 0
 	return desc
 }
 
+// foldCase maps all the runes equal under strings.EqualFold to the same lower case rune.
+func foldCase(r rune) rune {
+	min := r
+	for other := unicode.SimpleFold(r); other != r; other = unicode.SimpleFold(other) {
+		if other < min {
+			min = other
+		}
+	}
+	if lower := unicode.ToLower(min); unicode.SimpleFold(min) != min {
+		return lower
+	}
+	return min
+}
+
 // FontMetrics holds the overall metric information
 // for a font (possibly restricted to a script).
 // All values are expressed in Pango units.
-- 
2.43.0


From 919657029ea73a6a99586a1192e2b5c06e7980c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 039/110] fix: pango: languages written with three scripts have
 scripts

---
 pango/language.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/language.go b/pango/language.go
index 249669a..a993ad8 100644
--- a/pango/language.go
+++ b/pango/language.go
@@ -366,7 +366,7 @@ func pango_language_get_scripts(lang Language) []Script {
 		}
 	}
 
-	return nil
+	return script_for_lang.scripts[:]
 }
 
 // pango_language_includes_script determines if `script` is one of the scripts used to
-- 
2.43.0


From 1d2011f34590db34ba1d2cd10dd6c2c586cd0a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 040/110] fix: pango: read all the languages of PANGO_LANGUAGE,
 not only the first one

---
 pango/language.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pango/language.go b/pango/language.go
index a993ad8..14a8b5d 100644
--- a/pango/language.go
+++ b/pango/language.go
@@ -428,18 +428,17 @@ func parse_default_languages() []Language {
 		if end == -1 {
 			end = len(p)
 			done = true
-		} else {
-			p = p[:end]
 		}
+		tag := p[:end]
 
 		/* skip empty languages, and skip the language 'C' */
-		if end != 0 && !(end == 1 && p[0] == 'C') {
-			l := pango_language_from_string(p)
+		if tag != "" && tag != "C" {
+			l := pango_language_from_string(tag)
 			langs = append(langs, l)
 		}
 
 		if !done {
-			p = p[end:]
+			p = p[end+1:]
 		}
 	}
 
-- 
2.43.0


From a47f699d2f285d3e60f8c0ffa80259d620233c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 041/110] fix: pango: spaces before a character with a better
 font use its font

---
 pango/context.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pango/context.go b/pango/context.go
index 05a1feb..47bff6b 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -866,6 +866,8 @@ func (state *itemizeState) fillFont(font Font) {
 
 // pos is the index into text
 func (state *itemizeState) addCharacter(font Font, fontPosition int, forceBreak bool, pos int, isSpace bool) {
+	firstSpace := state.firstSpace // the spaces before this character
+
 	if isSpace {
 		if state.firstSpace == -1 {
 			state.firstSpace = pos
@@ -895,10 +897,9 @@ func (state *itemizeState) addCharacter(font Font, fontPosition int, forceBreak
 		// the font is less "fallback".
 		//
 		// See https://gitlab.gnome.org/GNOME/pango/-/issues/249
-		if item.Offset < state.firstSpace && fontPosition < state.fontPosition {
-			nSpaces = pos - state.firstSpace
-			item.Length -= nSpaces
-			pos = state.firstSpace
+		if item.Offset < firstSpace && fontPosition < state.fontPosition {
+			nSpaces = pos - firstSpace
+			pos = firstSpace
 		}
 
 		item.Length = pos - item.Offset
-- 
2.43.0


From 89544068c912c376c5880035e3ba4126bacf9374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:06 +0000
Subject: [PATCH 042/110] fix: pango: itemizing does not modify the given font
 description

---
 pango/context.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/context.go b/pango/context.go
index 47bff6b..1ee6623 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -573,7 +573,8 @@ func (context *Context) newItemizeState(text []rune, baseDir Direction,
 			cp := state.context.fontDesc
 			state.fontDesc = &cp
 		} else {
-			state.fontDesc = desc
+			cp := *desc // do not modify the caller description
+			state.fontDesc = &cp
 		}
 		state.lang = state.context.language
 		state.extraAttrs = nil
-- 
2.43.0


From ce2bc282e9f81e965a752d0f557dc206960419b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:07 +0000
Subject: [PATCH 043/110] fix: pango: itemize with the base direction given

---
 pango/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/context.go b/pango/context.go
index 1ee6623..2d9bad7 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -981,7 +981,7 @@ func (context *Context) itemizeWithFont(text []rune, startIndex int, desc *FontD
 		return nil
 	}
 
-	state := context.newItemizeState(text, context.baseDir, startIndex, attrs, cachedIter, desc)
+	state := context.newItemizeState(text, baseDir, startIndex, attrs, cachedIter, desc)
 
 	for do := true; do; do = state.next() {
 		state.processRun()
-- 
2.43.0


From c45703841e64b5d005084b54e10aa79e7a76ebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 044/110] fix: pango: FONT_SCALE_NONE leaves the size unchanged

---
 pango/item.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/item.go b/pango/item.go
index db963aa..4b4e3f8 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -323,7 +323,7 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 	for _, attr := range item.Analysis.ExtraAttrs {
 		if attr.Kind == ATTR_FONT_SCALE {
 			if attr.StartIndex == item.Offset {
-				entry := &scaleItem{attr: attr}
+				entry := &scaleItem{attr: attr, scale: 1}
 				stack.PushFront(entry)
 
 				var (
-- 
2.43.0


From 17d27c972e6a200d31601aafe8d4b83b5246796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 045/110] fix: pango: items without a font do not crash the
 handling of variants and font scales

---
 pango/item.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pango/item.go b/pango/item.go
index 4b4e3f8..3ed4d38 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -330,7 +330,7 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 					hbFont *harfbuzz.Font
 					yScale int32
 				)
-				if prev != nil {
+				if prev != nil && prev.Analysis.Font != nil {
 					hbFont = prev.Analysis.Font.GetHarfbuzzFont()
 					yScale = hbFont.YScale
 				}
@@ -390,6 +390,9 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 }
 
 func (context *Context) applyScaleToItem(item *Item, scale float32) {
+	if item.Analysis.Font == nil {
+		return
+	}
 	desc := item.Analysis.Font.Describe(false)
 	size := scale * float32(desc.Size)
 
@@ -469,6 +472,9 @@ func (item *Item) variantSupported(variant Variant) bool {
 }
 
 func (item *Item) getFontVariant() Variant {
+	if item.Analysis.Font == nil {
+		return VARIANT_NORMAL
+	}
 	return item.Analysis.Font.Describe(false).Variant
 }
 
-- 
2.43.0


From c3a4408595868079e46db84c385485d5fc72f071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 046/110] fix: pango: font scale attributes starting before the
 text to itemize are applied

---
 pango/item.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/item.go b/pango/item.go
index 3ed4d38..a217001 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -322,7 +322,8 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 
 	for _, attr := range item.Analysis.ExtraAttrs {
 		if attr.Kind == ATTR_FONT_SCALE {
-			if attr.StartIndex == item.Offset {
+			// also start the attributes beginning before the first item
+			if attr.StartIndex == item.Offset || (prev == nil && attr.StartIndex < item.Offset) {
 				entry := &scaleItem{attr: attr, scale: 1}
 				stack.PushFront(entry)
 
-- 
2.43.0


From f0cd5900c1db773b34d813957018cc4d2fe61af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 047/110] fix: pango: superscripts and subscripts use the size
 ratio of the font, not a fraction of a point

---
 pango/item.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pango/item.go b/pango/item.go
index a217001..e063cf5 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -329,11 +329,11 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 
 				var (
 					hbFont *harfbuzz.Font
-					yScale int32
+					upem   float32 // the metrics of the face are in font units
 				)
 				if prev != nil && prev.Analysis.Font != nil {
 					hbFont = prev.Analysis.Font.GetHarfbuzzFont()
-					yScale = hbFont.YScale
+					upem = float32(hbFont.Face().Upem())
 				}
 
 				switch FontScale(attr.Data.(AttrInt)) {
@@ -343,14 +343,14 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 					entry.scale = 1 / 1.2
 					if hbFont != nil {
 						if y_size, ok := hbFont.Face().LineMetric(fonts.SuperscriptEmYSize); ok {
-							entry.scale = y_size / float32(yScale)
+							entry.scale = y_size / upem
 						}
 					}
 				case FONT_SCALE_SUBSCRIPT:
 					entry.scale = 1 / 1.2
 					if hbFont != nil {
 						if y_size, ok := hbFont.Face().LineMetric(fonts.SubscriptEmYSize); ok {
-							entry.scale = y_size / float32(yScale)
+							entry.scale = y_size / upem
 						}
 					}
 
-- 
2.43.0


From 8b7c896c058f81edf7cc392ee3718f5597842de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 048/110] fix: pango: text without a font is shaped with
 unknown glyphs instead of crashing

---
 pango/fonts.go       | 21 +++++++++++++++++++++
 pango/glyph_item.go  |  4 ++--
 pango/glyphs.go      |  6 +++---
 pango/layout.go      |  2 +-
 pango/layout_line.go |  2 +-
 pango/shape.go       |  2 ++
 6 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index f8efe9c..ec1a853 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -900,6 +900,27 @@ func FontGetMetrics(font Font, language Language) FontMetrics {
 	return metrics
 }
 
+// fontGlyphExtents returns the extents of the glyph, or the ones of an
+// unknown glyph if no font was found
+func fontGlyphExtents(font Font, glyph Glyph, inkRect, logicalRect *Rectangle) {
+	if font != nil {
+		font.GlyphExtents(glyph, inkRect, logicalRect)
+		return
+	}
+	if inkRect != nil {
+		inkRect.X = Scale
+		inkRect.Y = -(unknownGlyphHeight - 1) * Scale
+		inkRect.Height = (unknownGlyphHeight - 2) * Scale
+		inkRect.Width = (unknownGlyphWidth - 2) * Scale
+	}
+	if logicalRect != nil {
+		logicalRect.X = 0
+		logicalRect.Y = -unknownGlyphHeight * Scale
+		logicalRect.Height = unknownGlyphHeight * Scale
+		logicalRect.Width = unknownGlyphWidth * Scale
+	}
+}
+
 func (metrics *FontMetrics) update_metrics_from_items(language Language, text []rune, items *ItemList) {
 	// This should typically be called with a sample text string.
 	if len(text) == 0 {
diff --git a/pango/glyph_item.go b/pango/glyph_item.go
index a7cbd0b..0f25627 100644
--- a/pango/glyph_item.go
+++ b/pango/glyph_item.go
@@ -237,7 +237,7 @@ func (run *GlyphItem) getExtentsAndHeight(runInk, runLogical, lineLogical *Recta
 
 	if runInk != nil && (hasUnderline || hasOverline || properties.strikethrough) {
 		if metrics == nil {
-			me := run.Item.Analysis.Font.GetMetrics(run.Item.Analysis.Language)
+			me := FontGetMetrics(run.Item.Analysis.Font, run.Item.Analysis.Language)
 			metrics = &me
 		}
 
@@ -283,7 +283,7 @@ func (run *GlyphItem) getExtentsAndHeight(runInk, runLogical, lineLogical *Recta
 
 	if height != nil {
 		if metrics == nil {
-			me := run.Item.Analysis.Font.GetMetrics(run.Item.Analysis.Language)
+			me := FontGetMetrics(run.Item.Analysis.Font, run.Item.Analysis.Language)
 			metrics = &me
 		}
 		*height = metrics.Height
diff --git a/pango/glyphs.go b/pango/glyphs.go
index 56b9f1f..3d14a85 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -210,7 +210,7 @@ func (glyphs *GlyphString) fallbackShape(text []rune, analysis *Analysis) {
 		}
 
 		var logicalRect Rectangle
-		analysis.Font.GlyphExtents(glyph, nil, &logicalRect)
+		fontGlyphExtents(analysis.Font, glyph, nil, &logicalRect)
 
 		glyphs.Glyphs[i].Glyph = glyph
 
@@ -337,7 +337,7 @@ func (glyphs *GlyphString) extentsRange(start, end int, font Font, inkRect, logi
 
 		geometry := &glyphs.Glyphs[i].Geometry
 
-		font.GlyphExtents(glyphs.Glyphs[i].Glyph, &glyphInk, &glyphLogical)
+		fontGlyphExtents(font, glyphs.Glyphs[i].Glyph, &glyphInk, &glyphLogical)
 
 		if inkRect != nil && glyphInk.Width != 0 && glyphInk.Height != 0 {
 			if inkRect.Width == 0 || inkRect.Height == 0 {
@@ -511,7 +511,7 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 	// Try to get a ligature caret position for the glyph from the font.
 	// This only makes sense if the cluster contains a single spacing
 	// glyph, so we need to check that all but one of them are marks.
-	if clusterOffset > 0 && clusterOffset < clusterChars {
+	if clusterOffset > 0 && clusterOffset < clusterChars && analysis.Font != nil {
 		hbFont := analysis.Font.GetHarfbuzzFont()
 
 		var glyphPos int
diff --git a/pango/layout.go b/pango/layout.go
index a1bdae2..5e6ced8 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1487,7 +1487,7 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 
 	// Add some safety margin here. If we are farther away from the end of the
 	// line than this, we don't look carefully at a break possibility.
-	metrics := item.Analysis.Font.GetMetrics(item.Analysis.Language)
+	metrics := FontGetMetrics(item.Analysis.Font, item.Analysis.Language)
 	safe_distance := metrics.ApproximateCharWidth * 3
 
 	if processingNewItem {
diff --git a/pango/layout_line.go b/pango/layout_line.go
index 13297c0..536d6a4 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1347,7 +1347,7 @@ func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffse
 				} else {
 					var superscriptXOffset, superscriptYOffset, subscriptXOffset, subscriptYOffset float32
 
-					if prev != nil {
+					if prev != nil && prev.Analysis.Font != nil {
 						face := prev.Analysis.Font.GetHarfbuzzFont().Face()
 						superscriptYOffset, _ = face.LineMetric(fonts.SuperscriptEmYSize)
 						superscriptXOffset, _ = face.LineMetric(fonts.SuperscriptEmXOffset)
diff --git a/pango/shape.go b/pango/shape.go
index 3a06880..d43b61f 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -269,6 +269,8 @@ func (glyphs *GlyphString) shapeInternal(paragraphText []rune, itemOffset, itemL
 					analysis.Font.Describe(false), string(itemText), itemText)
 			}
 		}
+	} else {
+		glyphs.setSize(0)
 	}
 
 	if len(glyphs.Glyphs) == 0 {
-- 
2.43.0


From bb49c8f87107570415bf79e84620ac29f7a1f5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 049/110] fix: pango: general categories must not be unions of
 categories

---
 pango/break.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 2e6b18a..a3e5e3b 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -702,6 +702,28 @@ func backspaceDeleteCharacter(wc rune) bool {
 		!unicode.Is(ucd.Emoji, wc)
 }
 
+// the actual general categories, excluding the unions of categories (like LC) and
+// the unassigned code points (Cn), which are also in unicode.Categories
+var generalCategories = [...]*unicode.RangeTable{
+	unicode.Ll, unicode.Lu, unicode.Lo, unicode.Lm, unicode.Lt,
+	unicode.Zs, unicode.Zl, unicode.Zp,
+	unicode.Nd, unicode.Nl, unicode.No,
+	unicode.Po, unicode.Pc, unicode.Pd, unicode.Pe, unicode.Pf, unicode.Pi, unicode.Ps,
+	unicode.Mn, unicode.Mc, unicode.Me,
+	unicode.Sc, unicode.Sk, unicode.Sm, unicode.So,
+	unicode.Cc, unicode.Cf, unicode.Co, unicode.Cs,
+}
+
+// generalCategory returns the general category of `r`, or nil if it is not assigned
+func generalCategory(r rune) *unicode.RangeTable {
+	for _, table := range generalCategories {
+		if unicode.Is(table, r) {
+			return table
+		}
+	}
+	return nil
+}
+
 func isOtherTerm(sbType sentenceBreakType) bool {
 	/* not in (OLetter | Upper | Lower | ParaSep | SATerm) */
 	return !(sbType == sb_OLetter ||
@@ -893,7 +915,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			nextBreakType = ucd.LookupLineBreakClass(nextWc)
 		}
 
-		type_ := ucd.LookupType(wc)
+		type_ := generalCategory(wc)
 		jamo := ucd.Jamo(breakType)
 
 		/* Determine wheter this forms a Hangul syllable with prev. */
@@ -1452,7 +1474,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				breakOp = break_PROHIBITED
 			}
 
-			if unicode.Is(ucd.Extended_Pictographic, prevWc) && unicodedata.LookupType(prevWc) == nil &&
+			if unicode.Is(ucd.Extended_Pictographic, prevWc) && generalCategory(prevWc) == nil &&
 				breakType == ucd.BreakEM {
 				breakOp = break_PROHIBITED
 			}
-- 
2.43.0


From 4f85810a6eb925886630b76ec4a47fb0f893ca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 050/110] fix: pango: zero width space is not ignored by word
 boundaries

---
 pango/break.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index a3e5e3b..6940079 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1136,7 +1136,9 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					case unicode.Zl, unicode.Zp:
 						wbType = wb_NewlineCRLF /* CR, LF, Newline */
 					case unicode.Cf, unicode.Mc, unicode.Me, unicode.Mn:
-						wbType = wb_ExtendFormat /* Extend, Format */
+						if wc != 0x200B {
+							wbType = wb_ExtendFormat /* Extend, Format */
+						}
 					case unicode.Pc:
 						wbType = wb_ExtendNumLet /* ExtendNumLet */
 					case unicode.Pf, unicode.Pi:
-- 
2.43.0


From f4a604c113abcf687a5f8e22af3f4553e69ec588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 051/110] fix: pango: no line break between Hangul and
 inseparable characters

---
 pango/break.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index 6940079..b97aa75 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1500,7 +1500,8 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				prevBreakType == ucd.BreakJT ||
 				prevBreakType == ucd.BreakH2 ||
 				prevBreakType == ucd.BreakH3) &&
-				breakType == ucd.BreakPO {
+				(breakType == ucd.BreakIN ||
+					breakType == ucd.BreakPO) {
 				breakOp = break_PROHIBITED
 			}
 			if prevBreakType == ucd.BreakPR &&
-- 
2.43.0


From b0b6f02b6e560bcb40690e46f1e02e607db224c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 052/110] fix: pango: Hangul syllables do not go on after a
 space

---
 pango/break.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pango/break.go b/pango/break.go
index b97aa75..fe67d49 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1791,6 +1791,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				prevBreakType = breakType
 			}
 			/* else don't change the prevBreakType */
+			prevJamo = ucd.NO_JAMO
 		}
 
 		/* ---- Word breaks ---- */
-- 
2.43.0


From aaaeab6fd16a9d0629a334913b35c9e31e6a46fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 053/110] fix: pango: word boundaries after prepended
 characters, inside graphemes and after newlines

---
 pango/break.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index fe67d49..c80b592 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -944,7 +944,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 		isExtendedPictographic := unicode.Is(ucd.Extended_Pictographic, wc)
 
 		// ---- UAX#29 Grapheme Boundaries ----
-		var isGraphemeBoundary bool
+		var isGraphemeBoundary, afterPrepend bool
 		{
 			/* Find the GraphemeBreakType of wc */
 			gbType := gb_Other
@@ -1048,6 +1048,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				isGraphemeBoundary = false /* Rule GB9a */
 			} else if prevGbType == gb_Prepend {
 				isGraphemeBoundary = false /* Rule GB9b */
+				afterPrepend = true
 			} else if isExtendedPictographic { /* Rule GB11 */
 				if prevGbType == gb_ZWJ && metExtendedPictographic {
 					isGraphemeBoundary = false
@@ -1081,7 +1082,9 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 		/* ---- UAX#29 Word Boundaries ---- */
 		var isWordBoundary bool
 		{
-			if isGraphemeBoundary || (wc >= 0x1F1E6 && wc <= 0x1F1FF) { /* Rules WB3 and WB4 */
+			if isGraphemeBoundary || afterPrepend ||
+				(wc == '\n' && prevWc == '\r') ||
+				(wc >= 0x1F1E6 && wc <= 0x1F1FF) { /* Rules WB3 and WB4 */
 				/* Find the WordBreakType of wc */
 				wbType := wb_Other
 
@@ -1265,6 +1268,8 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					prevWbI = i
 				}
 			}
+			/* words don't start or end after a prepended character or inside a newline */
+			isWordBoundary = isWordBoundary && !afterPrepend && !(wc == '\n' && prevWc == '\r')
 			attrs[i].setWordBoundary(isWordBoundary)
 		}
 
-- 
2.43.0


From 20ab366ac2164fa27e0771e2ea90055df2e92d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 054/110] fix: pango: emoji modifiers extend words

---
 pango/break.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pango/break.go b/pango/break.go
index c80b592..970e775 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1159,6 +1159,10 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 							wc == 0xfe50 || wc == 0xfe54 || wc == 0xff0c || wc == 0xff1b {
 							wbType = wb_MidNum /* MidNum */
 						}
+					case unicode.Sk:
+						if wc >= 0x1F3FB && wc <= 0x1F3FF {
+							wbType = wb_ExtendFormat /* Fitzpatrick modifiers */
+						}
 					case unicode.So:
 						if wc >= 0x24B6 && wc <= 0x24E9 { /* Other_Alphabetic */
 							labelAlphabetic(breakType, script, &wbType)
-- 
2.43.0


From 825edcd7e105bf332c62b316dca3d49c848b1d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 055/110] fix: pango: characters inside graphemes count for the
 line breaks after them

---
 pango/break.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 970e775..ae3b9c5 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1408,18 +1408,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			breakType = ucd.BreakNS
 		}
 
-		/* If it's not a grapheme boundary, it's not a line break either */
-		if attrs[i].IsCursorPosition() ||
-			breakType == ucd.BreakEM ||
-			breakType == ucd.BreakZWJ ||
-			breakType == ucd.BreakCM ||
-			breakType == ucd.BreakJL ||
-			breakType == ucd.BreakJV ||
-			breakType == ucd.BreakJT ||
-			breakType == ucd.BreakH2 ||
-			breakType == ucd.BreakH3 ||
-			breakType == ucd.BreakRI {
-
+		{
 			/* Find the LineBreakType of wc */
 			lbType := lb_Other
 
@@ -1760,6 +1749,20 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			case break_ALREADY_HANDLED:
 			}
 
+			/* If it's not a grapheme boundary, it's not a line break either */
+			if !(attrs[i].IsCursorPosition() ||
+				breakType == ucd.BreakEM ||
+				breakType == ucd.BreakZWJ ||
+				breakType == ucd.BreakCM ||
+				breakType == ucd.BreakJL ||
+				breakType == ucd.BreakJV ||
+				breakType == ucd.BreakJT ||
+				breakType == ucd.BreakH2 ||
+				breakType == ucd.BreakH3 ||
+				breakType == ucd.BreakRI) {
+				attrs[i].setLineBreak(false)
+			}
+
 			/* Rule LB9 */
 			if !(breakType == ucd.BreakCM ||
 				breakType == ucd.BreakZWJ) {
-- 
2.43.0


From 43d953b54587928d3ea5c6e833a0f50912f58c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 056/110] fix: pango: sentence boundaries follow the rules SB6
 to SB11

---
 pango/break.go | 69 ++++++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 36 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index ae3b9c5..aa6bd58 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -318,7 +318,9 @@ const (
 	sb_SContinue
 	sb_STerm
 	sb_Close
-	/* Rules SB8 and SB8a */
+	/* Rules SB8 to SB11 */
+	sb_ATerm_Close
+	sb_STerm_Close
 	sb_ATerm_Close_Sp
 	sb_STerm_Close_Sp
 )
@@ -724,14 +726,22 @@ func generalCategory(r rune) *unicode.RangeTable {
 	return nil
 }
 
+// isATerm returns true for ATerm Close* Sp*
+func isATerm(sbType sentenceBreakType) bool {
+	return sbType == sb_ATerm || sbType == sb_ATerm_Close || sbType == sb_ATerm_Close_Sp
+}
+
+// isSTerm returns true for STerm Close* Sp*
+func isSTerm(sbType sentenceBreakType) bool {
+	return sbType == sb_STerm || sbType == sb_STerm_Close || sbType == sb_STerm_Close_Sp
+}
+
 func isOtherTerm(sbType sentenceBreakType) bool {
 	/* not in (OLetter | Upper | Lower | ParaSep | SATerm) */
 	return !(sbType == sb_OLetter ||
 		sbType == sb_Upper || sbType == sb_Lower ||
 		sbType == sb_ParaSep ||
-		sbType == sb_ATerm || sbType == sb_STerm ||
-		sbType == sb_ATerm_Close_Sp ||
-		sbType == sb_STerm_Close_Sp)
+		isATerm(sbType) || isSTerm(sbType))
 }
 
 func labelAlphabetic(breakType *unicode.RangeTable, script Script, wbType *wordBreakType) {
@@ -1280,7 +1290,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 		/* ---- UAX#29 Sentence Boundaries ---- */
 		var isSentenceBoundary bool
 		{
-			if isWordBoundary || wc == '\r' || wc == '\n' { /* Rules SB3 and SB5 */
+			{
 				/* Find the SentenceBreakType of wc */
 				sbType := sb_Other
 
@@ -1313,20 +1323,20 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					prevSbType == sb_ATerm &&
 					sbType == sb_Upper:
 					isSentenceBoundary = false /* Rule SB7 */
-				case prevSbType == sb_ATerm && sbType == sb_Close:
-					sbType = sb_ATerm
-				case prevSbType == sb_STerm && sbType == sb_Close:
-					sbType = sb_STerm
-				case prevSbType == sb_ATerm && sbType == sb_Sp:
+				/* Rule SB9 */
+				case (prevSbType == sb_ATerm || prevSbType == sb_ATerm_Close) && sbType == sb_Close:
+					sbType = sb_ATerm_Close
+				case (prevSbType == sb_STerm || prevSbType == sb_STerm_Close) && sbType == sb_Close:
+					sbType = sb_STerm_Close
+				/* Rules SB9 and SB10 */
+				case isATerm(prevSbType) && sbType == sb_Sp:
 					sbType = sb_ATerm_Close_Sp
-				case prevSbType == sb_STerm && sbType == sb_Sp:
+				case isSTerm(prevSbType) && sbType == sb_Sp:
 					sbType = sb_STerm_Close_Sp
 				/* Rule SB8 */
-				case (prevSbType == sb_ATerm ||
-					prevSbType == sb_ATerm_Close_Sp) && sbType == sb_Lower:
+				case isATerm(prevSbType) && sbType == sb_Lower:
 					isSentenceBoundary = false
-				case (prevPrevSbType == sb_ATerm ||
-					prevPrevSbType == sb_ATerm_Close_Sp) &&
+				case isATerm(prevPrevSbType) &&
 					isOtherTerm(prevSbType) && sbType == sb_Lower:
 
 					attrs[prevSbI].setSentenceBoundary(false)
@@ -1339,35 +1349,19 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 							break
 						}
 					}
-				case (prevSbType == sb_ATerm ||
-					prevSbType == sb_ATerm_Close_Sp ||
-					prevSbType == sb_STerm ||
-					prevSbType == sb_STerm_Close_Sp) &&
+				case (isATerm(prevSbType) || isSTerm(prevSbType)) &&
 					(sbType == sb_SContinue || sbType == sb_ATerm || sbType == sb_STerm):
 					isSentenceBoundary = false /* Rule SB8a */
-				case (prevSbType == sb_ATerm ||
-					prevSbType == sb_STerm) &&
-					(sbType == sb_Close || sbType == sb_Sp ||
-						sbType == sb_ParaSep):
-					isSentenceBoundary = false /* Rule SB9 */
-				case (prevSbType == sb_ATerm ||
-					prevSbType == sb_ATerm_Close_Sp ||
-					prevSbType == sb_STerm ||
-					prevSbType == sb_STerm_Close_Sp) &&
-					(sbType == sb_Sp || sbType == sb_ParaSep):
-					isSentenceBoundary = false /* Rule SB10 */
-				case (prevSbType == sb_ATerm ||
-					prevSbType == sb_ATerm_Close_Sp ||
-					prevSbType == sb_STerm ||
-					prevSbType == sb_STerm_Close_Sp) &&
-					sbType != sb_ParaSep:
+				case (isATerm(prevSbType) || isSTerm(prevSbType)) && sbType == sb_ParaSep:
+					isSentenceBoundary = false /* Rules SB9 and SB10 */
+				case isATerm(prevSbType) || isSTerm(prevSbType):
 					isSentenceBoundary = true /* Rule SB11 */
 				default:
 					isSentenceBoundary = false /* Rule SB998 */
 				}
 
 				if sbType != sb_ExtendFormat &&
-					!((prevPrevSbType == sb_ATerm || prevPrevSbType == sb_ATerm_Close_Sp) &&
+					!(isATerm(prevPrevSbType) &&
 						isOtherTerm(prevSbType) &&
 						isOtherTerm(sbType)) {
 					prevPrevSbType = prevSbType
@@ -1376,6 +1370,9 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				}
 			}
 
+			/* sentences don't start or end inside a word */
+			isSentenceBoundary = isSentenceBoundary && isWordBoundary
+
 			if i == 0 || done {
 				isSentenceBoundary = true /* Rules SB1 and SB2 */
 			}
-- 
2.43.0


From 0e86a616b6a5e5c38efec445094d70b150cea23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 057/110] fix: pango: a word ended by a change of Japanese
 script is followed by the start of the next word

---
 pango/break.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pango/break.go b/pango/break.go
index aa6bd58..5361bac 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1828,6 +1828,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 								!japanese(wc)) ||
 							(!japanese(lastWordLetter) &&
 								japanese(wc)) {
+							attrs[i].setWordStart(true)
 							attrs[i].setWordEnd(true)
 						}
 					}
-- 
2.43.0


From 9de4d72828f93c92350a44ef9e0fb3e3ec2ce45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 058/110] fix: pango: a font description which only sets other
 fields is not ignored

---
 pango/context.go | 2 +-
 pango/layout.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/context.go b/pango/context.go
index 2d9bad7..a7a766a 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -230,7 +230,7 @@ func (context *Context) GetLanguage() Language { return context.setLanguage }
 // SetFontDescription sets the default font description for the context,
 // which is used during itemization when no other font information is available.
 func (context *Context) SetFontDescription(desc FontDescription) {
-	if !desc.pango_font_description_equal(context.fontDesc) {
+	if desc != context.fontDesc { // the fields set matter, even with default values
 		context.contextChanged()
 		context.fontDesc = desc
 	}
diff --git a/pango/layout.go b/pango/layout.go
index 5e6ced8..6a1f46d 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -134,7 +134,7 @@ func NewLayout(context *Context) *Layout {
 // SetFontDescription sets the default font description for the layout.
 // If `nil`, the font description from the layout's context is used.
 func (layout *Layout) SetFontDescription(desc *FontDescription) {
-	if desc != nil && layout.fontDesc != nil && desc.pango_font_description_equal(*layout.fontDesc) {
+	if desc != nil && layout.fontDesc != nil && *desc == *layout.fontDesc {
 		return
 	}
 
-- 
2.43.0


From 1f9303d61eb8fdf8c87c8a0b18d86601b8925926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 059/110] fix: pango: sentences merged with the one before keep
 its start, sentences of one character have a start and an end

---
 pango/break.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 5361bac..ba51bd9 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1343,11 +1343,15 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					attrs[prevSbI].setSentenceEnd(false)
 					lastSentenceStart = -1
 					for j := prevSbI - 1; j >= 0; j-- {
-						attrs[j].setSentenceEnd(false)
 						if attrs[j].IsSentenceBoundary() {
 							lastSentenceStart = j
 							break
 						}
+						attrs[j].setSentenceEnd(false)
+					}
+					// the spaces at the beginning are not part of the sentence
+					for lastSentenceStart >= 0 && lastSentenceStart < i && attrs[lastSentenceStart].IsWhite() {
+						lastSentenceStart++
 					}
 				case (isATerm(prevSbType) || isSTerm(prevSbType)) &&
 					(sbType == sb_SContinue || sbType == sb_ATerm || sbType == sb_STerm):
@@ -1865,7 +1869,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			attrs[i].setSentenceEnd(false)
 
 			/* maybe start sentence */
-			if lastSentenceStart == -1 && !isSentenceBoundary {
+			if lastSentenceStart == -1 && i > 0 {
 				lastSentenceStart = i - 1
 			}
 			/* remember last non space character position */
-- 
2.43.0


From 4f3fe0be04a84097402e08f0d6cd2ab986f73078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 060/110] fix: pango: format characters after a quote do not
 hide it from the word rules

---
 pango/break.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index ba51bd9..8f852fd 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -871,6 +871,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 		prevPrevWbType = wb_Other
 		prevWbType     = wb_Other
 		prevWbI        = -1
+		prevWbWc       rune // the character at prevWbI
 
 		prevPrevSbType = sb_Other
 		prevSbType     = sb_Other
@@ -1256,18 +1257,18 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 						wbType == wb_Hebrew_Letter)) &&
 					(prevWbType == wb_MidLetter ||
 						prevWbType == wb_MidNumLet ||
-						prevWc == 0x0027) {
+						prevWbWc == 0x0027) {
 					attrs[prevWbI].setWordBoundary(false) /* Rule WB6 */
 					isWordBoundary = false                /* Rule WB7 */
 				} else if prevWbType == wb_Hebrew_Letter && wc == 0x0027 {
 					isWordBoundary = false /* Rule WB7a */
-				} else if prevPrevWbType == wb_Hebrew_Letter && prevWc == 0x0022 &&
+				} else if prevPrevWbType == wb_Hebrew_Letter && prevWbWc == 0x0022 &&
 					wbType == wb_Hebrew_Letter {
 					attrs[prevWbI].setWordBoundary(false) /* Rule WB7b */
 					isWordBoundary = false                /* Rule WB7c */
 				} else if (prevPrevWbType == wb_Numeric && wbType == wb_Numeric) &&
 					(prevWbType == wb_MidNum || prevWbType == wb_MidNumLet ||
-						prevWc == 0x0027) {
+						prevWbWc == 0x0027) {
 					isWordBoundary = false                /* Rule WB11 */
 					attrs[prevWbI].setWordBoundary(false) /* Rule WB12 */
 				} else if prevWbType == wb_RI_Odd && wbType == wb_RI_Even {
@@ -1280,6 +1281,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					prevPrevWbType = prevWbType
 					prevWbType = wbType
 					prevWbI = i
+					prevWbWc = wc
 				}
 			}
 			/* words don't start or end after a prepended character or inside a newline */
-- 
2.43.0


From fc1d5be53171b82e3d58cc52c9f6dc0a059d192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 061/110] fix: pango: attributes about breaks are clipped to
 each paragraph: no crash, no endless loop, words and sentences end with the
 text

---
 pango/break.go  | 79 ++++++++++++++++++++++++-------------------------
 pango/layout.go |  3 +-
 2 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 8f852fd..d47a166 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -478,13 +478,13 @@ func removeBreaksFromRange(text []rune, logAttrs []CharAttr, startPos, endPos in
 	}
 }
 
-func posFromOffset(start, end, offset int, text []rune, logAttrs []CharAttr) (int, int) {
+func posFromOffset(start, end, offset int, text []rune) (int, int) {
 	var startPos, endPos int
 	if start >= offset {
 		startPos = start - offset
 	}
 	if end >= offset+len(text) {
-		endPos = len(logAttrs)
+		endPos = len(text)
 	} else {
 		endPos = end - offset
 	}
@@ -502,7 +502,7 @@ func handleAllowBreaks(text []rune, list AttrList, offset int, logAttrs []CharAt
 			continue
 		}
 		start, end := iter.StartIndex, iter.EndIndex
-		startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
+		startPos, endPos := posFromOffset(start, end, offset, text)
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			logAttrs[pos].setCharBreak(false)
@@ -527,7 +527,7 @@ func handleWords(text []rune, attrs AttrList, offset int, logAttrs []CharAttr) b
 		}
 
 		start, end := attr.StartIndex, attr.EndIndex
-		startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
+		startPos, endPos := posFromOffset(start, end, offset, text)
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			logAttrs[pos].setWordStart(false)
@@ -561,29 +561,27 @@ func handleWords(text []rune, attrs AttrList, offset int, logAttrs []CharAttr) b
 			tailored = true
 		}
 
-		if end < offset+len(text) {
-			inWord := false
-			for pos := endPos; pos < len(logAttrs); pos++ {
-				if logAttrs[pos].IsWordStart() {
-					inWord = pos == endPos
-					break
-				}
-				if pos > endPos && logAttrs[pos].IsWordEnd() {
-					inWord = true
-					break
-				}
+		inWord := false
+		for pos := endPos; pos < len(logAttrs); pos++ {
+			if logAttrs[pos].IsWordStart() {
+				inWord = pos == endPos
+				break
 			}
-			logAttrs[endPos].setWordStart(inWord)
-			logAttrs[endPos].setWordEnd(true)
-			logAttrs[endPos].setWordBoundary(true)
-
-			/* Allow line breaks before words */
-			if inWord {
-				logAttrs[endPos].setLineBreak(true)
+			if pos > endPos && logAttrs[pos].IsWordEnd() {
+				inWord = true
+				break
 			}
+		}
+		logAttrs[endPos].setWordStart(inWord)
+		logAttrs[endPos].setWordEnd(true)
+		logAttrs[endPos].setWordBoundary(true)
 
-			tailored = true
+		/* Allow line breaks before words */
+		if inWord {
+			logAttrs[endPos].setLineBreak(true)
 		}
+
+		tailored = true
 	}
 
 	return tailored
@@ -600,7 +598,7 @@ func handleSentences(text []rune, attrs AttrList, offset int, logAttrs []CharAtt
 		}
 
 		start, end := attr.StartIndex, attr.EndIndex
-		startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
+		startPos, endPos := posFromOffset(start, end, offset, text)
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			logAttrs[pos].setSentenceStart(false)
@@ -625,23 +623,21 @@ func handleSentences(text []rune, attrs AttrList, offset int, logAttrs []CharAtt
 
 			tailored = true
 		}
-		if end < offset+len(text) {
-			inSentence := false
-			for pos := endPos + 1; endPos < len(logAttrs); pos++ {
-				if logAttrs[pos].IsSentenceStart() {
-					break
-				}
-				if logAttrs[pos].IsSentenceEnd() {
-					inSentence = true
-					break
-				}
+		inSentence := false
+		for pos := endPos + 1; pos < len(logAttrs); pos++ {
+			if logAttrs[pos].IsSentenceStart() {
+				break
+			}
+			if logAttrs[pos].IsSentenceEnd() {
+				inSentence = true
+				break
 			}
-			logAttrs[endPos].setSentenceStart(inSentence)
-			logAttrs[endPos].setSentenceEnd(true)
-			logAttrs[endPos].setSentenceBoundary(true)
-
-			tailored = true
 		}
+		logAttrs[endPos].setSentenceStart(inSentence)
+		logAttrs[endPos].setSentenceEnd(true)
+		logAttrs[endPos].setSentenceBoundary(true)
+
+		tailored = true
 	}
 
 	return tailored
@@ -657,7 +653,7 @@ func handleHyphens(text []rune, attrs AttrList, offset int, logAttrs []CharAttr)
 			continue
 		}
 
-		startPos, endPos := posFromOffset(attr.StartIndex, attr.EndIndex, offset, text, logAttrs)
+		startPos, endPos := posFromOffset(attr.StartIndex, attr.EndIndex, offset, text)
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			if !logAttrs[pos].IsBreakRemovesPreceding() {
@@ -675,6 +671,9 @@ func breakAttrs(text []rune, attributes AttrList, offset int, logAttrs []CharAtt
 	var allowBreaks, words, sentences, hyphens AttrList
 
 	for _, attr := range attributes {
+		if attr.EndIndex <= offset || attr.StartIndex >= offset+len(text) {
+			continue // not in this paragraph
+		}
 		switch attr.Kind {
 		case ATTR_ALLOW_BREAKS:
 			allowBreaks.Insert(attr.copy())
diff --git a/pango/layout.go b/pango/layout.go
index 6a1f46d..e498bee 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1817,6 +1817,7 @@ done:
 
 // logAttrs must have at least length: length+1
 func getItemsLogAttrs(text []rune, start, length int, items *ItemList, logAttrs []CharAttr, attrs AttrList) {
+	logAttrs = logAttrs[:length+1] // only this paragraph
 	pangoDefaultBreak(text[start:start+length], logAttrs)
 	offset := 0
 	for l := items; l != nil; l = l.Next {
@@ -1835,7 +1836,7 @@ func getItemsLogAttrs(text []rune, start, length int, items *ItemList, logAttrs
 	}
 
 	if items != nil {
-		pango_attr_break(text[start:], attrs, items.Data.Offset, logAttrs)
+		pango_attr_break(text[start:start+length], attrs, items.Data.Offset, logAttrs)
 	}
 }
 
-- 
2.43.0


From f7bf29e5ef35227ec79353f043cdd9edf7987444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 062/110] fix: pango: the attributes of the text before do not
 leak in a layout

---
 pango/layout.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pango/layout.go b/pango/layout.go
index e498bee..3aa86e7 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1901,6 +1901,7 @@ func (layout *Layout) checkLines() {
 		L := len(layout.Text) + 1
 		if cap(layout.logAttrs) >= L {
 			layout.logAttrs = layout.logAttrs[:L]
+			layout.logAttrs[0] = 0 // nothing is kept from the text before
 		} else {
 			layout.logAttrs = make([]CharAttr, L)
 		}
-- 
2.43.0


From 565fbfb54462e123d426533427f5475141da99dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 063/110] fix: pango: combining marks after an opening
 punctuation do not hide the number for LB25

---
 pango/break.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index d47a166..c0568e8 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -840,6 +840,27 @@ func resolveSentenceBreakType(wc rune, sbType sentenceBreakType, type_, breakTyp
 	return sbType
 }
 
+// isNumericAfterMarks returns true if the first character at or after `i` which is not
+// a combining mark (rule LB9) is numeric
+func isNumericAfterMarks(text []rune, i int) bool {
+	for ; i < len(text); i++ {
+		switch ucd.LookupLineBreakClass(text[i]) {
+		case ucd.BreakCM, ucd.BreakZWJ:
+			continue
+		case ucd.BreakSA:
+			if type_ := generalCategory(text[i]); type_ == unicode.Mn || type_ == unicode.Mc {
+				continue
+			}
+			return false
+		case ucd.BreakNU:
+			return true
+		default:
+			return false
+		}
+	}
+	return false
+}
+
 // This is the default break algorithm. It applies Unicode
 // rules without language-specific tailoring.
 // To avoid allocations, `attrs` must be passed, and must have a length of len(text)+1.
@@ -1541,7 +1562,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				prevBreakType == ucd.BreakPO) &&
 				(breakType == ucd.BreakOP ||
 					breakType == ucd.BreakHY) &&
-				nextBreakType == ucd.BreakNU {
+				isNumericAfterMarks(text, i+1) {
 				breakOp = break_PROHIBITED
 			}
 			if (prevBreakType == ucd.BreakOP ||
-- 
2.43.0


From d10994e0fbefbaff6df5b56f658156d0f9b6c554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 064/110] fix: pango: emoji sequences need the joiner just
 before the next emoji

---
 pango/break.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index c0568e8..c6eb522 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1050,7 +1050,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 
 			/* Rule GB11 */
 			if metExtendedPictographic {
-				if gbType == gb_Extend {
+				if gbType == gb_Extend && prevGbType != gb_ZWJ {
 					metExtendedPictographic = true
 				} else if unicode.Is(ucd.Extended_Pictographic, prevWc) && gbType == gb_ZWJ {
 					metExtendedPictographic = true
-- 
2.43.0


From 4ce46e0ea4403033e92588e8188e8e5640f80d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 065/110] fix: pango: justifying a line with zero width
 clusters or clusters inside graphemes never ended

---
 pango/layout_line.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 536d6a4..c5a0dd6 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -843,7 +843,11 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 			} else {
 				haveCluster = clusterIter.InitEnd(run, text)
 			}
-			for haveCluster {
+			next := clusterIter.NextCluster
+			if dir < 0 {
+				next = clusterIter.PrevCluster
+			}
+			for ; haveCluster; haveCluster = next() {
 				/* don't expand in the middle of graphemes */
 				if !logAttrs[offset+clusterIter.StartChar].IsCursorPosition() {
 					continue
@@ -900,12 +904,6 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 						addedSoFar += spaceRight
 					}
 				}
-
-				if dir > 0 {
-					haveCluster = clusterIter.NextCluster()
-				} else {
-					haveCluster = clusterIter.PrevCluster()
-				}
 			}
 		}
 
-- 
2.43.0


From a66fec7b6b118f183fdd96db4c3622cd94a44e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 066/110] fix: pango: transformed text had clusters relative to
 the item instead of the text

---
 pango/shape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/shape.go b/pango/shape.go
index d43b61f..76ad451 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -186,7 +186,7 @@ func (glyphs *GlyphString) harfbuzzShape(analysis *Analysis, paragraphText []run
 					ch = unicode.ToTitle(ch)
 				}
 			}
-			cachedBuffer.AddRune(ch, i)
+			cachedBuffer.AddRune(ch, itemOffset+i)
 		}
 	}
 
-- 
2.43.0


From d1d7d47048e6ef5e82a9799d62e34668e78d07be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 067/110] fix: pango: shaping capitalized text without log
 attributes (an ellipsis) crashed

---
 pango/shape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/shape.go b/pango/shape.go
index 76ad451..e91e9ec 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -182,7 +182,7 @@ func (glyphs *GlyphString) harfbuzzShape(analysis *Analysis, paragraphText []run
 			case TEXT_TRANSFORM_UPPERCASE:
 				ch = unicode.ToUpper(ch)
 			case TEXT_TRANSFORM_CAPITALIZE:
-				if logAttrs[i].IsWordStart() {
+				if i < len(logAttrs) && logAttrs[i].IsWordStart() {
 					ch = unicode.ToTitle(ch)
 				}
 			}
-- 
2.43.0


From b4cf62f86e4a226309e9e8231e79c0a7ab9cdb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 068/110] fix: pango: the clusters of right to left shapes were
 not in visual order

---
 pango/layout_line.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index c5a0dd6..4493f92 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -248,6 +248,9 @@ func (line *LayoutLine) shapeRun(state *paraBreakState, item *Item) *GlyphString
 		}
 		if state.properties.shape != nil {
 			glyphs._pango_shape_shape(layout.Text[item.Offset:item.Offset+item.Length], state.properties.shape.logical)
+			if item.Analysis.Level&1 != 0 {
+				glyphs.reverse()
+			}
 		} else {
 			item.Shape(layout.Text, layout.logAttrs[state.startOffset:], glyphs, shapeFlag)
 		}
-- 
2.43.0


From 3cc772faeca0f486386a93783273261da9b9dba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 069/110] fix: pango: words too wide were not broken in
 word-char mode, or added to lines without room for them

---
 pango/layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index 3aa86e7..38e0264 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1471,7 +1471,6 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 
 	// From here on, we look for a way to break item
 
-	width = 0
 	var (
 		orig_width      = width
 		origExtraWidth  = extraWidth
@@ -1500,6 +1499,7 @@ retryBreak:
 	if noBreakAtEnd {
 		limit--
 	}
+	width = 0
 	for numChars = 0; numChars < limit; numChars++ {
 		extraWidth = layout.find_break_extraWidth(state, numChars)
 
-- 
2.43.0


From 88e8afb083faa14465b72e09f9fb24390dd3531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:42 +0000
Subject: [PATCH 070/110] fix: pango: room was left for the hyphen of another
 font

---
 pango/layout.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 38e0264..176c807 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1220,7 +1220,8 @@ type paraBreakState struct {
 	lineWidth      Unit /* Goal width of line currently processing; < 0 is infinite */
 	remainingWidth Unit /* Amount of space remaining on line; < 0 is infinite */
 
-	hyphen_width Unit /* How much space a hyphen will take */
+	hyphen_width Unit /* How much space a hyphen will take, in hyphen_font */
+	hyphen_font  Font // hyphen_width is the one of this font
 
 	baselineShifts list.List
 
@@ -1261,20 +1262,25 @@ func (state *paraBreakState) resizeLogicalWidths(newLen int) {
 	}
 }
 
-func (state *paraBreakState) ensure_hyphen_width() {
-	if state.hyphen_width < 0 {
-		item := state.items.Data
+// item is the one the hyphen ends
+func (state *paraBreakState) ensure_hyphen_width(item *Item) {
+	if state.hyphen_width < 0 || state.hyphen_font != item.Analysis.Font {
 		state.hyphen_width = item.find_hyphen_width()
+		state.hyphen_font = item.Analysis.Font
 	}
 }
 
-func (layout *Layout) find_break_extraWidth(state *paraBreakState, pos int) Unit {
+func (layout *Layout) find_break_extraWidth(line *LayoutLine, state *paraBreakState, pos int) Unit {
 	// Check whether to insert a hyphen
 	// or whether we are breaking after one of those
 	// characters that turn into a hyphen,
 	// or after a space.
 	if attr := layout.logAttrs[state.startOffset+pos]; attr.IsBreakInsertsHyphen() {
-		state.ensure_hyphen_width()
+		item := state.items.Data
+		if pos == 0 && line.Runs != nil { // the break is after the last run
+			item = line.Runs.Data.Item
+		}
+		state.ensure_hyphen_width(item)
 
 		if attr.IsBreakRemovesPreceding() && pos > 0 {
 			return state.hyphen_width - state.logWidths[state.logWidthsOffset+pos-1]
@@ -1439,7 +1445,7 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 			layout.computeLogWidths(state)
 			processingNewItem = false
 		}
-		extraWidth = layout.find_break_extraWidth(state, item.Length)
+		extraWidth = layout.find_break_extraWidth(line, state, item.Length)
 	}
 
 	if (width+extraWidth <= state.remainingWidth || (item.Length == 1 && line.Runs == nil) ||
@@ -1501,7 +1507,7 @@ retryBreak:
 	}
 	width = 0
 	for numChars = 0; numChars < limit; numChars++ {
-		extraWidth = layout.find_break_extraWidth(state, numChars)
+		extraWidth = layout.find_break_extraWidth(line, state, numChars)
 
 		// We don't want to walk the entire item if we can help it, but
 		// we need to keep going at least until we've found a breakpoint
@@ -1557,6 +1563,7 @@ retryBreak:
 					layout.logAttrs[state.startOffset+numChars-1].IsWhite() {
 					extraWidth = -state.logWidths[state.logWidthsOffset+numChars-1]
 				} else if item == newItem && !isLastItem && layout.breakNeedsHyphen(state, numChars) {
+					state.ensure_hyphen_width(item)
 					extraWidth = state.hyphen_width
 				} else {
 					extraWidth = 0
-- 
2.43.0


From 54719ff88506979ab5fe4d2410445c4408082bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:12 +0000
Subject: [PATCH 071/110] fix: pango: lines went on after a run that fits
 without its last space, as if this space was not there

---
 pango/layout.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index 176c807..31d8bb8 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1625,7 +1625,10 @@ retryBreak:
 
 	if forceFit || breakWidth+breakExtraWidth <= state.remainingWidth /* Successfully broke the item */ {
 		if state.remainingWidth >= 0 {
-			state.remainingWidth -= breakWidth + breakExtraWidth
+			state.remainingWidth -= breakWidth
+			if breakNumChars < item.Length || breakExtraWidth > 0 { // a space is not collapsed if the line goes on
+				state.remainingWidth -= breakExtraWidth
+			}
 			state.remainingWidth = maxG(state.remainingWidth, 0)
 		}
 
-- 
2.43.0


From ee1c5b2b1e4bc6b372cc0f03ec5c17fef6bfc021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 072/110] fix: pango: a hyphen was left in the middle of lines
 which go on after it

---
 pango/layout.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 31d8bb8..d771e5c 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1626,16 +1626,14 @@ retryBreak:
 	if forceFit || breakWidth+breakExtraWidth <= state.remainingWidth /* Successfully broke the item */ {
 		if state.remainingWidth >= 0 {
 			state.remainingWidth -= breakWidth
-			if breakNumChars < item.Length || breakExtraWidth > 0 { // a space is not collapsed if the line goes on
+			if breakNumChars < item.Length { // a space is not collapsed if the line goes on
 				state.remainingWidth -= breakExtraWidth
 			}
 			state.remainingWidth = maxG(state.remainingWidth, 0)
 		}
 
 		if breakNumChars == item.Length {
-			if layout.canBreakAt(state.startOffset+breakNumChars, wrap) && layout.breakNeedsHyphen(state, breakNumChars) {
-				item.Analysis.Flags |= AFNeedHyphen
-			}
+			// the line may go on, see addMissingHyphen
 			line.insertRun(state, item, nil, true)
 
 			if debugMode {
-- 
2.43.0


From 3feb75f543be1504e97bfb7427bcd051cb376394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:30 +0000
Subject: [PATCH 073/110] fix: pango: keep the breaks between words when
 breaking between characters (crash)

---
 pango/layout.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index d771e5c..ea32d0d 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1528,7 +1528,8 @@ retryBreak:
 		}
 
 		// If there are no previous runs we have to take care to grab at least one char.
-		if layout.canBreakAt(state.startOffset+numChars, wrap) &&
+		// (a word may end where char breaks are not allowed)
+		if (layout.canBreakAt(state.startOffset+numChars, wrap) || layout.canBreakAt(state.startOffset+numChars, layout.wrap)) &&
 			(numChars > 0 || line.Runs != nil) {
 
 			if debugMode {
-- 
2.43.0


From 261b1d7597787723b837c07a6061b9ef27008f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 074/110] fix: pango: back up until a break which fits, instead
 of the last one

---
 pango/layout.go | 61 ++++++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index ea32d0d..e42f118 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1700,12 +1700,15 @@ func (layout *Layout) shouldEllipsizeCurrentLine(state *paraBreakState) bool {
 
 // the hard work begins here !
 func (layout *Layout) processLine(state *paraBreakState) {
+	// a run with a possible break
+	type runWithBreak struct {
+		remainingWidth Unit     // Remaining width before adding run with break
+		startOffset    int      // Start offset before adding run with break
+		link           *RunList // Link holding run before break
+	}
 	var (
-		haveBreak           = false  /* If we've seen a possible break yet */
-		breakRemainingWidth Unit     /* Remaining width before adding run with break */
-		breakStartOffset    = 0      /* Start offset before adding run with break */
-		breakLink           *RunList /* Link holding run before break */
-		wrapped             = false  /* If we had to wrap the line */
+		breaks  []runWithBreak // The possible breaks we've seen
+		wrapped = false        // If we had to wrap the line
 	)
 
 	line := layout.newLine()
@@ -1747,16 +1750,13 @@ func (layout *Layout) processLine(state *paraBreakState) {
 		firstItemInLine := line.Runs == nil
 		lastItemInLine := state.items.Next == nil
 
-		result := layout.tryAddItemToLine(line, state, !haveBreak, false, lastItemInLine)
+		result := layout.tryAddItemToLine(line, state, len(breaks) == 0, false, lastItemInLine)
 
 		switch result {
 		case brALL_FIT:
 			if layout.Text[item.Offset] != '\t' &&
 				layout.canBreakIn(state.startOffset, oldNumChars, !firstItemInLine) {
-				haveBreak = true
-				breakRemainingWidth = oldRemainingWidth
-				breakStartOffset = state.startOffset
-				breakLink = line.Runs.Next
+				breaks = append(breaks, runWithBreak{oldRemainingWidth, state.startOffset, line.Runs.Next})
 
 				if debugMode {
 					fmt.Println("all-fit, have break")
@@ -1772,29 +1772,32 @@ func (layout *Layout) processLine(state *paraBreakState) {
 			wrapped = true
 			goto done
 		case brNONE_FIT:
-			// Back up over unused runs to run where there is a break
-			for line.Runs != nil && line.Runs != breakLink {
-				run := line.Runs.Data
-
-				// If we uninsert the current tab run,  we need to reset the tab state
-				if run.Glyphs == state.lastTab.glyphs {
-					state.lastTab.glyphs = nil
-					state.lastTab.index = 0
-					state.lastTab.tab.Alignment = TAB_LEFT
-				}
+			// Back up over unused runs to run where there is a break,
+			// until one fits
+			for i := len(breaks) - 1; i >= 0 && result == brNONE_FIT; i-- {
+				for line.Runs != nil && line.Runs != breaks[i].link {
+					run := line.Runs.Data
+
+					// If we uninsert the current tab run,  we need to reset the tab state
+					if run.Glyphs == state.lastTab.glyphs {
+						state.lastTab.glyphs = nil
+						state.lastTab.index = 0
+						state.lastTab.tab.Alignment = TAB_LEFT
+					}
 
-				state.items = &ItemList{Data: line.uninsert_run(), Next: state.items}
-			}
+					state.items = &ItemList{Data: line.uninsert_run(), Next: state.items}
+				}
 
-			state.startOffset = breakStartOffset
-			state.remainingWidth = breakRemainingWidth
-			lastItemInLine = state.items.Next == nil
+				state.startOffset = breaks[i].startOffset
+				state.remainingWidth = breaks[i].remainingWidth
+				lastItemInLine = state.items.Next == nil
 
-			/* Reshape run to break */
-			item = state.items.Data
+				/* Reshape run to break */
+				item = state.items.Data
 
-			oldNumChars = item.Length
-			result = layout.tryAddItemToLine(line, state, true, true, lastItemInLine)
+				oldNumChars = item.Length
+				result = layout.tryAddItemToLine(line, state, i == 0, true, lastItemInLine)
+			}
 			if debugMode {
 				assert(result == brSOME_FIT || result == brEMPTY_FIT, "processLines: break")
 			}
-- 
2.43.0


From 1e46762456a95d9eb075ab18415d8335411abfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 075/110] fix: pango: lines kept the glyphs (with hyphen) of a
 shorter part of the run

---
 pango/layout.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pango/layout.go b/pango/layout.go
index e42f118..5d98595 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1543,6 +1543,7 @@ retryBreak:
 				breakNumChars = numChars
 				breakWidth = width
 				breakExtraWidth = extraWidth
+				breakGlyphs = nil // not the ones of a previous break
 			} else {
 				newItem := item
 				if numChars < item.Length {
-- 
2.43.0


From 2d2a22dc4881226dd10c0a1705fc320b195637e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 076/110] fix: pango: justified lines had not the width of the
 layout

---
 pango/layout_line.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 4493f92..fa38bb1 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -483,10 +483,9 @@ func (line *LayoutLine) postprocess(state *paraBreakState, wrapped bool) {
 
 	// Distribute extra space between words if justifying and line was wrapped
 	if line.layout.Justify && (wrapped || ellipsized || line.layout.JustifyLastLine) {
-		/* if we ellipsized, we don't have remaining_width set */
-		if state.remainingWidth < 0 {
-			state.remainingWidth = state.lineWidth - line.getWidth()
-		}
+		// the width is the one of the final glyphs: ellipsized, with a hyphen,
+		// without the last space or with tabs and spacing adjusted
+		state.remainingWidth = state.lineWidth - line.getWidth()
 
 		line.justifyWords(state)
 	}
@@ -532,7 +531,7 @@ func (line *LayoutLine) addMissingHyphen(state *paraBreakState, run *GlyphItem)
 
 		state.startOffset = startOffset
 
-		state.remainingWidth += run.Glyphs.getWidth() - width
+		state.remainingWidth -= run.Glyphs.getWidth() - width
 	}
 }
 
-- 
2.43.0


From f62163c37dfe657ed034f58c07180e4a1bc81e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 077/110] fix: pango: SetHeight and SetEllipsize discard the
 lines: other lines, paragraphs and line separators may be shown even if
 nothing was wrapped or ellipsized

---
 pango/layout.go | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 5d98595..71bc356 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -294,15 +294,7 @@ func (layout *Layout) SetWidth(width Unit) {
 func (layout *Layout) SetHeight(height Unit) {
 	if height != layout.Height {
 		layout.Height = height
-
-		/* Do not invalidate if the number of lines requested is
-		* larger than the total number of lines in layout.
-		* Bug 549003
-		 */
-		if layout.ellipsize != ELLIPSIZE_NONE &&
-			!(layout.isEllipsized == false && height < 0 && len(layout.lines) <= -int(height)) {
-			layout.layoutChanged()
-		}
+		layout.layoutChanged()
 	}
 }
 
@@ -343,10 +335,7 @@ func (layout *Layout) SetAlignment(alignment Alignment) {
 func (layout *Layout) SetEllipsize(ellipsize EllipsizeMode) {
 	if ellipsize != layout.ellipsize {
 		layout.ellipsize = ellipsize
-
-		if layout.isEllipsized || layout.isWrapped {
-			layout.layoutChanged()
-		}
+		layout.layoutChanged()
 	}
 }
 
-- 
2.43.0


From 63d38259178eaa0b6e28edda6eb53811c5ba21fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 078/110] fix: pango: SetAttributes takes attributes which
 differ by their order only: the last one of a kind wins

---
 pango/layout.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 71bc356..ffa6548 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -648,10 +648,6 @@ func (layout *Layout) SetAttributes(attrs AttrList) {
 		return
 	}
 
-	if layout.Attributes.pango_attr_list_equal(attrs) {
-		return
-	}
-
 	// We always clear lines such that this function can be called
 	// whenever attrs changes.
 	layout.Attributes = attrs
-- 
2.43.0


From 011973eb2ccdfae5f02bc84c949c1791a5411da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 079/110] fix: pango: TabArray.Copy returns another array:
 layouts used, and sorted, the one of the caller

---
 pango/tabs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/tabs.go b/pango/tabs.go
index ff14e27..a70b55f 100644
--- a/pango/tabs.go
+++ b/pango/tabs.go
@@ -40,10 +40,10 @@ func (tabs *TabArray) Copy() *TabArray {
 	if tabs == nil {
 		return nil
 	}
-	copy := tabs
+	copy := *tabs
 	copy.Tabs = append([]Tab(nil), tabs.Tabs...)
 
-	return copy
+	return &copy
 }
 
 // sort ensure that the tab stops are in increasing order.
-- 
2.43.0


From 89c76fa170dad2298c7d3c21beb2dd550fbdb98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 080/110] fix: pango: the positions of graphemes which spread
 over several runs: index out of range in IndexToPos, GetCursorPos and
 LayoutLine.IndexToX

---
 pango/layout_line.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index fa38bb1..a6d140e 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1204,21 +1204,23 @@ func (line *LayoutLine) IndexToX(index int, trailing bool) Unit {
 	layout := line.layout
 	var width Unit
 
+	// the edges of a grapheme may be in different runs
+	if end := line.StartIndex + line.Length; line.StartIndex <= index && index < end {
+		if trailing {
+			for index+1 < end && !layout.logAttrs[index+1].IsCursorPosition() {
+				index++
+			}
+		} else {
+			for index > line.StartIndex && !layout.logAttrs[index].IsCursorPosition() {
+				index--
+			}
+		}
+	}
+
 	for runList := line.Runs; runList != nil; runList = runList.Next {
 		run := runList.Data
 
 		if run.Item.Offset <= index && run.Item.Offset+run.Item.Length > index {
-			if trailing {
-				for index < line.StartIndex+line.Length && index+1 < len(layout.Text) &&
-					!layout.logAttrs[index+1].IsCursorPosition() {
-					index++
-				}
-			} else {
-				for index > line.StartIndex && !layout.logAttrs[index].IsCursorPosition() {
-					index--
-				}
-			}
-
 			attrOffset := run.Item.Offset
 			xPos := run.Glyphs.indexToXFull(layout.Text[attrOffset:attrOffset+run.Item.Length],
 				&run.Item.Analysis, index-attrOffset, trailing, layout.logAttrs[attrOffset:])
-- 
2.43.0


From 93768294083d6eb4f6a5eafe6016e53ace0e7a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 081/110] fix: pango: the characters of a cluster were counted
 twice: the trailing edge of a character was given in the middle of it

---
 pango/glyphs.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pango/glyphs.go b/pango/glyphs.go
index 3d14a85..e7730a6 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -486,25 +486,23 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 	// Calculate offset of character within cluster.
 	// To come up with accurate answers here, we need to know grapheme
 	// boundaries.
-	clusterChars := endIndex - startIndex
-	clusterOffset := index - startIndex
+	clusterChars, clusterOffset := 0, 0
 
 	for i := startIndex; i < endIndex; i++ {
 		if logAttrs != nil && !logAttrs[i].IsCursorPosition() {
 			continue
 		}
 
-		if i < index {
+		if i < index || (trailing && i == index) {
 			clusterOffset++
 		}
 		clusterChars++
 	}
 
-	if trailing {
-		clusterOffset += 1
-	}
-
-	if clusterChars == 0 /* pedantic */ {
+	if clusterChars == 0 /* inside a grapheme */ {
+		if trailing {
+			return endXpos
+		}
 		return startXpos
 	}
 
-- 
2.43.0


From ab11d61491ff2aafcbe8a89b5e100501a08f8764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 082/110] fix: pango: GetXRanges uses the graphemes, as
 LayoutLine.IndexToX

---
 pango/layout_line.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index a6d140e..b4b37a1 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1298,12 +1298,13 @@ func (line *LayoutLine) GetXRanges(startIndex, endIndex int) []Unit {
 			// back the endIndex off one since we want to find the trailing edge of the preceding character
 			runEndIndex--
 
-			runStartX := run.Glyphs.IndexToX(line.layout.Text[run.Item.Offset:run.Item.Offset+run.Item.Length],
+			logAttrs := line.layout.logAttrs[run.Item.Offset:]
+			runStartX := run.Glyphs.indexToXFull(line.layout.Text[run.Item.Offset:run.Item.Offset+run.Item.Length],
 				&run.Item.Analysis,
-				runStartIndex-run.Item.Offset, false)
-			runEndX := run.Glyphs.IndexToX(line.layout.Text[run.Item.Offset:run.Item.Offset+run.Item.Length],
+				runStartIndex-run.Item.Offset, false, logAttrs)
+			runEndX := run.Glyphs.indexToXFull(line.layout.Text[run.Item.Offset:run.Item.Offset+run.Item.Length],
 				&run.Item.Analysis,
-				runEndIndex-run.Item.Offset, true)
+				runEndIndex-run.Item.Offset, true, logAttrs)
 
 			ranges = append(ranges,
 				xOffset+accumulatedWidth+minG(runStartX, runEndX),
-- 
2.43.0


From ed731b5efd46e3c0a8032be00424abb84e9dbffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 083/110] fix: pango: the attributes of the paragraphs which
 are not shown (height of the layout) were the ones of the text before

---
 pango/layout.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index ffa6548..e38e6c5 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1899,7 +1899,9 @@ func (layout *Layout) checkLines() {
 		L := len(layout.Text) + 1
 		if cap(layout.logAttrs) >= L {
 			layout.logAttrs = layout.logAttrs[:L]
-			layout.logAttrs[0] = 0 // nothing is kept from the text before
+			for i := range layout.logAttrs { // nothing is kept from the text before
+				layout.logAttrs[i] = 0
+			}
 		} else {
 			layout.logAttrs = make([]CharAttr, L)
 		}
-- 
2.43.0


From 6c45ad3e199f35a02e11238cc05b91d3c529f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 084/110] fix: pango: positions in runs whose glyphs are not in
 the order of the characters: index out of range

---
 pango/glyphs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pango/glyphs.go b/pango/glyphs.go
index e7730a6..86e2752 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -483,6 +483,10 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 		}
 	}
 
+	if startIndex == -1 { // the first glyphs are not the ones of the first characters
+		startIndex, startXpos = 0, endXpos
+	}
+
 	// Calculate offset of character within cluster.
 	// To come up with accurate answers here, we need to know grapheme
 	// boundaries.
-- 
2.43.0


From 37cba73b9b6b162b6e8883d3ae827ec1b0b6450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 085/110] fix: pango: the ink of the lines includes the
 underlines when the layout has a height: it did only once the lines had been
 accessed

---
 pango/layout.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pango/layout.go b/pango/layout.go
index e38e6c5..574d3e3 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1859,6 +1859,8 @@ func (layout *Layout) applyAttributesToRuns(attrs AttrList) {
 	for _, line := range layout.lines {
 		old_runs := line.Runs.reverse()
 		line.Runs = nil
+		line.cacheStatus = notCached // the extents of the line may already have been used
+
 		for rl := old_runs; rl != nil; rl = rl.Next {
 			glyph_item := rl.Data
 
-- 
2.43.0


From 65dc7a7624894becf1079bd5953c1b9b3874a52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 086/110] fix: pango: no caret is asked to a glyph which does
 not exist (glyphs which are not in the order of the characters)

---
 pango/glyphs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/glyphs.go b/pango/glyphs.go
index 86e2752..eb91188 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -513,7 +513,7 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 	// Try to get a ligature caret position for the glyph from the font.
 	// This only makes sense if the cluster contains a single spacing
 	// glyph, so we need to check that all but one of them are marks.
-	if clusterOffset > 0 && clusterOffset < clusterChars && analysis.Font != nil {
+	if startGlyphPos >= 0 && clusterOffset > 0 && clusterOffset < clusterChars && analysis.Font != nil {
 		hbFont := analysis.Font.GetHarfbuzzFont()
 
 		var glyphPos int
-- 
2.43.0


From c1641efa0244121718909b7be7c332418de1b821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 087/110] fix: pango: a shift of the baseline never ended: the
 following runs of the line were shifted too

---
 pango/layout_line.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index b4b37a1..ade712e 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1340,7 +1340,7 @@ func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffse
 		} else if attr.Kind == ATTR_BASELINE_SHIFT {
 			if attr.StartIndex == item.Offset {
 
-				entry := baselineItem{attr: attr}
+				entry := &baselineItem{attr: attr} // its offsets are set below
 				state.baselineShifts.PushFront(entry)
 
 				value := Unit(attr.Data.(AttrInt))
@@ -1386,17 +1386,17 @@ func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffse
 				var t *list.Element
 
 				for t = state.baselineShifts.Front(); t != nil; t = t.Next() {
-					entry := t.Value.(baselineItem)
+					entry := t.Value.(*baselineItem)
 
 					if attr.StartIndex == entry.attr.StartIndex &&
 						attr.EndIndex == entry.attr.EndIndex &&
 						attr.Data.(AttrInt) == entry.attr.Data.(AttrInt) {
 						endXOffset -= entry.xOffset
 						endYOffset -= entry.yOffset
-					}
 
-					state.baselineShifts.Remove(t)
-					break
+						state.baselineShifts.Remove(t)
+						break
+					}
 				}
 				if t == nil && debugMode {
 					log.Println("Baseline attributes mismatch")
-- 
2.43.0


From e4247335d28995410f9eaf00f1600b93244b1d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 088/110] fix: pango: the extents of an empty line of an
 iterator are the ones of its place in the text, not of its start

---
 pango/layout_iter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/layout_iter.go b/pango/layout_iter.go
index 422e298..1af908e 100644
--- a/pango/layout_iter.go
+++ b/pango/layout_iter.go
@@ -472,7 +472,7 @@ func (iter *LayoutIter) GetRunExtents(inkRect, logicalRect *Rectangle) {
 			run.getExtentsAndHeight(inkRect, logicalRect, nil, nil)
 		} else {
 			var r Rectangle
-			iter.layout.getEmptyExtentsAndHeightAt(0, &r, false)
+			iter.layout.getEmptyExtentsAndHeightAt(iter.line().StartIndex, &r, false)
 			if inkRect != nil {
 				*inkRect = r
 			}
-- 
2.43.0


From 494d97fc30e767e0ec476d559ff7167ae058404a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 089/110] fix: pango: moving left from the end of a wrapped
 line jumped to the start of the text

---
 pango/layout_cursors.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pango/layout_cursors.go b/pango/layout_cursors.go
index b89d9eb..a95ef86 100644
--- a/pango/layout_cursors.go
+++ b/pango/layout_cursors.go
@@ -228,26 +228,26 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 	layout.GetCursorPos(oldIndex, arg1, arg2)
 
 	visPos := -1
-	for j, cursor := range cursors {
-		if cursor.x == pos.X {
-			visPos = j
-
-			/* If moving left, we pick the leftmost match, otherwise
-			 * the rightmost one. Without this, we can get stuck
-			 */
-			if direction < 0 {
-				break
+	// the end of a wrapped line has the position of the start of the next line,
+	// which is not one of the cursors
+	if _, posLine, _, _ := layout.indexToLine(oldIndex); posLine == line {
+		for j, cursor := range cursors {
+			if cursor.x == pos.X {
+				visPos = j
+
+				/* If moving left, we pick the leftmost match, otherwise
+				 * the rightmost one. Without this, we can get stuck
+				 */
+				if direction < 0 {
+					break
+				}
 			}
 		}
 	}
 
 	if visPos == -1 &&
-		oldIndex == line.StartIndex+line.Length {
-		if line.ResolvedDir == DIRECTION_LTR {
-			visPos = len(cursors)
-		} else {
-			visPos = 0
-		}
+		oldIndex == line.StartIndex+line.Length && line.ResolvedDir == DIRECTION_LTR {
+		visPos = len(cursors)
 	}
 
 	/* Handling movement between lines */
-- 
2.43.0


From f43d351c2ea170906542efe927a3b4aad0d036c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 090/110] fix: pango: past the leftmost cursor of a line, or
 the rightmost one of a line right to left, moves jumped to the start of the
 text or never ended

---
 pango/layout_cursors.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pango/layout_cursors.go b/pango/layout_cursors.go
index a95ef86..a471544 100644
--- a/pango/layout_cursors.go
+++ b/pango/layout_cursors.go
@@ -312,7 +312,9 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 
 	if 0 <= visPos && visPos < len(cursors) {
 		newIndex = cursors[visPos].pos
-	} else if visPos >= len(cursors)-1 {
+	} else if (visPos < 0) == (line.ResolvedDir == DIRECTION_LTR) {
+		newIndex = line.StartIndex
+	} else {
 		newIndex = line.StartIndex + line.Length
 	}
 
-- 
2.43.0


From e22db7b30ee49c88f5233cefb29fc80a3e1d4f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 091/110] fix: pango: items took the attributes which end where
 they start

---
 pango/item.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/item.go b/pango/item.go
index e063cf5..5fcb8ad 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -140,7 +140,7 @@ func (item *Item) pango_item_apply_attrs(iter *attrIterator) {
 			break
 		}
 
-		if end >= item.Offset {
+		if end > item.Offset {
 			list := iter.getAttributes()
 			for _, data := range list {
 				if !isInList(data) {
-- 
2.43.0


From 02d8c1aa9ff5ae7255d4519ac32bdf4c86d08fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 092/110] fix: pango: the clusters of glyphs shaped against the
 direction of their script were out of order, which crashed when their run was
 split

---
 pango/shape.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pango/shape.go b/pango/shape.go
index e91e9ec..ef802bd 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -307,6 +307,23 @@ func (glyphs *GlyphString) shapeInternal(paragraphText []rune, itemOffset, itemL
 		glyphs.reverse()
 	}
 
+	// the clusters have to follow the order of the text : merge the ones which do not
+	if lc := glyphs.LogClusters; analysis.Level&1 != 0 {
+		for i := 1; i < len(lc); i++ {
+			if lc[i] > lc[i-1] {
+				lc[i] = lc[i-1]
+				glyphs.Glyphs[i].attr.isClusterStart = false
+			}
+		}
+	} else {
+		for i := len(lc) - 2; i >= 0; i-- {
+			if lc[i] > lc[i+1] {
+				lc[i] = lc[i+1]
+				glyphs.Glyphs[i+1].attr.isClusterStart = false
+			}
+		}
+	}
+
 	if flags&shapeROUND_POSITIONS != 0 {
 		for i := range glyphs.Glyphs {
 			glyphs.Glyphs[i].Geometry.Width = glyphs.Glyphs[i].Geometry.Width.Round()
-- 
2.43.0


From 92f3f2fb256bdae4bc37d707652c4c2fe5487fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:08 +0000
Subject: [PATCH 093/110] fix: pango: the attributes of an ellipsis were
 extended to the whole text for the lines after it

---
 pango/ellipsize.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pango/ellipsize.go b/pango/ellipsize.go
index aa62b6a..dfb62bd 100644
--- a/pango/ellipsize.go
+++ b/pango/ellipsize.go
@@ -222,6 +222,7 @@ func (state *ellipsizeState) shapeEllipsis() {
 	// Create an attribute list
 	runAttrs := state.gapStartAttr.getAttributes()
 	for _, attr := range runAttrs {
+		attr = attr.copy() // the following lines use the original
 		attr.StartIndex = 0
 		attr.EndIndex = MaxInt
 		attrs.Insert(attr)
-- 
2.43.0


From 39415f6e65d45fbe8184331e59f07c8ce8d08e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 094/110] fix: pango: the end of an ellipsized text was looked
 for one character too far, which removed more text than needed or a part of a
 grapheme

---
 pango/ellipsize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/ellipsize.go b/pango/ellipsize.go
index dfb62bd..923d99d 100644
--- a/pango/ellipsize.go
+++ b/pango/ellipsize.go
@@ -192,7 +192,7 @@ func (state ellipsizeState) endsAtEllipsizationBoundary(iter lineIter) bool {
 		return true
 	}
 
-	return state.layout.logAttrs[runInfo.startOffset+iter.runIter.EndChar+1].IsCursorPosition()
+	return state.layout.logAttrs[runInfo.startOffset+iter.runIter.EndChar].IsCursorPosition()
 }
 
 // helper function to re-itemize a string of text
-- 
2.43.0


From e3b272bcd584a6750bef1e416df8b51876a533ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 095/110] fix: pango: ellipsizing removed one more grapheme
 with the ones which start with a character without width

---
 pango/ellipsize.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pango/ellipsize.go b/pango/ellipsize.go
index 923d99d..4f42d3f 100644
--- a/pango/ellipsize.go
+++ b/pango/ellipsize.go
@@ -399,23 +399,20 @@ func (state *ellipsizeState) removeOneSpan() bool {
 	// Find one span backwards and forward from the gap
 	new_gap_start_iter := state.gapStartIter
 	new_gap_start_x := state.gapStartX
-	var width Unit
-	for do := true; do; do = !state.startsAtEllipsizationBoundary(new_gap_start_iter) || width == 0 {
+	for do := true; do; do = !state.startsAtEllipsizationBoundary(new_gap_start_iter) || new_gap_start_x == state.gapStartX {
 		if !state.lineIterPrevCluster(&new_gap_start_iter) {
 			break
 		}
-		width = new_gap_start_iter.getClusterWidth()
-		new_gap_start_x -= width
+		new_gap_start_x -= new_gap_start_iter.getClusterWidth()
 	}
 
 	new_gap_end_iter := state.gapEndIter
 	new_gap_end_x := state.gapEndX
-	for do := true; do; do = !state.endsAtEllipsizationBoundary(new_gap_end_iter) || width == 0 {
+	for do := true; do; do = !state.endsAtEllipsizationBoundary(new_gap_end_iter) || new_gap_end_x == state.gapEndX {
 		if !state.lineIterNextCluster(&new_gap_end_iter) {
 			break
 		}
-		width = new_gap_end_iter.getClusterWidth()
-		new_gap_end_x += width
+		new_gap_end_x += new_gap_end_iter.getClusterWidth()
 	}
 
 	if state.gapEndX == new_gap_end_x && state.gapStartX == new_gap_start_x {
-- 
2.43.0


From 46cc5aa7783285612f4d7bd9d89e0ecfe83aefaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 096/110] fix: pango: markup with tags after an accelerator
 panicked or lost attributes: the tags were not pushed on the stack

---
 pango/markup.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/pango/markup.go b/pango/markup.go
index 4668c94..60a1680 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -51,10 +51,6 @@ type markupData struct {
 }
 
 func (md *markupData) openTag() *openTag {
-	if len(md.attr_list) != 0 {
-		return nil
-	}
-
 	var parent *openTag
 	if len(md.tag_stack) != 0 {
 		parent = md.tag_stack[0]
@@ -151,8 +147,6 @@ func (user_data *markupData) startElementHandler(element_name string, attrs []xm
 	}
 
 	ot := user_data.openTag()
-
-	// note ot may be nil if the user didn't want the attribute list
 	err := parse_func(ot, attrs)
 	return err
 }
-- 
2.43.0


From d8f8fde40ca7de5ea050f5803beb3d95c8e7e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 097/110] fix: pango: the font_scale attribute of a span was
 read from its baseline_shift

---
 pango/markup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index 60a1680..2e6ac25 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -1221,7 +1221,7 @@ func span_parse_func(tag *openTag, attrs []xml.Attr) error {
 	}
 
 	if fontScale != "" {
-		fs, err := spanParseEnum("font_scale", baselineShift, fontScaleMap)
+		fs, err := spanParseEnum("font_scale", fontScale, fontScaleMap)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 229a62f5704f57d981631a15a3489e12014a27b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 098/110] fix: pango: a font description without a size made
 the size of the relative tags inside it zero

---
 pango/markup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index 2e6ac25..e8aa302 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -994,7 +994,7 @@ func span_parse_func(tag *openTag, attrs []xml.Attr) error {
 	if desc != "" {
 		parsed := NewFontDescriptionFrom(desc)
 		tag.addAttribute(NewAttrFontDescription(parsed))
-		if tag != nil {
+		if tag != nil && parsed.mask&FmSize != 0 {
 			tag.setAbsoluteFontSize(parsed.Size)
 		}
 	}
-- 
2.43.0


From b5898e596b437196f11d41de0dfc9ddda2842fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 099/110] fix: pango: alpha values out of range wrapped around
 instead of being rejected

---
 pango/markup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/markup.go b/pango/markup.go
index e8aa302..0d083f3 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -665,11 +665,11 @@ func spanParseAlpha(attrName, attrVal string) (uint16, error) {
 			attrName, lineColNumber, attrVal)
 	}
 
-	if !hasPercent {
+	if !hasPercent && intVal > 0 && intVal <= 0xffff {
 		return uint16(intVal), nil
 	}
 
-	if intVal > 0 && intVal <= 100 {
+	if hasPercent && intVal > 0 && intVal <= 100 {
 		return uint16(intVal * 0xffff / 100), nil
 	}
 	return 0, fmt.Errorf("Value of '%s' attribute on <span> tag on line %d could not be parsed; should be between 0 and 65536 or a percentage, not '%s'",
-- 
2.43.0


From 8bac3e06005e48838c0e4e74d26a2f7d5766c5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 100/110] fix: pango: colors with signs inside, such as
 #+1-2+3, were accepted

---
 pango/color.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pango/color.go b/pango/color.go
index 73c7ef0..eaabde4 100644
--- a/pango/color.go
+++ b/pango/color.go
@@ -43,21 +43,21 @@ func pango_color_parse_with_alpha(spec string, withAlpha bool) (AttrColor, uint1
 		}
 		spec = spec[1:]
 
-		r, err := strconv.ParseInt(spec[0:len], 16, 32)
+		r, err := strconv.ParseUint(spec[0:len], 16, 32)
 		if err != nil {
 			return AttrColor{}, 0, false
 		}
-		g, err := strconv.ParseInt(spec[len:2*len], 16, 32)
+		g, err := strconv.ParseUint(spec[len:2*len], 16, 32)
 		if err != nil {
 			return AttrColor{}, 0, false
 		}
-		b, err := strconv.ParseInt(spec[2*len:3*len], 16, 32)
+		b, err := strconv.ParseUint(spec[2*len:3*len], 16, 32)
 		if err != nil {
 			return AttrColor{}, 0, false
 		}
 
 		if has_alpha {
-			a, err := strconv.ParseInt(spec[3*len:4*len], 16, 32)
+			a, err := strconv.ParseUint(spec[3*len:4*len], 16, 32)
 			if err != nil {
 				return AttrColor{}, 0, false
 			}
-- 
2.43.0


From 7fc925dd76da437029611e24081e8613c7b53495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 101/110] fix: pango: markup closing the implicit root was
 accepted, and what follows was silently dropped

---
 pango/markup.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index 0d083f3..3b013f1 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -1,8 +1,11 @@
 package pango
 
 import (
+	"bytes"
 	"encoding/xml"
+	"errors"
 	"fmt"
+	"io"
 	"strconv"
 	"strings"
 )
@@ -499,10 +502,15 @@ func ParseMarkup(markupText []byte, accelMarker rune) (ParsedMarkup, error) {
 	nested := append(append([]byte("<markup>"), markupText...), "</markup>"...)
 
 	context := newParser(accelMarker)
-	err := xml.Unmarshal(nested, context)
+	decoder := xml.NewDecoder(bytes.NewReader(nested))
+	err := decoder.Decode(context)
 	if err != nil {
 		return ParsedMarkup{}, err
 	}
+	// the added root has to be closed by the last tag
+	if _, err = decoder.Token(); err != io.EOF {
+		return ParsedMarkup{}, errors.New("unexpected content after the closing </markup> tag")
+	}
 
 	return markupParserFinish(context), nil
 }
-- 
2.43.0


From 9cc8f96ba98b8593f91c12b0a110252be0a44e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 102/110] fix: fcfonts: SetConfig did not change the serial, so
 contexts and layouts kept the fonts of the previous configuration

---
 pango/fcfonts/fontmap.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pango/fcfonts/fontmap.go b/pango/fcfonts/fontmap.go
index 2e749d1..6fd2b33 100644
--- a/pango/fcfonts/fontmap.go
+++ b/pango/fcfonts/fontmap.go
@@ -185,6 +185,12 @@ func (fontmap *FontMap) SetConfig(config *fc.Config, database fc.Fontset) {
 	fontmap.Config = config
 	fontmap.Database = database
 	fontmap.clearCache()
+
+	// let the contexts know about the change
+	fontmap.serial++
+	if fontmap.serial == 0 {
+		fontmap.serial++
+	}
 }
 
 // Clear all cached information and fontsets for this font map.
-- 
2.43.0


From 997e5fa315cc0f1b97355031c50408fa1993eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:22 +0000
Subject: [PATCH 103/110] fix: fcfonts: a font which could not be loaded was
 cached and used, and panicked when drawing text; it is now skipped

---
 pango/fcfonts/fonset.go  | 29 ++++++++++++++++-------------
 pango/fcfonts/fontmap.go |  9 ++++++---
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/pango/fcfonts/fonset.go b/pango/fcfonts/fonset.go
index 0c50be0..db98950 100644
--- a/pango/fcfonts/fonset.go
+++ b/pango/fcfonts/fonset.go
@@ -30,22 +30,25 @@ func (fs *Fontset) GetLanguage() pango.Language { return fs.key.language }
 // may return nil
 func (fs *Fontset) loadNextFont() *Font {
 	pattern := fs.patterns.pattern
-	fontPattern, prepare := fs.patterns.getFontPattern(fs.currentPatternIndex)
-	fs.currentPatternIndex++
-	if fontPattern == nil {
-		return nil
-	}
+	for {
+		fontPattern, prepare := fs.patterns.getFontPattern(fs.currentPatternIndex)
+		fs.currentPatternIndex++
+		if fontPattern == nil {
+			return nil
+		}
 
-	if prepare {
-		fontPattern = fs.patterns.fontmap.Config.PrepareRender(pattern, fontPattern)
-	}
+		if prepare {
+			fontPattern = fs.patterns.fontmap.Config.PrepareRender(pattern, fontPattern)
+		}
 
-	font, err := fs.key.fontmap.newFont(*fs.key, fontPattern)
-	if err != nil {
-		log.Println(err)
-	}
+		font, err := fs.key.fontmap.newFont(*fs.key, fontPattern)
+		if err != nil { // skip this font
+			log.Println(err)
+			continue
+		}
 
-	return font
+		return font
+	}
 }
 
 // lazy loading
diff --git a/pango/fcfonts/fontmap.go b/pango/fcfonts/fontmap.go
index 6fd2b33..1cf7d04 100644
--- a/pango/fcfonts/fontmap.go
+++ b/pango/fcfonts/fontmap.go
@@ -551,12 +551,15 @@ func (fontmap *FontMap) newFont(fsKey fontsetKey, match fc.Pattern) (*Font, erro
 
 	// fcfont.matrix = key.matrix
 
+	fcfont.key = &key
+	if err := fcfont.loadHBFont(); err != nil {
+		return nil, err
+	}
+
 	// cache it on fontmap
 	fontmap.fontHash.insert(key, fcfont)
 
-	err := fcfont.loadHBFont()
-
-	return fcfont, err
+	return fcfont, nil
 }
 
 func (key *fontsetKey) defaultSubstitute(fontmap *FontMap, pattern fc.Pattern) {
-- 
2.43.0


From 7f38b2aa6efebdea4ef5286f29c5284690585c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:23 +0000
Subject: [PATCH 104/110] fix: fcfonts: variations applied to a named instance
 were written in the instance

---
 pango/fcfonts/fonts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index d08df5c..cd6287e 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -384,7 +384,7 @@ func (font *Font) loadHBFont() error {
 
 		if index, ok := key.pattern.GetInt(fc.INDEX); ok && index != 0 {
 			if instance := (index >> 16) - 1; instance >= 0 && int(instance) < len(fvar.Instances) {
-				coords = fvar.Instances[instance].Coords
+				coords = append([]float32(nil), fvar.Instances[instance].Coords...)
 			}
 		}
 
-- 
2.43.0


From c621807f8d60b983a99a1c7a548c3d9d22a1e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:23 +0000
Subject: [PATCH 105/110] fix: fcfonts: fonts of the same variable face shared
 their coordinates, those of the last one loaded

---
 pango/fcfonts/fontmap.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/pango/fcfonts/fontmap.go b/pango/fcfonts/fontmap.go
index 1cf7d04..56393c8 100644
--- a/pango/fcfonts/fontmap.go
+++ b/pango/fcfonts/fontmap.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 
 	"github.com/benoitkugler/textlayout/fonts"
+	"github.com/benoitkugler/textlayout/fonts/truetype"
 	"github.com/benoitkugler/textlayout/harfbuzz"
 	fc "github.com/benoitkugler/textprocessing/fontconfig"
 	"github.com/benoitkugler/textprocessing/pango"
@@ -233,16 +234,29 @@ func (fontmap *FontMap) getFontFaceData(fontPattern fc.Pattern) (faceDataKey, *f
 func (fontmap *FontMap) getHBFace(font *Font) (harfbuzz.Face, error) {
 	key, data := fontmap.getFontFaceData(font.Pattern)
 
-	var err error
-	if data.hbFace == nil {
-		if fontmap.fontLoader == nil {
-			data.hbFace, err = DefaultLoadFace(key, data.format)
-		} else {
-			data.hbFace, err = fontmap.fontLoader.LoadFace(key, data.format)
-		}
+	if data.hbFace != nil {
+		return data.hbFace, nil
+	}
+
+	var (
+		face fonts.Face
+		err  error
+	)
+	if fontmap.fontLoader == nil {
+		face, err = DefaultLoadFace(key, data.format)
+	} else {
+		face, err = fontmap.fontLoader.LoadFace(key, data.format)
+	}
+	if err != nil {
+		return nil, err
+	}
+
+	// the coordinates are stored in the face: variable ones can't be shared between fonts
+	if varFace, ok := face.(truetype.FaceVariable); !ok || len(varFace.Variations().Axis) == 0 {
+		data.hbFace = face
 	}
 
-	return data.hbFace, err
+	return face, nil
 }
 
 func (fontmap *FontMap) GetSerial() uint { return fontmap.serial }
-- 
2.43.0


From 141db6436ab902004e90e3133fc0bc7683142575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:20 +0000
Subject: [PATCH 106/110] fix: pango: the tabs of a line which is full already
 were placed as if the text before ended with the line

---
 pango/layout_line.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index ade712e..b0c8dbf 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -220,7 +220,7 @@ func (line *LayoutLine) setResolvedDir(direction Direction) {
 }
 
 func (line *LayoutLine) line_width(state *paraBreakState) Unit {
-	if state.remainingWidth > -1 {
+	if state.remainingWidth > 0 {
 		return state.lineWidth - state.remainingWidth
 	}
 
-- 
2.43.0


From b0ef79c2b0357bf7db84afd175ca5d58dc1ae100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:26 +0000
Subject: [PATCH 107/110] fix: fontconfig: only the first name of each kind was
 read: families, styles and full names in other languages were lost

---
 fontconfig/scan.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index cc8369a..2de76b3 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1321,7 +1321,7 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 		weightMult, widthMult float32   = 1., 1.
 
 		foundry                                                                       string
-		nameCount, nfamily, nfamilyLang, nstyle, nstyleLang, nfullname, nfullnameLang int
+		nfamily, nfamilyLang, nstyle, nstyleLang, nfullname, nfullnameLang int
 		exclusiveLang                                                                 string
 		decorative                                                                    bool
 	)
@@ -1488,10 +1488,11 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 				lang       string
 			)
 
-			for do := true; do; {
+			for ; nameidx < len(nameMappings); nameidx++ {
 				sname = names[nameMappings[nameidx].idx]
-				do = nameidx < nameCount && platform == sname.PlatformID && lookupid == sname.NameID
-				nameidx++
+				if platform != sname.PlatformID || lookupid != sname.NameID {
+					break
+				}
 
 				switch nameid {
 				case truetype.NameWWSFamily, truetype.NamePreferredFamily, truetype.NameFontFamily:
-- 
2.43.0


From 2746efce55714554dc8851f5535be1d978473777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 108/110] fix: fontconfig: the style of named instances was
 their PostScript name, or missing

---
 fontconfig/scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index 2de76b3..2354965 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1474,7 +1474,7 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 				}
 
 				if nameid == truetype.NameFontSubfamily {
-					lookupid = instance.PSStringID
+					lookupid = instance.Subfamily
 				}
 			}
 
-- 
2.43.0


From 36e57ce13a558e7f61357064596b443c4c497187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:36 +0000
Subject: [PATCH 109/110] fix: fontconfig: the family of fonts without a name
 is the name of the file: it had the directories, or the call crashed

---
 fontconfig/scan.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index 2354965..eafec7a 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1596,12 +1596,10 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 	}
 
 	if nfamily == 0 && file != "" {
-		start := strings.IndexByte(file, '/')
-		end := strings.IndexByte(file, '.')
-		if end == -1 {
-			end = len(file)
+		family := file[strings.LastIndexByte(file, '/')+1:]
+		if end := strings.LastIndexByte(family, '.'); end != -1 {
+			family = family[:end]
 		}
-		family := file[start+1 : end]
 		if debugMode {
 			fmt.Printf("\tusing filename for family %s\n", family)
 		}
-- 
2.43.0


From b9580c0453be85b23a3c1baa6495a738afbff0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 110/110] fix: fontconfig: the full name uses the first English
 style, also when the English family is not the first one

---
 fontconfig/pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/pattern.go b/fontconfig/pattern.go
index 1462d33..ca5e8e2 100644
--- a/fontconfig/pattern.go
+++ b/fontconfig/pattern.go
@@ -336,7 +336,7 @@ func (pat Pattern) addFullname() bool {
 		return false
 	}
 	family = strings.TrimRightFunc(family, unicode.IsSpace)
-	lang = ""
+	lang, n = "", 0
 	lang, res = pat.getAtString(STYLELANG, n)
 	for ; res == ResultMatch; lang, res = pat.getAtString(STYLELANG, n) {
 		if lang == "en" {
-- 
2.43.0

