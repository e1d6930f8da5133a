From 5ac81ba6019a726e749f63b6ccdcc083539898f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 01/36] fix: stdx: character boundaries of U+FFFD and of
 invalid UTF-8

IsCharBoundary took the replacement character itself for a position
within a character, and sliced out of range for an index behind the end.
---
 internal/stdx/stdx.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/stdx/stdx.go b/internal/stdx/stdx.go
index cb44739..d918381 100644
--- a/internal/stdx/stdx.go
+++ b/internal/stdx/stdx.go
@@ -13,17 +13,30 @@ import (
 )
 
 // IsCharBoundary checks that index-th byte is the first byte in a UTF-8 code
-// point sequence or the end of the string.
+// point sequence or the end of the string. Bytes which are not part of a valid
+// UTF-8 code point sequence are characters of their own.
 //
 // is_char_boundary
 func IsCharBoundary(str string, index uint) bool {
 	// The start and end of the string (when index == len(str)) are considered to
 	// be boundaries.
-	if index == 0 || index == uint(len(str)) {
+	n := uint(len(str))
+	if index >= n {
+		return index == n
+	}
+	if utf8.RuneStart(str[index]) {
 		return true
 	}
-	c, _ := utf8.DecodeRuneInString(str[index:])
-	return c != utf8.RuneError
+	// A continuation byte is not a boundary if it is spanned by a code point
+	// sequence that starts before it.
+	for start := index; start > 0 && index-start < utf8.UTFMax-1; {
+		start--
+		if utf8.RuneStart(str[start]) {
+			_, size := utf8.DecodeRuneInString(str[start:])
+			return start+uint(size) <= index
+		}
+	}
+	return true
 }
 
 // IsWhitespace reports whether the given character has the White_Space
-- 
2.43.0


From 9fc39137142dcb41e512a6b820845345429fc469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 02/36] fix: scanner: advance by the number of bytes decoded

A byte that is not valid UTF-8 decodes to U+FFFD; advancing by the length
of the encoding of U+FFFD moved the cursor three bytes.
---
 internal/scanner/scanner.go | 74 +++++++++++++------------------------
 1 file changed, 25 insertions(+), 49 deletions(-)

diff --git a/internal/scanner/scanner.go b/internal/scanner/scanner.go
index 10447c0..815867d 100644
--- a/internal/scanner/scanner.go
+++ b/internal/scanner/scanner.go
@@ -158,60 +158,36 @@ func (s *Scanner) Scout(n int) (rune, bool) {
 // - `locate(-1)` is the byte position of the character before the cursor.
 // - `locate(0)` is the same as `cursor()`.
 func (s *Scanner) Locate(n int) uint {
-	if n >= 0 {
-		chars := []rune(s.After()) // TODO: optimize?
-		i := 0
-		length := 0
-		for _, c := range chars {
-			if !utf8.ValidRune(c) {
-				break
-			}
-			length += utf8.RuneLen(c)
-			i++
-			if i == n {
-				break
-			}
-		}
-		return s.Cursor() + uint(length)
-	} else {
-		chars := []rune(s.Before()) // TODO: optimize?
-		i := 0
-		n = -n
-		length := 0
-		for _, c := range slices.Backward(chars) {
-			if !utf8.ValidRune(c) {
-				break
-			}
-			length += utf8.RuneLen(c)
-			i++
-			if i == n {
-				break
-			}
-		}
-		return uint(int64(s.Cursor()) - int64(length))
+	index := s.cursor
+	for ; n > 0; n-- {
+		_, size := utf8.DecodeRuneInString(s.text[index:])
+		index += uint(size)
+	}
+	for ; n < 0; n++ {
+		_, size := utf8.DecodeLastRuneInString(s.text[:index])
+		index -= uint(size)
 	}
+	return index
 }
 
 // Eat consumes and return the character right after the cursor.
 func (s *Scanner) Eat() (rune, bool) {
-	c, ok := s.Peek()
-	if !ok {
+	c, size := utf8.DecodeRuneInString(s.After())
+	if size == 0 {
 		return 0, false
 	}
-	s.cursor += uint(utf8.RuneLen(c))
+	s.cursor += uint(size)
 	return c, true
 }
 
 // Uneat unconsumes and return the character right before the cursor, moving it
 // back.
 func (s *Scanner) Uneat() (rune, bool) {
-	before := s.Before()
-	rs := []rune(before) // TODO: optimize when needed.
-	if len(rs) == 0 {
+	c, size := utf8.DecodeLastRuneInString(s.Before())
+	if size == 0 {
 		return 0, false
 	}
-	c := rs[len(rs)-1]
-	s.cursor -= uint(utf8.RuneLen(c))
+	s.cursor -= uint(size)
 	return c, true
 }
 
@@ -233,12 +209,12 @@ func (s *Scanner) EatIf(pattern string) bool {
 // Returns true if the pattern was consumed.
 func (s *Scanner) EatIfFunc(cond func(rune) bool) bool {
 	after := s.After()
-	n := 0
-	for _, c := range after {
+	n := len(after)
+	for i, c := range after {
 		if !cond(c) {
+			n = i
 			break
 		}
-		n += utf8.RuneLen(c)
 	}
 	if n == 0 {
 		return false
@@ -279,12 +255,12 @@ func (s *Scanner) EatWhile(pattern string) string {
 func (s *Scanner) EatWhileFunc(cond func(c rune) bool) string {
 	start := s.cursor
 	after := s.After()
-	n := 0
-	for _, c := range after {
+	n := len(after)
+	for i, c := range after {
 		if !cond(c) {
+			n = i
 			break
 		}
-		n += utf8.RuneLen(c)
 	}
 	s.cursor += uint(n)
 	return s.From(start)
@@ -296,12 +272,12 @@ func (s *Scanner) EatWhileFunc(cond func(c rune) bool) string {
 func (s *Scanner) EatUntil(pattern string) string {
 	start := s.cursor
 	after := s.After()
-	n := 0
-	for _, c := range after {
-		if strings.HasPrefix(after[n:], pattern) {
+	n := len(after)
+	for i := range after {
+		if strings.HasPrefix(after[i:], pattern) {
+			n = i
 			break
 		}
-		n += utf8.RuneLen(c)
 	}
 	s.cursor += uint(n)
 	return s.From(start)
-- 
2.43.0


From 98113140dcf86a5741d1dc44dece0decf9323ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 03/36] fix: syntax: keep the text of an inner node converted
 to an error

into_text put a space between the texts of the children, so that the tree
no longer made up the source.
---
 typst/syntax/node.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index 97edac2..be06ccf 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -162,10 +162,7 @@ func (node *SyntaxNode) into_text() string {
 		return repr.Text
 	case *InnerNode:
 		buf := &strings.Builder{}
-		for i, child := range repr.Children {
-			if i != 0 {
-				buf.WriteString(" ")
-			}
+		for _, child := range repr.Children {
 			buf.WriteString(child.into_text())
 		}
 		return buf.String()
-- 
2.43.0


From d6568e72f5d8731b158d20c81a499f75791b046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 04/36] fix: syntax: common prefix and suffix of a replacement
 end at the first difference

---
 typst/syntax/lines.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 9e1e829..521f4fe 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -228,10 +228,8 @@ func (l *Lines) ReplacementRange(new string) (ReplacementRange, bool) {
 
 	n := min(len(old), len(new))
 	prefix := 0
-	for i := 0; i < n; i++ {
-		if old[i] == new[i] {
-			prefix++
-		}
+	for prefix < n && old[prefix] == new[prefix] {
+		prefix++
 	}
 
 	for !stdx.IsCharBoundary(old, uint(prefix)) || !stdx.IsCharBoundary(new, uint(prefix)) {
@@ -239,14 +237,12 @@ func (l *Lines) ReplacementRange(new string) (ReplacementRange, bool) {
 	}
 
 	suffix := 0
-	for i, j := len(old)-1, len(new)-1; i >= prefix && j >= prefix; i, j = i-1, j-1 {
-		if old[i] == new[j] {
-			suffix++
-		}
+	for suffix < n-prefix && old[len(old)-1-suffix] == new[len(new)-1-suffix] {
+		suffix++
 	}
 
 	for !stdx.IsCharBoundary(old, uint(len(old)-suffix)) || !stdx.IsCharBoundary(new, uint(len(new)-suffix)) {
-		suffix++
+		suffix--
 	}
 
 	return ReplacementRange{
-- 
2.43.0


From 0549f5eb25f118de935341024c34c218e028acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 05/36] fix: syntax: reject line and byte positions beyond the
 signed range, count columns in invalid UTF-8

LineToByte, ByteToLine and LineColumnToByte converted the position to a
signed integer before comparing it and panicked. LineColumnToByte counted
three bytes for each byte that is not valid UTF-8.
---
 typst/syntax/lines.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 521f4fe..976f7a5 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -73,7 +73,7 @@ func (l *Lines) ByteToUtf16(byteIdx uint) (uint, bool) {
 //
 // It returns false if the byte index is out of bounds.
 func (l *Lines) ByteToLine(byteIdx uint) (uint, bool) {
-	if int(byteIdx) > len(l.Text) {
+	if byteIdx > uint(len(l.Text)) {
 		return 0, false
 	}
 	i := sort.Search(len(l.Lines), func(i int) bool {
@@ -152,7 +152,7 @@ func (l *Lines) Utf16ToByte(utf16Idx uint) (uint, bool) {
 //
 // It returns false if the line index is out of bounds.
 func (l *Lines) LineToByte(lineIdx uint) (uint, bool) {
-	if int(lineIdx) >= len(l.Lines) {
+	if lineIdx >= uint(len(l.Lines)) {
 		return 0, false
 	}
 	return l.Lines[lineIdx].ByteIdx, true
@@ -183,12 +183,17 @@ func (l *Lines) LineColumnToByte(lineIdx uint, columnIdx uint) (uint, bool) {
 		return 0, false
 	}
 	line := l.Text[r.Start:r.End]
-	chars := []rune(line)
-	if int(columnIdx) > len(chars) {
-		return 0, false
+	col := uint(0)
+	for i := range line {
+		if col == columnIdx {
+			return uint(r.Start) + uint(i), true
+		}
+		col++
 	}
-	head := string(chars[:columnIdx])
-	return uint(r.Start) + uint(len(head)), true
+	if col == columnIdx {
+		return uint(r.End), true
+	}
+	return 0, false
 }
 
 // Replace fully replaces the source text.
-- 
2.43.0


From b502df6f17b92da89aa586eab79bd63aa8d89995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 06/36] fix: syntax: refuse an invalid edit before changing
 anything

An inverted range, or one within a character, was applied; a range that
ends behind the text panicked halfway.
---
 typst/syntax/lines.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 976f7a5..788c656 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -258,8 +258,13 @@ func (l *Lines) ReplacementRange(new string) (ReplacementRange, bool) {
 
 // Edit edits the source file by replacing the given range.
 //
-// The method panics if the replace range is out of bounds.
+// The method panics if the replace range is out of bounds, inverted or not on
+// character boundaries; the text is left unchanged.
 func (l *Lines) Edit(replace ranges.Range, with string) {
+	if replace.Start > replace.End || !stdx.IsCharBoundary(l.Text, uint(replace.Start)) || !stdx.IsCharBoundary(l.Text, uint(replace.End)) {
+		panic("invalid replace range")
+	}
+
 	startByte := uint(replace.Start)
 	startUtf16, ok := l.ByteToUtf16(startByte)
 	if !ok {
-- 
2.43.0


From ff4ffda0f9583e938c5cda4b43737fa8f320607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 07/36] fix: syntax: line starts when an edit joins or splits a
 \r\n

---
 typst/syntax/lines.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 788c656..335804a 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -3,7 +3,6 @@ package syntax
 import (
 	"fmt"
 	"sort"
-	"strings"
 	"unicode/utf16"
 	"unicode/utf8"
 
@@ -266,6 +265,11 @@ func (l *Lines) Edit(replace ranges.Range, with string) {
 	}
 
 	startByte := uint(replace.Start)
+	// A \r right before the edit and what follows it may adjoin to, or no longer
+	// be, a \r\n; the line starts have to be recalculated from the \r on.
+	if startByte > 0 && l.Text[startByte-1] == '\r' {
+		startByte--
+	}
 	startUtf16, ok := l.ByteToUtf16(startByte)
 	if !ok {
 		panic("invalid byte index in replace range")
@@ -281,11 +285,6 @@ func (l *Lines) Edit(replace ranges.Range, with string) {
 	// Remove invalidated line starts.
 	l.Lines = l.Lines[:line+1]
 
-	// Handle adjoining of \r and \n.
-	if strings.HasSuffix(l.Text[:startByte], "\r") && strings.HasPrefix(with, "\n") {
-		l.Lines = l.Lines[:len(l.Lines)-1]
-	}
-
 	// Recalculate the line starts after the edit.
 	newLines := linesFrom(startByte, startUtf16, l.Text[startByte:])
 	l.Lines = append(l.Lines, newLines...)
-- 
2.43.0


From 72730233ddc705051e8fc0c699a87dbdd503f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 08/36] fix: syntax: look for remaining errors among the
 children that stay

replace_children indexed the children by the range of the replacement.
---
 typst/syntax/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index be06ccf..57dce84 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -655,12 +655,12 @@ func (node *InnerNode) replace_children(_range ranges.Range, replacement []*Synt
 		}
 	}
 	if node.Erroneous {
-		for _, c := range node.Children[:replacement_range.Start] {
+		for _, c := range node.Children[:_range.Start] {
 			if c.erroneous() {
 				erroneous = true
 			}
 		}
-		for _, c := range node.Children[replacement_range.End:] {
+		for _, c := range node.Children[_range.End:] {
 			if c.erroneous() {
 				erroneous = true
 			}
-- 
2.43.0


From 3ada84bdf95e348b88459d50e2033f2175702e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 09/36] fix: syntax: splice reparsed nodes into the tree

replace_children reported failure after it had renumbered and success when
the numbers did not fit; numberize dropped the failures of the nodes below;
a reparsed block was taken for a failure, and a failed replacement of
markup retried on the changed children; the markup of a document was not
reparsed at all, that of headings and lists was.
---
 typst/syntax/node.go     |  8 +++++---
 typst/syntax/reparser.go | 10 ++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index 57dce84..ade0ec1 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -328,7 +328,7 @@ func (node *SyntaxNode) numberize(id FileID, within ranges.Range) error {
 	case *LeafNode:
 		repr.Span = mid
 	case *InnerNode:
-		repr.numberize(id, option.None[ranges.Range](), within)
+		return repr.numberize(id, option.None[ranges.Range](), within)
 	case *ErrorNode:
 		repr.Error.Span = mid
 	}
@@ -568,7 +568,9 @@ func (node *InnerNode) numberize(id FileID, _range option.Option[ranges.Range],
 	}
 	for _, child := range node.Children[_range_start:_range_end] {
 		end := start + uint64(child.descendants())*stride
-		child.numberize(id, ranges.NewRange(start, end))
+		if err := child.numberize(id, ranges.NewRange(start, end)); err != nil {
+			return err
+		}
 		start = end
 	}
 
@@ -713,7 +715,7 @@ func (node *InnerNode) replace_children(_range ranges.Range, replacement []*Synt
 
 		// Try to renumber.
 		within := ranges.NewRange(start_number, end_number)
-		if node.numberize(id, option.Some(renumber), within) != nil {
+		if node.numberize(id, option.Some(renumber), within) == nil {
 			return nil
 		}
 
diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 1fce5d7..83c2c74 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -81,8 +81,9 @@ func try_reparse(
 			if child.kind().IsBlock() {
 				if newborn, ok := reparse_block(text, new_range).Get(); ok {
 					if err := node.replace_children(ranges.NewRange(uint64(i), uint64(i+1)), []*SyntaxNode{newborn}); err != nil {
-						return option.Some(new_range)
+						return option.None[ranges.Range]()
 					}
+					return option.Some(new_range)
 				}
 			}
 		}
@@ -111,7 +112,7 @@ func try_reparse(
 	if node.kind() != SyntaxKindMarkup {
 		return option.None[ranges.Range]()
 	}
-	if kind, ok := parent_kind.Get(); !ok || ok && kind == SyntaxKindContentBlock {
+	if kind, ok := parent_kind.Get(); ok && kind != SyntaxKindContentBlock {
 		return option.None[ranges.Range]()
 	}
 
@@ -180,9 +181,10 @@ func try_reparse(
 			// Similarly, if we children follow or we not top-level the nesting
 			// must match its previous value.
 			if (at_end || at_start == prev_at_start_after) && ((at_end && !parent_kind.IsPresent()) || nesting == prev_nesting_after) {
-				if err := node.replace_children(ranges.NewRange(uint64(start), uint64(end)), newborns); err == nil {
-					return option.Some(new_range)
+				if err := node.replace_children(ranges.NewRange(uint64(start), uint64(end)), newborns); err != nil {
+					return option.None[ranges.Range]()
 				}
+				return option.Some(new_range)
 			}
 		}
 
-- 
2.43.0


From c954d2bc124d23a245ced2f4eccad93fee3fe87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:39 +0000
Subject: [PATCH 10/36] fix: syntax: reparse a hash together with its
 expression

With the hash as the last reparsed child, an edit could make something else
of the hash and leave its expression behind without one.
---
 typst/syntax/reparser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 83c2c74..566c4d1 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -131,8 +131,9 @@ func try_reparse(
 			start--
 		}
 
-		// Expand to the right.
-		for end < uint(len(children)) && expand(children[end]) {
+		// Expand to the right. A hash and the expression it introduces are
+		// reparsed together.
+		for end < uint(len(children)) && (expand(children[end]) || (end > 0 && children[end-1].kind() == SyntaxKindHash)) {
 			end++
 		}
 
-- 
2.43.0


From 19b15baa737e5782a4c8cb7bc3a7959af0b34445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 11/36] fix: syntax: see the newline within the node before the
 reparsed markup

An unclosed strong or emphasized content includes the paragraph break that
ends it; what follows starts a line.
---
 typst/syntax/reparser.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 566c4d1..2f12689 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -239,14 +239,32 @@ func expand(node *SyntaxNode) bool {
 // Whether `at_start` would still be true after this node given the
 // previous value of the property.
 func next_at_start(node *SyntaxNode, at_start *bool) {
+	if after, ok := at_start_after(node).Get(); ok {
+		*at_start = after
+	}
+}
+
+// What `at_start` is after this node, regardless of the previous value, if the
+// node decides it. The newline may be inside of the node, as an unclosed strong
+// or emphasized content includes the paragraph break that ends it.
+func at_start_after(node *SyntaxNode) option.Option[bool] {
 	kind := node.kind()
 	if kind.IsTrivia() {
 		if kind == SyntaxKindParbreak || (kind == SyntaxKindSpace && any_(node.text(), isNewline)) {
-			*at_start = true
+			return option.Some(true)
 		}
-	} else {
-		*at_start = false
+		return option.None[bool]()
+	}
+	children := node.children()
+	for i := len(children) - 1; i >= 0; i-- {
+		if after := at_start_after(children[i]); after.IsPresent() {
+			return after
+		}
+	}
+	if node.is_empty() {
+		return option.None[bool]()
 	}
+	return option.Some(false)
 }
 
 // Update `nesting` based on the node.
-- 
2.43.0


From 216ef51b0235784346c6b62b64d43bf457d9ac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 12/36] fix: syntax: reparse from the first error before the
 edit

What is wrong there, say an unclosed string or bracket, may be mended or
changed by text arbitrarily far behind it.
---
 typst/syntax/reparser.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 2f12689..a326c49 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -48,6 +48,10 @@ func try_reparse(
 	overlap := ranges.NewRange(math.MaxUint64, 0)
 	cursor := offset
 	node_kind := node.kind()
+	// The first child before the edit that contains an error, if any. What is
+	// wrong with it, say an unclosed string, may be mended or changed by text
+	// arbitrarily far behind it.
+	erroneous := option.None[uint]()
 
 	for i, child := range node.children() {
 		prev_range := ranges.NewRange(uint64(cursor), uint64(cursor+child.len()))
@@ -56,7 +60,7 @@ func try_reparse(
 
 		// Does the child surround the edit?
 		// If so, try to reparse within it or itself.
-		if !child.is_leaf() && includes(prev_range, replaced) {
+		if !child.is_leaf() && !erroneous.IsPresent() && includes(prev_range, replaced) {
 			new_len := prev_len + replacement_len - uint(replaced.Len())
 			new_range := ranges.NewRange(uint64(cursor), uint64(cursor+new_len))
 
@@ -99,6 +103,10 @@ func try_reparse(
 			break
 		}
 
+		if child.erroneous() && !erroneous.IsPresent() {
+			erroneous = option.Some(uint(i))
+		}
+
 		cursor += child.len()
 	}
 
@@ -126,6 +134,11 @@ func try_reparse(
 		start := saturating_sub(uint(overlap.Start), max(expansion, 2))
 		end := min(uint(overlap.End)+expansion, uint(len(children)))
 
+		// Reparse everything behind an error.
+		if first, ok := erroneous.Get(); ok {
+			start = min(start, first)
+		}
+
 		// Expand to the left.
 		for start > 0 && expand(children[start]) {
 			start--
-- 
2.43.0


From 744a429a6f51c21e0dbeceac1296f11a94a5ddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 13/36] fix: syntax: casting to an expression what is none does
 not panic

---
 typst/syntax/ast.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index a821d67..13ed6c2 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -134,6 +134,7 @@ func SyntaxNode_cast[T AstNode](node *SyntaxNode) option.Option[T] {
 		if expr, ok := Expr_from_untyped(node).Get(); ok {
 			return option.Some[T](expr.(T))
 		}
+		return option.None[T]()
 	}
 	if _n, ok := zero.from_untyped(node).Get(); ok {
 		n := _n.(T)
-- 
2.43.0


From 6e87b73d3acd6bd8265347c6680771df597592ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 14/36] fix: syntax: reparse a link together with punctuation
 behind it

---
 typst/syntax/reparser.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index a326c49..94c6844 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -3,6 +3,7 @@ package syntax
 import (
 	"fmt"
 	"math"
+	"strings"
 
 	"github.com/mewmew/typast/internal/option"
 	"github.com/mewmew/typast/internal/ranges"
@@ -150,6 +151,11 @@ func try_reparse(
 			end++
 		}
 
+		// A link or reference ends before trailing punctuation. Take it as well
+		// if nothing else separates it from the reparsed markup, as what now
+		// follows may make the punctuation part of it.
+		start = extend_to_link(children, start)
+
 		// Also take hash.
 		if start > 0 && children[start-1].kind() == SyntaxKindHash {
 			start--
@@ -249,6 +255,22 @@ func expand(node *SyntaxNode) bool {
 	return false
 }
 
+// Returns the index of the link or reference before the children at start, if
+// only punctuation that may also be part of it is in between, and start
+// otherwise.
+func extend_to_link(children []*SyntaxNode, start uint) uint {
+	for i := start; i > 0; i-- {
+		child := children[i-1]
+		if child.kind() == SyntaxKindLink || child.kind() == SyntaxKindRef {
+			return i - 1
+		}
+		if strings.Trim(child.text(), "!,.:;?'") != "" || child.is_empty() {
+			break
+		}
+	}
+	return start
+}
+
 // Whether `at_start` would still be true after this node given the
 // previous value of the property.
 func next_at_start(node *SyntaxNode, at_start *bool) {
-- 
2.43.0


From bffb538346c0ccc8c28fa53720e570811fd5e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:15 +0000
Subject: [PATCH 15/36] fix: syntax: intern packages and paths by value,
 normalize paths

---
 typst/syntax/file.go | 50 +++++++++++++++++++++++++++++++-------------
 typst/syntax/path.go | 42 ++++++++++++++++++++++++-------------
 2 files changed, 63 insertions(+), 29 deletions(-)

diff --git a/typst/syntax/file.go b/typst/syntax/file.go
index 7e11d17..32511b0 100644
--- a/typst/syntax/file.go
+++ b/typst/syntax/file.go
@@ -12,13 +12,13 @@ import (
 
 // interner is the global package-path interner.
 var interner = &Interner{
-	toID:   make(map[Pair]FileID),
+	toID:   make(map[pairKey]FileID),
 	fromID: nil,
 }
 
 // Interner is a package-path interner.
 type Interner struct {
-	toID   map[Pair]FileID
+	toID   map[pairKey]FileID
 	fromID []Pair // maps from id-1 to Pair (since id is NonZero).
 
 	sync.RWMutex
@@ -30,6 +30,27 @@ type Pair struct {
 	VPath *VirtualPath
 }
 
+// pairKey identifies an interned pair by value.
+type pairKey struct {
+	inPackage bool
+	spec      PackageSpec
+	path      string
+}
+
+// newPair returns the pair of the given package specification and normalized
+// path, sharing no memory with the arguments, and its key.
+func newPair(spec option.Option[*PackageSpec], vpath *VirtualPath) (Pair, pairKey) {
+	vpath = NewVirtualPath(vpath.Path)
+	pair := Pair{Spec: option.None[*PackageSpec](), VPath: vpath}
+	key := pairKey{path: vpath.Path}
+	if spec, ok := spec.Get(); ok {
+		key.inPackage = true
+		key.spec = *spec
+		pair.Spec = option.Some(&key.spec)
+	}
+	return pair, key
+}
+
 // FileID identifies a file in a project or package.
 //
 // This type is globally interned and thus cheap to copy, compare, and hash.
@@ -37,16 +58,17 @@ type FileID uint16 // NonZeroU16
 
 // NewFileID creates a new interned file specification.
 //
-// The path must start with a `/` or this function will panic. The path is
-// normalized before interning.
+// The path is normalized before interning.
 func NewFileID(spec option.Option[*PackageSpec], vpath *VirtualPath) FileID {
-	pair := Pair{Spec: spec, VPath: vpath}
+	pair, key := newPair(spec, vpath)
 	interner.Lock()
 	defer interner.Unlock()
-	if id, ok := interner.toID[pair]; ok {
+	if id, ok := interner.toID[key]; ok {
 		return id
 	}
-	return pushPair(pair)
+	id := pushPair(pair)
+	interner.toID[key] = id
+	return id
 }
 
 // pushPair creates a new entry forever.
@@ -58,11 +80,6 @@ func pushPair(pair Pair) FileID {
 		panic("out of file ids") // uint16 overflow
 	}
 	id := FileID(num)
-	if _, ok := pair.Spec.Get(); ok {
-		// only add pair to map if spec exists (i.e. not a "fake" file
-		// specification)
-		interner.toID[pair] = id
-	}
 	interner.fromID = append(interner.fromID, pair)
 	return id
 }
@@ -75,15 +92,19 @@ func pushPair(pair Pair) FileID {
 // method should only be used for generating "virtual" file IDs such as content
 // read from stdin.
 func NewFakeFileID(vpath *VirtualPath) FileID {
+	pair, _ := newPair(option.None[*PackageSpec](), vpath)
 	interner.Lock()
 	defer interner.Unlock()
-	pair := Pair{Spec: option.None[*PackageSpec](), VPath: vpath}
 	return pushPair(pair)
 }
 
 // Spec returns the package the file resides in, if any.
 func (id FileID) Spec() option.Option[*PackageSpec] {
 	pair := id.pair()
+	if spec, ok := pair.Spec.Get(); ok {
+		clone := *spec
+		return option.Some(&clone)
+	}
 	return pair.Spec
 }
 
@@ -91,7 +112,8 @@ func (id FileID) Spec() option.Option[*PackageSpec] {
 // or package.
 func (id FileID) VPath() *VirtualPath {
 	pair := id.pair()
-	return pair.VPath
+	clone := *pair.VPath
+	return &clone
 }
 
 // Join resolves a file location relative to this file.
diff --git a/typst/syntax/path.go b/typst/syntax/path.go
index 0423ab4..934264c 100644
--- a/typst/syntax/path.go
+++ b/typst/syntax/path.go
@@ -1,34 +1,46 @@
 package syntax
 
-import "path/filepath"
+import (
+	"path"
+	"strings"
+)
 
-// VirtualPath is an absolute path in the virtual file system of a project or
-// package.
+// VirtualPath is an absolute and normalized path in the virtual file system of
+// a project or package.
 type VirtualPath struct {
 	Path string
 }
 
 // NewVirtualPath creates a new virtual path.
 //
-// Even if it doesn't start with `/` or `\`, it is still interpreted as
-// starting from the root.
-func NewVirtualPath(path string) *VirtualPath {
+// Even if it doesn't start with `/`, it is still interpreted as starting from
+// the root.
+func NewVirtualPath(name string) *VirtualPath {
 	return &VirtualPath{
-		Path: path,
+		Path: path.Clean("/" + name),
 	}
 }
 
 // Join resolves a path relative to this virtual path.
-func (vpath *VirtualPath) Join(path string) *VirtualPath {
-	dir := filepath.Dir(vpath.Path)
-	new_path := filepath.Join(dir, path)
-	return NewVirtualPath(new_path)
+func (vpath *VirtualPath) Join(name string) *VirtualPath {
+	if path.IsAbs(name) {
+		return NewVirtualPath(name)
+	}
+	return NewVirtualPath(path.Join(path.Dir(vpath.Path), name))
 }
 
 // WithExtension returns the path, but with a different extension.
 func (vpath *VirtualPath) WithExtension(extension string) *VirtualPath {
-	ext := filepath.Ext(vpath.Path)
-	name := vpath.Path[:len(vpath.Path)-len(ext)]
-	new_path := name + extension
-	return NewVirtualPath(new_path)
+	dir, name := path.Split(vpath.Path)
+	if name == "" {
+		return NewVirtualPath(dir) // the root has no extension
+	}
+	// A leading dot does not start an extension.
+	if i := strings.LastIndexByte(name, '.'); i > 0 {
+		name = name[:i]
+	}
+	if extension != "" && !strings.HasPrefix(extension, ".") {
+		extension = "." + extension
+	}
+	return NewVirtualPath(dir + name + extension)
 }
-- 
2.43.0


From a69695002658daa6e9c0de81e1aae6a652ebc6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 16/36] fix: update-typ, offline-typ: error nodes and string
 literals in imports

An error node within an import crashed the tools, as did string literals
that are not valid in Go (a line break, \u{..}, unknown escapes).
---
 cmd/offline-typ/main.go | 14 ++++----------
 cmd/update-typ/main.go  |  7 +++----
 typst/syntax/ast.go     |  6 ++++++
 3 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 1cc30d2..81ab67f 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -234,14 +234,13 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 					continue
 				}
 				leaf = l.Repr.(*syntax.LeafNode)
+			default:
+				continue
 			}
 			if leaf.Kind != syntax.SyntaxKindStr {
 				continue
 			}
-			str, err := strconv.Unquote(leaf.Text)
-			if err != nil {
-				panic(err)
-			}
+			str := syntax.Unquote(leaf.Text)
 			switch inner.Kind {
 			case syntax.SyntaxKindModuleImport:
 				spec, err := syntax.ParsePackageSpec(str)
@@ -487,12 +486,7 @@ func findFirstStr(nodes []*syntax.SyntaxNode) (string, bool) {
 	if !ok {
 		return "", false
 	}
-	text, err := strconv.Unquote(leaf.Text)
-	if err != nil {
-		// TODO: report error?
-		return "", false
-	}
-	return text, true
+	return syntax.Unquote(leaf.Text), true
 }
 
 // findFirst returns the first node of the given kind.
diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 2364a47..f6d8341 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -221,14 +221,13 @@ func findOldVersions(rootNode *syntax.SyntaxNode, relTypPath string, libName str
 					continue
 				}
 				leaf = l.Repr.(*syntax.LeafNode)
+			default:
+				continue
 			}
 			if leaf.Kind != syntax.SyntaxKindStr {
 				continue
 			}
-			str, err := strconv.Unquote(leaf.Text)
-			if err != nil {
-				panic(err)
-			}
+			str := syntax.Unquote(leaf.Text)
 			switch inner.Kind {
 			case syntax.SyntaxKindModuleImport:
 				spec, err := syntax.ParsePackageSpec(str)
diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 13ed6c2..ceb0ef5 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1347,6 +1347,12 @@ type Str struct {
 	*SyntaxNode
 }
 
+// Unquote returns the value of the given string literal, with resolved escape
+// sequences.
+func Unquote(text string) string {
+	return (&Str{NewLeaf(SyntaxKindStr, text)}).get()
+}
+
 // Get the string value with resolved escape sequences.
 func (node *Str) get() string {
 	text := node.SyntaxNode.text()
-- 
2.43.0


From f82c942f3efe6afa508896eb8202d020fb2e7f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 17/36] fix: update-typ: newest version without downgrade or
 panic, report lookup errors

---
 cmd/update-typ/main.go | 106 ++++++++++++++++++++++++++---------------
 1 file changed, 68 insertions(+), 38 deletions(-)

diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index f6d8341..6a88040 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -155,7 +155,10 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 	}
 
 	// Check for old versions of dependencies.
-	specs, updated, localTypPaths := findOldVersions(rootNode, relTypPath, "")
+	specs, updated, localTypPaths, err := findOldVersions(rootNode, relTypPath, "")
+	if err != nil {
+		return nil, false, errors.WithStack(err)
+	}
 
 	// Rewrite local Typst files.
 	for _, localTypPath := range localTypPaths {
@@ -183,8 +186,9 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 // given CST to their latest version. It returns a list of package imports left
 // to check for new version of dependencies and a list of local Typst files to
 // process. The boolean return value indicates whether a version was updated.
-func findOldVersions(rootNode *syntax.SyntaxNode, relTypPath string, libName string) ([]*syntax.PackageSpec, bool, []string) {
+func findOldVersions(rootNode *syntax.SyntaxNode, relTypPath string, libName string) ([]*syntax.PackageSpec, bool, []string, error) {
 	updated := false
+	var firstErr error
 	relTypDir := filepath.Dir(relTypPath)
 	var (
 		// package imports to check for new versions of dependencies.
@@ -239,7 +243,11 @@ func findOldVersions(rootNode *syntax.SyntaxNode, relTypPath string, libName str
 					return true // done with inner node
 				}
 				specs = append(specs, spec)
-				if newSpec, ok := latestSpec(spec); ok {
+				newSpec, ok, err := latestSpec(spec)
+				if err != nil && firstErr == nil {
+					firstErr = err
+				}
+				if ok {
 					if len(libName) > 0 {
 						clog.Infof("in library %q, update needed for %q:\n\tnew version %q\n\told version %q", libName, relTypPath, newSpec, spec)
 					} else {
@@ -259,7 +267,10 @@ func findOldVersions(rootNode *syntax.SyntaxNode, relTypPath string, libName str
 		return true
 	}
 	cstwalk.Walk(rootNode, visitImports)
-	return specs, updated, localTypPaths
+	if firstErr != nil {
+		return nil, false, nil, errors.WithStack(firstErr)
+	}
+	return specs, updated, localTypPaths, nil
 }
 
 var (
@@ -350,7 +361,10 @@ func checkLib(projectRoot *os.Root, relTypPath, libName string) ([]*syntax.Packa
 	}
 
 	// Check for old versions of dependencies.
-	specs, updated, localTypPaths := findOldVersions(rootNode, relTypPath, libName)
+	specs, updated, localTypPaths, err := findOldVersions(rootNode, relTypPath, libName)
+	if err != nil {
+		return nil, false, errors.WithStack(err)
+	}
 
 	// Check local Typst files.
 	for _, localTypPath := range localTypPaths {
@@ -414,18 +428,21 @@ func parsePackageManifest(pkgRoot *os.Root) (*syntax.PackageManifest, error) {
 
 // latestSpec returns the latest version of the given package. The boolean
 // return value indicates that a new version was available.
-func latestSpec(spec *syntax.PackageSpec) (*syntax.PackageSpec, bool) {
-	verSpecs := findVersions(spec)
-	latestSpec := verSpecs[0]
-	for _, verSpec := range verSpecs[1:] {
+func latestSpec(spec *syntax.PackageSpec) (*syntax.PackageSpec, bool, error) {
+	verSpecs, err := findVersions(spec)
+	if err != nil {
+		return nil, false, errors.WithStack(err)
+	}
+	latestSpec := spec
+	for _, verSpec := range verSpecs {
 		if greaterThan(verSpec.Version, latestSpec.Version) {
 			latestSpec = verSpec
 		}
 	}
 	if latestSpec.Version == spec.Version {
-		return spec, false
+		return spec, false, nil
 	}
-	return latestSpec, true
+	return latestSpec, true, nil
 }
 
 // greaterThan reports whether version a is greater than version b.
@@ -446,40 +463,44 @@ func greaterThan(a, b syntax.PackageVersion) bool {
 }
 
 // findVersions finds all versions of the given package.
-func findVersions(spec *syntax.PackageSpec) []*syntax.PackageSpec {
+func findVersions(spec *syntax.PackageSpec) ([]*syntax.PackageSpec, error) {
 	var verSpecs []*syntax.PackageSpec
 	packagesDirs := getPackagesDirs()
 	for _, packagesDir := range packagesDirs {
 		namespace := filepath.Base(packagesDir)
 		packageDir := filepath.Join(packagesDir, spec.Name)
-		visit := func(path string, info fs.FileInfo, err error) error {
+		entries, err := os.ReadDir(packageDir)
+		if err != nil {
+			if errors.Is(err, fs.ErrNotExist) {
+				continue // package not present.
+			}
+			return nil, errors.WithStack(err)
+		}
+		for _, entry := range entries {
+			version, err := syntax.ParsePackageVersion(entry.Name())
 			if err != nil {
-				return err
+				continue // not a version.
 			}
-			if info.IsDir() || info.Mode()&fs.ModeSymlink != 0 {
-				if path != packageDir {
-					versionRaw := info.Name()
-					version, err := syntax.ParsePackageVersion(versionRaw)
-					if err != nil {
-						return errors.WithStack(err)
-					}
-					verSpec := &syntax.PackageSpec{
-						Namespace: namespace,
-						Name:      spec.Name,
-						Version:   version,
-					}
-					verSpecs = append(verSpecs, verSpec)
-					// don't traverse into subdirectories.
-					return filepath.SkipDir
+			// NOTE: the version may be a symlink to a directory.
+			info, err := os.Stat(filepath.Join(packageDir, entry.Name()))
+			if err != nil {
+				if errors.Is(err, fs.ErrNotExist) {
+					continue // dangling symlink.
 				}
+				return nil, errors.WithStack(err)
 			}
-			return nil
-		}
-		if err := filepath.Walk(packageDir, visit); err != nil {
-			// TODO: report warning?
+			if !info.IsDir() {
+				continue
+			}
+			verSpec := &syntax.PackageSpec{
+				Namespace: namespace,
+				Name:      spec.Name,
+				Version:   version,
+			}
+			verSpecs = append(verSpecs, verSpec)
 		}
 	}
-	return verSpecs
+	return verSpecs, nil
 }
 
 // getPackageDir returns the directory of the given package
@@ -488,7 +509,11 @@ func getPackageDir(spec *syntax.PackageSpec) (string, error) {
 	packagesDirs := getPackagesDirs()
 	for _, packagesDir := range packagesDirs {
 		packageDir := filepath.Join(packagesDir, spec.Name, spec.Version.String())
-		if exists(packageDir) {
+		ok, err := exists(packageDir)
+		if err != nil {
+			return "", errors.WithStack(err)
+		}
+		if ok {
 			return packageDir, nil
 		}
 	}
@@ -604,7 +629,12 @@ func isUnix() bool {
 }
 
 // exists reports whether the given file, directory or symlink exists.
-func exists(path string) bool {
-	_, err := os.Stat(path)
-	return err == nil
+func exists(path string) (bool, error) {
+	if _, err := os.Stat(path); err != nil {
+		if errors.Is(err, fs.ErrNotExist) {
+			return false, nil
+		}
+		return false, errors.WithStack(err)
+	}
+	return true, nil
 }
-- 
2.43.0


From d9073e23769baf20abace18ada6f6f7effeecf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:32 +0000
Subject: [PATCH 18/36] fix: update-typ: replace files in one step, a failed
 write keeps the old contents

---
 cmd/update-typ/main.go | 89 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 88 insertions(+), 1 deletion(-)

diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 6a88040..9b6e2a4 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -175,7 +175,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 	// output new version of file.
 	out := &bytes.Buffer{}
 	syntax.PrintNode(out, rootNode)
-	if err := outRoot.WriteFile(relTypPath, out.Bytes(), 0o644); err != nil {
+	if err := writeFile(outRoot, relTypPath, out.Bytes()); err != nil {
 		return nil, false, errors.WithStack(err)
 	}
 
@@ -394,6 +394,93 @@ func parse(root *os.Root, relTypPath string) (*syntax.SyntaxNode, error) {
 
 // ### [ Helper functions ] ####################################################
 
+// writeFile writes data to the named file within root, either in full or not at
+// all. A file in place keeps its old contents until the new ones are complete.
+func writeFile(root *os.Root, path string, data []byte) error {
+	// replace the file and not the symlink to it.
+	path, err := resolveSymlinks(root, path)
+	if err != nil {
+		return errors.WithStack(err)
+	}
+	perm := fs.FileMode(0o644)
+	info, err := root.Lstat(path)
+	replace := err == nil
+	if replace {
+		perm = info.Mode().Perm()
+	} else if !errors.Is(err, fs.ErrNotExist) {
+		return errors.WithStack(err)
+	}
+	// NOTE: same directory (and thus file system), to allow rename.
+	tmpPath := filepath.Join(filepath.Dir(path), ".update-typ.tmp")
+	if err := writeTemp(root, tmpPath, data, perm, replace); err != nil {
+		root.Remove(tmpPath)
+		return errors.WithStack(err)
+	}
+	if err := root.Rename(tmpPath, path); err != nil {
+		root.Remove(tmpPath)
+		return errors.WithStack(err)
+	}
+	return nil
+}
+
+// writeTemp writes data to the named temporary file within root.
+func writeTemp(root *os.Root, tmpPath string, data []byte, perm fs.FileMode, replace bool) error {
+	// NOTE: may be present if a previous run was interrupted.
+	if err := root.Remove(tmpPath); err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return errors.WithStack(err)
+	}
+	f, err := root.OpenFile(tmpPath, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+	if err != nil {
+		return errors.WithStack(err)
+	}
+	defer f.Close()
+	if _, err := f.Write(data); err != nil {
+		return errors.WithStack(err)
+	}
+	// keep the permissions of the file replaced, regardless of umask.
+	if replace {
+		if err := f.Chmod(perm); err != nil {
+			return errors.WithStack(err)
+		}
+	}
+	if err := f.Sync(); err != nil {
+		return errors.WithStack(err)
+	}
+	if err := f.Close(); err != nil {
+		return errors.WithStack(err)
+	}
+	return nil
+}
+
+// resolveSymlinks returns the path within root without symlinks.
+func resolveSymlinks(root *os.Root, path string) (string, error) {
+	const maxSymlinks = 255
+	sep := string(filepath.Separator)
+	parts := strings.Split(filepath.Clean(path), sep)
+	resolved := "."
+	for n := 0; len(parts) > 0; {
+		next := filepath.Join(resolved, parts[0])
+		parts = parts[1:]
+		info, err := root.Lstat(next)
+		if err != nil && !errors.Is(err, fs.ErrNotExist) {
+			return "", errors.WithStack(err)
+		}
+		if err != nil || info.Mode()&fs.ModeSymlink == 0 {
+			resolved = next
+			continue
+		}
+		target, err := root.Readlink(next)
+		if err != nil {
+			return "", errors.WithStack(err)
+		}
+		if n++; n > maxSymlinks || filepath.IsAbs(target) {
+			return "", errors.Errorf("unable to follow symlink %q within %q", next, root.Name())
+		}
+		parts = append(strings.Split(target, sep), parts...)
+	}
+	return resolved, nil
+}
+
 // getManifest returns the manifest of the given package.
 func getManifest(spec *syntax.PackageSpec) (*syntax.PackageManifest, error) {
 	pkgDir, err := getPackageDir(spec)
-- 
2.43.0


From ebcba1c29f36602ad4f475eb2087eb32ec5cb8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:01 +0000
Subject: [PATCH 19/36] fix: offline-typ, update-typ: report missing packages
 and manifest entries instead of panic

---
 cmd/offline-typ/main.go | 13 ++++++++++++-
 cmd/update-typ/main.go  |  3 +++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 81ab67f..a071729 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -204,6 +204,8 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 		localTypPaths []string
 		// local resource paths to copy for offline use (e.g. images).
 		localResourcePaths []string
+		// first error encountered.
+		firstErr error
 	)
 
 	// walk CST tree.
@@ -254,7 +256,10 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				specs = append(specs, spec)
 				newPkgPath, err := getNewPkgPath(spec)
 				if err != nil {
-					panic(fmt.Errorf("unable to get new package path for package %q; %+v", spec.String(), errors.WithStack(err)))
+					if firstErr == nil {
+						firstErr = errors.Wrapf(err, "unable to get new package path for package %q", spec.String())
+					}
+					return true // done with inner node
 				}
 				leaf.Text = strconv.Quote(newPkgPath)
 				insertPkgRename(inner, i+1, spec.Name)
@@ -269,6 +274,9 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 		return true
 	}
 	cstwalk.Walk(rootNode, visitImports)
+	if firstErr != nil {
+		return nil, errors.WithStack(firstErr)
+	}
 
 	visitResourceFunc := func(n any) bool {
 		inner, ok := n.(*syntax.InnerNode)
@@ -591,6 +599,9 @@ func parsePackageManifest(pkgRoot *os.Root) (*syntax.PackageManifest, error) {
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
+	if manifest.Pkg == nil || len(manifest.Pkg.Entrypoint) == 0 {
+		return nil, errors.Errorf("missing package entrypoint in manifest %q", filepath.Join(pkgRoot.Name(), manifestPath))
+	}
 	return manifest, nil
 }
 
diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 9b6e2a4..0505b3b 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -510,6 +510,9 @@ func parsePackageManifest(pkgRoot *os.Root) (*syntax.PackageManifest, error) {
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
+	if manifest.Pkg == nil || len(manifest.Pkg.Entrypoint) == 0 {
+		return nil, errors.Errorf("missing package entrypoint in manifest %q", filepath.Join(pkgRoot.Name(), manifestPath))
+	}
 	return manifest, nil
 }
 
-- 
2.43.0


From c34f91de05b85b266b9e4c6e650a75a33d683eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 20/36] fix: offline-typ: root-relative paths of a package
 refer to its vendored copy

---
 cmd/offline-typ/main.go | 61 ++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index a071729..d2411af 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -98,7 +98,7 @@ func main() {
 	}
 
 	// rewrite Typst files for offline use.
-	specs, err := rewrite(outRoot, projectRoot, typPath)
+	specs, err := rewrite(outRoot, projectRoot, typPath, "")
 	if err != nil {
 		log.Fatalf("%+v", err)
 	}
@@ -171,8 +171,10 @@ var (
 	resDone = make(map[string]bool)
 )
 
-// rewrite rewrites the given Typst file for offline use.
-func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.PackageSpec, error) {
+// rewrite rewrites the given Typst file for offline use. Root-relative paths are
+// prefixed by libDir (e.g. "/libs/latex-lookalike/0.1.4"), which is empty for
+// files of the project itself.
+func rewrite(outRoot, projectRoot *os.Root, relTypPath, libDir string) ([]*syntax.PackageSpec, error) {
 	absTypPath := filepath.Join(projectRoot.Name(), relTypPath)
 	if typDone[absTypPath] {
 		if verbose {
@@ -249,6 +251,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				if err != nil {
 					// NOTE: handle local import path e.g. `#import "foo/bar.typ"`
 					path := str
+					addPathPrefix(leaf, libDir)
 					localTypPath := getRelLocalPath(relTypDir, path)
 					localTypPaths = append(localTypPaths, localTypPath)
 					return true // done with inner node
@@ -266,6 +269,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				return true // done with inner node
 			case syntax.SyntaxKindModuleInclude:
 				path := str
+				addPathPrefix(leaf, libDir)
 				localTypPath := getRelLocalPath(relTypDir, path)
 				localTypPaths = append(localTypPaths, localTypPath)
 				return true // done with inner node
@@ -313,16 +317,19 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				if args.Kind != syntax.SyntaxKindArgs {
 					continue
 				}
-				if path, ok := findFirstStr(args.Children); ok {
+				if leaf, ok := findFirstStr(args.Children); ok {
+					path := syntax.Unquote(leaf.Text)
+					addPathPrefix(leaf, libDir)
 					localResourcePath := getRelLocalPath(relTypDir, path)
 					localResourcePaths = append(localResourcePaths, localResourcePath)
 				}
 				if foundFunc == "bibliography" {
 					if kv, ok := findFirstNamed(args.Children); ok {
 						if kv.Key == "style" {
-							cslPath := kv.Value
+							cslPath := syntax.Unquote(kv.Value.Text)
 							localResourcePath := getRelLocalPath(relTypDir, cslPath)
 							if exist(projectRoot, localResourcePath) {
+								addPathPrefix(kv.Value, libDir)
 								localResourcePaths = append(localResourcePaths, localResourcePath)
 							}
 						}
@@ -363,16 +370,19 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				if args.Kind != syntax.SyntaxKindArgs {
 					continue
 				}
-				if path, ok := findFirstStr(args.Children); ok {
+				if leaf, ok := findFirstStr(args.Children); ok {
+					path := syntax.Unquote(leaf.Text)
+					addPathPrefix(leaf, libDir)
 					localResourcePath := getRelLocalPath(relTypDir, path)
 					localResourcePaths = append(localResourcePaths, localResourcePath)
 				}
 				if foundFunc == "bibliography" {
 					if kv, ok := findFirstNamed(args.Children); ok {
 						if kv.Key == "style" {
-							cslPath := kv.Value
+							cslPath := syntax.Unquote(kv.Value.Text)
 							localResourcePath := getRelLocalPath(relTypDir, cslPath)
 							if exist(projectRoot, localResourcePath) {
+								addPathPrefix(kv.Value, libDir)
 								localResourcePaths = append(localResourcePaths, localResourcePath)
 							}
 						}
@@ -386,7 +396,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 
 	// Convert local Typst files.
 	for _, localTypPath := range localTypPaths {
-		localSpecs, err := rewrite(outRoot, projectRoot, localTypPath)
+		localSpecs, err := rewrite(outRoot, projectRoot, localTypPath, libDir)
 		if err != nil {
 			return nil, errors.WithStack(err)
 		}
@@ -441,9 +451,19 @@ func getRelLocalPath(relTypDir, path string) string {
 	return relLocalTypPath
 }
 
+// addPathPrefix adds the given prefix to the path of the given string literal,
+// if root-relative (e.g. "/src/util.typ").
+func addPathPrefix(leaf *syntax.LeafNode, prefix string) {
+	if len(prefix) == 0 || !strings.HasPrefix(syntax.Unquote(leaf.Text), "/") {
+		return
+	}
+	const quote = `"`
+	leaf.Text = quote + prefix + strings.TrimPrefix(leaf.Text, quote)
+}
+
 type KeyValuePair struct {
 	Key   string
-	Value string
+	Value *syntax.LeafNode
 }
 
 // findFirstNamed returns the key-value pair of the first named pair node.
@@ -484,17 +504,14 @@ func findFirstIdent(nodes []*syntax.SyntaxNode) (string, bool) {
 	return leaf.Text, true
 }
 
-// findFirstStr returns the unquoted version of the first string literal node.
-func findFirstStr(nodes []*syntax.SyntaxNode) (string, bool) {
+// findFirstStr returns the first string literal node.
+func findFirstStr(nodes []*syntax.SyntaxNode) (*syntax.LeafNode, bool) {
 	node, ok := findFirst(nodes, syntax.SyntaxKindStr)
 	if !ok {
-		return "", false
+		return nil, false
 	}
 	leaf, ok := node.Repr.(*syntax.LeafNode)
-	if !ok {
-		return "", false
-	}
-	return syntax.Unquote(leaf.Text), true
+	return leaf, ok
 }
 
 // findFirst returns the first node of the given kind.
@@ -537,7 +554,8 @@ func copyPackage(outRoot *os.Root, spec *syntax.PackageSpec) ([]*syntax.PackageS
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-	libTypDir := fmt.Sprintf("libs/%v/%v", spec.Name, spec.Version.String())
+	libDir := getLibDir(spec)
+	libTypDir := strings.TrimPrefix(libDir, "/")
 	if err := outRoot.MkdirAll(libTypDir, 0o755); err != nil {
 		return nil, errors.WithStack(err)
 	}
@@ -550,7 +568,7 @@ func copyPackage(outRoot *os.Root, spec *syntax.PackageSpec) ([]*syntax.PackageS
 		return nil, errors.WithStack(err)
 	}
 	pkgInfo := manifest.Pkg
-	libSpecs, err := rewrite(outLibRoot, pkgRoot, pkgInfo.Entrypoint)
+	libSpecs, err := rewrite(outLibRoot, pkgRoot, pkgInfo.Entrypoint, libDir)
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
@@ -564,10 +582,15 @@ func getNewPkgPath(spec *syntax.PackageSpec) (string, error) {
 	if err != nil {
 		return "", errors.WithStack(err)
 	}
-	newPkgPath := fmt.Sprintf("/libs/%v/%v/%s", spec.Name, spec.Version.String(), manifest.Pkg.Entrypoint)
+	newPkgPath := fmt.Sprintf("%s/%s", getLibDir(spec), manifest.Pkg.Entrypoint)
 	return newPkgPath, nil
 }
 
+// getLibDir returns the project-rooted offline directory of the given package.
+func getLibDir(spec *syntax.PackageSpec) string {
+	return fmt.Sprintf("/libs/%v/%v", spec.Name, spec.Version.String())
+}
+
 // ### [ Helper functions ] ####################################################
 
 // getManifest returns the manifest of the given package.
-- 
2.43.0


From 413729a2e3d592c0ba1b61724998648c7915e117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:15 +0000
Subject: [PATCH 21/36] fix: offline-typ: copy bibliography arrays, styles
 behind other arguments and data files

---
 cmd/offline-typ/main.go | 97 ++++++++++++++++++++++-------------------
 1 file changed, 52 insertions(+), 45 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index d2411af..d6a5be2 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -308,8 +308,8 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath, libDir string) ([]*synta
 				// call to image function handled below.
 			case "plugin":
 				// call to plugin function handled below.
-			case "read":
-				// call to read function handled below.
+			case "read", "cbor", "csv", "json", "toml", "xml", "yaml":
+				// call to data loading function handled below.
 			default:
 				continue // skip other function calls
 			}
@@ -317,21 +317,19 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath, libDir string) ([]*synta
 				if args.Kind != syntax.SyntaxKindArgs {
 					continue
 				}
-				if leaf, ok := findFirstStr(args.Children); ok {
+				for _, leaf := range findPathStrs(args.Children) {
 					path := syntax.Unquote(leaf.Text)
 					addPathPrefix(leaf, libDir)
 					localResourcePath := getRelLocalPath(relTypDir, path)
 					localResourcePaths = append(localResourcePaths, localResourcePath)
 				}
 				if foundFunc == "bibliography" {
-					if kv, ok := findFirstNamed(args.Children); ok {
-						if kv.Key == "style" {
-							cslPath := syntax.Unquote(kv.Value.Text)
-							localResourcePath := getRelLocalPath(relTypDir, cslPath)
-							if exist(projectRoot, localResourcePath) {
-								addPathPrefix(kv.Value, libDir)
-								localResourcePaths = append(localResourcePaths, localResourcePath)
-							}
+					if leaf, ok := findNamedStr(args.Children, "style"); ok {
+						cslPath := syntax.Unquote(leaf.Text)
+						localResourcePath := getRelLocalPath(relTypDir, cslPath)
+						if exist(projectRoot, localResourcePath) {
+							addPathPrefix(leaf, libDir)
+							localResourcePaths = append(localResourcePaths, localResourcePath)
 						}
 					}
 				}
@@ -370,21 +368,19 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath, libDir string) ([]*synta
 				if args.Kind != syntax.SyntaxKindArgs {
 					continue
 				}
-				if leaf, ok := findFirstStr(args.Children); ok {
+				for _, leaf := range findPathStrs(args.Children) {
 					path := syntax.Unquote(leaf.Text)
 					addPathPrefix(leaf, libDir)
 					localResourcePath := getRelLocalPath(relTypDir, path)
 					localResourcePaths = append(localResourcePaths, localResourcePath)
 				}
 				if foundFunc == "bibliography" {
-					if kv, ok := findFirstNamed(args.Children); ok {
-						if kv.Key == "style" {
-							cslPath := syntax.Unquote(kv.Value.Text)
-							localResourcePath := getRelLocalPath(relTypDir, cslPath)
-							if exist(projectRoot, localResourcePath) {
-								addPathPrefix(kv.Value, libDir)
-								localResourcePaths = append(localResourcePaths, localResourcePath)
-							}
+					if leaf, ok := findNamedStr(args.Children, "style"); ok {
+						cslPath := syntax.Unquote(leaf.Text)
+						localResourcePath := getRelLocalPath(relTypDir, cslPath)
+						if exist(projectRoot, localResourcePath) {
+							addPathPrefix(leaf, libDir)
+							localResourcePaths = append(localResourcePaths, localResourcePath)
 						}
 					}
 				}
@@ -461,34 +457,45 @@ func addPathPrefix(leaf *syntax.LeafNode, prefix string) {
 	leaf.Text = quote + prefix + strings.TrimPrefix(leaf.Text, quote)
 }
 
-type KeyValuePair struct {
-	Key   string
-	Value *syntax.LeafNode
+// findPathStrs returns the string literal nodes of the paths given by the first
+// positional string or array argument.
+func findPathStrs(args []*syntax.SyntaxNode) []*syntax.LeafNode {
+	for _, arg := range args {
+		switch repr := arg.Repr.(type) {
+		case *syntax.LeafNode:
+			if repr.Kind == syntax.SyntaxKindStr {
+				return []*syntax.LeafNode{repr}
+			}
+		case *syntax.InnerNode:
+			switch repr.Kind {
+			case syntax.SyntaxKindParenthesized:
+				return findPathStrs(repr.Children)
+			case syntax.SyntaxKindArray:
+				// e.g. `bibliography(("foo.bib", "bar.yml"))`
+				var leaves []*syntax.LeafNode
+				for _, elem := range repr.Children {
+					leaves = append(leaves, findPathStrs([]*syntax.SyntaxNode{elem})...)
+				}
+				return leaves
+			}
+		}
+	}
+	return nil
 }
 
-// findFirstNamed returns the key-value pair of the first named pair node.
-func findFirstNamed(nodes []*syntax.SyntaxNode) (KeyValuePair, bool) {
-	node, ok := findFirst(nodes, syntax.SyntaxKindNamed)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	inner, ok := node.Repr.(*syntax.InnerNode)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	key, ok := findFirstIdent(inner.Children)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	value, ok := findFirstStr(inner.Children)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	kv := KeyValuePair{
-		Key:   key,
-		Value: value,
+// findNamedStr returns the string literal node of the named argument with the
+// given name.
+func findNamedStr(args []*syntax.SyntaxNode, name string) (*syntax.LeafNode, bool) {
+	for _, arg := range args {
+		inner, ok := arg.Repr.(*syntax.InnerNode)
+		if !ok || inner.Kind != syntax.SyntaxKindNamed {
+			continue
+		}
+		if key, ok := findFirstIdent(inner.Children); ok && key == name {
+			return findFirstStr(inner.Children)
+		}
 	}
-	return kv, true
+	return nil, false
 }
 
 // findFirstIdent returns the name of the first identifier node.
-- 
2.43.0


From 22f9cba173c2e3cb3905020bc56fe30817662ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 22/36] fix: offline-typ: refuse different contents for the
 same output file

---
 cmd/offline-typ/main.go | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index d6a5be2..43d52c9 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -402,7 +402,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath, libDir string) ([]*synta
 	// Copy local resources.
 	for _, localResourcePath := range localResourcePaths {
 		absResourcePath := filepath.Join(projectRoot.Name(), localResourcePath)
-		if resDone[absResourcePath] {
+		if resDone[absResourcePath] || typDone[absResourcePath] {
 			if verbose {
 				log.Printf("skipping %q (already copied)", absResourcePath)
 			}
@@ -420,7 +420,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath, libDir string) ([]*synta
 		if err := outRoot.MkdirAll(dir, 0o755); err != nil {
 			return nil, errors.WithStack(err)
 		}
-		if err := outRoot.WriteFile(localResourcePath, buf, 0o644); err != nil {
+		if err := writeFile(outRoot, localResourcePath, buf, absResourcePath); err != nil {
 			return nil, errors.WithStack(err)
 		}
 	}
@@ -428,12 +428,40 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath, libDir string) ([]*synta
 	// output new version of file.
 	out := &bytes.Buffer{}
 	syntax.PrintNode(out, rootNode)
-	if err := outRoot.WriteFile(relTypPath, out.Bytes(), 0o644); err != nil {
+	if err := writeFile(outRoot, relTypPath, out.Bytes(), absTypPath); err != nil {
 		return nil, errors.WithStack(err)
 	}
 	return specs, nil
 }
 
+// An outFile is a file stored in the output directory.
+type outFile struct {
+	// full path to original file.
+	origPath string
+	// contents of output file.
+	buf []byte
+}
+
+// track output files.
+//
+// key: full path to output file.
+var outFiles = make(map[string]outFile)
+
+// writeFile writes buf, originating from the file origPath, to the named output
+// file.
+func writeFile(outRoot *os.Root, relPath string, buf []byte, origPath string) error {
+	outPath := filepath.Join(outRoot.Name(), relPath)
+	// e.g. package of same name and version in different namespaces.
+	if prev, ok := outFiles[outPath]; ok && prev.origPath != origPath && !bytes.Equal(prev.buf, buf) {
+		return errors.Errorf("conflicting contents of %q, from %q and %q", outPath, prev.origPath, origPath)
+	}
+	outFiles[outPath] = outFile{origPath: origPath, buf: buf}
+	if err := outRoot.WriteFile(relPath, buf, 0o644); err != nil {
+		return errors.WithStack(err)
+	}
+	return nil
+}
+
 // getRelLocalPath returns the path relative to the given directory.
 func getRelLocalPath(relTypDir, path string) string {
 	if !filepath.IsAbs(path) {
-- 
2.43.0


From 2f74dc8cfe391929b1f3f360787e2e20e366eddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:17 +0000
Subject: [PATCH 23/36] fix: offline-typ: report errors other than a missing
 file

---
 cmd/offline-typ/main.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 43d52c9..328437a 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -327,7 +327,11 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath, libDir string) ([]*synta
 					if leaf, ok := findNamedStr(args.Children, "style"); ok {
 						cslPath := syntax.Unquote(leaf.Text)
 						localResourcePath := getRelLocalPath(relTypDir, cslPath)
-						if exist(projectRoot, localResourcePath) {
+						ok, err := exist(projectRoot, localResourcePath)
+						if err != nil && firstErr == nil {
+							firstErr = err
+						}
+						if ok {
 							addPathPrefix(leaf, libDir)
 							localResourcePaths = append(localResourcePaths, localResourcePath)
 						}
@@ -378,7 +382,11 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath, libDir string) ([]*synta
 					if leaf, ok := findNamedStr(args.Children, "style"); ok {
 						cslPath := syntax.Unquote(leaf.Text)
 						localResourcePath := getRelLocalPath(relTypDir, cslPath)
-						if exist(projectRoot, localResourcePath) {
+						ok, err := exist(projectRoot, localResourcePath)
+						if err != nil && firstErr == nil {
+							firstErr = err
+						}
+						if ok {
 							addPathPrefix(leaf, libDir)
 							localResourcePaths = append(localResourcePaths, localResourcePath)
 						}
@@ -389,6 +397,9 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath, libDir string) ([]*synta
 		return true
 	}
 	cstwalk.Walk(rootNode, visitResourceSetRule)
+	if firstErr != nil {
+		return nil, errors.WithStack(firstErr)
+	}
 
 	// Convert local Typst files.
 	for _, localTypPath := range localTypPaths {
@@ -748,14 +759,22 @@ func isUnix() bool {
 }
 
 // exist reports whether the given file exists within root.
-func exist(root *os.Root, path string) bool {
-	_, err := root.Stat(path)
-	return err == nil
+func exist(root *os.Root, path string) (bool, error) {
+	if _, err := root.Stat(path); err != nil {
+		if errors.Is(err, fs.ErrNotExist) {
+			return false, nil
+		}
+		return false, errors.WithStack(err)
+	}
+	return true, nil
 }
 
 // copyDir copies the given directory to the root file system.
 func copyDir(root *os.Root, dir string) error {
 	visit := func(path string, info fs.FileInfo, err error) error {
+		if err != nil {
+			return errors.WithStack(err)
+		}
 		if info.IsDir() {
 			if err := root.MkdirAll(path, 0o755); err != nil {
 				return errors.WithStack(err)
-- 
2.43.0


From 349429fd8b78a563de4ec2053dcff3ef6fda1dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:46 +0000
Subject: [PATCH 24/36] fix: parse-typ: report a failed write of the tree

---
 cmd/offline-typ/main.go |  4 +++-
 cmd/parse-typ/main.go   |  4 +++-
 cmd/update-typ/main.go  |  4 +++-
 typst/syntax/node.go    | 40 +++++++++++++++++++++++++++++-----------
 4 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 328437a..45c7662 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -438,7 +438,9 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath, libDir string) ([]*synta
 
 	// output new version of file.
 	out := &bytes.Buffer{}
-	syntax.PrintNode(out, rootNode)
+	if err := syntax.PrintNode(out, rootNode); err != nil {
+		return nil, errors.WithStack(err)
+	}
 	if err := writeFile(outRoot, relTypPath, out.Bytes(), absTypPath); err != nil {
 		return nil, errors.WithStack(err)
 	}
diff --git a/cmd/parse-typ/main.go b/cmd/parse-typ/main.go
index 9c64d9e..c591100 100644
--- a/cmd/parse-typ/main.go
+++ b/cmd/parse-typ/main.go
@@ -34,6 +34,8 @@ func parse(typPath string) error {
 	text := string(buf)
 	rootNode := syntax.Parse(text)
 	// print CST.
-	syntax.PrintRoot(rootNode)
+	if err := syntax.PrintRoot(rootNode); err != nil {
+		return errors.WithStack(err)
+	}
 	return nil
 }
diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 0505b3b..beffb3c 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -174,7 +174,9 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 
 	// output new version of file.
 	out := &bytes.Buffer{}
-	syntax.PrintNode(out, rootNode)
+	if err := syntax.PrintNode(out, rootNode); err != nil {
+		return nil, false, errors.WithStack(err)
+	}
 	if err := writeFile(outRoot, relTypPath, out.Bytes()); err != nil {
 		return nil, false, errors.WithStack(err)
 	}
diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index ade0ec1..b37c373 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -1221,36 +1221,54 @@ var ErrUnnumberable = errors.New("cannot number within this interval")
 
 // ### [ Helper functions ] ####################################################
 
-func PrintRoot(root *SyntaxNode) {
+// PrintRoot prints the given tree to standard output. It stops at the first
+// write error and returns it.
+func PrintRoot(root *SyntaxNode) error {
 	depth := 0
-	printTree(root, depth)
+	return printTree(root, depth)
 }
 
-func printTree(n *SyntaxNode, depth int) {
+func printTree(n *SyntaxNode, depth int) error {
 	pad := strings.Repeat("  ", depth)
 	depth++
 	switch repr := n.Repr.(type) {
 	case *LeafNode:
-		fmt.Printf("%sleaf (kind=%q) text=%q\n", pad, repr.Kind, repr.Text)
+		if _, err := fmt.Printf("%sleaf (kind=%q) text=%q\n", pad, repr.Kind, repr.Text); err != nil {
+			return err
+		}
 	case *InnerNode:
-		fmt.Printf("%sinner (kind=%q)\n", pad, repr.Kind)
+		if _, err := fmt.Printf("%sinner (kind=%q)\n", pad, repr.Kind); err != nil {
+			return err
+		}
 		for _, child := range repr.Children {
-			printTree(child, depth)
+			if err := printTree(child, depth); err != nil {
+				return err
+			}
 		}
 	case *ErrorNode:
-		fmt.Printf("%serror (text=%q) error=%q\n", pad, repr.Text, repr.Error.Message)
+		if _, err := fmt.Printf("%serror (text=%q) error=%q\n", pad, repr.Text, repr.Error.Message); err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
-func PrintNode(out io.Writer, node *SyntaxNode) {
+// PrintNode prints the source text of the given node to out. It stops at the
+// first write error and returns it.
+func PrintNode(out io.Writer, node *SyntaxNode) error {
 	switch repr := node.Repr.(type) {
 	case *LeafNode:
-		fmt.Fprint(out, repr.Text)
+		_, err := fmt.Fprint(out, repr.Text)
+		return err
 	case *InnerNode:
 		for _, child := range repr.Children {
-			PrintNode(out, child)
+			if err := PrintNode(out, child); err != nil {
+				return err
+			}
 		}
 	case *ErrorNode:
-		fmt.Fprint(out, repr.Text) // TODO: remove? return error or print warning?
+		_, err := fmt.Fprint(out, repr.Text) // TODO: remove? return error or print warning?
+		return err
 	}
+	return nil
 }
-- 
2.43.0


From 3c99b43883079d12505ddc419e768f3c278e3e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:12 +0000
Subject: [PATCH 25/36] fix: syntax: memoize a reparse that found no '=>' or
 '='

A parenthesized expression whose reparse as parameters or destructuring did
not find the expected token was not memoized, so nested occurrences were
parsed again and again: parsing time doubled with every level.
---
 typst/syntax/parser.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/typst/syntax/parser.go b/typst/syntax/parser.go
index 5f5581f..7d94b4f 100644
--- a/typst/syntax/parser.go
+++ b/typst/syntax/parser.go
@@ -1176,25 +1176,24 @@ func expr_with_paren(p *Parser, atomic bool) {
 		p.restore(checkpoint)
 		m := p.marker()
 		params(p)
-		if !p.expect(SyntaxKindArrow) {
-			return
+		if p.expect(SyntaxKindArrow) {
+			code_expr(p)
+			p.wrap(m, SyntaxKindClosure)
 		}
-		code_expr(p)
-		p.wrap(m, SyntaxKindClosure)
 	} else if p.at(SyntaxKindEq) && kind != SyntaxKindParenthesized {
 		p.restore(checkpoint)
 		m := p.marker()
 		destructuring_or_parenthesized(p, true, make(map[string]bool))
-		if !p.expect(SyntaxKindEq) {
-			return
+		if p.expect(SyntaxKindEq) {
+			code_expr(p)
+			p.wrap(m, SyntaxKindDestructAssignment)
 		}
-		code_expr(p)
-		p.wrap(m, SyntaxKindDestructAssignment)
 	} else {
 		return
 	}
 
-	// Memoize result if we backtracked.
+	// Memoize result if we backtracked, even if the reparse did not find the
+	// '=>' or '=' that made us backtrack.
 	p.memoize_parsed_nodes(memo_key, prev_len)
 }
 
-- 
2.43.0


From afeae4997d460d580d89904b79f7e1901d6c2cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 26/36] fix: syntax: do not copy the tree when looking up a
 span

A linked node is a view of a node in the tree. Copying the subtree whenever a
linked node is made took time quadratic in the size of the document for a
single lookup: 20 seconds for 14 kB.
---
 typst/syntax/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index b37c373..cbc4764 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -939,8 +939,8 @@ func (link *LinkedNode) find(span Span) (*LinkedNode, bool) {
 
 func (link *LinkedNode) clone() *LinkedNode {
 	return &LinkedNode{
-		node:   link.node.clone(),
-		parent: link.parent.Clone(), // TODO: implement deep clone?
+		node:   link.node, // NOTE: shared, a linked node is a view of the tree.
+		parent: link.parent.Clone(),
 		index:  link.index,
 		offset: link.offset,
 	}
-- 
2.43.0


From cc68d9a144d32f55235f0ff1bf2f5ee84e27dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 27/36] fix: syntax: give children visited backwards their
 start offset

The offset of a linked node reached through RevChildren (e.g. by prev_leaf) was
the end of the node.
---
 typst/syntax/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index cbc4764..c26adec 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -1199,8 +1199,8 @@ func (l *LinkedChildren) RevChildren() iter.Seq2[int, *LinkedNode] {
 	return func(yield func(int, *LinkedNode) bool) {
 		for index := len(l._children) - 1; index >= 0; index-- {
 			child := l._children[index]
-			offset := l.back
 			l.back -= child.len()
+			offset := l.back
 			link := &LinkedNode{
 				node:   child,
 				parent: option.Some(l.parent.clone()),
-- 
2.43.0


From 29dcb26b5bee252816d9bc3c0409902edc9b5027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 28/36] fix: highlight a hash that no expression follows

highlight_hash panicked on a hash in front of an error node.
---
 typst/syntax/highlight.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/highlight.go b/typst/syntax/highlight.go
index ab523bb..af416ae 100644
--- a/typst/syntax/highlight.go
+++ b/typst/syntax/highlight.go
@@ -572,8 +572,8 @@ func highlight_hash(node *LinkedNode) (Tag, bool) {
 	if !ok {
 		return 0, false
 	}
-	expr := SyntaxNode_cast[Expr](next.node).MustGet()
-	if !Expr_hash(expr) {
+	expr, ok := SyntaxNode_cast[Expr](next.node).Get()
+	if !ok || !Expr_hash(expr) {
 		return 0, false
 	}
 	if left, ok := next.leftmost_leaf(); ok {
-- 
2.43.0


From af238aaca2ad23b8b07e22c5b035801b52a67b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 29/36] fix: syntax: reparse code before markup text that is
 space in code

---
 typst/syntax/reparser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 94c6844..7172f3f 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/mewmew/typast/internal/option"
 	"github.com/mewmew/typast/internal/ranges"
+	"github.com/mewmew/typast/internal/stdx"
 )
 
 // Refresh the given syntax node with as little parsing as possible.
@@ -248,6 +249,10 @@ func expand(node *SyntaxNode) bool {
 	if kind == SyntaxKindSemicolon {
 		return true
 	}
+	// Text in markup may be space in code (e.g. a no-break space).
+	if kind == SyntaxKindText && all(node.text(), stdx.IsWhitespace) {
+		return true
+	}
 	switch node.text() {
 	case "/", ":":
 		return true
-- 
2.43.0


From cefcf2cb3e11f7214d17fd5a417827e3b43737cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 30/36] fix: syntax: keep the result of a union of sets

---
 typst/syntax/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/set.go b/typst/syntax/set.go
index 0e9bf7b..b2a2f5c 100644
--- a/typst/syntax/set.go
+++ b/typst/syntax/set.go
@@ -34,7 +34,7 @@ func (set *SyntaxSet) Add(kind SyntaxKind) *SyntaxSet {
 // The original set is not modified.
 func (set *SyntaxSet) Union(other *SyntaxSet) *SyntaxSet {
 	clone := set.Clone()
-	clone.b.Union(other.b)
+	clone.b.InPlaceUnion(other.b)
 	return clone
 }
 
-- 
2.43.0


From a485853330fac90dee25916c7ab6d212f0fb5410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 31/36] fix: syntax: lex a minus in code

---
 typst/syntax/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 3dd18f8..5443436 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -942,7 +942,7 @@ func (lexer *Lexer) code(start uint, c rune) SyntaxKind {
 		return SyntaxKindGtEq
 	case c == '+' && lexer.s.EatIf("="):
 		return SyntaxKindPlusEq
-	case c == '-' || c == '\u2212' && lexer.s.EatIf("="):
+	case (c == '-' || c == '\u2212') && lexer.s.EatIf("="):
 		return SyntaxKindHyphEq
 	case c == '*' && lexer.s.EatIf("="):
 		return SyntaxKindStarEq
-- 
2.43.0


From 2ae5dc0823ef845396817005642e0925a3ddb5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 32/36] fix: syntax: keep the kind of an identifier in math

---
 typst/syntax/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 5443436..a3facbe 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -133,7 +133,7 @@ func (lexer *Lexer) next() (SyntaxKind, *SyntaxNode) {
 			case SyntaxModeMath:
 				k, n := lexer.math(start, c)
 				if node, ok := n.Get(); ok {
-					return kind, node
+					return k, node
 				} else {
 					kind = k
 				}
-- 
2.43.0


From c83257d0816f0ed7a9f8a24adb722866ae09d0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 33/36] fix: syntax: lex a dot behind a number at the end of
 the text

---
 typst/syntax/lexer.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index a3facbe..d58aa23 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -1044,12 +1044,10 @@ func (lexer *Lexer) number(start uint, first_c rune) SyntaxKind {
 		if first_c == '.' {
 			is_float = true // We already ate the trailing digits above.
 		} else if !lexer.s.At("..") {
-			if c, ok := lexer.s.Scout(1); ok {
-				if !is_id_start(c) {
-					if lexer.s.EatIf(".") {
-						is_float = true
-						lexer.s.EatWhileFunc(stdx.IsAsciiDigit)
-					}
+			if c, ok := lexer.s.Scout(1); !ok || !is_id_start(c) {
+				if lexer.s.EatIf(".") {
+					is_float = true
+					lexer.s.EatWhileFunc(stdx.IsAsciiDigit)
 				}
 			}
 		}
-- 
2.43.0


From 8c0aaeea374e7fa3e86b26a70519db1cce2d08bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:51 +0000
Subject: [PATCH 34/36] fix: syntax: print the character in the error for one
 not valid in code

The rune was formatted as its number.
---
 typst/syntax/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index d58aa23..eae9107 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -994,7 +994,7 @@ func (lexer *Lexer) code(start uint, c rune) SyntaxKind {
 		return lexer.ident(start)
 
 	default:
-		return lexer.error(fmt.Sprintf("the character `%v` is not valid in code", c))
+		return lexer.error(fmt.Sprintf("the character `%c` is not valid in code", c))
 	}
 }
 
-- 
2.43.0


From 709e6f319d233ad4bb5c25b01e572c5d7ecb6647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:51 +0000
Subject: [PATCH 35/36] fix: syntax: report an empty string given twice as a
 key

---
 typst/syntax/parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/typst/syntax/parser.go b/typst/syntax/parser.go
index 7d94b4f..7623e60 100644
--- a/typst/syntax/parser.go
+++ b/typst/syntax/parser.go
@@ -1303,16 +1303,16 @@ func array_or_dict_item(p *Parser, state *GroupState) {
 			pair_kind = SyntaxKindKeyed
 		}
 
-		var key string
+		var key option.Option[string]
 		if expr, ok := SyntaxNode_cast[Expr](node).Get(); ok {
 			switch expr := expr.(type) {
 			case *Ident:
-				key = expr.get()
+				key = option.Some(expr.get())
 			case *Str:
-				key = expr.get()
+				key = option.Some(expr.get())
 			}
 		}
-		if len(key) > 0 {
+		if key, ok := key.Get(); ok {
 			if !map_insert(state.seen, key) {
 				node.convert_to_error(fmt.Sprintf("duplicate key: %v", key))
 			}
-- 
2.43.0


From acffb0b067870b3f057858b5eeb6dd54e690c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:05 +0000
Subject: [PATCH 36/36] fix: a line break in inline raw text is trimmed by
 itself

Scanner.EatIfFunc consumed all the characters in a row that satisfy the
condition instead of one, so that blank lines in raw text were merged into the
line break before them, and an exponent could have any number of signs.
---
 internal/scanner/scanner.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/internal/scanner/scanner.go b/internal/scanner/scanner.go
index 815867d..6f4e44c 100644
--- a/internal/scanner/scanner.go
+++ b/internal/scanner/scanner.go
@@ -203,30 +203,22 @@ func (s *Scanner) EatIf(pattern string) bool {
 	return true
 }
 
-// EatIfFunc consumes the given pattern (a sequence of characters that satisfy
-// cond) if that's what's right after the cursor.
+// EatIfFunc consumes the character right after the cursor if it satisfies cond.
 //
-// Returns true if the pattern was consumed.
+// Returns true if the character was consumed.
 func (s *Scanner) EatIfFunc(cond func(rune) bool) bool {
-	after := s.After()
-	n := len(after)
-	for i, c := range after {
-		if !cond(c) {
-			n = i
-			break
-		}
-	}
-	if n == 0 {
+	c, size := utf8.DecodeRuneInString(s.After())
+	if size == 0 || !cond(c) {
 		return false
 	}
-	s.cursor += uint(n)
+	s.cursor += uint(size)
 	return true
 }
 
-// EatIfAny consumes the given pattern (a sequence of any of the given
-// characters) if that's what's right after the cursor.
+// EatIfAny consumes the character right after the cursor if it is any of the
+// given characters.
 //
-// Returns true if the pattern was consumed.
+// Returns true if the character was consumed.
 func (s *Scanner) EatIfAny(valid []rune) bool {
 	cond := func(c rune) bool {
 		return slices.Contains(valid, c)
-- 
2.43.0

