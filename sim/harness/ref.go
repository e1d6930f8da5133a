package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/mewmew/typast/typst/syntax"
)

// The reference definitions: counting through the text.

func isNL(r rune) bool {
	switch r {
	case '\n', '\v', '\f', '\r', '\u0085', '\u2028', '\u2029':
		return true
	}
	return false
}

type refLines struct {
	text   string
	bounds []int // byte offsets of characters, and the end
	u16    []int // UTF-16 offset at each boundary
	line   []int // line at each boundary
	col    []int // column at each boundary
	starts []int // index into bounds of each line start
}

func newRef(text string) *refLines {
	r := &refLines{text: text}
	r.starts = []int{0}
	u, line, col := 0, 0, 0
	prevCR := false
	for i, c := range text {
		k := len(r.bounds)
		if prevCR && c == '\n' {
			// the pair is one newline: its line ends behind the \n.
			line--
			col = k - r.starts[len(r.starts)-2]
			r.starts = r.starts[:len(r.starts)-1]
		}
		r.bounds = append(r.bounds, i)
		r.u16 = append(r.u16, u)
		r.line = append(r.line, line)
		r.col = append(r.col, col)
		u++
		if c >= 0x10000 {
			u++
		}
		col++
		if isNL(c) {
			line++
			col = 0
			r.starts = append(r.starts, k+1)
		}
		prevCR = c == '\r'
	}
	r.bounds = append(r.bounds, len(text))
	r.u16 = append(r.u16, u)
	r.line = append(r.line, line)
	r.col = append(r.col, col)
	return r
}

func (r *refLines) index(b int) int {
	lo, hi := 0, len(r.bounds)-1
	for lo < hi {
		m := (lo + hi) / 2
		if r.bounds[m] < b {
			lo = m + 1
		} else {
			hi = m
		}
	}
	if r.bounds[lo] != b {
		return -1
	}
	return lo
}

// tableDiff compares a line table with the reference.
func (r *refLines) tableDiff(l *syntax.Lines) string {
	if l.Text != r.text {
		return fmt.Sprintf("text is %q, want %q", clip(l.Text, 300), clip(r.text, 300))
	}
	if len(l.Lines) != len(r.starts) {
		return fmt.Sprintf("%d lines, want %d, for text %q", len(l.Lines), len(r.starts), clip(r.text, 300))
	}
	for i, k := range r.starts {
		if int(l.Lines[i].ByteIdx) != r.bounds[k] || int(l.Lines[i].Utf16Idx) != r.u16[k] {
			return fmt.Sprintf("line %d starts at byte %d, UTF-16 %d; want %d, %d, for text %q", i, l.Lines[i].ByteIdx, l.Lines[i].Utf16Idx, r.bounds[k], r.u16[k], clip(r.text, 300))
		}
	}
	return ""
}

const huge = ^uint(0)

// check compares every conversion at boundary k with the reference.
func (r *refLines) check(l *syntax.Lines, k int) string {
	b := uint(r.bounds[k])
	if v, ok := l.ByteToUtf16(b); !ok || int(v) != r.u16[k] {
		return fmt.Sprintf("ByteToUtf16(%d) = %d, %v; want %d", b, v, ok, r.u16[k])
	}
	if v, ok := l.Utf16ToByte(uint(r.u16[k])); !ok || v != b {
		return fmt.Sprintf("Utf16ToByte(%d) = %d, %v; want %d", r.u16[k], v, ok, b)
	}
	if v, ok := l.ByteToLine(b); !ok || int(v) != r.line[k] {
		return fmt.Sprintf("ByteToLine(%d) = %d, %v; want %d", b, v, ok, r.line[k])
	}
	if v, ok := l.ByteToColumn(b); !ok || int(v) != r.col[k] {
		return fmt.Sprintf("ByteToColumn(%d) = %d, %v; want %d", b, v, ok, r.col[k])
	}
	if v, ok := l.ByteToLineColumn(b); !ok || int(v.Line) != r.line[k] || int(v.Col) != r.col[k] {
		return fmt.Sprintf("ByteToLineColumn(%d) = %v, %v; want %d:%d", b, v, ok, r.line[k], r.col[k])
	}
	if v, ok := l.LineColumnToByte(uint(r.line[k]), uint(r.col[k])); !ok || v != b {
		return fmt.Sprintf("LineColumnToByte(%d, %d) = %d, %v; want %d", r.line[k], r.col[k], v, ok, b)
	}
	return ""
}

// checkLine compares the conversions of line i.
func (r *refLines) checkLine(l *syntax.Lines, i int) string {
	start, end := r.bounds[r.starts[i]], len(r.text)
	chars := len(r.bounds) - 1 - r.starts[i]
	if i+1 < len(r.starts) {
		end = r.bounds[r.starts[i+1]]
		chars = r.starts[i+1] - r.starts[i]
	}
	if v, ok := l.LineToByte(uint(i)); !ok || int(v) != start {
		return fmt.Sprintf("LineToByte(%d) = %d, %v; want %d", i, v, ok, start)
	}
	if v, ok := l.LineToRange(uint(i)); !ok || int(v.Start) != start || int(v.End) != end {
		return fmt.Sprintf("LineToRange(%d) = %v, %v; want %d..%d", i, v, ok, start, end)
	}
	if v, ok := l.LineColumnToByte(uint(i), uint(chars)); !ok || int(v) != end {
		return fmt.Sprintf("LineColumnToByte(%d, %d) = %d, %v; want %d", i, chars, v, ok, end)
	}
	for _, c := range []uint{uint(chars) + 1, uint(chars) + 7, 1 << 63, huge} {
		if v, ok := l.LineColumnToByte(uint(i), c); ok {
			return fmt.Sprintf("LineColumnToByte(%d, %d) = %d is accepted, the line has %d characters", i, c, v, chars)
		}
	}
	return ""
}

// checkOutside checks that positions outside the text are rejected.
func (r *refLines) checkOutside(l *syntax.Lines) string {
	n := uint(len(r.text))
	u := uint(r.u16[len(r.u16)-1])
	if v := l.LenBytes(); v != n {
		return fmt.Sprintf("LenBytes() = %d; want %d", v, n)
	}
	if v := l.LenUtf16(); v != u {
		return fmt.Sprintf("LenUtf16() = %d; want %d", v, u)
	}
	if v := l.LenLines(); int(v) != len(r.starts) {
		return fmt.Sprintf("LenLines() = %d; want %d", v, len(r.starts))
	}
	for _, x := range []uint{n + 1, n + 100, 1 << 63, huge} {
		if v, ok := l.ByteToUtf16(x); ok {
			return fmt.Sprintf("ByteToUtf16(%d) = %d is accepted, the text has %d bytes", x, v, n)
		}
		if v, ok := l.ByteToLine(x); ok {
			return fmt.Sprintf("ByteToLine(%d) = %d is accepted, the text has %d bytes", x, v, n)
		}
		if v, ok := l.ByteToColumn(x); ok {
			return fmt.Sprintf("ByteToColumn(%d) = %d is accepted, the text has %d bytes", x, v, n)
		}
		if v, ok := l.ByteToLineColumn(x); ok {
			return fmt.Sprintf("ByteToLineColumn(%d) = %v is accepted, the text has %d bytes", x, v, n)
		}
	}
	for _, x := range []uint{u + 1, u + 100, 1 << 63, huge} {
		if v, ok := l.Utf16ToByte(x); ok {
			return fmt.Sprintf("Utf16ToByte(%d) = %d is accepted, the text has %d units", x, v, u)
		}
	}
	m := uint(len(r.starts))
	for _, x := range []uint{m, m + 1, m + 100, 1 << 63, huge - 1, huge} {
		if v, ok := l.LineToByte(x); ok {
			return fmt.Sprintf("LineToByte(%d) = %d is accepted, there are %d lines", x, v, m)
		}
		if v, ok := l.LineToRange(x); ok {
			return fmt.Sprintf("LineToRange(%d) = %v is accepted, there are %d lines", x, v, m)
		}
		if v, ok := l.LineColumnToByte(x, 0); ok {
			return fmt.Sprintf("LineColumnToByte(%d, 0) = %d is accepted, there are %d lines", x, v, m)
		}
	}
	return ""
}

// boundary reports whether b is a character boundary of s under both readings
// of bytes that are not valid UTF-8 (each such byte is a character; a byte
// that looks like a continuation never starts one).
func boundary(s string, b int) bool {
	if b == 0 || b == len(s) {
		return true
	}
	if b < 0 || b > len(s) || !utf8.RuneStart(s[b]) {
		return false
	}
	// decode from the nearest preceding start.
	i := b - 1
	for i > 0 && b-i < 4 && !utf8.RuneStart(s[i]) {
		i--
	}
	for i < b {
		_, n := utf8.DecodeRuneInString(s[i:])
		i += n
	}
	return i == b
}

// --- trees ---

func nodeLen(n *syntax.SyntaxNode) int {
	switch r := n.Repr.(type) {
	case *syntax.LeafNode:
		return len(r.Text)
	case *syntax.InnerNode:
		return int(r.Len)
	case *syntax.ErrorNode:
		return len(r.Text)
	}
	return 0
}

func kids(n *syntax.SyntaxNode) []*syntax.SyntaxNode {
	if r, ok := n.Repr.(*syntax.InnerNode); ok {
		return r.Children
	}
	return nil
}

func spanOf(n *syntax.SyntaxNode) syntax.Span {
	switch r := n.Repr.(type) {
	case *syntax.LeafNode:
		return r.Span
	case *syntax.InnerNode:
		return r.Span
	case *syntax.ErrorNode:
		return r.Error.Span
	}
	return 0
}

func brief(n *syntax.SyntaxNode) string {
	switch r := n.Repr.(type) {
	case *syntax.LeafNode:
		return fmt.Sprintf("leaf %v %q", r.Kind, r.Text)
	case *syntax.InnerNode:
		return fmt.Sprintf("inner %v (len %d, descendants %d, erroneous %v, %d children)", r.Kind, r.Len, r.Descendants, r.Erroneous, len(r.Children))
	case *syntax.ErrorNode:
		return fmt.Sprintf("error %q (%q, hints %q)", r.Text, r.Error.Message, r.Error.Hints)
	}
	return fmt.Sprintf("%T", n.Repr)
}

// treeDiff compares two trees apart from spans.
func treeDiff(got, want *syntax.SyntaxNode, path string) string {
	bad := func() string { return fmt.Sprintf("at %s: got %s, want %s", path, brief(got), brief(want)) }
	switch a := got.Repr.(type) {
	case *syntax.LeafNode:
		b, ok := want.Repr.(*syntax.LeafNode)
		if !ok || a.Kind != b.Kind || a.Text != b.Text {
			return bad()
		}
	case *syntax.ErrorNode:
		b, ok := want.Repr.(*syntax.ErrorNode)
		if !ok || a.Text != b.Text || a.Error.Message != b.Error.Message || strings.Join(a.Error.Hints, "\x00") != strings.Join(b.Error.Hints, "\x00") {
			return bad()
		}
	case *syntax.InnerNode:
		b, ok := want.Repr.(*syntax.InnerNode)
		if !ok || a.Kind != b.Kind || len(a.Children) != len(b.Children) {
			return bad()
		}
		for i := range a.Children {
			if d := treeDiff(a.Children[i], b.Children[i], fmt.Sprintf("%s/%d", path, i)); d != "" {
				return d
			}
		}
		if a.Len != b.Len || a.Descendants != b.Descendants || a.Erroneous != b.Erroneous {
			return bad()
		}
	default:
		return bad()
	}
	return ""
}

// dump writes a tree, with span numbers if asked, for comparison.
func dump(b *strings.Builder, n *syntax.SyntaxNode, spans bool) {
	if spans {
		fmt.Fprintf(b, "%x:", spanOf(n).Number())
	}
	switch r := n.Repr.(type) {
	case *syntax.LeafNode:
		fmt.Fprintf(b, "L%d%q", r.Kind, r.Text)
	case *syntax.ErrorNode:
		fmt.Fprintf(b, "E%q%q%q", r.Text, r.Error.Message, r.Error.Hints)
	case *syntax.InnerNode:
		fmt.Fprintf(b, "I%d,%d,%d,%v(", r.Kind, r.Len, r.Descendants, r.Erroneous)
		if spans {
			fmt.Fprintf(b, "^%x ", r.Upper)
		}
		for _, c := range r.Children {
			dump(b, c, spans)
		}
		b.WriteString(")")
	}
}

func dumpString(n *syntax.SyntaxNode, spans bool) string {
	var b strings.Builder
	dump(&b, n, spans)
	return b.String()
}

// flat is a node with its range.
type flat struct {
	n          *syntax.SyntaxNode
	start, end int
}

func flatten(n *syntax.SyntaxNode, off int, out *[]flat) int {
	i := len(*out)
	*out = append(*out, flat{n, off, 0})
	end := off
	if r, ok := n.Repr.(*syntax.InnerNode); ok {
		for _, c := range r.Children {
			end = flatten(c, end, out)
		}
	} else {
		end += nodeLen(n)
	}
	(*out)[i].end = end
	return end
}

// treeConsistent checks lengths, counts and error flags, and that the leaves
// make up the text.
func treeConsistent(root *syntax.SyntaxNode, text string) string {
	var leaves strings.Builder
	var rec func(n *syntax.SyntaxNode, path string) (length, desc int, err bool, diff string)
	rec = func(n *syntax.SyntaxNode, path string) (int, int, bool, string) {
		switch r := n.Repr.(type) {
		case *syntax.LeafNode:
			leaves.WriteString(r.Text)
			return len(r.Text), 1, false, ""
		case *syntax.ErrorNode:
			leaves.WriteString(r.Text)
			return len(r.Text), 1, true, ""
		case *syntax.InnerNode:
			l, d, e := 0, 1, false
			for i, c := range r.Children {
				l1, d1, e1, diff := rec(c, fmt.Sprintf("%s/%d", path, i))
				if diff != "" {
					return 0, 0, false, diff
				}
				l, d, e = l+l1, d+d1, e || e1
			}
			if int(r.Len) != l || int(r.Descendants) != d || r.Erroneous != e {
				return 0, 0, false, fmt.Sprintf("at %s: %s; its children make up length %d, descendants %d, erroneous %v", path, brief(n), l, d, e)
			}
			return l, d, e, ""
		}
		return 0, 0, false, fmt.Sprintf("at %s: unknown node %T", path, n.Repr)
	}
	_, _, _, diff := rec(root, "root")
	if diff != "" {
		return diff
	}
	if leaves.String() != text {
		return fmt.Sprintf("the leaves make up %q, the text is %q", clip(leaves.String(), 400), clip(text, 400))
	}
	return ""
}

// spanDiff checks the numbering of a tree.
func spanDiff(root *syntax.SyntaxNode, id syntax.FileID) string {
	seen := map[uint64]string{}
	var rec func(n *syntax.SyntaxNode, path string, lo, hi uint64) (last uint64, diff string)
	rec = func(n *syntax.SyntaxNode, path string, lo, hi uint64) (uint64, string) {
		sp := spanOf(n)
		f, ok := sp.ID()
		if !ok || f != id {
			return 0, fmt.Sprintf("%s %s has span %#x, of file %d (%v); want file %d", path, brief(n), uint64(sp), f, ok, id)
		}
		num := sp.Number()
		if num < syntax.SpanFull.Start || num >= syntax.SpanFull.End {
			return 0, fmt.Sprintf("%s %s has span number %#x outside the numbered range", path, brief(n), num)
		}
		if p, ok := seen[num]; ok {
			return 0, fmt.Sprintf("%s %s has the same span number %#x as %s", path, brief(n), num, p)
		}
		seen[num] = path
		if num < lo || num >= hi {
			return 0, fmt.Sprintf("%s %s has span number %#x, outside [%#x, %#x) left by its parent and the siblings before it", path, brief(n), num, lo, hi)
		}
		last := num
		if r, ok := n.Repr.(*syntax.InnerNode); ok {
			for i, c := range r.Children {
				l, diff := rec(c, fmt.Sprintf("%s/%d", path, i), last+1, min(hi, r.Upper))
				if diff != "" {
					return 0, diff
				}
				last = l
			}
		}
		return last, ""
	}
	_, d := rec(root, "root", syntax.SpanFull.Start, syntax.SpanFull.End)
	return d
}
