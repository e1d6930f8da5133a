package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/mewmew/typast/internal/verifsim/sim"
	"github.com/mewmew/typast/typst/syntax"
)

// Well-formed documents: built by rules narrow enough that nothing in them is
// an error in Typst, with a mark around each construct that tells which kind
// of node the grammar makes of it.

const (
	markOpen  = 0xf0000 // plus the kind
	markClose = 0x100000
)

type construct struct {
	kind       syntax.SyntaxKind
	start, end int
	msg        string // of an error, with its hints
}

func tg(k syntax.SyntaxKind, s string) string {
	return string(rune(markOpen+int(k))) + s + string(rune(markClose))
}

// unmark removes the marks.
func unmark(s string) (string, []construct) {
	var b strings.Builder
	var all []construct
	var open []int
	for _, c := range s {
		switch {
		case c > markClose:
			all[open[len(open)-1]].msg = messages[c-markMessage]
		case c == markClose:
			all[open[len(open)-1]].end = b.Len()
			open = open[:len(open)-1]
		case c > markOpen && c < markClose:
			open = append(open, len(all))
			all = append(all, construct{syntax.SyntaxKind(c - markOpen), b.Len(), 0, ""})
		default:
			b.WriteRune(c)
		}
	}
	return b.String(), all
}

// counted are the kinds of which the marks show every node.
var counted = map[syntax.SyntaxKind]bool{}

func init() {
	for _, k := range []syntax.SyntaxKind{
		syntax.SyntaxKindStrong, syntax.SyntaxKindEmph, syntax.SyntaxKindRaw, syntax.SyntaxKindLink, syntax.SyntaxKindLabel, syntax.SyntaxKindRef,
		syntax.SyntaxKindEscape, syntax.SyntaxKindHeading, syntax.SyntaxKindListItem, syntax.SyntaxKindEnumItem, syntax.SyntaxKindTermItem, syntax.SyntaxKindEquation,
		syntax.SyntaxKindMathIdent, syntax.SyntaxKindMathShorthand, syntax.SyntaxKindMathAlignPoint, syntax.SyntaxKindLinebreak, syntax.SyntaxKindMathDelimited, syntax.SyntaxKindMathAttach,
		syntax.SyntaxKindMathPrimes, syntax.SyntaxKindMathFrac, syntax.SyntaxKindMathRoot, syntax.SyntaxKindCodeBlock, syntax.SyntaxKindContentBlock, syntax.SyntaxKindParenthesized,
		syntax.SyntaxKindArray, syntax.SyntaxKindDict, syntax.SyntaxKindFuncCall, syntax.SyntaxKindFieldAccess, syntax.SyntaxKindArgs, syntax.SyntaxKindNamed,
		syntax.SyntaxKindSpread, syntax.SyntaxKindKeyed, syntax.SyntaxKindUnary, syntax.SyntaxKindBinary, syntax.SyntaxKindClosure, syntax.SyntaxKindParams,
		syntax.SyntaxKindLetBinding, syntax.SyntaxKindSetRule, syntax.SyntaxKindShowRule, syntax.SyntaxKindConditional, syntax.SyntaxKindWhileLoop, syntax.SyntaxKindForLoop,
		syntax.SyntaxKindModuleImport, syntax.SyntaxKindModuleInclude, syntax.SyntaxKindRenamedImportItem, syntax.SyntaxKindContextual, syntax.SyntaxKindLoopBreak, syntax.SyntaxKindLoopContinue,
		syntax.SyntaxKindFuncReturn, syntax.SyntaxKindDestructuring, syntax.SyntaxKindDestructAssignment, syntax.SyntaxKindInt, syntax.SyntaxKindFloat, syntax.SyntaxKindNumeric,
		syntax.SyntaxKindBool, syntax.SyntaxKindNone, syntax.SyntaxKindAuto,
	} {
		counted[k] = true
	}
}

// wellFormed generates a document of moderate size.
func wellFormed() (string, []construct) {
	for {
		s := wfMarkup(1 + gi(4))
		if gi(3) == 0 {
			s = strings.TrimRight(s, " \r\n")
		}
		if gi(30) == 29 {
			s = tg(syntax.SyntaxKindShebang, "#!/usr/bin/env typst") + "\n" + s
		}
		s, marks := unmark(s)
		if gi(3) > 0 {
			s, marks = respace(s, marks)
		}
		if len(s) < 4000 {
			return s, marks
		}
	}
}

// respace writes some of the spaces between tokens of code in other ways.
func respace(s string, marks []construct) (string, []construct) {
	var all []place
	sim.SetBudget(budgetFor(len(s)))
	defer sim.SetBudget(1 << 60)
	pan, _ := safely(func() {
		root := syntax.Parse(s)
		if misparse(root, s, marks) == "" {
			all = places(root)
		}
	})
	if pan != nil || all == nil {
		return s, marks // to be found as it is
	}
	var b strings.Builder
	done := 0
	shift := make([]int, len(s)+1) // by how much what is behind moves
	for _, f := range all {
		if f.n.SyntaxKind() != syntax.SyntaxKindSpace || strings.ContainsAny(s[f.start:f.end], "\r\n") || gi(2) == 0 {
			continue
		}
		lines := false
		code := true
	up:
		for p := f.parent; ; p = all[p].parent {
			switch all[p].n.SyntaxKind() {
			case syntax.SyntaxKindArgs, syntax.SyntaxKindParams, syntax.SyntaxKindDestructuring, syntax.SyntaxKindArray, syntax.SyntaxKindDict, syntax.SyntaxKindParenthesized:
				lines = true
			case syntax.SyntaxKindCodeBlock:
				break up
			case syntax.SyntaxKindMarkup:
				code = p != f.parent
				break up
			case syntax.SyntaxKindMath, syntax.SyntaxKindEquation:
				code = false
				break up
			case syntax.SyntaxKindCode, syntax.SyntaxKindLetBinding, syntax.SyntaxKindSetRule, syntax.SyntaxKindShowRule, syntax.SyntaxKindConditional, syntax.SyntaxKindWhileLoop, syntax.SyntaxKindForLoop, syntax.SyntaxKindModuleImport, syntax.SyntaxKindModuleInclude, syntax.SyntaxKindContextual, syntax.SyntaxKindClosure, syntax.SyntaxKindBinary, syntax.SyntaxKindUnary, syntax.SyntaxKindNamed, syntax.SyntaxKindKeyed, syntax.SyntaxKindSpread, syntax.SyntaxKindFuncCall, syntax.SyntaxKindFieldAccess, syntax.SyntaxKindFuncReturn, syntax.SyntaxKindDestructAssignment, syntax.SyntaxKindImportItems, syntax.SyntaxKindRenamedImportItem:
			default:
				code = false
				break up
			}
		}
		if !code {
			continue
		}
		with := gpick("  ", "\t", "/* c */", " /* d */ ", "\u00a0", " /* // */", "/**/ \u2003")
		if lines && gi(2) == 0 {
			with = gpick("\n", " // e\n", "\r\n", "\n\n  ", "// f\r\n\t")
		}
		if f.start > 0 && strings.IndexByte("*/", s[f.start-1]) >= 0 {
			with = " " + with
		}
		if f.end < len(s) && strings.IndexByte("*/", s[f.end]) >= 0 {
			with += " "
		}
		b.WriteString(s[done:f.start])
		b.WriteString(with)
		done = f.end
		shift[f.end] = len(with) - (f.end - f.start)
	}
	b.WriteString(s[done:])
	sum := 0
	for i := range shift {
		sum += shift[i]
		shift[i] = sum
	}
	moved := make([]construct, len(marks))
	for i, m := range marks {
		moved[i] = construct{m.kind, m.start + shift[m.start], m.end + shift[m.end], m.msg}
	}
	return b.String(), moved
}

// blankDiff judges the white space between the elements of markup: two line
// breaks are what makes a new paragraph of the next line.
func blankDiff(n *syntax.SyntaxNode) string {
	r, ok := n.Repr.(*syntax.InnerNode)
	if !ok {
		return ""
	}
	if n.SyntaxKind() == syntax.SyntaxKindRaw {
		return rawDiff(r)
	}
	for _, c := range r.Children {
		if d := blankDiff(c); d != "" {
			return d
		}
		l, ok := c.Repr.(*syntax.LeafNode)
		if !ok || n.SyntaxKind() != syntax.SyntaxKindMarkup || l.Text == "" || strings.Trim(l.Text, " \t"+newlines) != "" {
			continue
		}
		lines := 0
		for _, c := range strings.ReplaceAll(l.Text, "\r\n", "\n") {
			if c != ' ' && c != '\t' {
				lines++
			}
		}
		want := syntax.SyntaxKindSpace
		if lines >= 2 {
			want = syntax.SyntaxKindParbreak
		}
		if c.SyntaxKind() != want {
			return fmt.Sprintf("the white space %q is a %v node, not a %v node", clip(l.Text, 100), c.SyntaxKind(), want)
		}
	}
	return ""
}

const newlines = "\r\n\v\f\u0085\u2028\u2029"

// rawDiff judges the parts of raw text on a line: the text between its line
// breaks and, trimmed, each of these.
func rawDiff(r *syntax.InnerNode) string {
	var parts []string
	for _, c := range r.Children {
		l, ok := c.Repr.(*syntax.LeafNode)
		if !ok {
			return "raw text has inner nodes"
		}
		parts = append(parts, fmt.Sprintf("%v %q", l.Kind, l.Text))
	}
	if len(parts) < 3 {
		return ""
	}
	if parts[0] != fmt.Sprintf("%v %q", syntax.SyntaxKindRawDelim, "`") {
		// How much of the space is trimmed is not judged.
		pos, last := 0, -1 // where the last line break was
		seen := -2
		for _, c := range r.Children {
			l := c.Repr.(*syntax.LeafNode)
			switch {
			case l.Kind == syntax.SyntaxKindText && strings.ContainsAny(l.Text, newlines):
				return fmt.Sprintf("in the raw block, the text %q has a line break in it", clip(l.Text, 300))
			case l.Kind == syntax.SyntaxKindText && l.Text != "":
				if seen == last {
					return fmt.Sprintf("in the raw block, the text %q is apart from the rest of its line", clip(l.Text, 300))
				}
				seen = last
			case l.Kind == syntax.SyntaxKindRawTrimmed && strings.TrimSpace(l.Text) != "":
				return fmt.Sprintf("in the raw block, %q is trimmed", clip(l.Text, 300))
			}
			if i := strings.LastIndexAny(l.Text, newlines); i >= 0 {
				last = pos + i
			}
			pos += len(l.Text)
		}
		return ""
	}
	in := ""
	for _, c := range r.Children[1 : len(r.Children)-1] {
		in += c.Repr.(*syntax.LeafNode).Text
	}
	var want []string
	add := func(k syntax.SyntaxKind, s string) { want = append(want, fmt.Sprintf("%v %q", k, s)) }
	rest := strings.NewReplacer("\r\n", "\r\n\x00", "\n", "\n\x00", "\r", "\r\x00", "\v", "\v\x00", "\f", "\f\x00", "\u0085", "\u0085\x00", "\u2028", "\u2028\x00", "\u2029", "\u2029\x00").Replace(in)
	for _, line := range strings.Split(rest, "\x00") {
		text := strings.TrimRight(line, newlines)
		add(syntax.SyntaxKindText, text)
		if text != line {
			add(syntax.SyntaxKindRawTrimmed, line[len(text):])
		}
	}
	if got := parts[1 : len(parts)-1]; strings.Join(got, ", ") != strings.Join(want, ", ") {
		return fmt.Sprintf("the raw text %q is made of %s, not of %s", clip(in, 300), clip(strings.Join(got, ", "), 600), clip(strings.Join(want, ", "), 600))
	}
	return ""
}

// misparse compares a tree with the constructs written.
func misparse(root *syntax.SyntaxNode, text string, marks []construct) string {
	var all []flat
	flatten(root, 0, &all)
	faulty := false
	for _, m := range marks {
		faulty = faulty || m.kind == syntax.SyntaxKindError
	}
	if faulty {
		marks = append([]construct{}, marks...)
		for i, m := range marks {
			if m.kind == syntax.SyntaxKindStrong || m.kind == syntax.SyntaxKindEmph {
				marks[i].end = m.start
			}
		}
	}
	has := map[construct]int{}
	var is []construct
	for _, f := range all {
		c := construct{f.n.SyntaxKind(), f.start, f.end, ""}
		switch r := f.n.Repr.(type) {
		case *syntax.ErrorNode:
			c.msg = strings.Join(append([]string{r.Error.Message}, r.Error.Hints...), "\x00")
		case *syntax.InnerNode:
			if c.kind == syntax.SyntaxKindMathAttach && len(r.Children) == 1 && r.Children[0].SyntaxKind() == c.kind {
				continue // x'_1 is wrapped once for the prime and once for the rest
			}
		}
		if faulty && (c.kind == syntax.SyntaxKindStrong || c.kind == syntax.SyntaxKindEmph) {
			c.end = c.start // one that is not closed has the blank lines and comments it ends at
		}
		is = append(is, c)
		has[c]++
	}
	if d := blankDiff(root); d != "" {
		return d
	}
	diff := func(is string, c construct, isnt string) string {
		what := fmt.Sprintf("%v node", c.kind)
		if c.kind == syntax.SyntaxKindError {
			what = fmt.Sprintf("error %q", strings.Split(c.msg, "\x00"))
		}
		return fmt.Sprintf("there is %s %s for %q at %d%s", is, what, clip(text[c.start:c.end], 300), c.start, isnt)
	}
	// errors first: they say the most
	want := map[construct]int{}
	for _, m := range marks {
		want[m]++
	}
	for _, c := range is {
		if c.kind == syntax.SyntaxKindError && has[c] > want[c] {
			return diff("the", c, ", which is none")
		}
	}
	for _, m := range marks {
		if has[m] == 0 {
			return diff("no", m, "")
		}
		has[m]--
	}
	for _, c := range is {
		if counted[c.kind] && has[c] > 0 && (!faulty || c.start < c.end) {
			return diff("the", c, ", which is none")
		}
	}
	return ""
}

func wfWord() string {
	return gpick("foo", "bar", "Lorem", "a", "é", "日本", "42", "x1", "😀", "big word", "etc.", "yes, no", "(in parens)", "don't", "e\u0301")
}

func wfName() string {
	return gpick("x", "y", "foo", "bar-baz", "_z", "é", "a1", "it", "日本", "x_y", "notes", "iffy", "inner", "letter")
}

// wfText is some text on one line.
func wfText(d int) string { return wfLine(d, true) }

func wfLine(d int, labels bool) string {
	s := wfWord()
	for i := gi(4); i > 0; i-- {
		s += " " + wfInline(d, labels)
	}
	return s
}

func wfContent(d int) string {
	switch gi(5) {
	case 0:
		return tg(syntax.SyntaxKindContentBlock, "[]")
	case 1:
		if d > 0 {
			return tg(syntax.SyntaxKindContentBlock, "["+gpick("\n", "\n\n")+wfMarkup(d-1)+"]")
		}
	}
	return tg(syntax.SyntaxKindContentBlock, "["+gpick("", " ")+wfText(d)+gpick("", " ")+"]")
}

func wfInline(d int, labels bool) string {
	if d <= 0 {
		return wfWord()
	}
	d--
	switch gi(21) {
	case 0:
		return tg(syntax.SyntaxKindStrong, "*"+gpick(wfWord(), wfWord()+" "+tg(syntax.SyntaxKindEmph, "_"+wfWord()+"_"), "["+wfWord()+"]", wfWord()+"\n"+wfWord(), wfWord()+" #"+wfAtom(min(d, 1))+"; b")+"*")
	case 1:
		return tg(syntax.SyntaxKindEmph, "_"+gpick(wfWord(), wfWord()+" "+tg(syntax.SyntaxKindStrong, "*"+wfWord()+"*")+" b")+"_")
	case 2:
		return tg(syntax.SyntaxKindRaw, "`"+gpick("raw", "a *b", "#x", "\\", "", "a\nb", "a \n\n b", "\r\n#\r\n\r\n\té", "\r\r\u2028$")+"`")
	case 3:
		return tg(syntax.SyntaxKindRaw, "```"+gpick("", "rust ", "c ")+gpick("x", "a ` b", "x `` y", "[", "$")+" ```")
	case 4:
		return tg(syntax.SyntaxKindLink, gpick("https://a.b/c", "http://x.y/(z)", "https://e/[f]?g=h", "https://a.b", "http://a-b.c/~d#e%20'f'g", "https://a.b/(c[d]*)_e")) + gpick("", "", ",", ".", ":", "!", "?", ";", "'")
	case 5:
		if labels {
			return tg(syntax.SyntaxKindLabel, "<"+gpick("a", "b:c", "é", "x.y", "a_b-c")+">")
		}
		return wfWord()
	case 6:
		ref := "@" + gpick("a", "b:c", "é", "x.y", "a_b-c")
		return gpick(tg(syntax.SyntaxKindRef, ref)+gpick("", ".", ":", ",", ";", "!", "..", ".:"), tg(syntax.SyntaxKindRef, ref+wfContent(d)))
	case 7:
		return tg(syntax.SyntaxKindEscape, gpick("\\#", "\\u{1f600}", "\\\\", "\\[", "\\$", "\\*", "\\_", "\\@", "\\<"))
	case 8:
		return gpick("'q'", "\"q\"", tg(syntax.SyntaxKindShorthand, "~"), tg(syntax.SyntaxKindShorthand, "---"), tg(syntax.SyntaxKindShorthand, "--"), tg(syntax.SyntaxKindShorthand, "..."), tg(syntax.SyntaxKindShorthand, "-?"))
	case 9:
		return "/* " + gpick("c", "/* n */ m", "#x", "] ) }", "\n") + " */" + gpick("", " ") + wfWord()
	case 10, 11:
		return wfEquation(d)
	case 12, 13, 14:
		return "#" + wfAtom(d) + gpick("", ";")
	case 15:
		call := tg(syntax.SyntaxKindFuncCall, wfName()+wfArgs(d))
		return "#" + gpick(call, tg(syntax.SyntaxKindFieldAccess, call+"."+wfName()), tg(syntax.SyntaxKindFuncCall, tg(syntax.SyntaxKindFieldAccess, call+"."+wfName())+wfArgs(d))) + gpick("", ";")
	case 16:
		return "#" + wfContent(d)
	case 17:
		return "#" + wfFlow(d)
	case 18:
		return "[" + wfLine(d, labels) + "]"
	case 19:
		return gpick("-", "+", "=", "1.", ":", "!", "%", "x/y", "a*b", "3 > 2", "snake_case_name", "(", ")")
	default:
		return wfWord()
	}
}

// wfItem is an item or a heading on the line of another item.
func wfItem(d, n int) string {
	in := wfText(d)
	if n > 0 && gi(2) == 0 {
		in = wfItem(d, n-1)
	}
	switch gi(4) {
	case 0:
		return tg(syntax.SyntaxKindListItem, "- "+in)
	case 1:
		return tg(syntax.SyntaxKindEnumItem, gpick("+ ", "7. ")+in)
	case 2:
		return tg(syntax.SyntaxKindTermItem, "/ "+wfWord()+": "+in)
	}
	return tg(syntax.SyntaxKindHeading, gpick("= ", "=== ")+wfLine(d, false))
}

// wfMarkup is some paragraphs, headings, items and statements, each on its own
// line.
func wfMarkup(d int) string {
	var b strings.Builder
	for i := gi(5); i >= 0; i-- {
		switch gi(12) {
		case 0:
			b.WriteString(tg(syntax.SyntaxKindHeading, strings.Repeat("=", 1+gi(4))+" "+gpick("", "", "", "- ", "+ ", "= ", "/ ", "2. ")+wfLine(d, false)))
		case 1:
			nested := ""
			switch gi(3) {
			case 0:
				nested = "\n  " + wfText(d)
			case 1:
				nested = "\n  " + tg(syntax.SyntaxKindListItem, "- "+wfText(d))
			}
			b.WriteString(tg(syntax.SyntaxKindListItem, "- "+wfText(d)+nested))
		case 2:
			b.WriteString(tg(syntax.SyntaxKindEnumItem, gpick("+ ", "1. ", "23. ")+gpick(wfText(d), wfText(d), wfItem(d, 2))))
		case 3:
			b.WriteString(tg(syntax.SyntaxKindTermItem, "/ "+gpick("", "", "", "- ", "+ ", "= ", "/ ", "2. ")+wfWord()+": "+gpick(wfText(d), wfText(d), wfItem(d, 2))))
		case 4:
			b.WriteString("// " + gpick("c", "#{ [ (", "*/", ""))
		case 5:
			b.WriteString(wfRaw())
		case 6, 7, 8:
			if d > 0 {
				b.WriteString("#" + wfStatement(d-1) + gpick("", ";"))
				break
			}
			fallthrough
		default:
			b.WriteString(wfText(d))
		}
		b.WriteString(gpick("\n", "\n", "\n\n", "\r\n", "\n\n\n", "\n  \n", "\n", "\n", "\n\n", gpick("\r", "\r\r", "\v", "\f\t\r\n", "\u0085", "\u2028", "\u2029\u2029", "\r\n\r\n")))
	}
	return b.String()
}

// wfRaw is a block of raw text, its lines indented alike or more.
func wfRaw() string {
	ticks := strings.Repeat("`", 3+gi(3))
	s := ticks
	if gi(3) > 0 {
		s += tg(syntax.SyntaxKindRawLang, gpick("py", "rust", "c", "é", "a-b_c", "x1"))
	}
	if gi(3) == 0 {
		s += " " + gpick("x y", "= a", "日本", "x ")
	}
	indent := strings.Repeat(gpick(" ", "\t"), gi(4))
	last := indent
	n := gi(4)
	if n > 0 && gi(2) == 0 {
		last += "  "
	}
	for i := 0; i < n; i++ {
		more := ""
		if i > 0 {
			more = gpick("", " ", "  ", "\t")
		}
		s += gpick("\n", "\n", "\r\n") + indent + more + gpick("x", "a b ", "*a*", "``", "`", "#let", "// c", "é", "]", "$")
		if gi(4) == 0 {
			s += "\n"
		}
	}
	return tg(syntax.SyntaxKindRaw, s+"\n"+last+ticks)
}

func wfBody(d int) string {
	switch gi(3) {
	case 0:
		return wfContent(d - 1)
	case 1:
		return tg(syntax.SyntaxKindCodeBlock, "{}")
	default:
		return tg(syntax.SyntaxKindCodeBlock, "{ "+wfCode(d-1)+" }")
	}
}

// wfFlow can follow a hash.
func wfFlow(d int) string {
	cond := wfAtom(d)
	switch gi(4) {
	case 0:
		return tg(syntax.SyntaxKindConditional, "if "+cond+" "+wfBody(d))
	case 1:
		s := "if " + cond + " " + wfBody(d) + " else "
		if gi(3) == 0 {
			return tg(syntax.SyntaxKindConditional, s+tg(syntax.SyntaxKindConditional, "if "+wfAtom(d)+" "+wfBody(d)+" else "+wfBody(d)))
		}
		return tg(syntax.SyntaxKindConditional, s+wfBody(d))
	case 2:
		return tg(syntax.SyntaxKindForLoop, "for "+wfPattern()+" in "+cond+" "+wfBody(d))
	default:
		return tg(syntax.SyntaxKindWhileLoop, "while "+cond+" "+wfBody(d))
	}
}

// wfStatement needs a line break or a semicolon behind it.
func wfStatement(d int) string {
	switch gi(15) {
	case 0, 1:
		return tg(syntax.SyntaxKindLetBinding, "let "+wfPattern()+" = "+wfExpr(d))
	case 2:
		return tg(syntax.SyntaxKindLetBinding, "let "+wfName())
	case 3:
		return tg(syntax.SyntaxKindLetBinding, "let "+tg(syntax.SyntaxKindClosure, wfName()+wfParams(d)+" = "+wfExpr(d)))
	case 4:
		return tg(syntax.SyntaxKindSetRule, "set "+wfName()+wfParens(d)+gpick("", " if "+wfAtom(d)))
	case 5:
		sel := gpick("heading", tg(syntax.SyntaxKindStr, "\"s\""), tg(syntax.SyntaxKindLabel, "<l>"), tg(syntax.SyntaxKindFieldAccess, "list.item"), tg(syntax.SyntaxKindFuncCall, "f"+tg(syntax.SyntaxKindArgs, "("+tg(syntax.SyntaxKindInt, "1")+")")))
		return tg(syntax.SyntaxKindShowRule, "show "+sel+gpick(": ", " : ", ":")+gpick(tg(syntax.SyntaxKindClosure, tg(syntax.SyntaxKindParams, "it")+" => "+wfExpr(d)), wfName(), tg(syntax.SyntaxKindSetRule, "set text"+wfParens(d)), wfContent(d)))
	case 6:
		return tg(syntax.SyntaxKindShowRule, gpick("show: ", "show : ")+gpick(wfName(), tg(syntax.SyntaxKindFuncCall, tg(syntax.SyntaxKindFieldAccess, "f.with")+wfParens(d)), tg(syntax.SyntaxKindClosure, tg(syntax.SyntaxKindParams, "it")+" => "+wfExpr(d))))
	case 7, 8:
		items := gpick("", ": x", ": *", ": x, "+tg(syntax.SyntaxKindRenamedImportItem, "y as z"), " as q", ": a.b", ": (x, y)", ": (\n  x,\n  y,\n)", ": "+tg(syntax.SyntaxKindRenamedImportItem, "a.b as c")+", d", " as q: x")
		return tg(syntax.SyntaxKindModuleImport, "import "+tg(syntax.SyntaxKindStr, "\""+gpick("a.typ", "@preview/p:0.1.0", "/a b.typ")+"\"")+items)
	case 9:
		return tg(syntax.SyntaxKindModuleInclude, "include "+tg(syntax.SyntaxKindStr, "\"a.typ\""))
	case 10, 11:
		return wfFlow(d)
	case 12:
		return tg(syntax.SyntaxKindModuleImport, "import m"+gpick(": x", ": *"))
	case 13:
		return tg(syntax.SyntaxKindContextual, "context "+wfAtom(d))
	default:
		return tg(syntax.SyntaxKindLetBinding, "let "+wfName()+" = "+tg(syntax.SyntaxKindParenthesized, gpick("(\n", "(")+wfExpr(d)+gpick("\n)", ")")))
	}
}

func wfCode(d int) string {
	if d < 0 {
		return ""
	}
	var s []string
	for i := gi(4); i > 0; i-- {
		switch gi(7) {
		case 5: // what goes on in the next line
			next := gpick("\n", "\n\t", "\r\n  ", " ")
			call := tg(syntax.SyntaxKindFuncCall, wfName()+wfArgs(d-1))
			s = append(s, gpick(tg(syntax.SyntaxKindConditional, "if "+wfAtom(d-1)+" "+wfBody(d-1)+next+"else "+wfBody(d-1)),
				tg(syntax.SyntaxKindFuncCall, tg(syntax.SyntaxKindFieldAccess, call+strings.TrimRight(next, " ")+"."+wfName())+wfArgs(d-1)),
				tg(syntax.SyntaxKindFieldAccess, tg(syntax.SyntaxKindFieldAccess, wfName()+strings.TrimRight(next, " ")+"."+wfName())+strings.TrimRight(next, " ")+"."+wfName())))
		case 6:
			s = append(s, tg(syntax.SyntaxKindBinary, wfName()+" = "+tg(syntax.SyntaxKindBinary, wfName()+gpick(" = ", " += ", " -= ")+wfExpr(d-1))))
		case 0, 1:
			s = append(s, wfStatement(d-1))
		case 2:
			s = append(s, tg(syntax.SyntaxKindBinary, wfName()+gpick(" = ", " += ", " -= ", " *= ", " /= ", "=", "+=")+wfExpr(d-1)))
		case 3:
			s = append(s, gpick(tg(syntax.SyntaxKindFuncReturn, "return"), tg(syntax.SyntaxKindLoopBreak, "break"), tg(syntax.SyntaxKindLoopContinue, "continue"),
				tg(syntax.SyntaxKindDestructAssignment, tg(syntax.SyntaxKindDestructuring, "(a, b)")+" = "+tg(syntax.SyntaxKindArray, "(b, a)")),
				tg(syntax.SyntaxKindFuncReturn, "return "+wfExpr(d-1)),
				tg(syntax.SyntaxKindDestructAssignment, tg(syntax.SyntaxKindDestructuring, "("+tg(syntax.SyntaxKindFieldAccess, "a.b")+", "+tg(syntax.SyntaxKindParenthesized, "(c)")+")")+" = "+wfName()),
				tg(syntax.SyntaxKindDestructAssignment, tg(syntax.SyntaxKindDestructuring, "(a, "+tg(syntax.SyntaxKindSpread, "..")+", b)")+" = c"),
				tg(syntax.SyntaxKindDestructAssignment, tg(syntax.SyntaxKindDestructuring, "("+tg(syntax.SyntaxKindNamed, gpick("k: a", "k : a"))+", _)")+" = "+wfAtom(d-1))))
		default:
			s = append(s, wfExpr(d-1))
		}
		s = append(s, gpick("\n", ";", "; ", " // c\n", "\n\n", ";\n", " /* d */\n", "\r\n"))
	}
	return strings.Join(s, "")
}

func wfPattern() string {
	p := func(s string) string { return tg(syntax.SyntaxKindDestructuring, s) }
	return gpick(wfName(), wfName(), "_", p("(a, b)"), p("(a, "+tg(syntax.SyntaxKindSpread, "..b")+")"), p("("+tg(syntax.SyntaxKindNamed, gpick("k: a", "k : a", "k:a"))+", b)"), p("(a, "+p("(b, _)")+")"), p("("+tg(syntax.SyntaxKindNamed, "a : b")+", a)"), p("(a, "+tg(syntax.SyntaxKindNamed, "b: "+p("(x, _)"))+", b)"), p("("+tg(syntax.SyntaxKindSpread, "..")+")"), p("(a,)"), p("("+tg(syntax.SyntaxKindParenthesized, "(a)")+", b)"), p("(a, "+tg(syntax.SyntaxKindSpread, "..")+", c)"))
}

func wfLiteral() string {
	switch gi(9) {
	case 0:
		return tg(syntax.SyntaxKindNone, "none")
	case 1:
		return tg(syntax.SyntaxKindAuto, "auto")
	case 2:
		return tg(syntax.SyntaxKindBool, gpick("true", "false"))
	case 3:
		return tg(syntax.SyntaxKindInt, gpick("1", "0", "0x1f", "0b101", "0o17", "123456789"))
	case 4:
		return tg(syntax.SyntaxKindFloat, gpick("1.5", "0.1", "1e3", "1e-7", "2.5E+2", "1.", ".5", ".5e1"))
	case 5:
		return tg(syntax.SyntaxKindNumeric, gpick("2pt", "50%", "1e3em", "3deg", "1.5cm", "2fr", "1.2e1in", "7rad", "3mm", ".5em", "100%", "1e-2%", "3.0in"))
	case 6:
		return tg(syntax.SyntaxKindLabel, "<l>")
	case 7:
		return tg(syntax.SyntaxKindRaw, "`r`")
	default:
		return tg(syntax.SyntaxKindStr, gpick("\"s\"", "\"\\n\\u{1f600}\\\"\"", "\"é 日本\"", "\"\"", "\"// /* [\"", "\"\n\""))
	}
}

// wfAtom can follow a hash and be an operand.
func wfAtom(d int) string {
	if d <= 0 {
		return gpick("x", "y", "foo", wfLiteral(), wfLiteral(), wfLiteral(), tg(syntax.SyntaxKindArray, "()"), tg(syntax.SyntaxKindDict, "(:)"), tg(syntax.SyntaxKindContentBlock, "[]"), tg(syntax.SyntaxKindCodeBlock, "{}"), tg(syntax.SyntaxKindEquation, "$x$"))
	}
	d--
	switch gi(15) {
	case 0:
		return tg(syntax.SyntaxKindFuncCall, wfName()+wfArgs(d))
	case 1:
		return tg(syntax.SyntaxKindFieldAccess, gpick(wfName(), tg(syntax.SyntaxKindFieldAccess, wfName()+"."+wfName()), wfParenthesized(d))+"."+wfName())
	case 2:
		return tg(syntax.SyntaxKindFuncCall, tg(syntax.SyntaxKindFieldAccess, wfName()+"."+wfName())+wfArgs(d))
	case 3, 4:
		return wfParenthesized(d)
	case 5:
		return tg(syntax.SyntaxKindArray, "("+wfExpr(d)+", "+wfExpr(d)+gpick("", ",", ",\n", ", "+tg(syntax.SyntaxKindSpread, ".."+wfExpr(d)))+")")
	case 6:
		return tg(syntax.SyntaxKindArray, "("+wfExpr(d)+",)")
	case 7:
		return tg(syntax.SyntaxKindDict, "("+tg(syntax.SyntaxKindNamed, gpick("k: ", "k : ", "k:")+wfExpr(d))+", "+tg(syntax.SyntaxKindKeyed, "\"l m\": "+wfExpr(d))+gpick("", ", "+tg(syntax.SyntaxKindSpread, "..x"), ",")+")")
	case 8, 9:
		return wfContent(d)
	case 10:
		return tg(syntax.SyntaxKindCodeBlock, "{"+gpick(" ", "\n")+wfCode(d)+"}")
	case 11:
		return wfEquation(d)
	case 12:
		f := tg(syntax.SyntaxKindFuncCall, wfName()+tg(syntax.SyntaxKindArgs, wfContent(d)+gpick("", wfContent(d))))
		return gpick(f, tg(syntax.SyntaxKindFuncCall, f+wfParens(d)))
	default:
		return wfAtom(0)
	}
}

func wfParenthesized(d int) string {
	return tg(syntax.SyntaxKindParenthesized, "("+gpick("", "\n", " ")+wfExpr(d)+gpick("", "\n", " // c\n", " ")+")")
}

// wfExpr is an expression that may be the whole of something.
func wfExpr(d int) string {
	if d <= 0 {
		return wfAtom(0)
	}
	d--
	switch gi(12) {
	case 0, 1, 2, 3:
		s, _ := wfOperation(1 + gi(3))
		return s
	case 4:
		return tg(syntax.SyntaxKindClosure, wfParams(d)+" => "+wfExpr(d))
	case 5:
		return tg(syntax.SyntaxKindClosure, tg(syntax.SyntaxKindParams, gpick(wfName(), wfName(), tg(syntax.SyntaxKindUnderscore, "_")))+" => "+wfExpr(d))
	case 6:
		return gpick(wfFlow(d), wfFlow(d), tg(syntax.SyntaxKindContextual, "context "+wfExpr(d)))
	default:
		return wfAtom(d)
	}
}

// wfOperation is an expression of operators with as few parentheses as their
// precedences allow. The number tells how strongly it binds, times ten.
func wfOperation(d int) (string, int) {
	if d <= 0 {
		return wfAtom(gi(2)), 100
	}
	d--
	need := func(least int) string {
		s, p := wfOperation(gi(d + 1))
		if p < least {
			return tg(syntax.SyntaxKindParenthesized, "("+s+")")
		}
		return s
	}
	switch gi(8) {
	case 0:
		return tg(syntax.SyntaxKindUnary, gpick("-", "+", "- ", "\u2212")+need(70)), 70
	case 1:
		// what binds as strongly as a comparison is part of the operand
		return tg(syntax.SyntaxKindUnary, "not "+need(40)), 35
	case 2:
		return wfOperation(d)
	}
	type level struct {
		prec int
		ops  []string
	}
	l := []level{
		{60, []string{" * ", " / ", "*", " /"}},
		{50, []string{" + ", " - ", "+", " - "}},
		{40, []string{" == ", " != ", " < ", " <= ", " > ", " >= ", " in ", " not in ", "=="}},
		{30, []string{" and "}},
		{20, []string{" or "}},
	}[gi(5)]
	left := need(l.prec)
	op := gpick(l.ops...)
	return tg(syntax.SyntaxKindBinary, left+op+need(l.prec+1)), l.prec
}

// wfParens are arguments in parentheses.
func wfParens(d int) string { return tg(syntax.SyntaxKindArgs, wfArgList(d)) }

// wfArgs may have trailing blocks of content.
func wfArgs(d int) string {
	return tg(syntax.SyntaxKindArgs, wfArgList(d)+gpick("", "", "", wfContent(d), wfContent(d)+wfContent(d)))
}

func wfArgList(d int) string {
	var s []string
	n := gi(4)
	for i := 0; i < n; i++ {
		e := wfExpr(d - 1)
		switch gi(4) {
		case 0:
			e = tg(syntax.SyntaxKindNamed, "k"+strconv.Itoa(i)+gpick(": ", ":", " : ")+e)
		case 1:
			e = tg(syntax.SyntaxKindSpread, ".."+e)
		}
		s = append(s, e)
	}
	out := strings.Join(s, gpick(", ", ",", ",\n", " , "))
	if n > 0 {
		out += gpick("", "", ",", " ", ",\n")
	}
	return "(" + gpick("", "", "\n") + out + ")"
}

func wfParams(d int) string {
	var s []string
	for i := gi(4); i > 0; i-- {
		name := "p" + strconv.Itoa(i)
		s = append(s, gpick(name, name, tg(syntax.SyntaxKindNamed, name+gpick(": ", " : ")+wfExpr(d-1)), tg(syntax.SyntaxKindDestructuring, "("+name+", _)"), "_"))
	}
	if gi(3) == 0 {
		s = append(s, tg(syntax.SyntaxKindSpread, gpick("..", "..rest")))
	}
	return tg(syntax.SyntaxKindParams, "("+strings.Join(s, gpick(", ", ",", ",\n"))+")")
}

func wfEquation(d int) string {
	return tg(syntax.SyntaxKindEquation, "$"+gpick("", " ", "\n")+wfMath(d)+gpick("", " ")+"$")
}

// wfMath is the inside of a formula.
func wfMath(d int) string {
	s := wfMathPiece(d)
	for i := gi(4); i > 0; i-- {
		s += gpick(" ", " ", " + ", " = ", "\n", " "+tg(syntax.SyntaxKindMathAlignPoint, "&")+" ", " "+tg(syntax.SyntaxKindLinebreak, "\\")+" ", ", ", "; ", "  ", " /* d */ ", " // c\n", " : ") + wfMathPiece(d)
	}
	return s
}

func wfMathIdent() string {
	return gpick(tg(syntax.SyntaxKindMathIdent, "alpha"), tg(syntax.SyntaxKindMathIdent, "RR"), tg(syntax.SyntaxKindMathIdent, "é1"), tg(syntax.SyntaxKindMathIdent, "sin"), tg(syntax.SyntaxKindFieldAccess, tg(syntax.SyntaxKindMathIdent, "arrow")+".r"), tg(syntax.SyntaxKindFieldAccess, tg(syntax.SyntaxKindMathIdent, "dots")+".c"), tg(syntax.SyntaxKindFieldAccess, tg(syntax.SyntaxKindFieldAccess, tg(syntax.SyntaxKindMathIdent, "ab")+".cd")+".e"))
}

func wfMathAtom() string {
	switch gi(6) {
	case 0, 1:
		return wfMathIdent()
	case 2:
		return tg(syntax.SyntaxKindStr, gpick("\"text\"", "\"a $ b\""))
	case 3:
		return tg(syntax.SyntaxKindEscape, gpick("\\$", "\\u{3b1}", "\\#", "\\&"))
	default:
		return gpick("x", "y", "12", "1.5", "é", "α", "𝑥", "∑", "∅", "z", tg(syntax.SyntaxKindMathIdent, "e\u0301"))
	}
}

func wfMathPiece(d int) string {
	if d <= 0 {
		return wfMathAtom()
	}
	d--
	attach := func(s string) string { return tg(syntax.SyntaxKindMathAttach, s) }
	primes := func(s string) string { return tg(syntax.SyntaxKindMathPrimes, s) }
	text := func(s string) string { return tg(syntax.SyntaxKindMathText, s) }
	parens := func() string {
		return tg(syntax.SyntaxKindMath, tg(syntax.SyntaxKindLeftParen, "(")+tg(syntax.SyntaxKindMath, wfMath(d))+tg(syntax.SyntaxKindRightParen, ")"))
	}
	group := func() string { return gpick(wfMathAtom(), parens()) }
	base := func() string { return gpick("x", "α", wfMathIdent()) }
	switch gi(20) {
	case 18, 17:
		// what directly follows a letter belongs to it
		in := tg(syntax.SyntaxKindMathDelimited, gpick(text("(")+wfMath(d)+text(")"), text("[")+" "+wfMathPiece(d)+" "+text("]")))
		f := tg(syntax.SyntaxKindMath, gpick("x", "é", "α", tg(syntax.SyntaxKindStr, "\"f\""), tg(syntax.SyntaxKindEscape, "\\$"))+in)
		if gi(4) == 0 {
			f = tg(syntax.SyntaxKindMath, wfMathIdent()+tg(syntax.SyntaxKindMathDelimited, text("[")+" "+wfMathPiece(d)+" "+text("]")))
		}
		return gpick(f,
			tg(syntax.SyntaxKindMathFrac, f+"/2"),
			tg(syntax.SyntaxKindMathFrac, "2/"+f),
			attach(f+gpick("_", "^")+wfMathAtom()),
			attach("x"+gpick("_", "^")+gpick("y", "α"))+in,
			tg(syntax.SyntaxKindMathRoot, "√"+f),
			"2"+in)
	case 0:
		return attach(wfMathAtom() + gpick("_", "^", " _ ") + group())
	case 1:
		return attach(wfMathAtom() + "_" + group() + "^" + group())
	case 2:
		return attach(wfMathAtom() + "^" + group() + "_" + group())
	case 3:
		return tg(syntax.SyntaxKindMathFrac, wfMathAtom()+gpick("/", " / ", "/ ")+group())
	case 4:
		return tg(syntax.SyntaxKindMathFrac, parens()+"/"+parens())
	case 5:
		return tg(syntax.SyntaxKindMathFrac, tg(syntax.SyntaxKindMathFrac, wfMathAtom()+"/"+group())+"/"+wfMathAtom())
	case 6:
		root := tg(syntax.SyntaxKindMathRoot, gpick("√", "∛", "∜")+group())
		return gpick(root, root, tg(syntax.SyntaxKindMathFrac, wfMathAtom()+"/"+root), tg(syntax.SyntaxKindMathFrac, root+"/2"))
	case 7:
		p := gpick("'", "''", strings.Repeat("'", 3))
		return gpick(attach(base()+primes(p)), attach(base()+primes(p)+"_1"), attach(base()+primes(p)+"^2_"+group()),
			attach(wfMathAtom()+"_"+attach(base()+primes(p))+gpick("^2", "^"+group(), "")), attach(wfMathAtom()+"^"+attach(base()+primes(p))+gpick("_2", "_"+group(), "")),
			tg(syntax.SyntaxKindMathShorthand, "->")+" "+tg(syntax.SyntaxKindMath, primes(p)+tg(syntax.SyntaxKindMathDelimited, text("(")+wfMath(d)+text(")"))))
	case 8:
		return gpick(base()+"!", base()+"!!", tg(syntax.SyntaxKindMathFrac, base()+"!/2"))
	case 9, 10:
		return gpick(tg(syntax.SyntaxKindMathDelimited, text("(")+wfMath(d)+text(")")), tg(syntax.SyntaxKindMathDelimited, text("[")+" "+wfMath(d)+" "+text("]")), tg(syntax.SyntaxKindMathDelimited, text("{")+wfMathPiece(d)+text("}")), tg(syntax.SyntaxKindMathDelimited, text("⟨")+wfMath(d)+text("⟩")), tg(syntax.SyntaxKindMathDelimited, text("⌈")+wfMathPiece(d)+text("⌉")), tg(syntax.SyntaxKindMathDelimited, tg(syntax.SyntaxKindMathShorthand, "[|")+wfMathPiece(d)+" "+tg(syntax.SyntaxKindMathShorthand, "|]")), tg(syntax.SyntaxKindMathDelimited, text("(")+wfMathPiece(d)+" "+text("]")), tg(syntax.SyntaxKindMathShorthand, "||")+wfMathPiece(d)+" "+tg(syntax.SyntaxKindMathShorthand, "||"), "| "+wfMathPiece(d)+" |")
	case 11, 12, 13:
		call := tg(syntax.SyntaxKindFuncCall, wfMathIdent()+tg(syntax.SyntaxKindArgs, tg(syntax.SyntaxKindLeftParen, "(")+wfMathArgs(d)+tg(syntax.SyntaxKindRightParen, ")")))
		return gpick(call, call, tg(syntax.SyntaxKindMathFrac, call+"/2"), attach(call+"_1"), attach(call+primes("'")), call+"!",
			call+tg(syntax.SyntaxKindMathDelimited, text("(")+wfMath(d)+text(")")), call+tg(syntax.SyntaxKindMathFrac, parens()+"/2"))
	case 14:
		return tg(syntax.SyntaxKindMathShorthand, gpick("...", "-", "*", "~", "!=", ":=", "::=", "=:", "<<", "<<<", ">>", ">>>", "<=", ">=", "->", "-->", "|->", ">->", "->>", "<-", "<--", "<-<", "<<-", "<->", "<-->", "~>", "~~>", "<~", "<~~", "=>", "|=>", "==>", "<==", "<=>", "<==>", "||"))
	case 15:
		return "#" + gpick(wfAtom(d), tg(syntax.SyntaxKindFuncCall, wfName()+wfArgs(d)), tg(syntax.SyntaxKindFieldAccess, wfName()+"."+wfName())) + ";"
	case 16:
		return tg(syntax.SyntaxKindMathFrac, attach("x_1")+"/"+wfMathAtom())
	default:
		return wfMathAtom()
	}
}

func wfMathArgs(d int) string {
	n := gi(4)
	if gi(3) == 0 {
		// rows
		var rows []string
		for i := gi(3); i >= 0; i-- {
			row := gpick(wfMathPiece(d), wfMathPiece(d), tg(syntax.SyntaxKindSpread, ".."+wfMathIdent()))
			for j := gi(3); j > 0; j-- {
				row += gpick(", ", ",", " , ") + gpick(wfMathPiece(d), wfMathAtom()+" "+wfMathAtom())
			}
			rows = append(rows, tg(syntax.SyntaxKindArray, row))
		}
		return gpick("", " ") + strings.Join(rows, gpick("; ", ";", " ;\n")) + ";" + gpick("", " ", tg(syntax.SyntaxKindArray, wfMathAtom()))
	}
	var s []string
	for i := 0; i < n; i++ {
		s = append(s, gpick(wfMathPiece(d), wfMathAtom()+" "+wfMathPiece(d), tg(syntax.SyntaxKindSpread, "..#x"), tg(syntax.SyntaxKindNamed, "k"+strconv.Itoa(i)+": "+wfMathAtom()), tg(syntax.SyntaxKindNamed, "k"+strconv.Itoa(i)+":"+wfMathAtom())))
	}
	out := strings.Join(s, gpick(", ", ",", ",\n", " , "))
	if n > 0 {
		out += gpick("", "", ",", " ")
	}
	return out
}
