package main

import (
	"strings"
	"unicode/utf8"

	"github.com/mewmew/typast/internal/verifsim/sim"
)

func gi(n int) int              { return sim.Intn(sim.Gen, n) }
func gpick(s ...string) string  { return s[gi(len(s))] }
func gchance(num, den int) bool { return sim.Chance(sim.Gen, num, den) }

var wordList = []string{"a", "b", "foo", "bar", "x", "é", "日本", "😀", "e\u0301", "1", "42", "hello world", "don't", "\"q\"", "Größe", "n-th", "\u200d", "ﷺ", "\ufeff", "\u00a0", "A.", "..", "!?", "_", "*", "'", "=>", "\ufffd"}

var newlineList = []string{"\n", "\n\n", "\r\n", "\r", "\v", "\f", "\u0085", "\u2028", "\u2029", "\n \n", "\n  ", "  \n", "\r\n\r\n", "\n\r"}

var soup = []string{
	"[", "]", "(", ")", "{", "}", "#", "*", "_", "`", "```", "\"", "\\", "/", "//", "/*", "*/", "=", "==", "-", "--", "---", "+", "/ ", ":", ";", ",", ".", "..", "...", "=>", "<", ">", "<a>", "@", "@a", "~", "'", "\n", "\r", "\r\n", "\n\n", " ", "\t", "  ",
	"#let ", "#set ", "#show ", "#if ", "else ", "#for ", " in ", "#while ", "#import ", "#include ", "#return ", "#context ", "#break", "#continue", "let x = 1", "f(x)", "f[y]", "x.y", "none", "auto", "true", "and ", "or ", "not ", "as ", "import", "1.0em", "0x1f", "50%", "1e5", "2pt", "\"s\"", "\\u{1f600}", "\\#", "https://a.b/c?d=(e)", "http://", "é", "日本", "😀", "\u0301", "\u00a0", "\u2028", "\u0085", "\ufeff", "\ufffd", "- a", "+ b", "1. c", "/ t: d", "= h", "#{", "#[", "#(", "```rust\n", "`r`", "*/ ", "/* ", "// c\n", "x", "ab", "0", "_a", "-?", "#f(", "=>", "+=", "!=", "<=", "\v", "\f",
	"$", "$", "$ ", " $", "$x$", "$ a_1^2 $", "^", "_(", "√", "&", "[|", "|]", "||", "'", "''", "mat(", "a, b; c", "x.y.z", "..x", "k: ", "!", "->", ":=", "α", "⟨", "⟩", "∑", "𝑥", "(\u0301", "1.5",
	"\u00a0", "\u2003", "\u00a0 ", " \u3000", "\u00a0// c", "\u00a0 + 1",
}

func word() string    { return wordList[gi(len(wordList))] }
func newline() string { return newlineList[gi(len(newlineList))] }

func ident() string {
	return gpick("x", "y", "foo", "bar-baz", "_z", "é", "a1", "it", "日本")
}

// markup generates a piece of a document.
func markup(depth int) string {
	var b strings.Builder
	n := 1 + gi(5)
	for i := 0; i < n; i++ {
		b.WriteString(markupPiece(depth))
	}
	return b.String()
}

func markupPiece(depth int) string {
	if depth <= 0 {
		return gpick("a", " ", "b c", "\n", "é", "\n\n") + word()
	}
	d := depth - 1
	switch gi(33) {
	case 32: // what is space in code only, behind code
		return "#" + embedded(d) + gpick("", " ", "\n") + gpick("\u00a0", "\u2003", "\u00a0\u00a0", "\u3000") + gpick("", " ", "\n", "// c\n", " // c\n", "+ 1", " + 1", "else [b]", "else", "/* d */", "(z)", "[c]", ".d", ".", ";", "\r\n")
	case 0:
		return word()
	case 1:
		return " "
	case 2:
		return newline()
	case 3:
		return "\n" + strings.Repeat("=", 1+gi(4)) + " " + markupLine(d) + "\n"
	case 4:
		return "\n- " + markupLine(d) + gpick("\n", "\n  ", "\n- b\n", "")
	case 5:
		return "\n" + gpick("+", "1.", "23.") + " " + markupLine(d) + gpick("\n", "\n  ", "\n+ b\n", "")
	case 6:
		return "\n/ " + word() + ": " + markupLine(d) + "\n"
	case 7:
		return "*" + markup(d) + "*"
	case 8:
		return "_" + markup(d) + "_"
	case 9:
		return "`" + word() + "`"
	case 10:
		return "```" + gpick("", "rust ", "c\n", "py\n  ") + word() + gpick("", "\n", " ` ", "\n  x\n  ") + "```"
	case 11:
		return gpick("https://a.b/c", "http://x.y/(z)", "https://e/[f]") + gpick(" ", "", ".")
	case 12:
		return word() + " <" + gpick("a", "b:c", "é") + ">"
	case 13:
		return "@" + gpick("a", "b:c", "r.") + gpick("", "[s]", " ")
	case 14:
		return gpick("\\#", "\\u{1f600}", "\\\\", "\\", "\\\n", "\\[", "\\u{zz}", "\\ ")
	case 15:
		return gpick("---", "--", "...", "~", "-?", "'", "\"")
	case 16:
		return "// " + word() + gpick("\n", "\r\n", "\u2028", "")
	case 17:
		return "/* " + word() + gpick(" ", "\n", " /* n */ ") + "*/"
	case 18:
		return "#[" + markup(d) + "]"
	case 19, 20, 21:
		return "#" + embedded(d) + gpick("", "", ";", " ", "\n", ".")
	case 22:
		return "[" + markup(d) + "]"
	case 23:
		return gpick(":", "/", ";", "!", "(", ")")
	case 24:
		return "#{" + gpick("", " ", "\n") + code(d) + "}"
	case 25:
		return "#let " + ident() + " = " + expr(d) + gpick("\n", ";", "")
	case 26:
		return "\n\n" + markup(d)
	case 27:
		return soup[gi(len(soup))]
	case 28, 29:
		return equation(d)
	default:
		return word() + " "
	}
}

func markupLine(depth int) string {
	s := word()
	for i := gi(3); i > 0; i-- {
		s += markupPiece(depth)
	}
	return s
}

// embedded generates an expression that can follow a hash.
func embedded(d int) string {
	switch gi(22) {
	case 0:
		return ident()
	case 1:
		return ident() + "(" + args(d) + ")" + gpick("", "[z]", ".x")
	case 2:
		return "let " + pattern(d) + " = " + expr(d)
	case 3:
		return "set " + ident() + "(" + args(d) + ")" + gpick("", " if "+expr(d))
	case 4:
		return "show " + gpick("", ident(), "\"x\"", "<a>") + ": " + expr(d)
	case 5:
		return "if " + expr(d) + " " + block(d) + gpick("", " else "+block(d), " else if x "+block(d))
	case 6:
		return "while " + expr(d) + " " + block(d)
	case 7:
		return "for " + pattern(d) + " in " + expr(d) + " " + block(d)
	case 8:
		return "import \"" + gpick("a.typ", "@preview/p:0.1.0") + "\"" + gpick("", ": x", ": *", ": (x, y as z)", " as q", ": a.b")
	case 9:
		return "include \"a.typ\""
	case 10:
		return gpick("return", "break", "continue", "return x")
	case 11:
		return "context " + expr(d)
	case 12:
		return "[" + markup(d) + "]"
	case 13:
		return "{" + code(d) + "}"
	case 14:
		return "(" + expr(d) + ")"
	case 15:
		return "let " + ident() + "(" + params(d) + ") = " + expr(d)
	case 16:
		return gpick("1pt", "none", "auto", "true", "\"s\"", "50%", "0b1", "1e3em", "<l>")
	case 17:
		return "(" + args(d) + ")"
	case 18:
		return "let " + ident()
	case 19:
		return ident() + "." + ident() + gpick("", "()", "[c]")
	default:
		return ident() + "[" + markup(d) + "]"
	}
}

func block(d int) string {
	if gi(2) == 0 {
		return "[" + markup(d-1) + "]"
	}
	return "{" + code(d-1) + "}"
}

func code(depth int) string {
	if depth < 0 {
		return ""
	}
	var b strings.Builder
	for i := gi(4); i >= 0; i-- {
		if gi(3) == 0 {
			b.WriteString(embedded(depth - 1))
		} else {
			b.WriteString(expr(depth - 1))
		}
		b.WriteString(gpick("\n", ";", " ; ", "\n\n", " ", "// c\n", "/* d */"))
	}
	return b.String()
}

func expr(d int) string {
	if d <= 0 {
		return gpick("x", "1", "\"s\"", "none", "y", "2.5pt", "é")
	}
	d--
	switch gi(20) {
	case 0:
		return expr(d) + gpick(" + ", "-", " * ", "/", " and ", " or ", " == ", " != ", " < ", " <= ", " in ", " not in ", " = ", " += ", " -= ", " *= ", " /= ") + expr(d)
	case 1:
		return gpick("-", "+", "not ") + expr(d)
	case 2:
		return "(" + args(d) + ")"
	case 3:
		return "[" + markup(d) + "]"
	case 4:
		return "{" + code(d) + "}"
	case 5:
		return ident() + "(" + args(d) + ")"
	case 6:
		return gpick(ident(), "("+params(d)+")") + " => " + expr(d)
	case 7:
		return ident() + "." + ident()
	case 8:
		return "(" + expr(d) + ")"
	case 9:
		return "if " + expr(d) + " " + block(d) + " else " + block(d)
	case 10:
		return "\"" + gpick("a", "\\n", "\\\"", "\\u{1f600}", "é\n", "\\u{110000}") + "\""
	case 11:
		return gpick("`r`", "```c d```", "<l>", "@r", "0xff", "1.2.3", "1e400", "99999999999999999999", "5deg", "3x")
	case 12:
		return "(" + ident() + ": " + expr(d) + ", \"k\": " + expr(d) + ")"
	case 13:
		return "(..x, y: " + expr(d) + ")"
	case 14:
		return "(:)"
	case 15:
		return equation(d)
	default:
		return gpick("x", "1", "\"s\"", "none", "y", "2.5pt", "true", "auto")
	}
}

func args(d int) string {
	var s []string
	for i := gi(4); i > 0; i-- {
		s = append(s, gpick("", "k: ", "..", "\n")+expr(d))
	}
	return strings.Join(s, gpick(", ", ",", ",\n", ";")) + gpick("", ",", " ")
}

func params(d int) string {
	var s []string
	for i := gi(4); i > 0; i-- {
		s = append(s, gpick(ident(), ident()+": "+expr(d), ".."+ident(), "..", "_", "(a, b)"))
	}
	return strings.Join(s, ", ")
}

func pattern(d int) string {
	return gpick(ident(), "_", "(a, b)", "(a, ..b)", "(x: y, z)", "(a, (b, _))", "()")
}

// equation generates a formula.
func equation(d int) string {
	space := gpick("", " ", "\n")
	return "$" + space + formula(d) + space + gpick("$", "$", "$", "$", "$", "")
}

// formula generates the inside of a formula.
func formula(d int) string {
	var b strings.Builder
	for i := 1 + gi(4); i > 0; i-- {
		b.WriteString(formulaPiece(d))
		b.WriteString(gpick("", "", " ", " ", "\n", "  "))
	}
	return b.String()
}

func formulaAtom() string {
	return gpick("x", "y", "a", "12", "1.5", "3.", "abc", "é", "α", "𝑥", "∑", "∅", "+", "-", "=", "!", "?", "\"s\"", "\"é\\\"\"", "\\$", "\\u{3b1}", "\\", "\\\n",
		"&", "'", "''", "e\u0301", "(\u0301", "\u0301", "日本", "😀", "👩\u200d👩\u200d👧", "..", "...", ",", ";", ":", "\u00a0", "|", "||", "[|", "|]", "⟨", "⌉", "🇪🇺", "_", "^", "/", "√", "-?", "\ufffd", "@", "`", "<a>", "{", "}", "*", "~")
}

func formulaPiece(d int) string {
	if d <= 0 {
		return formulaAtom()
	}
	d--
	switch gi(22) {
	case 0, 1:
		return formulaPiece(d) + gpick("_", "^") + formulaPiece(d)
	case 2:
		return formulaPiece(d) + gpick("_", "^") + formulaPiece(d) + gpick("_", "^") + formulaPiece(d)
	case 3:
		return formulaPiece(d) + gpick("/", " / ") + formulaPiece(d)
	case 4:
		return gpick("√", "∛", "∜") + formulaPiece(d)
	case 5:
		return formulaPiece(d) + gpick("'", "''", "' '", "'''_1", "!", "!!", "'!")
	case 6, 7:
		return gpick("(", "[", "{", "⟨", "⌈", "[|", "|") + formula(d) + gpick(")", "]", "}", "⟩", "⌉", "|]", "|", "")
	case 8, 9, 10:
		return gpick("f", "sin", "mat", "x.y", "arrow.r.long", "vec", "é1", "f ") + "(" + formulaArgs(d) + gpick(")", ")", ")", ")", "")
	case 11:
		return "#" + embedded(d) + gpick("", ";", " ", ".")
	case 12:
		return gpick("x.y", "a.b.c", "x.", ".y", "x.1", "x. y", "ab.cd'")
	case 13:
		return gpick("->", "->>", "-->", ":=", "::=", "!=", "...", "[|", "<==>", "<-->", "<--", "<-<", "<->", "<<-", "<<<", "<=>", "<==", "<~~", "<=", "<<", "<-", "<~", ">->", ">>>", "==>", "=>", "=:", ">=", ">>", "|->", "|=>", "|]", "||", "~~>", "~>")
	case 14:
		return gpick("// c\n", "/* d */", "/*", "\"", "`r`", "#[", "#{")
	case 15:
		return soup[gi(len(soup))]
	default:
		return formulaAtom()
	}
}

func formulaArgs(d int) string {
	var b strings.Builder
	for i := gi(6); i > 0; i-- {
		b.WriteString(gpick("", "", "", "k: ", "k:", "_:", "_a: ", "..", "...", ".. ", "k:=", "k ::=", "2: ", "é-b: ", "é_:", " ", "\n"))
		b.WriteString(gpick("", formulaPiece(d), formula(d)))
		b.WriteString(gpick(", ", ",", "; ", ";", " ;", ""))
	}
	return b.String()
}

// clean leaves half of the texts without math mode.
func clean(s string) string {
	if gi(2) == 0 {
		return s
	}
	return strings.ReplaceAll(s, "$", "")
}

// document generates a whole text.
func document() string {
	var s string
	switch gi(13) {
	case 0:
		s = ""
	case 10, 11:
		s, _ = wellFormed()
	case 12:
		s, _ = withMistakes()
	case 1:
		s = soupText(1 + gi(12))
	case 2:
		s = markup(1)
	case 3:
		s = strings.Repeat(markup(2), 1+gi(3))
	default:
		s = markup(1 + gi(4))
	}
	if gi(4) == 0 {
		s = mutate(s)
	}
	s = clean(s)
	if len(s) > 3000 {
		s = cutAt(s, 3000)
	}
	return s
}

// longText generates a text of many lines, items or siblings.
func longText() string {
	size := 3000 << gi(4) // up to 24 KB
	var item func() string
	pre, post := "", ""
	depth := 1 + gi(2)
	switch gi(13) {
	case 0:
		pre, post = "#{\n", "}\n"
		item = func() string { return embedded(depth) + gpick("\n", ";", "\n\n") }
	case 1:
		pre, post = "#let x = (", ")\n"
		item = func() string { return expr(depth) + gpick(", ", ",\n", ",") }
	case 2:
		pre, post = "```c\n", "```\n"
		item = func() string { return word() + gpick("\n", " ", "\n  ") }
	case 3: // one line
		item = func() string { return strings.NewReplacer("\n", " ", "\r", " ").Replace(markupPiece(depth)) }
	case 4:
		item = func() string { return "- " + word() + gpick("\n", "\n  ", "\n- b\n") }
	case 5:
		item = func() string { return word() + newline() }
	case 6:
		pre, post = "/* ", " */\n"
		item = func() string { return word() + gpick("\n", " ") }
	case 7:
		pre, post = "$ ", " $\n"
		item = func() string { return formula(depth) }
	case 8:
		pre, post = "$ mat(", ") $\n"
		item = func() string { return formula(depth) + gpick(", ", "; ") }
	case 9:
		pre, post = "*a [", "]*\n"
		item = func() string { return markupPiece(depth) }
	default:
		item = func() string { return markupPiece(depth) }
	}
	// a few different items, and the same again
	var items []string
	for i := 1 + gi(60); i > 0; i-- {
		items = append(items, item())
	}
	var b strings.Builder
	b.WriteString(markup(1))
	b.WriteString(pre)
	for i := 0; b.Len() < size; i++ {
		b.WriteString(items[(i*i+i/7)%len(items)])
		if len(items[(i*i+i/7)%len(items)]) == 0 {
			b.WriteString("a\n")
		}
	}
	b.WriteString(post)
	b.WriteString(markup(1))
	return clean(b.String())
}

func cutAt(s string, n int) string {
	for n > 0 && n < len(s) && !utf8.RuneStart(s[n]) {
		n--
	}
	return s[:min(n, len(s))]
}

func soupText(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(soup[gi(len(soup))])
	}
	return b.String()
}

// bounds returns the decode boundaries of s.
func bounds(s string) []int {
	out := make([]int, 0, len(s)+1)
	for i := range s {
		out = append(out, i)
	}
	return append(out, len(s))
}

// mutate applies small random changes at character boundaries.
func mutate(s string) string {
	for i := 1 + gi(4); i > 0; i-- {
		b := bounds(s)
		x := b[gi(len(b))]
		y := x
		if gi(2) == 0 {
			j := 0
			for b[j] != x {
				j++
			}
			y = b[min(j+gi(4), len(b)-1)]
		}
		s = s[:x] + gpick("", soup[gi(len(soup))], word()) + s[y:]
	}
	return s
}

// damage does to a text what failing storage does: it may leave bytes that
// are not valid UTF-8. old is the previous content.
func damage(s, old string) string {
	if s == "" {
		return old
	}
	switch gi(6) {
	case 0: // short write
		return s[:gi(len(s)+1)]
	case 1: // torn write: a prefix of the new, the rest of the old content
		k := gi(len(s) + 1)
		if k < len(old) {
			return s[:k] + old[k:]
		}
		return s[:k]
	case 2: // flipped bit
		k := gi(len(s))
		b := []byte(s)
		b[k] ^= 1 << gi(8)
		return string(b)
	case 3: // zeroed block
		k := gi(len(s))
		n := min(1+gi(16), len(s)-k)
		return s[:k] + strings.Repeat("\x00", n) + s[k+n:]
	case 4: // duplicated block
		k := gi(len(s))
		n := min(1+gi(16), len(s)-k)
		return s[:k+n] + s[k:]
	default: // lost block
		k := gi(len(s))
		n := min(1+gi(16), len(s)-k)
		return s[:k] + s[k+n:]
	}
}
