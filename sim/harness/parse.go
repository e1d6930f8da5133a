package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/mewmew/typast/internal/verifsim/sim"
	"github.com/mewmew/typast/typst/syntax"
)

// C04: parsing whatever storage delivers.

// budgetFor is the work allowed for a text: statements executed.
func budgetFor(n int) uint64 {
	u := uint64(n) + 50
	return 2_000_000 + 4000*u + 60*u*u
}

func deepText() string {
	n := 20 + gi(300)
	if gi(60) == 0 {
		n *= 10
	}
	pre := ""
	open := gpick("[", "(", "{", "#[", "#(", "#{", "*", "_", "#f(", "#f[", "- ", "= ", "/ a: ", "#let x = ", "#if x [", "#(x: ", "#not ", "(", "/* ", "[#{", "#{[", "-", "+", "#x.", "#{x => ", "#{(", "#show: ", "#context ", "#{if (", "#{let (", "$", "$ (", "$#[", "$ f1(", "$ x^", "$ a_", "$ √", "$ mat(a: ", "$ #(", "$ [|", "$ a/")
	// a formula is opened again at each step, or once for all of them
	if o, ok := strings.CutPrefix(open, "$ "); ok && gi(3) > 0 {
		pre, open = "$ ", o
	}
	s := pre
	for i := 0; i < n; i++ {
		s += open
	}
	if gi(2) == 0 {
		s += word()
	}
	if gi(2) == 0 {
		c := gpick("]", ")", "}", "\n", "]}", "}]", " */", "$", ") $", "]$")
		for i := gi(n + 1); i > 0; i-- {
			s += c
		}
	}
	return s
}

var nests = [][2]string{
	{"(x: ", ") => y"}, {"(x: ", ")"}, {"(x, ", ") => y"}, {"(x, ", ") = y"}, {"((", "),) = y"}, {"(..", ") => y"}, {"(x: (y), z: ", ") = y"},
	{"(", ")"}, {"(", ") => y"}, {"(x) => ", ""}, {"f(", ")"}, {"f(x: ", ")"}, {"f(", ")[z]"}, {"f[", "]"}, {"[", "]"}, {"{", "}"}, {"{\n", "\n}"},
	{"#f(", ")"}, {"#{", "}"}, {"#[", "]"}, {"#(", ")"}, {"let (x, ", ") = y"}, {"let f(x: ", ") = y"}, {"let x = ", ""}, {"if ", " {} else {}"},
	{"if x {", "} else if y {}"}, {"for x in ", " {}"}, {"for (x, ", ") in y {}"}, {"while ", " {}"}, {"show x: ", ""}, {"set f(", ")"}, {"context ", ""}, {"not ", ""},
	{"x => ", ""}, {"(x: y, ..", ")"}, {"(", ",)"}, {"*", "*"}, {"_", "_"}, {"- ", "\n"}, {"= ", "\n"}, {"/ a: ", "\n"}, {"/*", "*/"}, {"return ", ""}, {"import ", ": x"}, {"import x: (", ")"}, {"(x).y(", ")"},
	{"x = ", ""}, {"x in (", ")"}, {"-", ""}, {"(_, ", ") = y"}, {"{(", ") => y}"}, {"#let (", ") = x"},
	{"$", "$"}, {"$ ", " $"}, {"f1(", ")"}, {"mat(x, ", "; y)"}, {"mat(k: ", ")"}, {"mat(..", ")"}, {"x^(", ")"}, {"x_", ""}, {"√(", ")"}, {"(", ")/2"}, {"1/(", ")"}, {"[|", "|]"}, {"⟨", "⟩"}, {"(", "]"}, {"x'_(", ")"}, {"$#[", "]$"}, {"#{", "} _"},
}

// nestText nests a few constructs in one another in a regular pattern, which
// is what makes a parser that tries things several times exponential.
func nestText() string {
	k := 1
	if gi(2) == 0 {
		k += 1 + gi(3)
	}
	var pat [][2]string
	for i := 0; i < k; i++ {
		pat = append(pat, nests[gi(len(nests))])
	}
	n := 12 + gi(60)
	pre, post := "", ""
	for i := 0; i < n; i++ {
		p := pat[i%k]
		pre += p[0]
		post = p[1] + post
	}
	core := gpick("", "x", "(x) => y", "(x, y) = z", "]", ")", "\"", "...")
	switch gi(8) {
	case 0:
		post = post[:gi(len(post)+1)]
	case 1:
		core += pat[0][1]
	}
	s := gpick("#{", "#(", "#[", "#", "", "#let x = ", "$ ", "$") + pre + core + post + gpick("", "}", ")", "]", "\n", "$", " $")
	switch gi(4) {
	case 0:
		s = gpick("]", "#{)}\n", "#f(]\n", "*", "#(x: x: )\n", "\"") + gpick("", "\n", " ") + s
	case 1:
		s += gpick("]", "#{", "*", "\"")
	}
	return s
}

// stored generates a text as failing storage delivers it.
func stored() (text, how string, faults int) {
	var old string
	regular := false
	switch gi(10) {
	case 9:
		text, _ = wellFormed()
		how = "well-formed"
	case 0:
		text, how = soupText(1+gi(40)), "soup"
	case 1:
		text, how = deepText(), "deep nesting"
	case 8:
		text, how = nestText(), "regular nesting"
		regular = gi(2) == 0
	case 2:
		text, how = code(4), "code"
	case 3:
		text, how = document()+document()+document(), "long"
	default:
		text, how = document(), "document"
	}
	if gi(3) > 0 && !regular {
		old = document()
		if gi(2) == 0 {
			old = mutate(text)
		}
		n := 1 + gi(3)
		for i := 0; i < n; i++ {
			text = damage(text, old)
			faults++
		}
		how += ", damaged"
	}
	text = clean(text)
	return text, how, faults
}

// storedText is one of them of moderate size.
func storedText() string {
	text, _, _ := stored()
	if len(text) > 1200 {
		text = clean(text[:1200])
	}
	return text
}

func runParse(r *Run) {
	text, how, faults := stored()
	for ; faults > 0; faults-- {
		r.count("fault damage", 1)
	}
	r.tracef("%s: %d bytes: %q", how, len(text), text)
	r.Sample = fmt.Sprintf("%s: %q", how, clip(text, 600))
	if len(text) >= 4 {
		r.Keys = append(r.Keys, hash(text))
	}
	plain := text
	modes := []string{"document", "block of code"}
	if gi(2) == 0 {
		modes = append(modes, gpick("formula", "code", "math"))
	}
	for _, mode := range modes {
		text := plain
		parse := syntax.Parse
		switch mode {
		case "block of code":
			text = "#{" + plain + "\n}"
		case "formula":
			text = "$ " + plain + "\n$"
		case "code", "math":
			f, ok := internals["parse_"+mode].(func(string) *syntax.SyntaxNode)
			if !ok {
				continue
			}
			parse = f
		}
		r.Evals++
		var root *syntax.SyntaxNode
		start := sim.Steps()
		sim.SetBudget(budgetFor(len(text)))
		pan, where := safely(func() { root = parse(text) })
		sim.SetBudget(1 << 60)
		if b, ok := pan.(sim.Budget); ok {
			r.fail("budget", "parsing %d bytes as a %s takes more than %d statements (%v): %q", len(text), mode, budgetFor(len(text)), b, clip(text, 3000))
		}
		if pan != nil {
			r.fail("panic in "+where, "parsing as a %s panics: %v, for %q", mode, panicText(pan), clip(text, 3000))
		}
		if used := sim.Steps() - start; len(text) > 0 {
			r.count("steps parsing", int64(used))
			r.count("bytes parsed", int64(len(text)))
		}
		if root == nil {
			r.fail("no tree", "parsing %q as a %s gives no tree", clip(text, 3000), mode)
		}
		if d := treeConsistent(root, text); d != "" {
			r.fail("tree", "parsed as a %s: %s, for %q", mode, d, clip(text, 3000))
		}
		if d := errorsDiff(root); d != "" {
			r.fail("errors", "parsed as a %s: %s, for %q", mode, d, clip(text, 3000))
		}
		var buf bytes.Buffer
		pan, where = safely(func() { syntax.PrintNode(&buf, root) })
		if pan != nil {
			r.fail("panic in "+where, "printing the tree panics: %v, for %q", panicText(pan), clip(text, 3000))
		}
		if buf.String() != text {
			r.fail("print", "parsed as a %s and printed, %q becomes %q", mode, clip(text, 2000), clip(buf.String(), 2000))
		}
		if gi(4) == 0 {
			w := &brokenWriter{room: gi(len(text) + 2)}
			r.count("fault writer", 1)
			var err error
			pan, where = safely(func() { err = syntax.PrintNode(w, root) })
			if pan != nil {
				r.fail("panic in "+where, "printing to a writer that fails after %d bytes panics: %v, for %q", w.room, panicText(pan), clip(text, 3000))
			}
			if (err != nil) != w.failed || !strings.HasPrefix(text, string(w.got)) || !w.failed && len(w.got) != len(text) {
				r.fail("print", "parsed as a %s, %q printed to a writer that fails after %d bytes gives %q, error %v", mode, clip(text, 2000), w.room, clip(string(w.got), 2000), err)
			}
		}
		var all []flat
		flatten(root, 0, &all)
		shape := ""
		for _, f := range all {
			shape += fmt.Sprint(f.n.SyntaxKind(), ",")
		}
		r.distinct("tree shapes", hash(shape))
	}
}

// brokenWriter has room for so many bytes.
type brokenWriter struct {
	room   int
	got    []byte
	failed bool
}

func (w *brokenWriter) Write(b []byte) (int, error) {
	if w.failed {
		// whoever goes on after a failure does not print a prefix.
		w.got = append(w.got, b...)
		return len(b), nil
	}
	n := min(len(b), w.room-len(w.got))
	w.got = append(w.got, b[:n]...)
	if n < len(b) {
		w.failed = true
		return n, errors.New("no room")
	}
	return n, nil
}

// errorsDiff compares the errors collected from a tree with its error nodes.
func errorsDiff(root *syntax.SyntaxNode) string {
	collect, ok := internals["SyntaxNode.errors"].(func(*syntax.SyntaxNode) []*syntax.SyntaxError)
	if !ok {
		return ""
	}
	text := func(e *syntax.SyntaxError) string {
		return fmt.Sprintf("%q %q at span %#x", e.Message, e.Hints, uint64(e.Span))
	}
	var all []flat
	flatten(root, 0, &all)
	var want, got []string
	for _, f := range all {
		if e, ok := f.n.Repr.(*syntax.ErrorNode); ok {
			want = append(want, text(e.Error))
		}
	}
	pan, where := safely(func() {
		for _, e := range collect(root) {
			got = append(got, text(e))
		}
	})
	if pan != nil {
		return fmt.Sprintf("collecting the errors panics in %s: %v", where, panicText(pan))
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Sprintf("errors %v are collected, the tree has %v", got, want)
	}
	return ""
}

func init() {
	register(&Property{
		ID: "C04", Level: "exploration", Quick: 100000, Thorough: 2000000,
		Run:      runParse,
		Rule:     "a case is a generated text (document, code, token soup, deep nesting), usually damaged as by failing storage (truncated, torn between old and new content, flipped bit, zeroed, duplicated or lost block), parsed as it is, within a code block and, for half of them, within a formula or by the entry points for bare code and bare math, with a budget of 2e6 + 4000(n+50) + 60(n+50)^2 statements; non-trivial: at least 4 bytes; distinct by the bytes",
		Real:     []string{"typst/syntax (parser, lexer, nodes)", "internal/scanner, stdx, option, ranges, stack"},
		Stub:     []string{"storage: the damage is applied to the text", "map iteration order"},
		Measures: "tree shapes: different sequences of node kinds",
		Probes:   []probe{stackDepth},
	})
}
