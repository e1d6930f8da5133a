package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/mewmew/typast/internal/ranges"
	"github.com/mewmew/typast/internal/verifsim/sim"
	"github.com/mewmew/typast/typst/syntax"
)

// panicPlace returns the place in the code under test that panicked.
func panicPlace() string {
	var pcs [64]uintptr
	n := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	seen := false
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "runtime.") {
			seen = seen || strings.Contains(f.Function, "panic")
		} else if seen && strings.Contains(f.Function, "mewmew/typast") && !strings.Contains(f.Function, "verifsim/sim") {
			name := f.Function[strings.LastIndexByte(f.Function, '/')+1:]
			return name
		}
		if !more {
			return "?"
		}
	}
}

func panicText(x any) string {
	switch x := x.(type) {
	case error:
		return x.Error()
	case string:
		return x
	}
	return fmt.Sprint(x)
}

var debugSlow = os.Getenv("VERIF_SLOW") != ""

// op is one operation of an editing session.
type op struct {
	kind    string // edit, replace, invalid
	start   uint64
	end     uint64
	with    string
	want    string // the text afterwards
	comment string
}

func (o op) String() string {
	switch o.kind {
	case "replace":
		return fmt.Sprintf("Replace(%q)%s", clip(o.with, 1200), o.comment)
	case "edit":
		return fmt.Sprintf("Edit(%d..%d, %q)%s", o.start, o.end, clip(o.with, 1200), o.comment)
	}
	return fmt.Sprintf("invalid Edit(%d..%d, %q)%s", o.start, o.end, clip(o.with, 1200), o.comment)
}

type profile struct {
	invalid   bool // inject invalid edits
	torn      bool // bytes that are not valid UTF-8
	newlines  bool // concentrate on line structure
	oneSpot   bool // insert at one place again and again
	long      bool // a long text
	damaged   bool // a first text of the kinds of C04
	repairs   bool // a well-formed document is damaged and repaired
	mistakes  bool // it is well-formed but for some mistakes
	steps     int
	maxLength int
}

// session generates the operations of one session.
type session struct {
	pr      profile
	first   string
	text    string
	history []string
	spot    int
	good    string // the well-formed document
	marks   []construct
}

func newSession(pr profile) *session {
	s := &session{pr: pr}
	if pr.repairs {
		if pr.mistakes {
			s.good, s.marks = withMistakes()
		} else {
			s.good, s.marks = wellFormed()
		}
		switch gi(4) {
		case 0:
			s.first = strings.ToValidUTF8(damage(s.good, document()), "")
		case 1:
			s.first = document()
		default:
			s.first = s.good
		}
	} else if pr.long {
		s.first = longText()
	} else if pr.damaged {
		s.first = storedText()
	} else if pr.newlines && gi(2) == 0 {
		s.first = linesText()
	} else {
		s.first = document()
	}
	if pr.torn && !pr.repairs && gi(2) == 0 {
		s.first = clean(damage(s.first, document()))
	}
	s.text = s.first
	s.history = []string{s.first}
	s.spot = -1
	return s
}

func linesText() string {
	var b strings.Builder
	for i := gi(14); i >= 0; i-- {
		b.WriteString(gpick("a", "é", "😀", "", "bc", "\r", "\n"))
		b.WriteString(newline())
	}
	return b.String()
}

// fragment generates text to insert.
func (s *session) fragment() string {
	var f string
	switch gi(12) {
	case 0, 1:
		f = ""
	case 2, 3, 4:
		f = soup[gi(len(soup))]
	case 5:
		f = word()
	case 6:
		f = newline()
	case 7:
		f = markupPiece(1 + gi(3))
	case 8:
		f = soupText(1 + gi(5))
	case 9:
		f = markup(1 + gi(2))
	case 10: // copy of a part
		b := bounds(s.text)
		i, j := gi(len(b)), gi(len(b))
		if i > j {
			i, j = j, i
		}
		if j-i > 80 {
			j = i + 80
		}
		f = s.text[b[i]:b[j]]
	default:
		f = expr(1 + gi(2))
	}
	if s.pr.newlines && gi(2) == 0 {
		f = newline() + f
	}
	return clean(f)
}

func validBoth(old string, start, end int, with string) (string, bool) {
	if !boundary(old, start) || !boundary(old, end) || start > end {
		return "", false
	}
	text := old[:start] + with + old[end:]
	if !boundary(text, start) || !boundary(text, start+len(with)) {
		return "", false
	}
	return text, true
}

func (s *session) next() op {
	for try := 0; ; try++ {
		o := s.propose()
		if o.kind == "edit" {
			text, ok := validBoth(s.text, int(o.start), int(o.end), o.with)
			if !ok {
				if try > 20 {
					return op{kind: "replace", with: s.text, want: s.text, comment: " (no change)"}
				}
				continue
			}
			o.want = text
		}
		if o.kind != "invalid" {
			if len(o.want) > s.pr.maxLength {
				o = op{kind: "replace", with: s.first, want: s.first, comment: " (back to the first text)"}
				if len(s.first) > s.pr.maxLength {
					o.with, o.want = "", ""
				}
			}
			s.text = o.want
			s.history = append(s.history, o.want)
		}
		return o
	}
}

// repair goes back to the well-formed document, or a part of the way.
func (s *session) repair(whole bool) op {
	if gi(5) == 0 {
		return op{kind: "replace", with: s.good, want: s.good, comment: " (repair)"}
	}
	from, to := bounds(s.text), bounds(s.good)
	i := 0
	for i < len(from)-1 && i < len(to)-1 && s.text[from[i]:from[i+1]] == s.good[to[i]:to[i+1]] {
		i++
	}
	x, y := len(from)-1, len(to)-1
	for x > i && y > i && s.text[from[x-1]:from[x]] == s.good[to[y-1]:to[y]] {
		x, y = x-1, y-1
	}
	if !whole && gi(3) == 0 && x > i && y > i {
		// only the front or the back of it
		if gi(2) == 0 {
			x, y = i+gi(x-i+1), i+gi(y-i+1)
		} else {
			k, l := gi(x-i+1), gi(y-i+1)
			return op{kind: "edit", start: uint64(from[i+k]), end: uint64(from[x]), with: s.good[to[i+l]:to[y]], comment: " (partial repair)"}
		}
	}
	return op{kind: "edit", start: uint64(from[i]), end: uint64(from[x]), with: s.good[to[i]:to[y]], comment: " (repair)"}
}

func (s *session) propose() op {
	if s.pr.repairs && s.text != s.good && gi(3) == 0 {
		return s.repair(false)
	}
	b := bounds(s.text)
	if s.pr.invalid && gchance(1, 3) {
		if o, ok := s.invalid(b); ok {
			return o
		}
	}
	if s.pr.oneSpot && gchance(9, 10) {
		if s.spot < 0 || s.spot > len(s.text) || !boundary(s.text, s.spot) {
			s.spot = b[gi(len(b))]
		}
		with := gpick("a", "*b*", "- x\n", "#x", " ", "[]", "\n\n", "é", "`r`", "#f(1)", "~", "_c_")
		o := op{kind: "edit", start: uint64(s.spot), end: uint64(s.spot), with: with}
		if gi(3) == 0 {
			s.spot += len(with)
		}
		return o
	}
	switch gi(16) {
	case 0: // undo
		w := s.history[gi(len(s.history))]
		return op{kind: "replace", with: w, want: w, comment: " (undo)"}
	case 1: // no-op
		if gi(2) == 0 {
			return op{kind: "replace", with: s.text, want: s.text, comment: " (no change)"}
		}
		i := gi(len(b))
		j := i + gi(min(len(b)-i, 10))
		return op{kind: "edit", start: uint64(b[i]), end: uint64(b[j]), with: s.text[b[i]:b[j]], comment: " (no change)"}
	case 2: // reload of a new version
		w := clean(mutate(s.text))
		return op{kind: "replace", with: w, want: w}
	case 3: // reload of a torn file
		w := document()
		if s.pr.torn || gi(3) > 0 {
			w = mutate(s.text)
		}
		w = damage(w, s.text)
		if !s.pr.torn {
			w = strings.ToValidUTF8(w, "")
		}
		w = clean(w)
		return op{kind: "replace", with: w, want: w, comment: " (torn reload)"}
	case 4: // another text
		w := document()
		if s.pr.long && gi(2) == 0 {
			w = longText()
		}
		return op{kind: "replace", with: w, want: w}
	case 5: // append
		return op{kind: "edit", start: uint64(len(s.text)), end: uint64(len(s.text)), with: s.fragment()}
	case 6: // near a newline
		for k := 0; k < 10; k++ {
			i := gi(len(b))
			for i < len(b)-1 && s.text[b[i]] != '\n' && s.text[b[i]] != '\r' {
				i++
			}
			if i == len(b)-1 {
				continue
			}
			x := max(0, i-gi(2))
			y := min(len(b)-1, max(x, i+gi(3)))
			return op{kind: "edit", start: uint64(b[x]), end: uint64(b[y]), with: gpick("", "\n", "\r", s.fragment())}
		}
		fallthrough
	default:
		i := gi(len(b))
		j := i
		switch gi(4) {
		case 0:
		case 1:
			j = min(i+1, len(b)-1)
		case 2:
			j = min(i+gi(8), len(b)-1)
		default:
			j = min(i+gi(len(b)-i), len(b)-1)
		}
		return op{kind: "edit", start: uint64(b[i]), end: uint64(b[j]), with: s.fragment()}
	}
}

// invalid proposes an edit whose range must be refused.
func (s *session) invalid(b []int) (op, bool) {
	n := uint64(len(s.text))
	o := op{kind: "invalid", with: s.fragment()}
	any := func() uint64 { return uint64(b[gi(len(b))]) }
	far := func() uint64 {
		switch gi(4) {
		case 0:
			return n + 1
		case 1:
			return n + 1 + uint64(gi(100))
		case 2:
			return 1 << 63
		}
		return ^uint64(0)
	}
	mid := func() (uint64, bool) {
		for k := 0; k < 20 && n > 0; k++ {
			i := gi(int(n))
			if s.text[i] >= 0x80 {
				for _, j := range []int{i, i + 1, i + 2, i + 3} {
					if j < int(n) && !utf8.RuneStart(s.text[j]) && midChar(s.text, j) {
						return uint64(j), true
					}
				}
			}
		}
		return 0, false
	}
	switch gi(7) {
	case 0: // end out of bounds
		o.start, o.end = any(), far()
	case 1: // both out of bounds
		o.start = far()
		o.end = o.start
		if gi(2) == 0 {
			o.end = far()
		}
	case 2: // inverted
		o.start, o.end = any(), any()
		if o.start == o.end {
			return o, false
		}
		if o.start < o.end {
			o.start, o.end = o.end, o.start
		}
	case 3: // inverted, start out of bounds
		o.start, o.end = far(), any()
	case 4: // start within a character
		m, ok := mid()
		if !ok {
			return o, false
		}
		o.start, o.end = m, m
		if x := any(); gi(2) == 0 && x >= m {
			o.end = x
		}
	case 5: // end within a character
		m, ok := mid()
		if !ok {
			return o, false
		}
		o.start, o.end = any(), m
		if o.start > o.end {
			o.start, o.end = 0, m
		}
	default: // both within a character
		m, ok := mid()
		if !ok {
			return o, false
		}
		o.start, o.end = m, m
		if m2, ok := mid(); ok {
			if m2 < m {
				m, m2 = m2, m
			}
			o.start, o.end = m, m2
		}
	}
	return o, true
}

// midChar reports whether j is inside a well-formed character.
func midChar(s string, j int) bool {
	i := j - 1
	for i > 0 && j-i < 4 && !utf8.RuneStart(s[i]) {
		i--
	}
	if i < 0 {
		return false
	}
	r, n := utf8.DecodeRuneInString(s[i:])
	return !(r == utf8.RuneError && n == 1) && i+n > j
}

// oracles selects what a session checks.
type oracles struct{ tree, lines, spans, invalid, nav, hilite, grammar, roles bool }

// player applies the operations of a session and judges the outcome.
type player struct {
	r     *Run
	id    syntax.FileID
	name  string
	src   *syntax.Source
	lone  *syntax.Lines
	twin  *syntax.Source // the same history without the refused edits
	or    oracles
	rnd   uint64
	obs   []string
	keep  bool   // record observations
	alone bool   // the only session
	good  string // the well-formed document
	marks []construct
	viol  *Violation
	skip  bool
}

func (p *player) fail(kind, format string, v ...any) {
	if p.viol == nil {
		p.viol = &Violation{Kind: kind, Msg: p.name + ": " + clip(fmt.Sprintf(format, v...), 5000)}
	}
}

func (p *player) rand(n int) int {
	p.rnd = mix(p.rnd, 77)
	return int(p.rnd % uint64(n))
}

func (p *player) open(text string) {
	p.rnd = hash(text)
	pan, where := safely(func() { p.src = syntax.NewSource(p.id, text) })
	if pan != nil {
		if p.or.grammar && text == p.good {
			p.fail("panic in "+where, "parsing the well-formed document %q panics: %v", clip(text, 3000), panicText(pan))
			return
		}
		// not this property's business: reading a text at all.
		p.skip = true
		p.obs = append(p.obs, "panic "+where)
		return
	}
	p.lone = syntax.NewLines(text)
	if p.or.invalid {
		p.twin = syntax.NewSource(p.id, text)
	}
	p.judge(text, 1)
}

func (p *player) state() string { return stateOf(p.src) }

func stateOf(src *syntax.Source) string {
	var b strings.Builder
	b.WriteString(src.Lines.Text)
	fmt.Fprint(&b, src.Lines.Lines, "\n")
	dump(&b, src.Root, true)
	return b.String()
}

// apply performs one operation.
func (p *player) apply(o op, last bool) {
	if p.skip || p.viol != nil {
		return
	}
	before := p.src.Text()
	if o.kind == "invalid" {
		st := p.state()
		lone := fmt.Sprint(p.lone.Text, p.lone.Lines)
		pan, _ := safely(func() { p.src.Edit(ranges.NewRange(o.start, o.end), o.with) })
		if pan == nil {
			p.fail("invalid edit accepted", "%v on a text of %d bytes %q was accepted; it gave %q", o, len(before), clip(before, 300), clip(p.src.Text(), 300))
			return
		}
		if _, ok := pan.(sim.Budget); ok {
			p.fail("budget", "%v: %v", o, pan)
			return
		}
		if now := p.state(); now != st {
			p.fail("rejected edit left traces", "%v was refused (%v) but changed the source\n  before: %s\n  after:  %s", o, panicText(pan), clip(st, 600), clip(now, 600))
			return
		}
		pan, _ = safely(func() { p.lone.Edit(ranges.NewRange(o.start, o.end), o.with) })
		if pan == nil {
			p.fail("invalid edit accepted", "Lines: %v on a text of %d bytes %q was accepted", o, len(before), clip(before, 300))
			return
		}
		if now := fmt.Sprint(p.lone.Text, p.lone.Lines); now != lone {
			p.fail("rejected edit left traces", "Lines: %v was refused but changed the lines\n  before: %s\n  after:  %s", o, clip(lone, 600), clip(now, 600))
			return
		}
		p.judge(before, 2)
		return
	}
	var got ranges.Range
	var changed bool
	pan, where := safely(func() {
		got = applyTo(p.src, o)
	})
	if pan != nil {
		// reading the new text at all is another property.
		if p2, _ := safely(func() { syntax.Parse(o.want) }); p2 != nil {
			p.skip = true
			p.obs = append(p.obs, "panic "+where)
			return
		}
		if p.or.invalid {
			// would it panic without the refused edits before it?
			var tw any
			tw, _ = safely(func() { applyTo(p.twin, o) })
			if tw != nil {
				p.skip = true
				return
			}
		}
		p.fail("panic in "+where, "%v on %q panics: %v", o, clip(before, 1500), panicText(pan))
		return
	}
	if p.or.invalid {
		applyTo(p.twin, o)
	}
	pan, where = safely(func() {
		if o.kind == "replace" {
			changed = p.lone.Replace(o.with)
		} else {
			p.lone.Edit(ranges.NewRange(o.start, o.end), o.with)
			changed = before != o.want
		}
	})
	if pan != nil {
		p.fail("panic in "+where, "Lines: %v on %q panics: %v", o, clip(before, 1500), panicText(pan))
		return
	}
	if p.keep {
		p.obs = append(p.obs, fmt.Sprint(got.Start, got.End))
	}
	if p.or.tree {
		if p.src.Text() != o.want {
			p.fail("text", "%v on %q gives text %q, want %q", o, clip(before, 1000), clip(p.src.Text(), 1000), clip(o.want, 1000))
			return
		}
		noop := o.kind == "replace" && before == o.want
		n := uint64(len(o.want))
		if got.Start > got.End || got.End > n {
			p.fail("range outside", "%v on %q reports range %d..%d of a text of %d bytes", o, clip(before, 1000), got.Start, got.End, n)
			return
		}
		if o.kind == "edit" && (got.Start > o.start || got.End < o.start+uint64(len(o.with))) {
			p.fail("range too small", "%v on %q reports range %d..%d, which does not cover what was inserted", o, clip(before, 1000), got.Start, got.End)
			return
		}
		if o.kind == "replace" && !noop {
			// whatever lies outside the range must be unchanged.
			pre, post := o.want[:got.Start], o.want[got.End:]
			if !strings.HasPrefix(before, pre) || !strings.HasSuffix(before, post) || len(pre)+len(post) > len(before) {
				p.fail("range too small", "%v on %q reports range %d..%d, outside of which the text changed", o, clip(before, 1000), got.Start, got.End)
				return
			}
		}
	}
	if p.or.lines && o.kind == "replace" && changed != (before != o.want) {
		p.fail("replace result", "Lines: %v on %q reports changed=%v", o, clip(before, 1000), changed)
		return
	}
	level := 2
	if last {
		level = 3
	}
	p.judge(o.want, level)
	if p.viol != nil {
		p.viol.Msg = fmt.Sprintf("after %v on %q: %s", o, clip(before, 1500), p.viol.Msg)
	}
}

func applyTo(src *syntax.Source, o op) ranges.Range {
	if o.kind == "replace" {
		return src.Replace(o.with)
	}
	return src.Edit(ranges.NewRange(o.start, o.end), o.with)
}

// judge compares the state with the reference.
func (p *player) judge(text string, level int) {
	if p.keep {
		p.obs = append(p.obs, fmt.Sprint(hash(p.state())))
	}
	if p.or.invalid {
		a, b := p.state(), stateOf(p.twin)
		if a != b {
			p.fail("later edits affected", "the source differs from one with the same edits without the refused ones\n  is:   %s\n  want: %s", clip(a, 600), clip(b, 600))
			return
		}
		if a, b := fmt.Sprint(p.lone.Lines), fmt.Sprint(p.twin.Lines.Lines); p.lone.Text != p.twin.Text() || a != b {
			p.fail("later edits affected", "Lines differ from those with the same edits without the refused ones\n  is:   %s\n  want: %s", clip(a, 600), clip(b, 600))
			return
		}
	}
	if p.or.tree {
		var want *syntax.SyntaxNode
		if pan, _ := safely(func() { want = syntax.Parse(text) }); pan != nil {
			p.skip = true
			return
		}
		if d := treeDiff(p.src.Root, want, "root"); d != "" {
			p.fail("tree", "the tree differs from that of a fresh parse of %q: %s", clip(text, 1500), d)
			return
		}
	}
	if p.or.grammar && text == p.good {
		what, many := "well-formed document", "well-formed documents judged"
		for _, m := range p.marks {
			if m.kind == syntax.SyntaxKindError {
				what, many = "document with mistakes", "documents with mistakes judged"
			}
		}
		p.r.count(many, 1)
		if d := misparse(p.src.Root, text, p.marks); d != "" {
			p.fail("grammar", "%s, in the %s %q", d, what, clip(text, 3000))
			return
		}
	}
	if p.or.lines {
		ref := newRef(text)
		for i, l := range []*syntax.Lines{p.src.Lines, p.lone} {
			what := "Source.Lines: "
			if i == 1 {
				what = "Lines: "
			}
			if d := ref.tableDiff(l); d != "" {
				p.fail("line table", "%s%s", what, d)
				return
			}
			d := ""
			pan, where := safely(func() {
				nb := len(ref.bounds)
				step := 1
				if nb > 60 {
					step = 1 + nb/40
				}
				for k := 0; k < nb && d == ""; k += 1 + p.rand(step) {
					d = ref.check(l, k)
				}
				if d == "" {
					d = ref.check(l, nb-1)
				}
				nl := len(ref.starts)
				step = 1
				if nl > 30 {
					step = 1 + nl/20
				}
				for k := 0; k < nl && d == ""; k += 1 + p.rand(step) {
					d = ref.checkLine(l, k)
				}
				if d == "" {
					d = ref.checkLine(l, nl-1)
				}
				if d == "" {
					d = ref.checkOutside(l)
				}
			})
			if pan != nil {
				p.fail("panic in "+where, "%sa conversion panics on %q: %v", what, clip(text, 500), panicText(pan))
				return
			}
			if d != "" {
				p.fail("position "+d[:strings.IndexByte(d, '(')], "%s%s, for text %q", what, d, clip(text, 1000))
				return
			}
		}
	}
	if p.or.spans {
		if d := spanDiff(p.src.Root, p.id); d != "" {
			p.fail("numbering", "%s, for text %q", d, clip(text, 1000))
			return
		}
		p.lookups(text, level)
	}
	if p.or.hilite {
		p.hilite(text, level)
	}
	if p.or.roles {
		p.roles(text)
	}
	if p.or.nav {
		p.navigate(text, level)
		if p.viol == nil && (level == 3 || p.rand(4) == 0) {
			p.walk(text)
		}
	}
}

// lookupBudget is the work allowed for finding a span in a tree of that size.
func lookupBudget(size int) uint64 { return 200*uint64(size) + 2000 }

// lookups resolves spans of the tree.
func (p *player) lookups(text string, level int) {
	var all []flat
	flatten(p.src.Root, 0, &all)
	// the lookup copies the tree at every node; keep the work bounded.
	size := len(all)
	n := 2
	if p.rand(3) != 0 || (size > 40 && p.rand(size) > 40) {
		n = 0
	}
	if level == 3 {
		n = 1 + 2500/size
	}
	n = min(n, size)
	if n == 0 {
		return
	}
	nums := map[uint64]bool{}
	for _, f := range all {
		nums[spanOf(f.n).Number()] = true
	}
	pan, where := safely(func() {
		for i := 0; i < n; i++ {
			k := i
			if n < len(all) {
				k = p.rand(len(all))
			}
			f := all[k]
			sp := spanOf(f.n)
			start := sim.Steps()
			r, ok := p.src.Range(sp)
			used := sim.Steps() - start
			if p.alone && used > lookupBudget(size) {
				p.fail("budget", "looking up the span of %s takes %d statements in a tree of %d nodes, text %q", brief(f.n), used, size, clip(text, 1000))
				return
			}
			if !ok {
				p.fail("lookup", "the span %#x of %s is not found, in text %q", uint64(sp), brief(f.n), clip(text, 1000))
				return
			}
			if int(r.Start) != f.start || int(r.End) != f.end {
				p.fail("lookup", "the span %#x of %s is at %d..%d, but Range says %d..%d, in text %q", uint64(sp), brief(f.n), f.start, f.end, r.Start, r.End, clip(text, 1000))
				return
			}
			if p.rand(4) != 0 {
				continue
			}
			link, ok := p.src.Find(sp)
			if !ok || link.String() != f.n.String() || link.Range() != r {
				p.fail("lookup", "Find(%#x) does not return %s, in text %q", uint64(sp), brief(f.n), clip(text, 1000))
				return
			}
		}
		// what must not be found.
		other := syntax.FileID(uint16(p.id) + 1)
		if other == 0 {
			other = 1
		}
		f := all[p.rand(len(all))]
		neg := []syntax.Span{syntax.NewSpanPacked(other, spanOf(f.n).Number()), syntax.NewDetachedSpan()}
		num := spanOf(f.n).Number() + 1
		for nums[num] {
			num++
		}
		if s, ok := syntax.NewSpanFromNumber(p.id, num); ok {
			neg = append(neg, s)
		}
		neg = append(neg, syntax.NewSpanFromRange(p.id, ranges.NewRange(0, uint64(len(text)))))
		at := p.rand(len(neg))
		for _, sp := range neg[at : at+1] {
			if r, ok := p.src.Range(sp); ok {
				p.fail("lookup of a foreign span", "Range(%#x) gives %d..%d, but no node has that span, in text %q", uint64(sp), r.Start, r.End, clip(text, 1000))
				return
			}
		}
	})
	if pan != nil {
		p.fail("panic in "+where, "looking up spans panics: %v, in text %q", panicText(pan), clip(text, 1000))
	}
}

// runSessions runs several editing sessions interleaved.
func runSessions(r *Run, pr func() profile, or oracles) {
	began := time.Now()
	defer func() {
		if d := time.Since(began); d > time.Second && debugSlow {
			println("slow", d.String(), r.Sample)
		}
	}()
	nTasks := 1
	if sim.Intn(sim.Config, 4) == 0 {
		nTasks = 2 + sim.Intn(sim.Config, 2)
	}
	gap := uint64(0)
	if nTasks > 1 {
		gap = []uint64{50, 500, 5000, 20}[sim.Intn(sim.Config, 4)]
	}
	var players []*player
	var fns []func()
	var samples, texts []string
	for t := 0; t < nTasks; t++ {
		prof := pr()
		if sim.Chance(sim.Config, 1, 2000) {
			prof.long = true
			prof.steps = min(prof.steps, 6)
			prof.maxLength = 100000
			r.count("sessions on long texts", 1)
		}
		s := newSession(prof)
		n := 1 + gi(prof.steps)
		first := s.first
		var ops []op
		for i := 0; i < n; i++ {
			ops = append(ops, s.next())
		}
		if prof.repairs && s.text != s.good {
			o := s.repair(true)
			o.want = s.good
			if o.kind == "edit" {
				if got, ok := validBoth(s.text, int(o.start), int(o.end), o.with); !ok || got != s.good {
					o = op{kind: "replace", with: s.good, want: s.good, comment: " (repair)"}
				}
			}
			ops = append(ops, o)
		}
		texts = append(texts, first)
		for _, o := range ops {
			if o.want != texts[len(texts)-1] {
				texts = append(texts, o.want)
			}
		}
		p := &player{r: r, good: s.good, marks: s.marks, name: fmt.Sprintf("session %d", t), or: or, alone: nTasks == 1}
		p.id = syntax.NewFakeFileID(syntax.NewVirtualPath(fmt.Sprintf("/s%d.typ", t)))
		players = append(players, p)
		r.tracef("session %d: NewSource(%q)", t, first)
		for i, o := range ops {
			r.tracef("session %d step %d: %v", t, i, o)
		}
		samples = append(samples, fmt.Sprintf("NewSource(%q); %v", clip(first, 200), clip(fmt.Sprint(ops), 600)))
		fns = append(fns, func() {
			p.open(first)
			for i, o := range ops {
				p.apply(o, i == len(ops)-1)
			}
		})
		key := []string{first}
		for _, o := range ops {
			key = append(key, o.String())
		}
		h := hash(key...)
		r.Evals++
		if n >= 2 && first != "" {
			r.Keys = append(r.Keys, h)
		}
		r.count("operations", int64(n))
		for _, o := range ops {
			switch {
			case o.kind == "invalid":
				r.count("fault rejected edit", 1)
			case strings.Contains(o.comment, "torn"):
				r.count("fault torn reload", 1)
			}
			r.distinct("texts reached", hash(o.want))
		}
	}
	r.Sample = strings.Join(samples, " || ")
	for _, text := range texts {
		// a text that is never read to its end is found before all else.
		sim.SetBudget(budgetFor(len(text)))
		pan, _ := safely(func() { syntax.Parse(text) })
		sim.SetBudget(1 << 60)
		if _, ok := pan.(sim.Budget); ok {
			r.fail("budget", "parsing %q does not end: %v", clip(text, 3000), panicText(pan))
			return
		}
	}
	res := sim.Run(fns, gap, 3e9)
	r.count("preemptions", int64(res.Switches))
	if nTasks > 1 {
		r.distinct("interleavings", res.Hash)
	}
	for i, t := range append(res.Tasks, res.Spawned...) {
		i = min(i, len(players)-1)
		if t.Panic != nil && players[i].viol == nil {
			if s, ok := t.Panic.(sim.UnsupportedError); ok {
				panic(s)
			}
			kind := "panic"
			if _, ok := t.Panic.(sim.Budget); ok {
				kind = "budget"
			}
			players[i].fail(kind, "%v\n%s", panicText(t.Panic), clip(string(t.Stack), 3000))
		}
	}
	for _, p := range players {
		if p.viol != nil {
			r.fail(p.viol.Kind, "%s", p.viol.Msg)
		}
		if p.skip {
			r.Undecided = "the text cannot be parsed at all"
		}
	}
	if res.Deadlock {
		r.fail("deadlock", "the sessions wait for each other for ever")
	}
}

func editProfile() profile {
	p := profile{steps: 12, maxLength: 2500}
	switch gi(8) {
	case 0:
		p.torn = true
	case 1:
		p.newlines = true
	case 2:
		p.steps = 40
	case 3:
		p.oneSpot = true
		p.steps = 30
	}
	return p
}

func init() {
	real := []string{"typst/syntax (parser, lexer, reparser, nodes, lines, spans, source, file ids)", "internal/scanner, stdx, option, ranges, stack, mathx"}
	register(&Property{
		ID: "C01", Level: "exploration", Quick: 100000, Thorough: 600000,
		Run:  func(r *Run) { runSessions(r, editProfile, oracles{tree: true}) },
		Rule: "a case is a first text and 1..40 operations (range edits, whole-text replacements, undo, torn reloads, no-op edits, runs of insertions at one place) of one session, one to three sessions interleaved; non-trivial: at least two operations on a first text that is not empty; distinct by the full list",
		Real: real, Stub: []string{"scheduler", "package time, sync, map iteration order"},
		Measures: "texts reached: different texts after an operation; interleavings: hash of the sequence of (task, step) switches",
	})
	register(&Property{
		ID: "C02", Level: "exploration", Quick: 90000, Thorough: 500000,
		Run: func(r *Run) {
			runSessions(r, func() profile {
				p := editProfile()
				p.newlines = p.newlines || gi(2) == 0
				p.torn = p.torn || gi(4) == 0
				return p
			}, oracles{lines: true})
		},
		Rule: "a case is a first text and 1..40 operations of one session, biased to newline forms, CR LF joins and splits, astral characters and bytes that are not valid UTF-8; after each operation the line table of the source and of a stand-alone Lines are compared with counting through the text, and all (long texts: a sample of) conversions with it; non-trivial: at least two operations on a first text that is not empty",
		Real: real, Stub: []string{"scheduler", "package time, sync, map iteration order"},
		Measures: "texts reached: different texts after an operation; interleavings: hash of the sequence of (task, step) switches",
	})
	register(&Property{
		ID: "C03", Level: "exploration", Quick: 12000, Thorough: 150000,
		Run: func(r *Run) {
			runSessions(r, func() profile {
				p := editProfile()
				p.torn = false
				p.maxLength = 800
				if gi(3) == 0 {
					p.oneSpot = true
					p.steps = 60
					p.maxLength = 400
					if gi(4) == 0 {
						p.steps = 200
					}
				}
				return p
			}, oracles{spans: true})
		},
		Rule: "a case is a first text and 1..200 operations of one session, biased to long runs of insertions at one place; after each operation all span numbers are checked, and spans that exist and spans that must not are looked up (a sample, at the end all of a small tree); non-trivial: at least two operations on a first text that is not empty",
		Real: real, Stub: []string{"scheduler", "package time, sync, map iteration order"},
		Measures: "texts reached: different texts after an operation; interleavings: hash of the sequence of (task, step) switches",
	})
	register(&Property{
		ID: "C14", Level: "exploration", Quick: 90000, Thorough: 400000,
		Run: func(r *Run) {
			runSessions(r, func() profile {
				p := editProfile()
				p.invalid = true
				p.steps = 10
				return p
			}, oracles{invalid: true})
		},
		Rule: "a case is a first text and 1..10 operations of one session, a third of them with a range that is out of bounds, inverted or within a character; the refused ones must leave text, lines, tree and spans as they were, the others must give exactly what they give on a twin source that never saw the refused ones; non-trivial: at least two operations on a first text that is not empty",
		Real: real, Stub: []string{"scheduler", "package time, sync, map iteration order"},
		Measures: "texts reached: different texts after an operation; interleavings: hash of the sequence of (task, step) switches",
	})
	register(&Property{
		ID: "C17", Level: "exploration", Quick: 60000, Thorough: 400000,
		Run: func(r *Run) {
			runSessions(r, func() profile {
				p := editProfile()
				p.torn = false
				p.repairs = true
				p.maxLength = 6000
				return p
			}, oracles{grammar: true})
		},
		Rule: "a case is a well-formed document, generated by rules of the Typst grammar with the kind and extent of each construct noted, and 1..40 operations that damage it (edits anywhere, torn reloads, other texts) and repair it (undo, reloads, edits that turn what differs, or a part of it, back into the document), the last of which repairs it wholly; whenever the text is the document, the tree must have no error, each noted construct as a node of its kind and extent, and no other nodes of those kinds; non-trivial: at least two operations on a first text that is not empty",
		Real: real, Stub: []string{"scheduler", "package time, sync, map iteration order"},
		Measures: "texts reached: different texts after an operation; interleavings: hash of the sequence of (task, step) switches",
	})
	register(&Property{
		ID: "C22", Level: "exploration", Quick: 80000, Thorough: 400000,
		Run: func(r *Run) {
			runSessions(r, func() profile {
				p := editProfile()
				p.torn = false
				p.repairs = true
				p.mistakes = true
				p.maxLength = 6000
				return p
			}, oracles{grammar: true})
		},
		Rule: "a case is a document with mistakes, generated by rules of the Typst grammar with the kind and extent of each construct and the place, message and hints of each error noted, and 1..40 operations that change it (edits anywhere, torn reloads, other texts) and bring it back (undo, reloads, edits that turn what differs, or a part of it, back into the document), the last of which brings it back wholly; whenever the text is the document, its tree must have each noted error and construct, and no other errors or nodes of those kinds; non-trivial: at least two operations on a first text that is not empty",
		Real: real, Stub: []string{"scheduler", "package time, sync, map iteration order"},
		Measures: "texts reached: different texts after an operation; interleavings: hash of the sequence of (task, step) switches",
	})
}
