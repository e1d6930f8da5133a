package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/mewmew/typast/internal/verifsim/sim"
	"github.com/mewmew/typast/typst/syntax"
)

// C18: what each node is highlighted as, from a table of Typst's categories and
// the rules for identifiers and hashes, applied to a flat list of the nodes.

// styled is an element of the highlighted text.
type styled struct {
	class      string
	start, end int
}

var classOf = map[syntax.SyntaxKind]string{}

func init() {
	for class, kinds := range map[string][]syntax.SyntaxKind{
		"comment":    {syntax.SyntaxKindShebang, syntax.SyntaxKindLineComment, syntax.SyntaxKindBlockComment},
		"punct":      {syntax.SyntaxKindLeftBrace, syntax.SyntaxKindRightBrace, syntax.SyntaxKindLeftBracket, syntax.SyntaxKindRightBracket, syntax.SyntaxKindLeftParen, syntax.SyntaxKindRightParen, syntax.SyntaxKindComma, syntax.SyntaxKindSemicolon, syntax.SyntaxKindColon, syntax.SyntaxKindDot},
		"escape":     {syntax.SyntaxKindLinebreak, syntax.SyntaxKindEscape, syntax.SyntaxKindShorthand, syntax.SyntaxKindMathShorthand},
		"strong":     {syntax.SyntaxKindStrong},
		"emph":       {syntax.SyntaxKindEmph},
		"link":       {syntax.SyntaxKindLink},
		"raw":        {syntax.SyntaxKindRaw},
		"label":      {syntax.SyntaxKindLabel},
		"ref":        {syntax.SyntaxKindRef},
		"heading":    {syntax.SyntaxKindHeading},
		"marker":     {syntax.SyntaxKindListMarker, syntax.SyntaxKindEnumMarker, syntax.SyntaxKindTermMarker},
		"math-delim": {syntax.SyntaxKindDollar},
		"math-op":    {syntax.SyntaxKindMathAlignPoint, syntax.SyntaxKindHat, syntax.SyntaxKindPrime, syntax.SyntaxKindRoot},
		"key":        {syntax.SyntaxKindNot, syntax.SyntaxKindAnd, syntax.SyntaxKindOr, syntax.SyntaxKindNone, syntax.SyntaxKindAuto, syntax.SyntaxKindBool, syntax.SyntaxKindLet, syntax.SyntaxKindSet, syntax.SyntaxKindShow, syntax.SyntaxKindContext, syntax.SyntaxKindIf, syntax.SyntaxKindElse, syntax.SyntaxKindFor, syntax.SyntaxKindIn, syntax.SyntaxKindWhile, syntax.SyntaxKindBreak, syntax.SyntaxKindContinue, syntax.SyntaxKindReturn, syntax.SyntaxKindImport, syntax.SyntaxKindInclude, syntax.SyntaxKindAs},
		"op":         {syntax.SyntaxKindStar, syntax.SyntaxKindPlus, syntax.SyntaxKindMinus, syntax.SyntaxKindSlash, syntax.SyntaxKindEq, syntax.SyntaxKindEqEq, syntax.SyntaxKindExclEq, syntax.SyntaxKindLt, syntax.SyntaxKindLtEq, syntax.SyntaxKindGt, syntax.SyntaxKindGtEq, syntax.SyntaxKindPlusEq, syntax.SyntaxKindHyphEq, syntax.SyntaxKindStarEq, syntax.SyntaxKindSlashEq, syntax.SyntaxKindDots, syntax.SyntaxKindArrow},
		"num":        {syntax.SyntaxKindInt, syntax.SyntaxKindFloat, syntax.SyntaxKindNumeric},
		"str":        {syntax.SyntaxKindStr},
		"error":      {syntax.SyntaxKindError},
	} {
		for _, k := range kinds {
			classOf[k] = class
		}
	}
	for _, k := range []syntax.SyntaxKind{
		syntax.SyntaxKindIdent, syntax.SyntaxKindNone, syntax.SyntaxKindAuto, syntax.SyntaxKindBool, syntax.SyntaxKindInt, syntax.SyntaxKindFloat, syntax.SyntaxKindNumeric, syntax.SyntaxKindStr, syntax.SyntaxKindCodeBlock, syntax.SyntaxKindContentBlock, syntax.SyntaxKindArray, syntax.SyntaxKindDict, syntax.SyntaxKindParenthesized,
		syntax.SyntaxKindFieldAccess, syntax.SyntaxKindFuncCall, syntax.SyntaxKindLetBinding, syntax.SyntaxKindSetRule, syntax.SyntaxKindShowRule, syntax.SyntaxKindContextual, syntax.SyntaxKindConditional, syntax.SyntaxKindWhileLoop, syntax.SyntaxKindForLoop,
		syntax.SyntaxKindModuleImport, syntax.SyntaxKindModuleInclude, syntax.SyntaxKindLoopBreak, syntax.SyntaxKindLoopContinue, syntax.SyntaxKindFuncReturn,
	} {
		hashed[k] = true
	}
}

// hashed are the kinds of expressions that a hash introduces.
var hashed = map[syntax.SyntaxKind]bool{}

// stylist applies the rules to a tree.
type stylist struct {
	all    []place
	before []int // last real leaf before the node, or -1
	after  []int // first real leaf behind the node, or len(all)
}

func newStylist(all []place) *stylist {
	s := &stylist{all: all, before: make([]int, len(all)), after: make([]int, len(all))}
	last := -1
	for i, f := range all {
		s.before[i] = last
		if realLeaf(f.n) {
			last = i
		}
	}
	// firstAt[i] is the first real leaf at or behind i.
	firstAt := make([]int, len(all)+1)
	firstAt[len(all)] = len(all)
	for i := len(all) - 1; i >= 0; i-- {
		firstAt[i] = firstAt[i+1]
		if realLeaf(all[i].n) {
			firstAt[i] = i
		}
	}
	for i, f := range all {
		s.after[i] = firstAt[f.last+1]
	}
	return s
}

func (s *stylist) kind(i int) syntax.SyntaxKind {
	if i < 0 || i >= len(s.all) {
		return syntax.SyntaxKindEnd
	}
	return s.all[i].n.SyntaxKind()
}

// over is the kind of a node's parent.
func (s *stylist) over(i int) syntax.SyntaxKind { return s.kind(s.all[i].parent) }

// sibling is the next child of a node's parent that is not trivia, or -1.
func (s *stylist) sibling(i int) int {
	p := s.all[i].parent
	if p < 0 {
		return -1
	}
	for j := s.all[i].last + 1; j <= s.all[p].last; j = s.all[j].last + 1 {
		if !trivia(s.all[j].n) {
			return j
		}
	}
	return -1
}

// class is the category of a node, "" if it has none.
func (s *stylist) class(i int) string {
	k, over := s.kind(i), s.over(i)
	switch k {
	case syntax.SyntaxKindMarkup:
		if j := s.sibling(i); over == syntax.SyntaxKindTermItem && j >= 0 && s.kind(j) == syntax.SyntaxKindColon {
			return "term"
		}
		return ""
	case syntax.SyntaxKindStar:
		if over == syntax.SyntaxKindStrong {
			return ""
		}
	case syntax.SyntaxKindUnderscore:
		if over == syntax.SyntaxKindMathAttach {
			return "math-op"
		}
	case syntax.SyntaxKindSlash:
		if over == syntax.SyntaxKindMathFrac {
			return "math-op"
		}
	case syntax.SyntaxKindEq:
		if over == syntax.SyntaxKindHeading {
			return ""
		}
	case syntax.SyntaxKindIdent, syntax.SyntaxKindMathIdent:
		return s.identClass(i)
	case syntax.SyntaxKindHash:
		// as what it introduces begins
		j := s.sibling(i)
		if j < 0 || !hashed[s.kind(j)] {
			return ""
		}
		for l := j; l <= s.all[j].last; l++ {
			if realLeaf(s.all[l].n) {
				return s.class(l)
			}
		}
		return ""
	}
	return classOf[k]
}

func (s *stylist) identClass(i int) string {
	for {
		next := s.after[i]
		// in front of arguments or parameters
		if next < len(s.all) && s.all[next].start == s.all[i].end {
			switch k, over := s.kind(next), s.over(next); {
			case k == syntax.SyntaxKindLeftParen && (over == syntax.SyntaxKindArgs || over == syntax.SyntaxKindParams):
				return "func"
			case k == syntax.SyntaxKindLeftBracket && over == syntax.SyntaxKindContentBlock:
				return "func"
			}
		}
		if s.kind(i) == syntax.SyntaxKindMathIdent {
			return "pol"
		}
		top := i
		for s.over(top) == syntax.SyntaxKindFieldAccess {
			top = s.all[top].parent
		}
		prev := s.before[i]
		// at the colon of a show rule
		if s.over(top) == syntax.SyntaxKindShowRule && (s.kind(next) == syntax.SyntaxKindColon || s.kind(prev) == syntax.SyntaxKindColon) {
			return "func"
		}
		if s.kind(s.before[top]) == syntax.SyntaxKindHash {
			return "pol"
		}
		// a field is like what it is a field of
		if s.kind(prev) != syntax.SyntaxKindDot {
			return ""
		}
		i = s.before[prev]
		if k := s.kind(i); k != syntax.SyntaxKindIdent && k != syntax.SyntaxKindMathIdent {
			return ""
		}
	}
}

var scopeOf = map[string]string{
	"comment": "comment", "punct": "punctuation", "escape": "constant.character.escape", "strong": "markup.bold", "emph": "markup.italic",
	"link": "markup.underline.link", "raw": "markup.raw", "label": "entity.name.label", "ref": "markup.other.reference", "heading": "markup.heading",
	"marker": "punctuation.definition.list", "term": "markup.list.term", "math-delim": "punctuation.definition.math", "math-op": "keyword.operator.math",
	"key": "keyword", "op": "keyword.operator", "num": "constant.numeric", "str": "string.quoted.double", "func": "entity.name.function", "pol": "meta.interpolation", "error": "invalid",
}

// tags checks the tags of a few nodes, errors among them.
func (p *player) tags(s *stylist, n int, text string) {
	tagOf, ok := internals["highlight"].(func(*syntax.LinkedNode) (syntax.Tag, bool))
	css, ok2 := internals["Tag.css_class"].(func(*syntax.Tag) string)
	scope, ok3 := internals["Tag.tm_scope"].(func(*syntax.Tag) string)
	if !ok || !ok2 || !ok3 {
		p.r.count("tags not reachable", 1)
		return
	}
	for ; n > 0 && p.viol == nil; n-- {
		k := p.rand(len(s.all))
		for j := k; n%2 == 0 && j < len(s.all); j++ {
			if s.kind(j) == syntax.SyntaxKindError {
				k = j
				break
			}
		}
		var got, gotScope string
		if pan, _ := safely(func() {
			if l, ok := p.src.Find(spanOf(s.all[k].n)); ok {
				if tag, ok := tagOf(l); ok {
					got, gotScope = css(&tag), scope(&tag)
				}
			} else {
				got = "?"
			}
		}); pan != nil || got == "?" {
			p.skip = true // another property
			return
		}
		want, wantScope := s.class(k), ""
		if want != "" {
			want, wantScope = "typ-"+want, scopeOf[want]+".typst"
		}
		if got != want || gotScope != wantScope {
			p.fail("tag", "%s at %d..%d is tagged %q (%q), in Typst %q (%q), in text %q", brief(s.all[k].n), s.all[k].start, s.all[k].end, got, gotScope, want, wantScope, clip(text, 1000))
		}
	}
}

// elements lists the elements of a highlighted text in the order they begin.
func elements(html string) []styled {
	html = strings.TrimSuffix(strings.TrimPrefix(html, "<code>"), "</code>")
	var all []styled
	var open []int
	pos := 0
	for html != "" {
		if r, ok := strings.CutPrefix(html, "</span>"); ok {
			all[open[len(open)-1]].end = pos
			open = open[:len(open)-1]
			html = r
		} else if r, ok := strings.CutPrefix(html, "<span class=\""); ok {
			class, r, _ := strings.Cut(r, "\">")
			open = append(open, len(all))
			all = append(all, styled{class, pos, 0})
			html = r
		} else if html[0] == '&' {
			pos++
			html = html[strings.IndexByte(html, ';')+1:]
		} else {
			pos++
			html = html[1:]
		}
	}
	return all
}

// roles checks what each part of the text is highlighted as.
func (p *player) roles(text string) {
	render, ok := internals["highlight_html"].(func(*syntax.SyntaxNode) string)
	if !ok {
		p.r.count("highlighting not reachable", 1)
		return
	}
	if !utf8.ValidString(text) {
		return
	}
	var html string
	if pan, _ := safely(func() { html = render(p.src.Root) }); pan != nil {
		p.skip = true // another property
		return
	}
	if plain, err := plainOf(html); err != nil || plain != text {
		p.skip = true // another property
		return
	}
	s := newStylist(places(p.src.Root))
	var want []styled
	for i, f := range s.all {
		if class := s.class(i); class != "" && class != "error" {
			want = append(want, styled{"typ-" + class, f.start, f.end})
			p.r.count("elements "+class, 1)
		}
	}
	got := elements(html)
	for i := 0; i < len(want) || i < len(got); i++ {
		var w, g styled
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w == g {
			continue
		}
		show := func(e styled) string {
			if e.class == "" {
				return "nothing more"
			}
			return fmt.Sprintf("%q (%d..%d) as %s", clip(text[e.start:e.end], 200), e.start, e.end, e.class)
		}
		p.fail("role", "highlighted is %s where Typst has %s, in text %q", show(g), show(w), clip(text, 1000))
		return
	}
	p.tags(s, 4, text)
}

func init() {
	register(&Property{
		ID: "C18", Level: "exploration", Quick: 40000, Thorough: 400000,
		Run: func(r *Run) {
			runSessions(r, func() profile {
				p := editProfile()
				p.torn = false
				p.maxLength = 2500
				p.repairs = sim.Intn(sim.Config, 2) == 0
				p.damaged = !p.repairs && sim.Intn(sim.Config, 3) == 0
				return p
			}, oracles{roles: true})
		},
		Rule:     "a case is a first text (half of them well-formed documents or damaged copies, a sixth of the kinds of C04) and 1..40 operations of one session (for well-formed documents damage and repair), one to three sessions interleaved; after each operation the whole text is highlighted and every element compared with the one the table and rules give; non-trivial: at least two operations on a first text that is not empty",
		Real:     []string{"typst/syntax (highlighting, parser, lexer, reparser, nodes, linked nodes, source)", "internal/scanner, stdx, option, ranges, stack, mathx"},
		Stub:     []string{"scheduler", "package time, sync, map iteration order"},
		Measures: "texts reached: different texts after an operation; interleavings: hash of the sequence of (task, step) switches; elements: by class",
	})
}
