package main

import (
	"fmt"
	"strings"

	"github.com/mewmew/typast/internal/verifsim/sim"
	"github.com/mewmew/typast/typst/syntax"
)

// C21: highlighting.

// plainOf takes the highlighting out of a text: the elements must be <code>
// around everything and <span class="..."> nested in it, and nothing but
// character references may stand for the five special characters.
func plainOf(html string) (string, error) {
	rest, ok := strings.CutPrefix(html, "<code>")
	if !ok {
		return "", fmt.Errorf("it does not begin with <code>")
	}
	rest, ok = strings.CutSuffix(rest, "</code>")
	if !ok {
		return "", fmt.Errorf("it does not end with </code>")
	}
	var b strings.Builder
	open := 0
	for rest != "" {
		i := strings.IndexAny(rest, "<>&'\"")
		if i < 0 {
			b.WriteString(rest)
			break
		}
		b.WriteString(rest[:i])
		rest = rest[i:]
		if r, ok := strings.CutPrefix(rest, "</span>"); ok {
			rest = r
			if open--; open < 0 {
				return "", fmt.Errorf("it closes an element that is not open before %q", clip(rest, 60))
			}
			continue
		}
		if r, ok := strings.CutPrefix(rest, "<span class=\""); ok {
			class, r, ok := strings.Cut(r, "\">")
			if !ok || class == "" || strings.ContainsAny(class, "<>&'\"") {
				return "", fmt.Errorf("an element has no class: %q", clip(rest, 60))
			}
			rest = r
			open++
			continue
		}
		found := false
		for ref, c := range map[string]string{"&lt;": "<", "&gt;": ">", "&amp;": "&", "&#39;": "'", "&apos;": "'", "&quot;": "\"", "&#34;": "\""} {
			if r, ok := strings.CutPrefix(rest, ref); ok {
				b.WriteString(c)
				rest = r
				found = true
				break
			}
		}
		if !found {
			return "", fmt.Errorf("special characters are not written as such: %q", clip(rest, 60))
		}
	}
	if open != 0 {
		return "", fmt.Errorf("%d elements are left open", open)
	}
	return b.String(), nil
}

// hiliteBudget is the work allowed for highlighting a text.
func hiliteBudget(bytes, nodes int) uint64 {
	n := uint64(bytes + nodes)
	return 1_000_000 + 2000*n + 200*n*n
}

// hilite checks the highlighting of a tree of the text.
func (p *player) hilite(text string, level int) {
	render, ok := internals["highlight_html"].(func(*syntax.SyntaxNode) string)
	if !ok {
		p.r.count("highlighting not reachable", 1)
		return
	}
	all := places(p.src.Root)
	var html, fresh string
	do := func(what string, f func()) bool {
		if p.alone {
			sim.SetBudget(hiliteBudget(len(text), len(all)))
			defer sim.SetBudget(1 << 60)
		}
		pan, where := safely(f)
		if b, ok := pan.(sim.Budget); ok {
			p.fail("budget", "%s takes more than %d statements for %d bytes and %d nodes (%v), text %q", what, hiliteBudget(len(text), len(all)), len(text), len(all), b, clip(text, 1000))
			return false
		}
		if pan != nil {
			p.fail("panic in "+where, "%s panics: %v, for text %q", what, panicText(pan), clip(text, 1500))
			return false
		}
		return true
	}
	if !do("highlighting", func() { html = render(p.src.Root) }) {
		return
	}
	plain, err := plainOf(html)
	if err != nil {
		p.fail("html", "the highlighted text is not well-formed: %v, for text %q: %q", err, clip(text, 1000), clip(html, 1500))
		return
	}
	if want := string([]rune(text)); plain != want {
		p.fail("text", "the highlighted text is %q, want %q", clip(plain, 1000), clip(want, 1000))
		return
	}
	var root *syntax.SyntaxNode
	if pan, _ := safely(func() { root = syntax.Parse(text) }); pan != nil {
		p.skip = true
		return
	}
	if !do("highlighting a fresh tree", func() { fresh = render(root) }) {
		return
	}
	if html != fresh {
		at := 0
		for at < len(html) && at < len(fresh) && html[at] == fresh[at] {
			at++
		}
		at = max(0, at-40)
		p.fail("history", "highlighting after the edits gives ...%q, freshly parsed ...%q, for text %q", clip(html[at:], 200), clip(fresh[min(at, len(fresh)):], 200), clip(text, 1000))
		return
	}
	p.r.distinct("highlighted texts", hash(html))

	// The tag of a node does not depend on how it was reached.
	tagOf, ok := internals["highlight"].(func(*syntax.LinkedNode) (syntax.Tag, bool))
	children, ok2 := internals["LinkedNode.children"].(func(*syntax.LinkedNode) *syntax.LinkedChildren)
	if !ok || !ok2 {
		p.r.count("highlighting not reachable", 1)
		return
	}
	n := 2
	if level == 3 {
		n = 12
	}
	for ; n > 0 && p.viol == nil; n-- {
		k := p.rand(len(all))
		do("highlighting "+brief(all[k].n), func() {
			found, ok := p.src.Find(spanOf(all[k].n))
			if !ok {
				return // another property
			}
			var path []int
			for j := k; all[j].parent >= 0; j = all[j].parent {
				path = append(path, all[j].index)
			}
			l := syntax.NewLinkedNode(p.src.Root)
			for i := len(path) - 1; i >= 0; i-- {
				var next *syntax.LinkedNode
				for j, c := range children(l).Children() {
					if j == path[i] {
						next = c
						break
					}
				}
				if next == nil {
					return
				}
				l = next
			}
			a, aok := tagOf(found)
			b, bok := tagOf(l)
			if a != b || aok != bok {
				p.fail("tag", "%s at %d..%d is tagged %v (%v) when found by its span and %v (%v) when reached from the root, in text %q", brief(all[k].n), all[k].start, all[k].end, a, aok, b, bok, clip(text, 1000))
			}
		})
	}
}

func init() {
	register(&Property{
		ID: "C21", Level: "exploration", Quick: 30000, Thorough: 400000,
		Run: func(r *Run) {
			runSessions(r, func() profile {
				p := editProfile()
				p.maxLength = 1500
				p.torn = sim.Intn(sim.Config, 3) == 0
				p.damaged = sim.Intn(sim.Config, 3) == 0
				return p
			}, oracles{hilite: true})
		},
		Rule:     "a case is a first text (a third of them of the kinds of C04: soup, deep and regular nesting, damaged by storage) and 1..40 operations of one session, one to three sessions interleaved; after each operation the whole text is highlighted, as it is and freshly parsed, and the tags of a few nodes are asked for; non-trivial: at least two operations on a first text that is not empty",
		Real:     []string{"typst/syntax (highlighting, parser, lexer, reparser, nodes, linked nodes, source)", "internal/scanner, stdx, option, ranges, stack, mathx"},
		Stub:     []string{"scheduler", "package time, sync, map iteration order"},
		Measures: "highlighted texts: different results; texts reached: different texts after an operation; interleavings: hash of the sequence of (task, step) switches",
	})
}
