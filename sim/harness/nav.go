package main

import (
	"fmt"

	"github.com/mewmew/typast/typst/cstwalk"
	"github.com/mewmew/typast/typst/syntax"
)

// place is a node of a tree with its surroundings, by index into the list of
// all nodes in the order of the text.
type place struct {
	flat
	parent int // -1: none
	index  int // in the parent's children
	last   int // last node of its subtree
}

func places(root *syntax.SyntaxNode) []place {
	var all []place
	var rec func(n *syntax.SyntaxNode, off, parent, index int) int
	rec = func(n *syntax.SyntaxNode, off, parent, index int) int {
		k := len(all)
		all = append(all, place{flat{n, off, 0}, parent, index, 0})
		end := off
		if r, ok := n.Repr.(*syntax.InnerNode); ok {
			for i, c := range r.Children {
				end = rec(c, end, k, i)
			}
		} else {
			end += nodeLen(n)
		}
		all[k].end = end
		all[k].last = len(all) - 1
		return end
	}
	rec(root, 0, -1, 0)
	return all
}

func trivia(n *syntax.SyntaxNode) bool { return n.SyntaxKind().IsTrivia() }

// realLeaf reports whether n is a leaf and not trivia.
func realLeaf(n *syntax.SyntaxNode) bool {
	_, ok := n.Repr.(*syntax.LeafNode)
	return ok && !trivia(n)
}

// internals are the functions and methods of package syntax by name.
var internals = syntax.VerifSim()

type linkStep = func(*syntax.LinkedNode) (*syntax.LinkedNode, bool)

// navigate moves from nodes of the tree to their neighbours.
func (p *player) navigate(text string, level int) {
	fns := internals
	children, _ := fns["LinkedNode.children"].(func(*syntax.LinkedNode) *syntax.LinkedChildren)
	if children == nil {
		p.r.count("navigation not reachable", 1)
		return
	}
	all := places(p.src.Root)
	nth := map[*syntax.SyntaxNode]int{}
	for i, f := range all {
		nth[f.n] = i
	}
	// first[i], lastUpTo[i]: nearest leaf at or behind, at or before i.
	at := func(k int) string {
		f := all[k]
		return fmt.Sprintf("%s at %d..%d", brief(f.n), f.start, f.end)
	}
	where := "?"
	same := func(what string, l *syntax.LinkedNode, ok bool, k int) bool {
		switch {
		case k < 0 && ok:
			p.fail("navigation", "%s gives %v at %d..%d, but there is none, in text %q", what, l, l.Range().Start, l.Range().End, clip(text, 1000))
		case k < 0:
			return true
		case !ok || l == nil:
			p.fail("navigation", "%s gives nothing instead of %s, in text %q", what, at(k), clip(text, 1000))
		case int(l.Range().Start) != all[k].start || int(l.Range().End) != all[k].end || l.String() != all[k].n.String():
			p.fail("navigation", "%s gives %v at %d..%d instead of %s, in text %q", what, l, l.Range().Start, l.Range().End, at(k), clip(text, 1000))
		default:
			return true
		}
		return false
	}
	// get descends from the root.
	var get func(k int) *syntax.LinkedNode
	get = func(k int) *syntax.LinkedNode {
		if all[k].parent < 0 {
			return syntax.NewLinkedNode(p.src.Root)
		}
		up := get(all[k].parent)
		if up == nil {
			return nil
		}
		var res *syntax.LinkedNode
		kids := children(up)
		iter := kids.Children()
		if p.rand(3) == 0 {
			iter = kids.RevChildren()
		}
		seen := 0
		for i, c := range iter {
			seen++
			if i == all[k].index {
				res = c
				break
			}
		}
		if res == nil {
			p.fail("navigation", "child %d of %s is missing among %d, in text %q", all[k].index, at(all[k].parent), seen, clip(text, 1000))
		}
		return res
	}
	n := 3
	if level == 3 {
		n = 40
	}
	pan, loc := safely(func() {
		for i := 0; i < n && p.viol == nil; i++ {
			k := p.rand(len(all))
			f := all[k]
			where = at(k)
			var l *syntax.LinkedNode
			if p.rand(4) == 0 {
				var ok bool
				if l, ok = p.src.Find(spanOf(f.n)); !same("Find of the span of "+where, l, ok, k) {
					return
				}
			} else if l = get(k); l == nil || !same("descending to "+where, l, true, k) {
				return
			}
			// children, both ways.
			if kids := kidsOf(all, k); p.rand(2) == 0 {
				j := 0
				for i, c := range children(l).Children() {
					if j >= len(kids) || i != j || !same(fmt.Sprintf("child %d of %s", i, where), c, true, kids[j]) {
						break
					}
					j++
				}
				if p.viol == nil && j != len(kids) {
					p.fail("navigation", "%s has %d children, visited %d, in text %q", where, len(kids), j, clip(text, 1000))
				}
			} else {
				j := len(kids) - 1
				for i, c := range children(l).RevChildren() {
					if j < 0 || i != j || !same(fmt.Sprintf("child %d (backwards) of %s", i, where), c, true, kids[j]) {
						break
					}
					j--
				}
				if p.viol == nil && j != -1 {
					p.fail("navigation", "%s has %d children, %d not visited backwards, in text %q", where, len(kids), j+1, clip(text, 1000))
				}
			}
			if p.viol != nil {
				return
			}
			prev, next := -1, -1
			if f.parent >= 0 {
				sib := kidsOf(all, f.parent)
				for j := f.index - 1; j >= 0 && prev < 0; j-- {
					if !trivia(all[sib[j]].n) {
						prev = sib[j]
					}
				}
				for j := f.index + 1; j < len(sib) && next < 0; j++ {
					if !trivia(all[sib[j]].n) {
						next = sib[j]
					}
				}
			}
			prevLeaf, nextLeaf, leftmost, rightmost := -1, -1, -1, -1
			for j := k - 1; j >= 0 && prevLeaf < 0; j-- {
				if realLeaf(all[j].n) {
					prevLeaf = j
				}
			}
			for j := f.last + 1; j < len(all) && nextLeaf < 0; j++ {
				if realLeaf(all[j].n) {
					nextLeaf = j
				}
			}
			for j := k; j <= f.last && leftmost < 0; j++ {
				if realLeaf(all[j].n) {
					leftmost = j
				}
			}
			for j := f.last; j >= k && rightmost < 0; j-- {
				if realLeaf(all[j].n) {
					rightmost = j
				}
			}
			for _, c := range []struct {
				name string
				want int
			}{{"prev_sibling", prev}, {"next_sibling", next}, {"prev_leaf", prevLeaf}, {"next_leaf", nextLeaf}, {"leftmost_leaf", leftmost}, {"rightmost_leaf", rightmost}} {
				step, ok := fns["LinkedNode."+c.name].(linkStep)
				if !ok {
					p.r.count("navigation not reachable", 1)
					continue
				}
				g, ok := step(l)
				if !same(c.name+" of "+where, g, ok, c.want) {
					return
				}
			}
			for _, c := range []struct {
				name string
				want int
			}{{"parent_kind", f.parent}, {"prev_sibling_kind", prev}, {"next_sibling_kind", next}} {
				step, ok := fns["LinkedNode."+c.name].(func(*syntax.LinkedNode) (syntax.SyntaxKind, bool))
				if !ok {
					continue
				}
				kind, ok := step(l)
				if ok != (c.want >= 0) || ok && kind != all[c.want].n.SyntaxKind() {
					p.fail("navigation", "%s of %s gives %v, %v, in text %q", c.name, where, kind, ok, clip(text, 1000))
					return
				}
			}
			// the leaf at a position.
			leafAt, ok := fns["LinkedNode.leaf_at"].(func(*syntax.LinkedNode, uint, syntax.Side) (*syntax.LinkedNode, bool))
			if !ok || f.end == f.start {
				continue
			}
			pos := f.start + p.rand(f.end-f.start+1)
			before, after := -1, -1
			for j := k; j <= f.last; j++ {
				if len(kidsOf(all, j)) > 0 || all[j].start == all[j].end {
					continue
				}
				if all[j].start < pos && pos <= all[j].end {
					before = j
				}
				if all[j].start <= pos && pos < all[j].end {
					after = j
				}
			}
			if pos > f.start {
				g, ok := leafAt(l, uint(pos), syntax.SideBefore)
				if !same(fmt.Sprintf("the leaf before byte %d in %s", pos, where), g, ok, before) {
					return
				}
			}
			g, ok2 := leafAt(l, uint(pos), syntax.SideAfter)
			if !same(fmt.Sprintf("the leaf after byte %d in %s", pos, where), g, ok2, after) {
				return
			}
			if g, ok := leafAt(l, uint(f.end+1+p.rand(3)), []syntax.Side{syntax.SideBefore, syntax.SideAfter}[p.rand(2)]); ok {
				same("the leaf behind the end of "+where, g, ok, -1)
				return
			}
		}
	})
	if pan != nil {
		p.fail("panic in "+loc, "navigating from %s panics: %v, in text %q", where, panicText(pan), clip(text, 1000))
	}
}

// walk compares what a walk over the tree visits with the list of its nodes.
func (p *player) walk(text string) {
	all := places(p.src.Root)
	at := p.rand(len(all))
	if p.rand(3) > 0 {
		at = 0
	}
	// The visitor refuses one node.
	refused := -1
	if p.rand(3) > 0 {
		refused = at + p.rand(all[at].last-at+1)
	}
	// It may refuse it as soon as it sees the node, before what is in it.
	early := p.rand(2) == 0
	refusedEarly := false
	var got []syntax.Repr
	pan, where := safely(func() {
		cstwalk.Walk(all[at].n, func(x any) bool {
			switch x := x.(type) {
			case *syntax.SyntaxNode:
				if early && refused >= 0 && x == all[refused].n {
					refusedEarly = true
					return false
				}
				return true
			case *syntax.LeafNode:
				got = append(got, x)
			case *syntax.InnerNode:
				got = append(got, x)
			case *syntax.ErrorNode:
				got = append(got, x)
			default:
				return true
			}
			return refused < 0 || got[len(got)-1] != all[refused].n.Repr
		})
	})
	if pan != nil {
		p.fail("panic in "+where, "walking from %s panics: %v, in text %q", brief(all[at].n), panicText(pan), clip(text, 1000))
		return
	}
	var want []syntax.Repr
	for j := at; j <= all[at].last; j++ {
		if j != refused || !refusedEarly {
			want = append(want, all[j].n.Repr)
		}
		if j == refused {
			j = all[j].last
		}
	}
	name := func(l []syntax.Repr, i int) string {
		if i >= len(l) {
			return "nothing"
		}
		return brief(&syntax.SyntaxNode{Repr: l[i]})
	}
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(want) || i >= len(got) || want[i] != got[i] {
			what := ""
			if refused >= 0 {
				what = ", refusing " + brief(all[refused].n) + ","
			}
			p.fail("walk", "walking from %s%s visits %s instead of %s as node %d, in text %q", brief(all[at].n), what, name(got, i), name(want, i), i, clip(text, 1000))
			return
		}
	}
}

// kidsOf lists the children of a place.
func kidsOf(all []place, k int) []int {
	var res []int
	for j := k + 1; j <= all[k].last; j = all[j].last + 1 {
		res = append(res, j)
	}
	return res
}

func init() {
	register(&Property{
		ID: "C20", Level: "exploration", Quick: 30000, Thorough: 400000,
		Run: func(r *Run) {
			runSessions(r, func() profile {
				p := editProfile()
				p.maxLength = 1200
				return p
			}, oracles{nav: true})
		},
		Rule:     "a case is a first text and 1..40 operations of one session, one to three sessions interleaved; after each operation the neighbours of a few nodes (at the end: of many) are visited: children in both directions, siblings, leaves before and behind, leaves at byte offsets; non-trivial: at least two operations on a first text that is not empty",
		Real:     []string{"typst/syntax (parser, lexer, reparser, nodes, linked nodes, source)", "internal/scanner, stdx, option, ranges, stack, mathx"},
		Stub:     []string{"scheduler", "package time, sync, map iteration order"},
		Measures: "texts reached: different texts after an operation; interleavings: hash of the sequence of (task, step) switches",
	})
}
