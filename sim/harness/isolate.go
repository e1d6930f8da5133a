package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/mewmew/typast/internal/verifsim/sim"
	"github.com/mewmew/typast/typst/cstwalk"
	"github.com/mewmew/typast/typst/syntax"
)

// C05: work on independent sources is isolated.

// act is one step of a task's program.
type act struct {
	kind string // open, detached, edit, parse, lookup, lines, print, walk, move, hilite, spec, shared
	op   op
	text string
	n    int
}

func (a act) String() string {
	switch a.kind {
	case "edit":
		return a.op.String()
	case "open", "detached", "parse", "spec":
		return fmt.Sprintf("%s(%q)", a.kind, clip(a.text, 300))
	}
	return fmt.Sprintf("%s %d", a.kind, a.n)
}

// worker carries out a program and records what it sees.
type worker struct {
	prog   []act
	src    *syntax.Source
	shared *syntax.Source
	obs    []string
}

func (w *worker) note(format string, v ...any) { w.obs = append(w.obs, fmt.Sprintf(format, v...)) }

func (w *worker) run() {
	for _, a := range w.prog {
		pan, where := safely(func() { w.step(a) })
		if pan != nil {
			w.note("panic in %s: %v", where, panicText(pan))
			if _, ok := pan.(sim.Budget); ok {
				panic(pan)
			}
		}
	}
}

func (w *worker) step(a act) {
	switch a.kind {
	case "open":
		id := syntax.NewFakeFileID(syntax.NewVirtualPath("/main.typ"))
		w.src = syntax.NewSource(id, a.text)
		w.look(w.src)
	case "detached":
		w.src = syntax.NewDetachedSource(a.text)
		w.look(w.src)
	case "parse":
		root := syntax.Parse(a.text)
		w.note("%s", dumpString(root, false))
	case "edit":
		if w.src == nil {
			return
		}
		r := applyTo(w.src, a.op)
		w.note("%d..%d", r.Start, r.End)
		w.look(w.src)
	case "spec":
		s, err := syntax.ParsePackageSpec(a.text)
		if err != nil {
			w.note("%v", err)
		} else {
			w.note("%v", s)
		}
	case "shared":
		w.read(w.shared, a.n)
	default:
		if w.src != nil {
			w.readAs(w.src, a.kind, a.n)
		}
	}
}

// look records the whole state of a source. The file ids of its spans differ
// between runs, but must all be its own.
func (w *worker) look(s *syntax.Source) {
	var all []flat
	flatten(s.Root, 0, &all)
	for _, f := range all {
		if id, ok := spanOf(f.n).ID(); !ok || id != s.ID {
			w.note("span of %s has file id %v of a source with another", brief(f.n), ok)
		}
	}
	w.note("%s", stateOf(s))
}

func (w *worker) read(s *syntax.Source, n int) {
	w.readAs(s, []string{"lookup", "lines", "print", "walk", "state", "move", "hilite"}[n%7], n/7)
}

func (w *worker) readAs(s *syntax.Source, kind string, n int) {
	text := s.Text()
	switch kind {
	case "state":
		w.look(s)
	case "lookup":
		var all []flat
		flatten(s.Root, 0, &all)
		f := all[n%len(all)]
		r, ok := s.Range(spanOf(f.n))
		l, ok2 := s.Find(spanOf(f.n))
		w.note("%d..%d %v %v", r.Start, r.End, ok, ok2)
		if ok2 {
			w.note("%s", l.String())
		}
	case "lines":
		b := uint(n % (len(text) + 2))
		u, ok := s.Lines.ByteToUtf16(b)
		bb, ok2 := s.Lines.Utf16ToByte(u)
		p, ok3 := s.Lines.ByteToLineColumn(b)
		q, ok4 := s.Lines.LineColumnToByte(p.Line, p.Col)
		rr, ok5 := s.Lines.LineToRange(p.Line)
		w.note("%d: %v %v %v %v %v %v %v %v %v %v, %d %d", b, u, ok, bb, ok2, p, ok3, q, ok4, rr, ok5, s.Lines.LenUtf16(), s.Lines.LenLines())
	case "print":
		var out bytes.Buffer
		syntax.PrintNode(&out, s.Root)
		w.note("%s", out.String())
	case "move":
		var all []flat
		flatten(s.Root, 0, &all)
		f := all[n%len(all)]
		l, ok := s.Find(spanOf(f.n))
		if !ok {
			w.note("not found")
			return
		}
		for _, name := range []string{"prev_sibling", "next_sibling", "prev_leaf", "next_leaf", "leftmost_leaf", "rightmost_leaf"} {
			if step, ok := internals["LinkedNode."+name].(linkStep); ok {
				if g, ok := step(l); ok {
					w.note("%s %v %s", name, g.Range(), g.String())
				} else {
					w.note("no %s", name)
				}
			}
		}
		if leafAt, ok := internals["LinkedNode.leaf_at"].(func(*syntax.LinkedNode, uint, syntax.Side) (*syntax.LinkedNode, bool)); ok {
			if g, ok := leafAt(syntax.NewLinkedNode(s.Root), uint(n%(len(text)+1)), syntax.SideBefore); ok {
				w.note("leaf %v %s", g.Range(), g.String())
			}
		}
		if tagOf, ok := internals["highlight"].(func(*syntax.LinkedNode) (syntax.Tag, bool)); ok {
			tag, ok := tagOf(l)
			w.note("tag %v %v", tag, ok)
		}
	case "hilite":
		if render, ok := internals["highlight_html"].(func(*syntax.SyntaxNode) string); ok {
			w.note("%s", render(s.Root))
		}
		if collect, ok := internals["SyntaxNode.errors"].(func(*syntax.SyntaxNode) []*syntax.SyntaxError); ok {
			for _, e := range collect(s.Root) {
				w.note("%q %q", e.Message, e.Hints)
			}
		}
	case "walk":
		k := 0
		var names []string
		cstwalk.Walk(s.Root, func(x any) bool {
			k++
			if leaf, ok := x.(*syntax.LeafNode); ok {
				names = append(names, leaf.Text)
			}
			return k < 400
		})
		w.note("%d %q", k, names)
	}
}

func runIsolate(r *Run) {
	n := 2 + sim.Intn(sim.Config, 3)
	gap := []uint64{40, 7, 400, 4000, 2}[sim.Intn(sim.Config, 5)]
	sharedText := document()
	progs := make([][]act, n)
	var key []string
	// Often all tasks use the same few constructs, so that they meet in the
	// same functions.
	var focus []string
	if gi(5) > 1 {
		for i := 1 + gi(3); i > 0; i-- {
			focus = append(focus, clean(gpick(markupPiece(2), markupPiece(1), soup[gi(len(soup))], "#{"+expr(2)+"}", "#"+embedded(2))))
		}
	}
	text := func() string {
		if focus == nil {
			return document()
		}
		s := ""
		for i := 1 + gi(12); i > 0; i-- {
			s += focus[gi(len(focus))] + gpick(" ", "", "\n", " ")
		}
		return s
	}
	for t := range progs {
		pr := profile{steps: 5, maxLength: 500, newlines: gi(6) == 0, torn: gi(8) == 0, invalid: gi(6) == 0}
		s := newSession(pr)
		if focus != nil {
			s.first = text()
			s.text = s.first
			s.history = []string{s.first}
		}
		kind := "open"
		if gi(3) == 0 {
			kind = "detached"
		}
		prog := []act{{kind: kind, text: s.first}}
		for i := 1 + gi(5); i > 0; i-- {
			switch gi(13) {
			case 12:
				prog = append(prog, act{kind: gpick("move", "hilite"), n: gi(300)})
			case 0:
				prog = append(prog, act{kind: "lookup", n: gi(100)})
			case 1:
				prog = append(prog, act{kind: "lines", n: gi(300)})
			case 2:
				prog = append(prog, act{kind: "print"})
			case 3:
				prog = append(prog, act{kind: "parse", text: gpick(text(), text(), "#{"+clean(code(2))+"}")})
			case 4:
				prog = append(prog, act{kind: "walk"})
			case 5:
				prog = append(prog, act{kind: "spec", text: gpick("@preview/p:0.1.0", "@local/a-b:1.2.3", "@preview/p:0.1", "p", "@/x:1.0.0")})
			case 6, 7:
				prog = append(prog, act{kind: "shared", n: gi(700)})
			default:
				prog = append(prog, act{kind: "edit", op: s.next()})
			}
		}
		progs[t] = prog
		r.tracef("task %d: %v", t, prog)
		key = append(key, fmt.Sprint(prog))
	}
	r.Sample = clip(strings.Join(key, " || "), 1500)
	r.Evals = int64(n)
	r.Keys = []uint64{hash(append(key, sharedText)...)}

	// Alone.
	want := make([][]string, n)
	for t := range progs {
		resetWorld()
		var shared *syntax.Source
		if pan, _ := safely(func() { shared = syntax.NewDetachedSource(sharedText) }); pan != nil {
			r.Undecided = "the text cannot be parsed at all"
			return
		}
		w := &worker{prog: progs[t], shared: shared}
		res := sim.Run([]func(){w.run}, 0, 3e8)
		if res.Tasks[0].Panic != nil || res.Spawned != nil || res.Deadlock {
			r.Undecided = "a program alone does not end"
			return
		}
		want[t] = w.obs
	}

	// Together.
	resetWorld()
	shared := syntax.NewDetachedSource(sharedText)
	var ws []*worker
	var fns []func()
	for t := range progs {
		w := &worker{prog: progs[t], shared: shared}
		ws = append(ws, w)
		fns = append(fns, w.run)
	}
	res := sim.Run(fns, gap, 3e9)
	r.count("preemptions", int64(res.Switches))
	r.distinct("interleavings", res.Hash)
	r.tracef("%d switches between tasks in %d steps", res.Switches, res.Steps)
	for t, task := range append(res.Tasks, res.Spawned...) {
		if task.Panic != nil {
			if s, ok := task.Panic.(sim.UnsupportedError); ok {
				panic(s)
			}
			if b, ok := task.Panic.(sim.Budget); ok {
				r.fail("budget", "task %d does not end together with others (%v), but does alone", t, b)
			}
			r.fail("panic", "task %d: %v\n%s", t, panicText(task.Panic), clip(string(task.Stack), 2000))
		}
	}
	if res.Deadlock {
		r.fail("deadlock", "the tasks wait for each other for ever")
	}
	for t, w := range ws {
		for i := range want[t] {
			if i >= len(w.obs) {
				r.fail("isolation", "task %d stops early", t)
			}
			if w.obs[i] != want[t][i] {
				at := 0
				for at < len(w.obs[i]) && at < len(want[t][i]) && w.obs[i][at] == want[t][i][at] {
					at++
				}
				lo := max(0, at-80)
				r.fail("isolation", "task %d, observation %d differs from the same operations alone:\n  alone:    ...%s\n  together: ...%s\n  program: %v", t, i,
					clip(want[t][i][min(lo, len(want[t][i])):], 300), clip(w.obs[i][min(lo, len(w.obs[i])):], 300), clip(fmt.Sprint(w.prog), 1500))
			}
		}
		if len(w.obs) != len(want[t]) {
			r.fail("isolation", "task %d makes %d observations, alone %d", t, len(w.obs), len(want[t]))
		}
	}
}

func init() {
	register(&Property{
		ID: "C05", Level: "exploration", Quick: 50000, Thorough: 800000, Race: true, RaceQuick: 10000, RaceThorough: 100000,
		Run:  runIsolate,
		Rule: "a case is two to four tasks, each opening a source of its own and editing, parsing, printing, walking, converting and looking up in it, and reading one source they share; they run alone, each in a fresh process image, and then interleaved at any statement, with a mean distance of 2..4000 statements; mostly all tasks use the same few constructs, so that they meet in the same functions; all observations must agree. Part of the seeds run under the race detector, which sees only the synchronisation of the code itself; distinct by the programs",
		Real: []string{"typst/syntax", "typst/cstwalk", "internal/*"}, Stub: []string{"scheduler", "package sync (simulated locks)", "package time, map iteration order"},
		Measures: "interleavings: hash of the sequence of (task, step) switches",
	})
}
