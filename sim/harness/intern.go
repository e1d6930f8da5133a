package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/mewmew/typast/internal/option"
	"github.com/mewmew/typast/internal/verifsim/sim"
	"github.com/mewmew/typast/typst/syntax"
)

// C06: file identities.

const maxIDs = 65535 // the non-zero values of a file id

// call is one call on the interner.
type call struct {
	kind string // intern, fake, join, ext, resolve
	spec string // "" for none
	path string
	base int // index of an earlier result of the task, or of the shared ids
	arg  string
}

func (c call) String() string {
	switch c.kind {
	case "intern", "fake":
		return fmt.Sprintf("%s(%s, %q)", c.kind, c.spec, c.path)
	case "join", "ext":
		return fmt.Sprintf("%s(#%d, %q)", c.kind, c.base, c.arg)
	}
	return fmt.Sprintf("%s(#%d)", c.kind, c.base)
}

// ident is what a file id stands for.
type identity struct {
	spec, path string
	fake       bool
}

func (i identity) String() string {
	if i.fake {
		return "fake " + i.spec + i.path
	}
	return i.spec + i.path
}

// normal is the reference normalization of a path that stays below the root.
func normal(p string) string {
	var out []string
	for _, c := range strings.Split(p, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, c)
		}
	}
	return "/" + strings.Join(out, "/")
}

func refJoin(base, rel string) string {
	if strings.HasPrefix(rel, "/") {
		return normal(rel)
	}
	return normal(base[:strings.LastIndexByte(base, '/')+1] + rel)
}

func refExt(base, ext string) string {
	at := strings.LastIndexByte(base, '/') + 1
	dir, name := base[:at], base[at:]
	if name == "" {
		return base
	}
	if i := strings.LastIndexByte(name, '.'); i > 0 {
		name = name[:i]
	}
	if ext != "" && ext[0] != '.' {
		ext = "." + ext
	}
	return dir + name + ext
}

func parseSpec(s string) option.Option[*syntax.PackageSpec] {
	if s == "" {
		return option.None[*syntax.PackageSpec]()
	}
	spec, err := syntax.ParsePackageSpec(s)
	if err != nil {
		panic(sim.Unsupported("package spec " + s + ": " + err.Error()))
	}
	return option.Some(spec)
}

// interned is one recorded call.
type interned struct {
	what    identity
	id      syntax.FileID
	refused bool
	// for resolve
	resolve bool
	got     identity
}

type idClient struct {
	r     *Run
	id    int
	calls []call
	ids   []syntax.FileID
	what  []identity
	hist  []porcupine.Operation
	viol  string
}

func resolveID(id syntax.FileID) identity {
	v := id.VPath()
	i := identity{path: v.Path}
	if s, ok := id.Spec().Get(); ok {
		i.spec = s.String()
	}
	return i
}

func (c *idClient) run() {
	for _, k := range c.calls {
		var x interned
		var fn func() syntax.FileID
		switch k.kind {
		case "intern", "fake":
			spec := parseSpec(k.spec)
			v := syntax.NewVirtualPath(k.path)
			x.what = identity{k.spec, normal(k.path), k.kind == "fake"}
			fn = func() syntax.FileID {
				if k.kind == "fake" {
					return syntax.NewFakeFileID(v)
				}
				return syntax.NewFileID(spec, v)
			}
			defer func() {
				// the caller may reuse what it passed.
				v.Path = "/overwritten"
				if s, ok := spec.Get(); ok {
					s.Name = "overwritten"
					s.Version.Major = 77
				}
			}()
		default:
			if len(c.ids) == 0 {
				continue
			}
			b := k.base % len(c.ids)
			base, what := c.ids[b], c.what[b]
			switch k.kind {
			case "join":
				x.what = identity{what.spec, refJoin(what.path, k.arg), false}
				fn = func() syntax.FileID { return base.Join(k.arg) }
				if len(k.arg)%3 == 1 {
					// by way of a place in the file
					sp, _ := syntax.NewSpanFromNumber(base, 1000)
					fn = func() syntax.FileID {
						id, err := sp.ResolvePath(k.arg)
						if err != nil {
							panic(err)
						}
						return id
					}
				}
			case "ext":
				x.what = identity{what.spec, refExt(what.path, k.arg), false}
				fn = func() syntax.FileID { return base.WithExtension(k.arg) }
			default:
				x.resolve, x.what, x.id = true, what, base
				fn = func() syntax.FileID {
					x.got = resolveID(syntax.FileIDFromUint16(base.Uint16()))
					return base
				}
			}
		}
		at := sim.Tick()
		var id syntax.FileID
		pan, where := safely(func() { id = fn() })
		ret := sim.Tick()
		if pan != nil {
			if x.resolve {
				c.viol = fmt.Sprintf("%v of id %d, which is %v, panics in %s: %v", k, x.id, x.what, where, panicText(pan))
				return
			}
			x.refused = true
		} else if !x.resolve {
			x.id = id
			c.ids = append(c.ids, id)
			c.what = append(c.what, x.what)
		}
		c.hist = append(c.hist, porcupine.Operation{ClientId: c.id, Input: x.what, Call: at, Output: x, Return: ret})
	}
}

// idState is the sequential model: which ids are taken by what.
type idState struct {
	ids  map[string]syntax.FileID
	used map[syntax.FileID]identity
	free int
}

func (s *idState) clone() *idState {
	t := &idState{map[string]syntax.FileID{}, map[syntax.FileID]identity{}, s.free}
	for k, v := range s.ids {
		t.ids[k] = v
	}
	for k, v := range s.used {
		t.used[k] = v
	}
	return t
}

func idModel(init *idState) porcupine.Model {
	return porcupine.Model{
		Init: func() any { return init },
		Step: func(state, in, out any) (bool, any) {
			s, x := state.(*idState), out.(interned)
			if x.resolve {
				want := x.what
				return s.used[x.id] == want && x.got.spec == want.spec && x.got.path == want.path, s
			}
			key := x.what.String()
			if !x.what.fake {
				if id, ok := s.ids[key]; ok {
					return !x.refused && x.id == id, s
				}
			}
			if s.free == 0 {
				return x.refused, s
			}
			if x.refused || x.id == 0 {
				return false, s
			}
			if _, taken := s.used[x.id]; taken {
				return false, s
			}
			t := s.clone()
			t.free--
			t.used[x.id] = x.what
			if !x.what.fake {
				t.ids[key] = x.id
			}
			return true, t
		},
		Equal: func(a, b any) bool {
			s, t := a.(*idState), b.(*idState)
			if s.free != t.free || len(s.used) != len(t.used) {
				return false
			}
			for k, v := range s.used {
				if t.used[k] != v {
					return false
				}
			}
			return true
		},
	}
}

func runIntern(r *Run) {
	n := 2 + sim.Intn(sim.Config, 3)
	gap := []uint64{5, 2, 20, 100}[sim.Intn(sim.Config, 4)]
	paths := []string{"/a/b.typ", "a/b.typ", "/a//b.typ", "./a/b.typ", "/a/./b.typ", "/a/c/../b.typ", "/a/b.typ/", "/a/b", "b.typ", "/", "", "/a/B.typ", "/é/日.typ", "/a/.hidden", "/x.tar.gz"}
	specs := []string{"", "", "@preview/p:0.1.0", "@preview/p:0.1.1", "@local/p:0.1.0", "@preview/q:0.1.0"}
	rels := []string{"b.typ", "../b.typ", "/b.typ", "./c/../b.typ", "c/b", ".", "", "../a/b.typ"}
	exts := []string{".typ", ".pdf", "", "pdf"}
	// few distinct ones in most runs.
	few := func(s []string) []string {
		if gi(3) == 0 {
			return s
		}
		var t []string
		for i := 1 + gi(3); i > 0; i-- {
			t = append(t, s[gi(len(s))])
		}
		return t
	}
	paths, specs = few(paths), few(specs)
	var fill, left int
	if gi(60) == 0 {
		left = gi(8)
		fill = maxIDs - left
	} else if gi(4) == 0 {
		fill = gi(5)
	}
	progs := make([][]call, n)
	for t := range progs {
		for i := 1 + gi(5); i > 0; i-- {
			k := call{base: gi(8)}
			switch gi(9) {
			case 0:
				k.kind = "fake"
				k.path = paths[gi(len(paths))]
			case 1:
				k.kind, k.arg = "join", rels[gi(len(rels))]
			case 2:
				k.kind, k.arg = "ext", exts[gi(len(exts))]
			case 3, 4:
				k.kind = "resolve"
			default:
				k.kind, k.spec, k.path = "intern", specs[gi(len(specs))], paths[gi(len(paths))]
			}
			progs[t] = append(progs[t], k)
		}
		r.tracef("task %d: %v", t, progs[t])
	}
	r.Sample = fmt.Sprintf("%d ids taken before; %v", fill, clip(fmt.Sprint(progs), 1200))
	r.Keys = []uint64{hash(r.Sample, fmt.Sprint(progs))}
	r.Evals = 1
	r.tracef("%d ids taken before", fill)

	// What was there before: fake and ordinary ids.
	init := &idState{map[string]syntax.FileID{}, map[syntax.FileID]identity{}, maxIDs}
	before := make([]syntax.FileID, fill)
	name := func(i int) identity { return identity{path: fmt.Sprintf("/f/%d.typ", i), fake: i%3 == 0} }
	sim.SetBudget(3e9)
	for i := range before {
		w := name(i)
		pan, where := safely(func() {
			if w.fake {
				before[i] = syntax.NewFakeFileID(syntax.NewVirtualPath(w.path))
			} else {
				before[i] = syntax.NewFileID(option.None[*syntax.PackageSpec](), syntax.NewVirtualPath(w.path))
			}
		})
		if pan != nil {
			r.fail("refused", "id %d of %d is refused in %s: %v", i+1, maxIDs, where, panicText(pan))
		}
	}
	init.free -= fill
	if fill > 1000 {
		r.count("fault id space (nearly) exhausted", 1)
	}
	taken := map[syntax.FileID]int{}
	for i, id := range before {
		if j, dup := taken[id]; dup || id == 0 {
			r.fail("not unique", "%v and %v have the same id %d", name(i), name(j), id)
		}
		taken[id] = i
	}
	// the model keeps only a few of them; the others can not be returned.
	for i := 0; i < fill && i < 4; i++ {
		init.used[before[i]] = name(i)
		if !name(i).fake {
			init.ids[name(i).String()] = before[i]
		}
	}

	var hist []porcupine.Operation
	var clients []*idClient
	var fns []func()
	for t := range progs {
		c := &idClient{r: r, id: t, calls: progs[t]}
		if fill > 0 {
			c.ids, c.what = []syntax.FileID{before[0]}, []identity{name(0)}
		}
		clients = append(clients, c)
		fns = append(fns, c.run)
	}
	res := sim.Run(fns, gap, 3e8)
	r.count("preemptions", int64(res.Switches))
	r.distinct("interleavings", res.Hash)
	for t, task := range append(res.Tasks, res.Spawned...) {
		if task.Panic != nil {
			if s, ok := task.Panic.(sim.UnsupportedError); ok {
				panic(s)
			}
			r.fail("panic", "task %d: %v\n%s", t, panicText(task.Panic), clip(string(task.Stack), 2000))
		}
	}
	if res.Deadlock {
		r.fail("deadlock", "the tasks wait for each other for ever")
	}
	for _, c := range clients {
		hist = append(hist, c.hist...)
		if c.viol != "" {
			r.fail("resolve", "%s", c.viol)
		}
	}
	refused := 0
	sort.SliceStable(hist, func(i, j int) bool { return hist[i].Call < hist[j].Call })
	for _, h := range hist {
		x := h.Output.(interned)
		if x.refused {
			refused++
		} else if i, ok := taken[x.id]; ok && !x.resolve && name(i).String() != x.what.String() {
			r.fail("not unique", "%v and %v have the same id %d", name(i), x.what, x.id)
		}
		r.tracef("[%d,%d] task %d: %s", h.Call, h.Return, h.ClientId, histLine(x))
	}
	r.count("refused calls", int64(refused))
	switch porcupine.CheckOperationsTimeout(idModel(init), hist, 20*time.Second) {
	case porcupine.Illegal:
		var lines []string
		for _, h := range hist {
			lines = append(lines, fmt.Sprintf("  [%d,%d] task %d: %s", h.Call, h.Return, h.ClientId, histLine(h.Output.(interned))))
		}
		r.fail("not linearizable", "with %d ids taken before, no sequential order explains\n%s", fill, strings.Join(lines, "\n"))
	case porcupine.Unknown:
		r.Undecided = "the linearizability check ran out of time"
	}

	// For ever after: every id resolves, and equal things have equal ids.
	sim.SetBudget(3e9)
	var all []identity
	var ids []syntax.FileID
	for _, c := range clients {
		all = append(all, c.what...)
		ids = append(ids, c.ids...)
	}
	step := 1 + fill/500
	for i := 0; i < fill; i += step {
		all = append(all, name(i))
		ids = append(ids, before[i])
	}
	if fill > 0 {
		all = append(all, name(fill-1))
		ids = append(ids, before[fill-1])
	}
	for i, id := range ids {
		var got identity
		pan, where := safely(func() { got = resolveID(id) })
		if pan != nil {
			r.fail("resolve", "id %d, which is %v, no longer resolves: panic in %s: %v", id, all[i], where, panicText(pan))
		}
		if got.spec != all[i].spec || got.path != all[i].path {
			r.fail("resolve", "id %d, which is %v, resolves to %v", id, all[i], got)
		}
		if all[i].fake {
			continue
		}
		var again syntax.FileID
		pan, where = safely(func() { again = syntax.NewFileID(parseSpec(all[i].spec), syntax.NewVirtualPath(all[i].path)) })
		if pan != nil || again != id {
			r.fail("not stable", "interning %v again gives id %d instead of %d (panic %v %s)", all[i], again, id, pan, where)
		}
	}
}

func histLine(x interned) string {
	if x.resolve {
		return fmt.Sprintf("id %d (%v) resolves to %v", x.id, x.what, x.got)
	}
	if x.refused {
		return fmt.Sprintf("%v refused", x.what)
	}
	return fmt.Sprintf("%v -> id %d", x.what, x.id)
}

func init() {
	register(&Property{
		ID: "C06", Level: "exploration", Quick: 60000, Thorough: 2000000, Race: true, RaceQuick: 6000, RaceThorough: 100000,
		Run:  runIntern,
		Rule: "a case is two to four tasks with one to five calls each (intern, fake id, join, change of extension, resolve) on a few equal and different packages and spellings of paths, with no, some or (nearly) all ids taken before, interleaved at any statement; the history is checked for linearizability against a sequential table with porcupine, and afterwards every id is resolved and interned again. Part of the seeds run under the race detector; distinct by programs and ids taken before",
		Real: []string{"typst/syntax (file ids, virtual paths, package specs)"}, Stub: []string{"scheduler", "package sync (simulated locks)"},
		Measures: "interleavings: hash of the sequence of (task, step) switches",
	})
}
