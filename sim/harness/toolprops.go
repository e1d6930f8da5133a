package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/mewmew/typast/internal/verifsim/sim"
	"github.com/mewmew/typast/internal/verifsim/simos"
)

var toolReal = []string{"cmd/update-typ, cmd/offline-typ, cmd/parse-typ", "typst/syntax", "typst/cstwalk", "internal/*", "github.com/mewpkg/clog", "flag, errors and TOML libraries"}
var toolStub = []string{"package os and path/filepath's use of it (simulated machine: in-memory file system with links, roots, quotas, faults and kills)", "package log (same format, simulated standard error)", "package time"}

// stale puts an older result into the output directory.
func (w *world) putStale(m *simos.Machine, inv *invocation) {
	if w.offline {
		w.putFonts(m)
	}
	if inv.in || !gc(1, 4) {
		return
	}
	for _, f := range w.fonts {
		for _, p := range f.names() {
			if gc(1, 3) {
				m.Put(path.Join(inv.out, f.dir, p), strings.Repeat("stale", 300))
			}
		}
	}
	m.Put(inv.out+"/unrelated.txt", "keep me")
	r := w.t.reach(w.offline)
	for _, p := range r.docs {
		if gc(1, 2) {
			m.Put(inv.out+"/"+p, "#import \"@preview/tiny:0.0.1\"\n"+strings.Repeat("old ", gi(300)))
		}
	}
	for _, p := range w.pkgs {
		if w.offline && gc(1, 3) {
			m.Put(inv.out+"/libs/"+p.name+"/"+p.ver+"/"+p.t.entry, strings.Repeat("stale\n", 200))
		}
	}
}

func (r *Run) worldKey(w *world, inv *invocation, extra ...string) uint64 {
	return hash(append([]string{w.describe(), inv.cwd, strings.Join(inv.args, "\x00")}, extra...)...)
}

func (r *Run) measureWorld(w *world) {
	nd, np := len(w.t.docs), len(w.pkgs)
	for _, p := range w.pkgs {
		nd += len(p.t.docs)
	}
	r.count("Typst files generated", int64(nd))
	r.count("package versions generated", int64(np))
}

// mustSucceed reports whether a run without faults has no reason to fail.
func (u *updateModel) mustSucceed() bool {
	return !u.failing && len(u.libFail) == 0 && (len(u.newFail) == 0 || len(u.w.t.links) == 0)
}

// runC07 runs update-typ without faults.
func runC07(r *Run) {
	w := genWorld(worldOpts{maxPkgs: 4, maxVers: 3, maxDocs: 5, faulty: true})
	r.tracef("%s", w.describe())
	r.measureWorld(w)
	m := w.build()
	for _, in := range []bool{false, true} {
		inv := w.invoke("update-typ", in)
		mm := m.Clone()
		w.putStale(mm, inv)
		u := w.updateModel(inv)
		before, modes := mm.Snapshot("/"), mm.Modes("/")
		o := r.runTool(mm, inv)
		r.Evals++
		r.healthy(inv, o)
		if o.code == 0 {
			u.success(r, mm, before, o)
			if says := strings.Contains(o.stderr, "updated project Typst files"); says != u.touched {
				r.fail("wrong summary", "says in the end that the project was updated: %v, which is not so", says)
			}
			if says := strings.Contains(o.stderr, "updated project Typst files in place"); says != (u.touched && in) {
				r.fail("wrong summary", "says in the end that the project was updated in place: %v, which is not so", says)
			}
			if got := changesOf(o.stderr); !(in && len(w.t.links) > 0) && (len(minus(got, u.changes)) > 0 || len(minus(u.changes, got)) > 0) {
				r.fail("wrong report", "the updates in the project reported are %q, not %q", got, u.changes)
			}
			for p, is := range mm.Modes("/") {
				was, old := modes[p]
				switch {
				case in && old && is != was:
					r.fail("permissions", "%s had permissions %v and has %v", p, was, is)
				case !old && is&0o600 != 0o600:
					r.fail("permissions", "the new file %s has permissions %v", p, is)
				}
			}
			r.count("successful runs", 1)
		} else {
			if u.mustSucceed() {
				r.fail("false failure", "update-typ failed although nothing is missing: %s", clip(o.stderr, 800))
			}
			u.partial(r, mm, before, "after a failed run")
			r.count("failed runs", 1)
		}
		if u.touched {
			r.Keys = append(r.Keys, r.worldKey(w, inv))
			r.Sample = fmt.Sprintf("%v in %s\n%s", inv.args, inv.cwd, w.describe())
		}
		r.distinct("disk contents reached", snapHash(mm))
	}
}

func snapHash(m *simos.Machine) uint64 {
	s := m.Snapshot("/")
	var ks []string
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k + "\x00" + s[k] + "\x00")
	}
	return hash(b.String())
}

// runC15 checks the reports about packages.
func runC15(r *Run) {
	w := genWorld(worldOpts{maxPkgs: 5, maxVers: 3, maxDocs: 3, faulty: gc(1, 4)})
	// A file with two names in a project edited in place would be read before
	// and after the update.
	w.t.links = map[string]string{}
	r.tracef("%s", w.describe())
	r.measureWorld(w)
	m := w.build()
	inv := w.invoke("update-typ", gc(1, 2))
	if gc(1, 3) {
		inv.args = append([]string{"-v"}, inv.args...)
	}
	u := w.updateModel(inv)
	before := m.Snapshot("/")
	o := r.runTool(m, inv)
	r.Evals++
	r.healthy(inv, o)
	{
		for p, was := range before {
			if strings.HasPrefix(p, w.root+"/") {
				continue
			}
			if now, ok := m.Get(p); ok && strings.HasPrefix(was, "f:") && "f:"+now != was && !strings.HasPrefix(p, inv.out+"/") {
				r.fail("damage", "%s was changed", p)
			}
		}
	}
	got := reportsOf(o.stderr)
	if o.code != 0 {
		if u.mustSucceed() {
			r.fail("false failure", "update-typ failed although nothing is missing: %s", clip(o.stderr, 800))
		}
		// what it did report is true
		if extra := minus(got, u.reports); len(extra) > 0 && len(u.libFail) == 0 {
			r.fail("false report", "reported although it is not so: %q", extra)
		}
		return
	}
	if len(u.libFail) > 0 {
		r.fail("false success", "update-typ succeeded although %s", u.libFail[0])
	}
	if extra := minus(got, u.reports); len(extra) > 0 {
		r.fail("false report", "reported although it is not so, or more than once: %q", extra)
	}
	if lost := minus(u.reports, got); len(lost) > 0 {
		r.fail("lost report", "not reported: %q", lost)
	}
	if says := strings.Contains(o.stderr, "update needed for transitive dependencies"); says != (len(u.reports) > 0) {
		r.fail("wrong summary", "says in the end that packages need updates: %v, and reported %d", says, len(u.reports))
	}
	r.count("reports", int64(len(got)))
	if len(u.reports) > 0 {
		r.Keys = append(r.Keys, r.worldKey(w, inv))
		r.Sample = strings.Join(u.reports, "\n")
	}
	r.distinct("sets of reports", hash(u.reports...))
}

// minus returns a without b, as multisets.
func minus(a, b []string) []string {
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	var out []string
	for _, x := range a {
		if n[x] > 0 {
			n[x]--
		} else {
			out = append(out, x)
		}
	}
	return out
}

// runC08 runs update-typ under a fault plan.
func runC08(r *Run) {
	w := genWorld(worldOpts{maxPkgs: 2, maxVers: 2, maxDocs: 3, small: true, faulty: gc(1, 20)})
	r.tracef("%s", w.describe())
	r.measureWorld(w)
	m := w.build()
	inv := w.invoke("update-typ", !gc(1, 3))
	w.putStale(m, inv)
	u := w.updateModel(inv)
	before := m.Snapshot("/")
	fp := drawPlan(m, w.faultPaths())
	watch(m, func(when string) { u.partial(r, m, before, when) })
	o := r.runTool(m, inv)
	r.Ops = o.ops
	r.Evals++
	r.healthy(inv, o)
	switch {
	case o.killed:
		u.partial(r, m, before, "after the kill")
		r.count("killed runs", 1)
	case o.code == 0:
		u.success(r, m, before, o)
		if len(w.t.links) == 0 {
			// a file with two names would be read before and after the update
			if len(u.libFail) > 0 {
				r.fail("false success", "update-typ succeeded although %s", u.libFail[0])
			}
			got := reportsOf(o.stderr)
			if extra, lost := minus(got, u.reports), minus(u.reports, got); len(extra)+len(lost) > 0 {
				r.fail("false success", "succeeded, and reported about packages, although it is not so: %q, and did not report: %q", extra, lost)
			}
		}
		r.count("successful runs", 1)
	default:
		if fp.mode == planNone && u.mustSucceed() {
			r.fail("false failure", "update-typ failed although nothing is missing: %s", clip(o.stderr, 800))
		}
		if fp.mode == planShort && u.mustSucceed() {
			r.fail("false failure", "update-typ failed although transfers were merely short: %s", clip(o.stderr, 800))
		}
		u.partial(r, m, before, "after the failed run")
		r.count("failed runs", 1)
	}
	if fp.losePower(r, m) {
		u.partial(r, m, before, "after power was lost at the end of the run")
	}
	r.faultKey(w, inv, m, fp)
}

// faultKey records the identity of a run with faults.
func (r *Run) faultKey(w *world, inv *invocation, m *simos.Machine, fp *faultPlan) {
	n := 0
	var fs []string
	for k, v := range m.Faults {
		n += v
		fs = append(fs, fmt.Sprint(k, v))
	}
	sort.Strings(fs)
	if n > 0 {
		r.Keys = append(r.Keys, r.worldKey(w, inv, fmt.Sprint(fp.mode, fp.index), strings.Join(fs, " ")))
		r.Sample = fmt.Sprintf("plan %d at %d: %v\n%v in %s\n%s", fp.mode, fp.index, fs, inv.args, inv.cwd, w.describe())
	}
	r.distinct("disk contents reached", snapHash(m))
}

// faultPaths lists path prefixes a persistent fault may sit at.
func (w *world) faultPaths() []string {
	ps := []string{w.root + "/" + w.t.entry}
	var ds []string
	for p := range w.t.docs {
		ds = append(ds, w.root+"/"+p)
	}
	for p := range w.t.data {
		ds = append(ds, w.root+"/"+p)
	}
	for _, f := range w.fonts {
		ds = append(ds, path.Join(w.fontsAt, f.dir))
	}
	sort.Strings(ds)
	ps = append(ps, ds...)
	for _, p := range w.pkgs {
		for _, where := range p.where {
			d := w.pkgDir(where, p.spec)
			ps = append(ps, path.Dir(d), d, d+"/typst.toml", d+"/"+p.t.entry)
		}
	}
	return ps
}

// runC09 runs offline-typ without faults.
func runC09(r *Run) {
	w := genWorld(worldOpts{offline: true, maxPkgs: 4, maxVers: 2, maxDocs: 5, faulty: true})
	r.tracef("%s", w.describe())
	r.measureWorld(w)
	m := w.build()
	inv := w.invoke("offline-typ", false)
	w.putStale(m, inv)
	om := w.offlineModel(inv)
	before := m.Snapshot("/")
	o := r.runTool(m, inv)
	r.Evals++
	r.healthy(inv, o)
	if o.code == 0 {
		om.success(r, m, before)
		r.count("successful runs", 1)
	} else {
		if len(om.fail) == 0 {
			r.fail("false failure", "offline-typ failed although nothing is missing: %s", clip(o.stderr, 800))
		}
		outside(r, m, before, inv.out, "after a failed run")
		r.count("failed runs", 1)
	}
	if len(w.t.reach(true).specs) > 0 {
		r.Keys = append(r.Keys, r.worldKey(w, inv))
		r.Sample = fmt.Sprintf("%v in %s\n%s", inv.args, inv.cwd, w.describe())
	}
	r.distinct("disk contents reached", snapHash(m))
}

// runC10 runs offline-typ under a fault plan.
func runC10(r *Run) {
	w := genWorld(worldOpts{offline: true, maxPkgs: 2, maxVers: 2, maxDocs: 3, small: true, faulty: gc(1, 10)})
	r.tracef("%s", w.describe())
	r.measureWorld(w)
	m := w.build()
	inv := w.invoke("offline-typ", false)
	w.putStale(m, inv)
	om := w.offlineModel(inv)
	before := m.Snapshot("/")
	fp := drawPlan(m, w.faultPaths())
	watch(m, func(when string) { outside(r, m, before, inv.out, when) })
	o := r.runTool(m, inv)
	r.Ops = o.ops
	r.Evals++
	r.healthy(inv, o)
	outside(r, m, before, inv.out, "after the run")
	switch {
	case o.killed:
		r.count("killed runs", 1)
	case o.code == 0:
		om.success(r, m, before)
		r.count("successful runs", 1)
	default:
		if (fp.mode == planNone || fp.mode == planShort) && len(om.fail) == 0 {
			r.fail("false failure", "offline-typ failed although nothing is missing: %s", clip(o.stderr, 800))
		}
		r.count("failed runs", 1)
	}
	if fp.losePower(r, m) {
		outside(r, m, before, inv.out, "after power was lost at the end of the run")
	}
	r.faultKey(w, inv, m, fp)
}

// runC11 reruns a tool after kills and failures.
func runC11(r *Run) {
	offline := gc(1, 2)
	tool := "update-typ"
	if offline {
		tool = "offline-typ"
	}
	w := genWorld(worldOpts{offline: offline, maxPkgs: 2, maxVers: 2, maxDocs: 3, small: true})
	r.tracef("%s", w.describe())
	r.measureWorld(w)
	m := w.build()
	inv := w.invoke(tool, !offline && !gc(1, 3))
	w.putStale(m, inv)
	clean := m.Clone()
	o := r.runTool(clean, inv)
	r.healthy(inv, o)
	want := clean.Snapshot("/")
	// the disturbed history
	n := 0
	fp := drawPlan(m, w.faultPaths())
	first := true
	for fp.mode != planNone {
		d := r.runTool(m, inv)
		if first {
			r.Ops = d.ops
			first = false
		}
		r.healthy(inv, d)
		r.Evals++
		n++
		if d.killed {
			r.count("killed runs", 1)
		}
		fp.losePower(r, m)
		r.faultKey(w, inv, m, fp)
		if n == 4 {
			break
		}
		fp = drawPlan(m, w.faultPaths())
	}
	r.count(fmt.Sprintf("histories with %d disturbed runs", n), 1)
	m.Plan, m.Quota = nil, -1
	last := r.runTool(m, inv)
	if first {
		r.Ops = last.ops
	}
	r.Evals++
	r.healthy(inv, last)
	if last.code != o.code {
		r.fail("status", "rerun after %d disturbed runs ended with status %d, an undisturbed run with %d: %s", n, last.code, o.code, clip(last.stderr, 600))
	}
	if o.code == 0 {
		if d := diffSnap(want, m.Snapshot("/")); d != "" {
			r.fail("divergence", "rerun after %d disturbed runs, compared with an undisturbed run: %s", n, d)
		}
		if inv.in {
			again := r.runTool(m, inv)
			r.healthy(inv, again)
			if d := diffSnap(want, m.Snapshot("/")); d != "" {
				r.fail("not idempotent", "another run of update-typ -i: %s", d)
			}
		}
	}
}

// runC12 runs a tool on the same project in several ways.
func runC12(r *Run) {
	offline := gc(1, 2)
	tool := "update-typ"
	if offline {
		tool = "offline-typ"
	}
	w := genWorld(worldOpts{offline: offline, maxPkgs: 4, maxVers: 3, maxDocs: 4, faulty: gc(1, 4)})
	r.tracef("%s", w.describe())
	r.measureWorld(w)
	type result struct {
		code  int
		files map[string]string
		inv   *invocation
	}
	in := !offline && gc(1, 2)
	var first *result
	n := 3 + gi(3)
	home, cache, xdg, root, uni := w.home, w.cache, w.xdg, w.root, w.universe
	for i := 0; i < n; i++ {
		w.home, w.cache, w.xdg, w.root, w.universe = home, cache, xdg, root, uni
		if i > 0 {
			// move what must not matter
			switch sim.Intn(sim.Config, 4) {
			case 1:
				w.xdg, w.cache = true, "/elsewhere/cache"
			case 2:
				w.root = "/moved/project dir"
			case 3:
				w.home = "/moved/home"
				w.cache = w.home + "/.cache"
				w.xdg = false
				if uni != "" {
					w.universe = "/moved/universe"
				}
			}
		}
		m := w.build()
		inv := w.invoke(tool, in)
		w.putFonts(m)
		o := r.runTool(m, inv)
		r.Evals++
		r.healthy(inv, o)
		res := &result{code: o.code, inv: inv, files: map[string]string{}}
		if o.code == 0 {
			for p, c := range m.Snapshot(inv.out) {
				if p == inv.out {
					continue
				}
				res.files[strings.TrimPrefix(p, inv.out)] = c
			}
			// an output directory within the project
			for p := range res.files {
				if in && (p == "/out" || strings.HasPrefix(p, "/out/")) {
					delete(res.files, p)
				}
			}
		}
		r.Keys = append(r.Keys, r.worldKey(w, inv, fmt.Sprint(i)))
		if first == nil {
			first = res
			continue
		}
		if res.code != first.code {
			r.fail("status", "%s %q in %s ended with status %d, but %q in %s with %d: %s", tool, inv.args, inv.cwd, res.code, first.inv.args, first.inv.cwd, first.code, clip(o.stderr, 600))
		}
		if d := diffSnap(first.files, res.files); d != "" {
			r.fail("difference", "%s %q in %s, compared with %q in %s: %s", tool, inv.args, inv.cwd, first.inv.args, first.inv.cwd, d)
		}
	}
	r.Sample = fmt.Sprintf("%v\n%s", first.inv.args, w.describe())
	r.distinct("worlds", hash(w.describe()))
}

func init() {
	register(&Property{ID: "C07", Run: runC07, Quick: 20000, Thorough: 400000, Level: "exploration",
		Rule:     "a run is non-trivial if a version in a reachable file is outdated",
		Measures: "distinct contents of the whole simulated disk at the end of a run", Real: toolReal, Stub: toolStub})
	register(&Property{ID: "C08", Run: runC08, Quick: 1500, Thorough: 30000, Level: "fault_enumeration",
		Rule:     "a run is non-trivial if a fault or kill was injected into it",
		Measures: "distinct contents of the whole simulated disk at the end of a run", Real: toolReal, Stub: toolStub,
		Cases: func(b *Run, seed uint64, tier string) [][]uint64 { return faultCases(b.Ops, seed, caseLimit(tier)) }})
	register(&Property{ID: "C09", Run: runC09, Quick: 30000, Thorough: 600000, Level: "exploration",
		Rule:     "a run is non-trivial if the project imports a package",
		Measures: "distinct contents of the whole simulated disk at the end of a run", Real: toolReal, Stub: toolStub})
	register(&Property{ID: "C10", Run: runC10, Quick: 1500, Thorough: 30000, Level: "fault_enumeration",
		Rule:     "a run is non-trivial if a fault or kill was injected into it",
		Measures: "distinct contents of the whole simulated disk at the end of a run", Real: toolReal, Stub: toolStub,
		Cases: func(b *Run, seed uint64, tier string) [][]uint64 { return faultCases(b.Ops, seed, caseLimit(tier)) }})
	register(&Property{ID: "C11", Run: runC11, Quick: 1000, Thorough: 20000, Level: "fault_enumeration",
		Rule:     "a run is non-trivial if a fault or kill was injected into it",
		Measures: "distinct contents of the whole simulated disk after a disturbed run", Real: toolReal, Stub: toolStub,
		Cases: func(b *Run, seed uint64, tier string) [][]uint64 { return faultCases(b.Ops, seed, caseLimit(tier)) }})
	register(&Property{ID: "C12", Run: runC12, Quick: 12000, Thorough: 200000, Level: "exploration",
		Rule:     "every run counts; runs of one seed differ in map order, current directory, locations and path forms",
		Measures: "distinct worlds", Real: toolReal, Stub: toolStub})
	register(&Property{ID: "C15", Run: runC15, Quick: 30000, Thorough: 600000, Level: "exploration",
		Rule:     "a run is non-trivial if a package imports an outdated version",
		Measures: "distinct sets of reports", Real: toolReal, Stub: toolStub})
}

func caseLimit(tier string) int {
	if tier == "thorough" {
		return 2000
	}
	return 60
}
