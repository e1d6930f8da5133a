package main

import (
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"
	"syscall"

	"github.com/mewmew/typast/internal/verifsim/gen"
	"github.com/mewmew/typast/internal/verifsim/sim"
	"github.com/mewmew/typast/internal/verifsim/simlog"
	"github.com/mewmew/typast/internal/verifsim/simos"
	"github.com/mewmew/typast/internal/verifsim/simtime"
)

// toolBudget bounds the work of one tool run. The largest generated projects
// take less than a hundredth of it.
const toolBudget = 60_000_000

// invocation is a command line with its environment.
type invocation struct {
	tool string
	args []string
	env  map[string]string
	cwd  string
	out  string // absolute path of the output directory; the project for -i
	in   bool   // -i
}

type outcome struct {
	code    int
	killed  bool
	stdout  string
	stderr  string
	ops     int
	pan     string
	overrun bool
}

// runTool runs a tool on m until it ends.
func (r *Run) runTool(m *simos.Machine, inv *invocation) *outcome {
	m.Chdir(inv.cwd)
	m.Start(append([]string{inv.tool}, inv.args...), inv.env)
	simlog.SimReset()
	gen.ResetAll()
	m.Trace = r.Tracing
	plan, after := m.Plan, m.After
	res := sim.RunProcess(func() {
		gen.Tools[inv.tool]()
		m.Code = 0
		m.Exited = true
		m.End()
	}, toolBudget)
	m.Plan, m.After = nil, nil
	_, _ = plan, after
	o := &outcome{code: m.Code, killed: m.Killed, stdout: m.StdoutText(), stderr: m.StderrText(), ops: m.Ops, overrun: res.Overrun || res.Deadlock}
	for _, t := range append(res.Tasks, res.Spawned...) {
		if t.Panic != nil {
			if _, ok := t.Panic.(sim.Budget); ok {
				o.overrun = true
				continue
			}
			o.pan = fmt.Sprintf("%v\n%s", t.Panic, clip(string(t.Stack), 1500))
		}
	}
	for k, n := range m.Faults {
		r.count("fault "+k, int64(n))
	}
	if r.Tracing {
		r.tracef("$ cd %q; %s %q env %v", inv.cwd, inv.tool, inv.args, envList(inv.env))
		for _, l := range m.Log {
			r.tracef("  %s", l)
		}
		r.tracef("  exit %d killed=%v panic=%q overrun=%v", o.code, o.killed, o.pan, o.overrun)
		if o.stdout != "" {
			r.tracef("  stdout: %s", quoteLines(clip(o.stdout, 1500)))
		}
		if o.stderr != "" {
			r.tracef("  stderr: %s", quoteLines(clip(o.stderr, 1500)))
		}
	}
	r.count("system calls", int64(o.ops))
	r.count("tool runs", 1)
	return o
}

func envList(e map[string]string) []string {
	var l []string
	for k, v := range e {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return l
}

// healthy fails the run if the tool crashed, hung, or failed silently.
func (r *Run) healthy(inv *invocation, o *outcome) {
	if o.pan != "" {
		r.fail("crash", "%s crashed: %s", inv.tool, o.pan)
	}
	if o.overrun {
		r.fail("hang", "%s did not end within %d steps or %d system calls", inv.tool, toolBudget, o.ops)
	}
	if !o.killed && o.code != 0 && strings.TrimSpace(o.stderr) == "" {
		r.fail("silent", "%s ended with status %d and no diagnostic", inv.tool, o.code)
	}
}

// relPath writes a path relative to cwd, or absolute.
func argPath(cwd, p string, n int) string {
	switch n {
	case 0:
		return p
	case 1, 2:
		rel := relative(cwd, p)
		if n == 2 {
			return "./" + rel
		}
		return rel
	default:
		return p[:1] + "tmp/.." + p
	}
}

func relative(from, to string) string {
	a := strings.Split(strings.Trim(from, "/"), "/")
	b := strings.Split(strings.Trim(to, "/"), "/")
	if a[0] == "" {
		a = nil
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	out := strings.Repeat("../", len(a)-i) + strings.Join(b[i:], "/")
	out = strings.TrimSuffix(out, "/")
	if out == "" {
		return "."
	}
	return out
}

// invoke draws a command line for the world. The configuration stream decides
// everything that must not matter.
func (w *world) invoke(tool string, inplace bool) *invocation {
	ci := func(n int) int { return sim.Intn(sim.Config, n) }
	inv := &invocation{tool: tool, in: inplace, env: map[string]string{"HOME": w.home, "PATH": "/usr/bin"}}
	if w.xdg {
		inv.env["XDG_CACHE_HOME"] = w.cache
	}
	inv.cwd = []string{w.root, w.root, "/", "/tmp", w.home, path.Dir(w.root)}[ci(6)]
	w.fontsAt = inv.cwd
	inv.args = w.args(inv, ci)
	return inv
}

func (w *world) args(inv *invocation, ci func(int) int) []string {
	var a []string
	flag := func(name, val string) {
		switch ci(3) {
		case 0:
			a = append(a, "-"+name, val)
		case 1:
			a = append(a, "--"+name, val)
		default:
			a = append(a, "-"+name+"="+val)
		}
	}
	if ci(10) == 9 {
		a = append(a, "-v")
	}
	if inv.in {
		inv.out = w.root
		a = append(a, "-i")
	} else {
		inv.out = []string{inv.cwd + "/out", "/tmp/result", w.home + "/o/deep er", "/tmp/x/../result"}[ci(4)]
		inv.out = path.Clean(inv.out)
		if inv.out != path.Clean(inv.cwd+"/out") || ci(2) == 1 {
			flag("out", argPath(inv.cwd, inv.out, ci(4)))
		}
	}
	if strings.Contains(w.t.entry, "/") || ci(3) == 2 {
		p := argPath(inv.cwd, w.root, ci(4))
		if ci(4) == 3 {
			p += "/"
		}
		flag("root", p)
	}
	if len(w.fonts) > 0 {
		var dirs []string
		for _, f := range w.fonts {
			dirs = append(dirs, []string{f.dir, f.dir, f.dir + "/", "./" + f.dir, path.Dir(f.dir) + "/.//" + path.Base(f.dir)}[ci(5)])
		}
		flag("font-path", strings.Join(dirs, ":"))
	}
	if w.universe != "" {
		flag("universe", argPath(inv.cwd, w.universe, ci(3)))
	}
	return append(a, argPath(inv.cwd, w.root+"/"+w.t.entry, ci(4)))
}

// plan draws what faults to inject; the first choice 0 is none.
type faultPlan struct {
	mode  int
	index int
	power uint64 // odd: power is lost at the end of the run, as it decides
}

// drawMode draws the head of a fault plan.
func drawMode(m *simos.Machine) *faultPlan {
	m.Plan = nil
	m.Quota = -1
	fp := &faultPlan{mode: sim.Intn(sim.Fault, planModes)}
	if fp.mode != planNone {
		fp.index = int(sim.C.Draw(sim.Fault, 1<<20))
		fp.power = sim.C.Draw(sim.Fault, 1<<32)
	}
	return fp
}

// losePower takes the power away if the plan says so.
func (fp *faultPlan) losePower(r *Run, m *simos.Machine) bool {
	if fp.power%2 == 0 {
		return false
	}
	x := fp.power
	n := len(m.Log)
	m.PowerLoss(func(k int) int {
		x = mix(x, 1)
		return int(x % uint64(k))
	})
	r.count("fault power-loss", 1)
	for _, l := range m.Log[n:] {
		r.tracef("  %s", l)
	}
	return true
}

var faultErrs = []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, syscall.EROFS, syscall.EDQUOT, syscall.ENOMEM}

// Fault plan modes.
const (
	planNone = iota
	planOne  // one fault at a system call
	planKill // killed at a system call
	planMany // faults here and there
	planFull // the disk fills up
	planBad  // everything below some path fails
	planShort
	planModes
)

func isStd(p string) bool { return strings.HasPrefix(p, "/dev/std") }

// oneFault draws a fault for op.
func oneFault(op *simos.Op) simos.Fault {
	f := simos.NoFault
	k := sim.Intn(sim.Fault, 8)
	err := faultErrs[k%len(faultErrs)]
	switch op.Kind {
	case "write":
		// part of it is written, then it fails
		f.Err = err
		f.Short = sim.Intn(sim.Fault, op.Bytes+1)
	case "read":
		f.Err = err
	case "close":
		f.Err = syscall.EIO
		f.Lose = sim.Intn(sim.Fault, 64)
		if !op.Write {
			f.Lose = 0
		}
	default:
		f.Err = err
	}
	return f
}

// drawPlan sets the plan of m from the fault stream: mode, index, details.
func drawPlan(m *simos.Machine, paths []string) *faultPlan {
	fp := drawMode(m)
	switch fp.mode {
	case planOne:
		m.Plan = func(op *simos.Op) simos.Fault {
			if op.Index != fp.index || isStd(op.Path) {
				return simos.NoFault
			}
			return oneFault(op)
		}
	case planKill:
		m.Plan = func(op *simos.Op) simos.Fault {
			f := simos.NoFault
			if op.Index == fp.index {
				f.Kill = true
				if op.Kind == "write" {
					f.Short = sim.Intn(sim.Fault, op.Bytes+1)
				}
			}
			return f
		}
	case planMany:
		rate := []int{100, 30, 10}[fp.index%3]
		m.Plan = func(op *simos.Op) simos.Fault {
			if isStd(op.Path) || !sim.Chance(sim.Fault, 1, rate) {
				return simos.NoFault
			}
			return oneFault(op)
		}
	case planFull:
		m.Quota = int64(fp.index % 3000)
	case planBad:
		bad := paths[fp.index%len(paths)]
		m.Plan = func(op *simos.Op) simos.Fault {
			if isStd(op.Path) || !strings.HasPrefix(op.Path, bad) {
				return simos.NoFault
			}
			return simos.Fault{Err: []syscall.Errno{syscall.EIO, syscall.EACCES}[fp.index/len(paths)%2], Short: -1}
		}
	case planShort:
		// transfers are short, which is no failure
		m.Plan = func(op *simos.Op) simos.Fault {
			f := simos.NoFault
			if op.Bytes > 1 && (op.Kind == "read" || op.Kind == "write") && !isStd(op.Path) {
				f.Short = 1 + sim.Intn(sim.Fault, op.Bytes)
			}
			return f
		}
	}
	return fp
}

// faultCases lists forced fault streams that try a fault and a kill at the
// system calls of the base run: at most n of them, chosen by the seed.
func faultCases(ops int, seed uint64, n int) [][]uint64 {
	var all [][]uint64
	for i := 0; i < ops; i++ {
		v := mix(seed, uint64(i))
		all = append(all, []uint64{planOne, uint64(i), v >> 50 % 2 * (v >> 32), v % 8, v >> 8 % 4096})
		all = append(all, []uint64{planKill, uint64(i), v >> 32, v >> 20 % 4096})
	}
	if len(all) > n {
		// keep a random sample
		for i := range all {
			j := i + int(mix(seed, uint64(i)+1<<32)%uint64(len(all)-i))
			all[i], all[j] = all[j], all[i]
		}
		all = all[:n]
	}
	v := mix(seed, 1<<40)
	all = append(all,
		[]uint64{planFull, v % 3000, v >> 32}, []uint64{planFull, v >> 20 % 400, v >> 31},
		[]uint64{planBad, v >> 32 % 1000, v >> 33},
		nil)
	return all
}

// --- update-typ ---

// updateModel says what a run of update-typ should do.
type updateModel struct {
	w        *world
	inv      *invocation
	r        *reach
	newFiles map[string]string // by absolute path: result of every reachable file
	oldFiles map[string]string // for -i: the contents before
	failing  bool              // a file of the project is missing
	libFail  []string          // packages that are missing or unusable
	newFail  []string          // likewise, starting from the updated imports
	reports  []string          // messages about libraries, sorted
	changes  []string          // messages about files of the project, sorted
	touched  bool              // some version is outdated
}

func (w *world) updateModel(inv *invocation) *updateModel {
	u := &updateModel{w: w, inv: inv, r: w.t.reach(false), newFiles: map[string]string{}, oldFiles: map[string]string{}}
	u.failing = len(u.r.missing) > 0
	content := func(p string) string { return w.t.doc(p).updated(w.newest) }
	for _, p := range u.r.docs {
		q := p
		if inv.in {
			q = w.t.resolve(p)
		}
		u.newFiles[inv.out+"/"+q] = content(p)
		if content(p) != w.t.doc(p).orig() {
			u.touched = true
		}
		for _, s := range w.t.doc(p).segs {
			if s.kind == segPkg && w.newest(s.spec) != s.spec.ver {
				u.changes = append(u.changes, fmt.Sprintf("%s: %s -> %s", p, s.spec, spec{s.spec.ns, s.spec.name, w.newest(s.spec)}))
			}
		}
		if inv.in {
			u.oldFiles[inv.out+"/"+q] = w.t.doc(p).orig()
		}
	}
	libs, broken := w.libs(u.r.specs, false)
	u.libFail = broken
	if inv.in {
		// a file with two names is read again after its update
		updated := map[string]spec{}
		for _, s := range u.r.specs {
			n := spec{s.ns, s.name, w.newest(s)}
			updated[n.String()] = n
		}
		_, u.newFail = w.libs(updated, false)
	}
	for _, l := range libs {
		for _, p := range l.t.reach(false).docs {
			for _, s := range l.t.doc(p).segs {
				if s.kind == segPkg && w.newest(s.spec) != s.spec.ver {
					nw := spec{s.spec.ns, s.spec.name, w.newest(s.spec)}
					u.reports = append(u.reports, fmt.Sprintf("%s: %s: %s -> %s", l.spec, p, s.spec, nw))
				}
			}
		}
	}
	sort.Strings(u.reports)
	sort.Strings(u.changes)
	return u
}

var (
	ansiRE   = regexp.MustCompile("\x1b\\[[0-9;]*m")
	changeRE = regexp.MustCompile(`updated ("(?:[^"\\]|\\.)*"):\s*new version ("(?:[^"\\]|\\.)*")\s*old version ("(?:[^"\\]|\\.)*")`)
	reportRE = regexp.MustCompile(`in library ("(?:[^"\\]|\\.)*"), update needed for ("(?:[^"\\]|\\.)*"):\s*new version ("(?:[^"\\]|\\.)*")\s*old version ("(?:[^"\\]|\\.)*")`)
)

// reportsOf extracts the messages about libraries.
func reportsOf(stderr string) []string {
	var out []string
	for _, m := range reportRE.FindAllStringSubmatch(ansiRE.ReplaceAllString(stderr, ""), -1) {
		out = append(out, fmt.Sprintf("%s: %s: %s -> %s", unq(m[1]), unq(m[2]), unq(m[4]), unq(m[3])))
	}
	sort.Strings(out)
	return out
}

// changesOf extracts the messages about files of the project.
func changesOf(stderr string) []string {
	var out []string
	for _, m := range changeRE.FindAllStringSubmatch(ansiRE.ReplaceAllString(stderr, ""), -1) {
		out = append(out, fmt.Sprintf("%s: %s -> %s", unq(m[1]), unq(m[3]), unq(m[2])))
	}
	sort.Strings(out)
	return out
}

func unq(s string) string {
	var v string
	if _, err := fmt.Sscanf(s, "%q", &v); err != nil {
		return s
	}
	return v
}

// diffSnap compares two snapshots and describes the first difference, leaving
// out what lies below the given paths.
func diffSnap(was, is map[string]string, except ...string) string {
	skip := func(p string) bool {
		for _, e := range except {
			if p == e || strings.HasPrefix(p, e+"/") {
				return true
			}
		}
		return false
	}
	var ks []string
	for k := range was {
		ks = append(ks, k)
	}
	for k := range is {
		if _, ok := was[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		a, ok1 := was[k]
		b, ok2 := is[k]
		if a == b && ok1 == ok2 || skip(k) {
			continue
		}
		switch {
		case !ok1:
			return fmt.Sprintf("%s is new: %s", k, clip(fmt.Sprintf("%q", b), 600))
		case !ok2:
			return fmt.Sprintf("%s is gone", k)
		default:
			return fmt.Sprintf("%s was %s and is %s", k, clip(fmt.Sprintf("%q", a), 600), clip(fmt.Sprintf("%q", b), 600))
		}
	}
	return ""
}

// expected is the disk after success, given the disk before.
func (u *updateModel) expected(before map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range before {
		out[k] = v
	}
	for p, c := range u.newFiles {
		out[p] = "f:" + c
	}
	addDirs(out, u.inv.out)
	for p := range u.newFiles {
		addDirs(out, path.Dir(p))
	}
	return out
}

func addDirs(out map[string]string, d string) {
	for ; d != "/" && d != "."; d = path.Dir(d) {
		if _, ok := out[d]; !ok {
			out[d] = "d"
		}
	}
}

// success checks the disk after a successful run.
func (u *updateModel) success(r *Run, m *simos.Machine, before map[string]string, o *outcome) {
	if u.failing {
		r.fail("false success", "update-typ succeeded although %v is missing", u.r.missing)
	}
	if d := diffSnap(u.expected(before), m.Snapshot("/")); d != "" {
		r.fail("wrong result", "after success, compared with what is expected: %s", d)
	}
}

// partial checks the disk while or after a run that did not succeed.
func (u *updateModel) partial(r *Run, m *simos.Machine, before map[string]string, when string) {
	now := m.Snapshot("/")
	for p, was := range before {
		is, ok := now[p]
		if is == was && ok {
			continue
		}
		if nw, ok2 := u.newFiles[p]; ok2 && u.inv.in && is == "f:"+nw {
			continue
		}
		if !u.inv.in && (p == u.inv.out || strings.HasPrefix(p, u.inv.out+"/")) {
			continue
		}
		r.fail("damage", "%s %s was %s and is %s", when, p, clip(fmt.Sprintf("%q", was), 400), clip(fmt.Sprintf("%q", is), 400))
	}
	for p := range now {
		if _, ok := before[p]; ok {
			continue
		}
		// a temporary file beside the project's files, or the output
		if p == u.inv.out || strings.HasPrefix(p, u.inv.out+"/") || strings.HasPrefix(u.inv.out, p+"/") || strings.HasPrefix(p, "/tmp/") {
			continue
		}
		r.fail("stray", "%s there is a new file %s", when, p)
	}
}

// --- offline-typ ---

type offlineModel struct {
	w     *world
	inv   *invocation
	files map[string][]piece // by absolute path
	dirs  []string
	fail  []string // why the run cannot succeed
}

func (w *world) offlineModel(inv *invocation) *offlineModel {
	o := &offlineModel{w: w, inv: inv, files: map[string][]piece{}}
	put := func(p string, c []piece, isDoc map[string]bool) {
		if old, ok := o.files[p]; ok && joinPieces(old) != joinPieces(c) {
			o.fail = append(o.fail, "conflict over "+p)
			return
		}
		o.files[p] = c
	}
	add := func(t *tree, dir, libDir string) *reach {
		r := t.reach(true)
		isDoc := map[string]bool{}
		for _, p := range r.docs {
			isDoc[p] = true
			put(dir+"/"+p, t.doc(p).offline(w, libDir, t, p), isDoc)
		}
		for _, p := range r.res {
			if !isDoc[p] {
				c, _ := t.file(p)
				put(dir+"/"+p, []piece{{s: c}}, isDoc)
			}
		}
		for _, p := range r.missing {
			o.fail = append(o.fail, p+" is missing")
		}
		return r
	}
	for _, f := range w.fonts {
		d := path.Join(inv.out, f.dir)
		o.dirs = append(o.dirs, d)
		for _, p := range f.dirs {
			o.dirs = append(o.dirs, d+"/"+p)
		}
		for p, c := range f.files {
			put(d+"/"+p, []piece{{s: c}}, nil)
		}
		if f.missing {
			o.fail = append(o.fail, "the font directory "+f.dir+" is missing")
		}
	}
	r := add(w.t, inv.out, "")
	libs, broken := w.libs(r.specs, true)
	o.fail = append(o.fail, broken...)
	for _, l := range libs {
		d := "/libs/" + l.name + "/" + l.ver
		add(l.t, inv.out+d, d)
	}
	return o
}

// success checks the disk after a successful run.
func (om *offlineModel) success(r *Run, m *simos.Machine, before map[string]string) {
	if len(om.fail) > 0 {
		r.fail("false success", "offline-typ succeeded although %s", om.fail[0])
	}
	now := m.Snapshot("/")
	exp := map[string]string{}
	for k, v := range before {
		exp[k] = v
	}
	addDirs(exp, om.inv.out)
	for _, d := range om.dirs {
		addDirs(exp, d)
	}
	var ps []string
	for p := range om.files {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		c := om.files[p]
		addDirs(exp, path.Dir(p))
		is, ok := now[p]
		if ok && strings.HasPrefix(is, "f:") && matchPieces(is[2:], c) {
			exp[p] = is
		} else if !ok {
			r.fail("incomplete", "after success %s is missing", p)
		} else {
			r.fail("wrong result", "after success %s should be %s and is %s", p, clip(fmt.Sprintf("%q", joinPieces(c)), 1200), clip(fmt.Sprintf("%q", is), 1200))
		}
	}
	// packages with nothing in them but the directory
	if d := diffSnap(exp, now); d != "" {
		r.fail("wrong result", "after success, compared with what is expected: %s", d)
	}
}

// outside checks that nothing but the output changed.
func outside(r *Run, m *simos.Machine, before map[string]string, out, when string) {
	now := m.Snapshot("/")
	for p := range before {
		if _, ok := now[p]; !ok {
			r.fail("damage", "%s %s is gone", when, p)
		}
	}
	for p, is := range now {
		was, ok := before[p]
		if ok && was == is || p == out || strings.HasPrefix(p, out+"/") || strings.HasPrefix(out, p+"/") && !ok {
			continue
		}
		if !ok && strings.HasPrefix(p, "/tmp/") {
			continue
		}
		if ok {
			r.fail("damage", "%s %s was %s and is %s", when, p, clip(fmt.Sprintf("%q", was), 400), clip(fmt.Sprintf("%q", is), 400))
		}
		r.fail("stray", "%s there is a new file %s", when, p)
	}
}

// mutates tells whether a system call of this kind can change the disk.
func mutates(kind string) bool {
	switch kind {
	case "read", "stat", "lstat", "readdir", "readlink", "open", "seek", "chdir", "getwd":
		return false
	}
	return true
}

// watch calls fn whenever the disk may have changed, also at the moment of a
// kill.
func watch(m *simos.Machine, fn func(when string)) {
	m.After = func(op *simos.Op) {
		if mutates(op.Kind) && !isStd(op.Path) {
			fn(fmt.Sprintf("after system call %d (%s %s)", op.Index, op.Kind, op.Path))
		}
	}
}

func (r *Run) begin() *simos.Machine {
	simtime.SimReset()
	return simos.NewMachine()
}
