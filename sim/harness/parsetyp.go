package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/mewmew/typast/internal/verifsim/sim"
	"github.com/mewmew/typast/internal/verifsim/simos"
	"github.com/mewmew/typast/typst/syntax"
)

// C13: parse-typ.

// treeText is what parse-typ should print for a file.
func treeText(n *syntax.SyntaxNode, depth int, b *strings.Builder) {
	pad := strings.Repeat("  ", depth)
	switch v := n.Repr.(type) {
	case *syntax.LeafNode:
		fmt.Fprintf(b, "%sleaf (kind=%q) text=%q\n", pad, v.Kind, v.Text)
	case *syntax.InnerNode:
		fmt.Fprintf(b, "%sinner (kind=%q)\n", pad, v.Kind)
		for _, c := range v.Children {
			treeText(c, depth+1, b)
		}
	case *syntax.ErrorNode:
		fmt.Fprintf(b, "%serror (text=%q) error=%q\n", pad, v.Text, v.Error.Message)
	}
}

var printedRE = regexp.MustCompile(`^ *(?:leaf \(kind="(?:[^"\\]|\\.)*"\) text=|error \(text=)("(?:[^"\\]|\\.)*")`)

// printedText concatenates the leaf and error texts of a printed tree.
func printedText(out string) string {
	var b strings.Builder
	for _, l := range strings.Split(out, "\n") {
		if m := printedRE.FindStringSubmatch(l); m != nil {
			s, err := strconv.Unquote(m[1])
			if err == nil {
				b.WriteString(s)
			}
		}
	}
	return b.String()
}

type typFile struct{ path, text, shown string }

func runC13(r *Run) {
	m := r.begin()
	m.Mk("/work/sub")
	m.Mk("/tmp")
	inv := &invocation{tool: "parse-typ", cwd: "/work", env: map[string]string{"HOME": "/home/u"}}
	var args []*typFile
	var files []*typFile
	n := 1 + gi(4)
	for i := 0; i < n; i++ {
		if len(files) > 0 && gi(5) == 0 {
			args = append(args, files[gi(len(files))])
			continue
		}
		f := &typFile{path: "/work/" + gpick("", "sub/", "sub/../") + gpick("a", "b c", "ø", "-x") + strconv.Itoa(i) + gpick(".typ", ".typ", ".txt", "")}
		switch gi(8) {
		case 0:
			f.text = ""
		case 1:
			f.text = soupText(1 + gi(40))
		case 2:
			f.text = strings.Repeat(document(), 1+gi(12))
		case 3:
			f.text = damage(document(), document())
		default:
			f.text = document()
		}
		f.text = clean(f.text)
		m.Put(cleanPath(f.path), f.text)
		var b strings.Builder
		treeText(syntax.Parse(f.text), 0, &b)
		f.shown = b.String()
		files = append(files, f)
		args = append(args, f)
	}
	missing := -1
	if gi(6) == 0 {
		missing = gi(len(args))
		// a file that is not there, a directory, or a dangling or looping link
		f := &typFile{path: "/work/sub/absent.typ"}
		switch gi(5) {
		case 1:
			f.path = "/work/sub"
		case 2:
			m.PutLink("/work/sub/dangling.typ", "nowhere.typ")
			f.path = "/work/sub/dangling.typ"
		case 3:
			m.PutLink("/work/sub/loop.typ", "loop.typ")
			f.path = "/work/sub/loop.typ"
		case 4:
			f.path = ""
		}
		args = append(args[:missing:missing], append([]*typFile{f}, args[missing:]...)...)
	}
	whole, prefix := "", ""
	for i, f := range args {
		p := f.path
		if p != "" && sim.Intn(sim.Config, 2) == 1 {
			p = relative("/work", cleanPath(p))
		}
		if strings.HasPrefix(p, "-") {
			p = "./" + p
		}
		inv.args = append(inv.args, p)
		whole += f.shown
		if missing < 0 || i < missing {
			prefix += f.shown
		}
		r.tracef("%s holds %q", f.path, f.text)
	}
	before := m.Snapshot("/")
	fp := r.stdPlan(m, files, len(whole))
	m.After = func(op *simos.Op) {
		if op.Kind == "write" && op.Path == "/dev/stdout" && !strings.HasPrefix(whole, m.StdoutText()) {
			r.fail("wrong output", "after system call %d the output is no prefix of the complete output: %s", op.Index, differAt(m.StdoutText(), whole))
		}
	}
	o := r.runTool(m, inv)
	r.Ops = o.ops
	r.Evals++
	r.healthy(inv, o)
	if d := diffSnap(before, m.Snapshot("/")); d != "" {
		r.fail("damage", "parse-typ changed the disk: %s", d)
	}
	if !strings.HasPrefix(prefix, o.stdout) {
		r.fail("wrong output", "the output is no prefix of the complete output: %s", differAt(o.stdout, prefix))
	}
	switch {
	case o.killed:
		r.count("killed runs", 1)
	case o.code == 0:
		if missing >= 0 {
			r.fail("false success", "parse-typ succeeded although %q cannot be read", args[missing].path)
		}
		if o.stdout != whole {
			r.fail("incomplete", "parse-typ succeeded but printed only %d of %d bytes", len(o.stdout), len(whole))
		}
		text := ""
		for _, f := range args {
			text += f.text
		}
		if got := printedText(o.stdout); got != text {
			r.fail("lost text", "the printed leaf and error texts give %s", differAt(got, text))
		}
		r.count("successful runs", 1)
	default:
		if missing < 0 && (fp.mode == planNone || fp.mode == planShort) {
			r.fail("false failure", "parse-typ failed although every file can be read: %s", clip(o.stderr, 600))
		}
		r.count("failed runs", 1)
	}
	var fs []string
	for k, v := range m.Faults {
		fs = append(fs, fmt.Sprint(k, v))
	}
	sort.Strings(fs)
	if len(fs) > 0 || missing >= 0 {
		r.Keys = append(r.Keys, hash(strings.Join(inv.args, "\x00"), whole, fmt.Sprint(fp.mode, fp.index, fs)))
		r.Sample = fmt.Sprintf("parse-typ %q, plan %d at %d: %v", inv.args, fp.mode, fp.index, fs)
	}
	r.distinct("outputs", hash(o.stdout))
}

// differAt describes the first difference.
func differAt(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("at byte %d of %d: %q instead of %q", i, len(got), clip(got[i:], 300), clip(want[i:], 300))
}

func cleanPath(p string) string { return strings.ReplaceAll(p, "sub/../", "") }

// stdPlan draws a fault plan for a program that reads files and prints.
func (r *Run) stdPlan(m *simos.Machine, files []*typFile, size int) *faultPlan {
	fp := drawMode(m)
	if fp.mode == planNone {
		return fp
	}
	fault := func(op *simos.Op) simos.Fault {
		f := oneFault(op)
		if f.Err == syscall.EACCES && op.Kind == "write" {
			f.Err = syscall.EBADF
		}
		return f
	}
	printed := 0
	m.Plan = func(op *simos.Op) simos.Fault {
		f := simos.NoFault
		if op.Path == "/dev/stderr" {
			return f
		}
		out := op.Path == "/dev/stdout"
		switch fp.mode {
		case planOne:
			if op.Index == fp.index {
				f = fault(op)
			}
		case planKill:
			if op.Index == fp.index {
				f.Kill = true
				if op.Kind == "write" {
					f.Short = sim.Intn(sim.Fault, op.Bytes+1)
				}
			}
		case planMany:
			if sim.Chance(sim.Fault, 1, []int{1000, 100, 10}[fp.index%3]) {
				f = fault(op)
			}
		case planFull:
			// the output goes to a disk that fills up, for good or not
			room := fp.index % (size + 1)
			if out {
				if printed+op.Bytes > room && (fp.index>>10%4 > 0 || printed <= room) {
					f.Err = []syscall.Errno{syscall.ENOSPC, syscall.EDQUOT, syscall.EFBIG, syscall.EIO}[fp.index>>13%4]
					f.Short = max(0, room-printed)
				}
				printed += op.Bytes
			}
		case planBad:
			if len(files) > 0 && strings.HasSuffix(op.Path, cleanPath(files[fp.index%len(files)].path)[5:]) {
				f = simos.Fault{Err: []syscall.Errno{syscall.EIO, syscall.EACCES}[fp.index>>8%2], Short: -1}
			}
		case planShort:
			if op.Bytes > 1 && (op.Kind == "read" || op.Kind == "write") {
				f.Short = 1 + sim.Intn(sim.Fault, op.Bytes)
			}
		}
		return f
	}
	return fp
}

func init() {
	register(&Property{ID: "C13", Run: runC13, Quick: 6000, Thorough: 100000, Level: "fault_enumeration",
		Rule:     "a run is non-trivial if a fault or kill was injected into it or a named file cannot be read",
		Measures: "distinct outputs", Real: toolReal, Stub: toolStub,
		Cases: func(b *Run, seed uint64, tier string) [][]uint64 { return faultCases(b.Ops, seed, caseLimit(tier)/4) }})
}
