package main

import (
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/mewmew/typast/internal/verifsim/sim"
	"github.com/mewmew/typast/internal/verifsim/simos"
)

//go:generate sh -c "sed 's/simos/os/g; s/simfilepath/filepath/g; s/confSim/confReal/g; s|github.com/mewmew/typast/internal/verifsim/filepath|path/filepath|; s|github.com/mewmew/typast/internal/verifsim/os|os|; s|^// confos.go is made.*|// Made of confsim.go.|; /^.. sed/d' confsim.go | gofmt > confos.go"

// The simulated file system against the real one: random operations run on
// both, results and trees are compared. It runs as an unprivileged user in a
// scratch directory, several levels deep, so that ".." stays inside.

type confOp struct {
	name             string
	a, b, data       string
	flag, n, off     int
	mode, file, root int
}

func confErr(err error) string {
	if err == nil {
		return ""
	}
	s := fmt.Sprintf(" [%T %v", err, err)
	if err == io.EOF {
		s = " [EOF"
	}
	for _, e := range []error{fs.ErrNotExist, fs.ErrExist, fs.ErrPermission, fs.ErrClosed, fs.ErrInvalid} {
		if isErr(err, e) {
			s += " = " + e.Error()
		}
	}
	return strings.ReplaceAll(s, "simos.", "os.") + "]"
}

// confFail leaves out which of several failures came first.
func confFail(err error) string {
	if err == nil {
		return ""
	}
	return fmt.Sprintf("[%T", err)
}

func isErr(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}

func confNames(names []string, sorted bool) string {
	if sorted {
		sort.Strings(names)
	}
	return strings.Join(names, ", ")
}

var confNamed = []string{
	"Open", "Open", "Open", "Open", "Read", "Read", "ReadAt", "Write", "Write", "WriteAt", "WriteString", "Seek", "Close", "FTruncate", "FStat", "Sync", "FReadDir", "FReaddirnames", "FReaddir", "FChmod", "FChdir", "Name", "WriteTo", "ReadFrom",
	"Mkdir", "Mkdir", "Mkdir", "MkdirAll", "MkdirAll", "Remove", "Remove", "RemoveAll", "Rename", "Rename", "Rename", "Link", "Symlink", "Symlink", "Symlink", "Readlink", "Chmod", "Truncate", "Chdir", "Getwd", "ReadFile", "ReadFile", "WriteFile", "WriteFile", "WriteFile", "ReadDir", "Stat", "Lstat", "SameFile", "CreateTemp",
	"Walk", "WalkDir", "Glob", "EvalSymlinks", "Abs", "DirFS.ReadFile", "DirFS.ReadDir", "DirFS.Stat",
	"OpenRoot", "OpenRoot", "OpenRoot", "Root.OpenRoot", "OpenInRoot", "Root.Open", "Root.Open", "Root.Open", "Root.Open", "Root.Mkdir", "Root.MkdirAll", "Root.MkdirAll", "Root.Remove", "Root.RemoveAll", "Root.Rename", "Root.Rename", "Root.Link", "Root.Symlink", "Root.Symlink", "Root.Readlink", "Root.Chmod", "Root.ReadFile", "Root.ReadFile", "Root.WriteFile", "Root.WriteFile", "Root.Stat", "Root.Lstat", "Root.Close", "Root.FS.ReadDir", "Root.FS.ReadFile", "Root.FS.Stat",
}

func confPath(r *rand.Rand, top string, empty bool) string {
	n := 1 + r.IntN(3)
	var c []string
	for i := 0; i < n; i++ {
		c = append(c, []string{"a", "b", "c", "d"}[r.IntN(4)])
	}
	if r.IntN(12) == 0 {
		c[r.IntN(n)] = ".."
	}
	if r.IntN(20) == 0 {
		c[r.IntN(n)] = "."
	}
	s := strings.Join(c, "/")
	switch r.IntN(30) {
	case 0:
		if !empty {
			break
		}
		return ""
	case 1:
		return "."
	case 2:
		return s + "/"
	case 3:
		return "./" + s
	case 4:
		return strings.Replace(s, "/", "//", 1)
	case 5, 6, 7:
		return top + "/" + s
	case 8:
		return s + "/."
	case 9:
		return top
	}
	return s
}

func confRandom(r *rand.Rand, top string) confOp {
	flags := []int{os.O_RDONLY, os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_WRONLY | os.O_CREATE | os.O_TRUNC, os.O_RDWR | os.O_CREATE | os.O_TRUNC, os.O_RDWR | os.O_CREATE | os.O_EXCL, os.O_WRONLY | os.O_APPEND, os.O_RDWR | os.O_CREATE | os.O_APPEND, os.O_RDONLY | os.O_CREATE, os.O_WRONLY | os.O_TRUNC}
	modes := []int{0o644, 0o644, 0o755, 0o755, 0o755, 0o600, 0o666, 0o777, 0o444, 0o555, 0, 0o200, 0o100, 0o300}
	o := confOp{name: confNamed[r.IntN(len(confNamed))], flag: flags[r.IntN(len(flags))], n: r.IntN(9), off: r.IntN(14) - 1, mode: modes[r.IntN(len(modes))], file: r.IntN(3), root: r.IntN(2)}
	o.a, o.b = confPath(r, top, o.name != "Glob"), confPath(r, top, true)
	o.data = "abcdefghijkl"[:r.IntN(12)]
	return o
}

// cmdConformance compares the two: N [SEED]
func cmdConformance(a []string) {
	n, _ := strconv.Atoi(a[0])
	first := uint64(1)
	if len(a) > 1 {
		first, _ = strconv.ParseUint(a[1], 10, 64)
	}
	if os.Getuid() == 0 {
		// as an unprivileged user with only a scratch directory of its own.
		tmp, err := os.MkdirTemp("", "verif-conf")
		must(err)
		must(os.Chmod(tmp, 0o711))
		work := filepath.Join(tmp, "w")
		must(os.Mkdir(work, 0o755))
		must(os.Chown(work, 65534, 65534))
		bin := filepath.Join(tmp, "harness")
		b, err := os.ReadFile("/proc/self/exe")
		must(err)
		must(os.WriteFile(bin, b, 0o755))
		cmd := exec.Command(bin, append([]string{"conformance"}, a...)...)
		cmd.Dir = work
		cmd.Env = []string{"VERIF_CONF=" + work, "VERIF_CONF_LOG=" + os.Getenv("VERIF_CONF_LOG")}
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
		err = cmd.Run()
		os.RemoveAll(tmp)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		os.Exit(0)
	}
	work := os.Getenv("VERIF_CONF")
	if work == "" {
		fatal("run as root")
	}
	syscall.Umask(0o022)
	count := map[string]int{}
	bad := map[string]int{}
	for i := 0; i < n; i++ {
		seed := first + uint64(i)
		r := rand.New(rand.NewPCG(seed, 7))
		base := filepath.Join(work, "s"+fmt.Sprint(seed))
		top := filepath.Join(base, "1/2/3/4/5/6/7/8")
		must(os.MkdirAll(top, 0o755))
		must(os.Chdir(top))
		sim.Begin(sim.NewChoices(seed))
		m := simos.NewMachine()
		m.Mk(top)
		m.Start([]string{"x"}, nil)
		m.Chdir(top)
		simS, realS := &confSim{}, &confReal{}
		var log []string
		for j := 0; j < 80; j++ {
			o := confRandom(r, top)
			if j < 14 { // something to start with
				o.name = []string{"Mkdir", "MkdirAll", "WriteFile", "WriteFile", "Symlink", "OpenRoot"}[r.IntN(6)]
				o.mode |= 0o700
			}
			log = append(log, fmt.Sprintf("%+v", o))
			want := realS.do(o)
			got := simS.do(o)
			count[o.name]++
			if want != "-" && !strings.Contains(want, "[") {
				count[o.name+" ok"]++
			}
			if o.name == "Read" || o.name == "WriteTo" {
				// either, depending on the file system, for directories
				want = strings.Replace(want, "invalid argument]", "is a directory]", 1)
			}
			if os.Getenv("VERIF_CONF_LOG") != "" {
				fmt.Printf("%+v\n  %s\n", o, want)
			}
			if got != want {
				if bad[o.name] > 0 {
					break
				}
				fmt.Printf("seed %d step %d: %+v\n  real %s\n  sim  %s\n", seed, j, o, want, got)
				bad[o.name]++
				break
			}
			w, g := realS.snapshot(base), simS.snapshot(base)
			if strings.Join(w, "\n") != strings.Join(g, "\n") {
				fmt.Printf("seed %d step %d: %+v\n  %s\nreal\n%s\nsim\n%s\n", seed, j, o, got, strings.Join(w, "\n"), strings.Join(g, "\n"))
				bad[o.name]++
				break
			}
		}
		realS.close()
		must(os.Chdir(work))
		// make everything removable again.
		filepath.WalkDir(base, func(path string, d fs.DirEntry, err error) error {
			if d != nil && d.IsDir() {
				os.Chmod(path, 0o755)
			}
			return nil
		})
		for os.RemoveAll(base) != nil {
			k := 0
			filepath.WalkDir(base, func(path string, d fs.DirEntry, err error) error {
				if d != nil && d.IsDir() {
					os.Chmod(path, 0o755)
					k++
				}
				return nil
			})
			if k == 0 {
				break
			}
		}
	}
	var names []string
	for k := range count {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Printf("%s %d, ", k, count[k])
	}
	if len(bad) > 0 {
		fmt.Println("\ndiffer:", bad)
		os.Exit(1)
	}
	fmt.Printf("\n%d histories agree\n", n)
}
