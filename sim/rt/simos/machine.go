// Package simos replaces package os: it runs on a simulated machine with an
// in-memory file system, whose every system call is a preemption point, can be
// made to fail and can be the point at which the process is killed.
package simos

import (
	"io/fs"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"VERIFSIM/sim"
	"VERIFSIM/simtime"
)

// Inode is a file, directory or symbolic link.
type Inode struct {
	ID     int
	Mode   fs.FileMode
	Data   []byte
	Ents   map[string]*Inode
	Parent *Inode
	Target string
	Mtime  time.Time
	Links  int
	synced []byte // contents a loss of power leaves at least
	dirty  bool   // Data may not have reached the disk
}

func (n *Inode) isDir() bool  { return n.Mode&fs.ModeDir != 0 }
func (n *Inode) isLink() bool { return n.Mode&fs.ModeSymlink != 0 }

// Op describes one system call of the simulated process.
type Op struct {
	Index int
	Kind  string // open, create, read, write, close, readdir, stat, mkdir, rename, remove, ...
	Path  string // path as resolved on the machine, or as given
	Bytes int    // size of the transfer asked for
	Write bool   // the file was opened for writing
}

// Fault is what the plan injects at a system call.
type Fault struct {
	Err   syscall.Errno // 0: none
	Short int           // transfer only so many bytes (with Err: then fail); -1: not short
	Kill  bool          // kill the process here; of a write, Short bytes are done
	Lose  int           // close: so many bytes at the end of the file are lost
}

// NoFault injects nothing.
var NoFault = Fault{Short: -1}

// Machine is the simulated machine and the one process on it.
type Machine struct {
	Root     *Inode
	Cwd      *Inode
	Env      map[string]string
	Umask    fs.FileMode
	Plan     func(op *Op) Fault // nil: no faults
	After    func(op *Op)       // called after each system call
	Quota    int64              // bytes that may still be allocated; -1: unlimited
	Log      []string           // trace of system calls
	Trace    bool
	Ops      int
	Dead     bool // the process has ended
	Killed   bool
	Exited   bool
	Code     int
	Faults   map[string]int // injected faults by kind
	Out      *Inode         // standard output
	ErrOut   *Inode         // standard error
	OpenFD   int
	nextID   int
	epoch    time.Time
	tmp      uint64
	creating bool     // an open with O_CREATE is resolving its path
	super    bool     // the harness looks: no permission needed
	names    []change // changes to directories since the process started
	dirty    []*Inode
}

// change is a change of a directory entry.
type change struct {
	op       int
	dir      *Inode
	name     string
	old, new *Inode
}

// M is the current machine.
var M *Machine

// NewMachine returns an empty machine.
func NewMachine() *Machine {
	m := &Machine{Env: map[string]string{}, Umask: 0o022, Quota: -1, Faults: map[string]int{}}
	m.Root = m.newInode(fs.ModeDir | 0o755)
	m.Root.Parent = m.Root
	m.Cwd = m.Root
	return m
}

func (m *Machine) newInode(mode fs.FileMode) *Inode {
	m.nextID++
	n := &Inode{ID: m.nextID, Mode: mode, Mtime: simtime.Epoch.Add(simtime.Elapsed()), Links: 1}
	if mode.IsDir() {
		n.Ents = map[string]*Inode{}
	}
	return n
}

// Start makes m the current machine and starts a process on it.
func (m *Machine) Start(args []string, env map[string]string) {
	M = m
	m.Ops, m.Dead, m.Killed, m.Exited, m.Code = 0, false, false, false, 0
	m.Log = nil
	m.Faults = map[string]int{}
	m.Env = map[string]string{}
	m.OpenFD = 0
	m.tmp = 0
	m.settle()
	for k, v := range env {
		m.Env[k] = v
	}
	Args = append([]string(nil), args...)
	m.Out = m.newInode(0o600)
	m.ErrOut = m.newInode(0o600)
	Stdin = &File{name: "/dev/stdin", node: m.newInode(0o600), read: true}
	Stdout = &File{name: "/dev/stdout", node: m.Out, write: true, std: "stdout"}
	Stderr = &File{name: "/dev/stderr", node: m.ErrOut, write: true, std: "stderr"}
}

// Clone returns a machine with a copy of the disk.
func (m *Machine) Clone() *Machine {
	c := NewMachine()
	c.Umask = m.Umask
	c.nextID = m.nextID
	seen := map[*Inode]*Inode{}
	var cp func(n *Inode) *Inode
	cp = func(n *Inode) *Inode {
		if d, ok := seen[n]; ok {
			return d
		}
		d := &Inode{}
		*d = *n
		seen[n] = d
		d.Data = append([]byte(nil), n.Data...)
		d.dirty, d.synced = false, nil
		if n.Ents != nil {
			d.Ents = make(map[string]*Inode, len(n.Ents))
			for k, e := range n.Ents {
				d.Ents[k] = cp(e)
			}
		}
		return d
	}
	c.Root = cp(m.Root)
	for o, d := range seen {
		if o.Parent != nil {
			d.Parent = seen[o.Parent]
		}
	}
	c.Cwd = seen[m.Cwd]
	if c.Cwd == nil {
		c.Cwd = c.Root
	}
	return c
}

// die ends the simulated process; nothing it does afterwards has an effect.
func (m *Machine) die() {
	m.Dead = true
	sim.EndProcess()
	runtime.Goexit()
}

// End is called when the main function has returned or panicked.
func (m *Machine) End() { m.Dead = true }

// begin starts a system call. It returns the fault to apply.
func begin(kind, path string, bytes int, write bool) (*Op, Fault) {
	m := M
	if m == nil {
		panic(sim.Unsupported("system call outside a simulated process: " + kind))
	}
	if m.Dead {
		runtime.Goexit()
	}
	sim.Point()
	simtime.Advance(time.Microsecond)
	if m.Dead {
		runtime.Goexit()
	}
	op := &Op{Index: m.Ops, Kind: kind, Path: path, Bytes: bytes, Write: write}
	m.Ops++
	if m.Ops > 200000 {
		panic(sim.Budget{Steps: sim.Steps()})
	}
	f := NoFault
	if m.Plan != nil {
		f = m.Plan(op)
	}
	if f.Kill && kind != "write" {
		m.note("kill")
		m.trace(op, "KILLED")
		m.Killed = true
		m.die()
	}
	return op, f
}

func (m *Machine) note(kind string) { m.Faults[kind]++ }

func (m *Machine) trace(op *Op, res string) {
	if m.Trace {
		s := "#" + itoa(op.Index) + " " + op.Kind + " " + op.Path
		if op.Bytes > 0 {
			s += " (" + itoa(op.Bytes) + ")"
		}
		if res != "" {
			s += " -> " + res
		}
		m.Log = append(m.Log, s)
	}
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	neg := i < 0
	if neg {
		i = -i
	}
	var b []byte
	for i > 0 {
		b = append([]byte{byte('0' + i%10)}, b...)
		i /= 10
	}
	if neg {
		return "-" + string(b)
	}
	return string(b)
}

// end finishes a system call.
func end(op *Op, err error) {
	m := M
	res := ""
	if err != nil {
		res = err.Error()
	}
	m.trace(op, res)
	if m.After != nil {
		m.After(op)
	}
}

// call runs a system call that either fails or takes effect as a whole.
func call(kind, path string, fn func() error) error {
	op, f := begin(kind, path, 0, false)
	var err error
	if f.Err != 0 {
		M.note(kind + ":" + errName(f.Err))
		err = f.Err
	} else if e := fn(); e != nil {
		err = e
	}
	end(op, err)
	return err
}

func errName(e syscall.Errno) string {
	switch e {
	case syscall.EIO:
		return "EIO"
	case syscall.ENOSPC:
		return "ENOSPC"
	case syscall.EACCES:
		return "EACCES"
	case syscall.EMFILE:
		return "EMFILE"
	case syscall.EROFS:
		return "EROFS"
	case syscall.EDQUOT:
		return "EDQUOT"
	case syscall.EPIPE:
		return "EPIPE"
	case syscall.ENOMEM:
		return "ENOMEM"
	}
	return "errno" + itoa(int(e))
}

// may reports whether the process, which owns every file, has the permission.
func (m *Machine) may(n *Inode, perm fs.FileMode) bool {
	return m.super || n.Mode>>6&perm == perm
}

const (
	permX = 1 << iota
	permW
	permR
)

// parent resolves all of a path but its last component, as system calls do
// that change directories: that one is not followed, even with a slash behind.
func (m *Machine) parent(path string) (dir *Inode, base string, n *Inode, slash bool, err error) {
	trim := strings.TrimRight(path, "/")
	if trim == "" && path != "" {
		return m.Root, "/", m.Root, true, nil
	}
	if len(path) >= 4096 {
		return nil, "", nil, false, syscall.ENAMETOOLONG
	}
	dir, base, n, err = m.walk(m.Cwd, trim, false, 0)
	return dir, base, n, trim != path, err
}

// walk resolves a path. With follow unset a final symbolic link is not
// followed. It returns the directory that holds the last component, the name
// of that component, and the inode (nil if it does not exist).
func (m *Machine) walk(start *Inode, path string, follow bool, depth int) (dir *Inode, base string, n *Inode, err error) {
	if path == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if strings.IndexByte(path, 0) >= 0 {
		return nil, "", nil, syscall.EINVAL
	}
	if len(path) >= 4096 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	if depth > 40 {
		return nil, "", nil, syscall.ELOOP
	}
	at := start
	if path[0] == '/' {
		at = m.Root
	}
	var parts []string
	for _, p := range strings.Split(path, "/") {
		if p != "" {
			parts = append(parts, p)
		}
	}
	trailing := path[len(path)-1] == '/'
	if len(parts) == 0 {
		return m.Root, ".", m.Root, nil
	}
	for i, p := range parts {
		last := i == len(parts)-1
		if !at.isDir() {
			return nil, "", nil, syscall.ENOTDIR
		}
		if !m.may(at, permX) {
			return nil, "", nil, syscall.EACCES
		}
		if len(p) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		var next *Inode
		switch p {
		case ".":
			next = at
		case "..":
			next = at.Parent
		default:
			next = at.Ents[p]
		}
		if next == nil {
			if last {
				return at, p, nil, nil
			}
			return nil, "", nil, syscall.ENOENT
		}
		if next.isLink() && (!last || follow || trailing) {
			if slashless := strings.TrimRight(next.Target, "/"); m.creating && last && slashless != next.Target && slashless != "" {
				if _, _, _, err := m.walk(at, slashless, false, depth+1); err != nil {
					return nil, "", nil, err
				}
				return nil, "", nil, syscall.EISDIR
			}
			creating := m.creating
			m.creating = creating && last
			d, b, t, err := m.walk(at, next.Target, true, depth+1)
			m.creating = creating
			if err != nil {
				return nil, "", nil, err
			}
			if t == nil {
				if last {
					return d, b, nil, nil // dangling link
				}
				return nil, "", nil, syscall.ENOENT
			}
			if last {
				if trailing && !t.isDir() {
					return nil, "", nil, syscall.ENOTDIR
				}
				return d, b, t, nil
			}
			at = t
			continue
		}
		if last {
			if trailing && !next.isDir() {
				return nil, "", nil, syscall.ENOTDIR
			}
			return at, p, next, nil
		}
		at = next
	}
	panic("unreachable")
}

// lookup resolves a path to an existing inode.
func (m *Machine) lookup(path string, follow bool) (*Inode, error) {
	_, _, n, err := m.walk(m.Cwd, path, follow, 0)
	if err != nil {
		return nil, err
	}
	if n == nil {
		return nil, syscall.ENOENT
	}
	return n, nil
}

// PathOf returns the path of a directory.
func (m *Machine) PathOf(d *Inode) string {
	if d == m.Root || d.Parent == nil {
		return "/"
	}
	var names []string
	for d != m.Root {
		found := ""
		for _, k := range sortedNames(d.Parent) {
			if d.Parent.Ents[k] == d {
				found = k
				break
			}
		}
		if found == "" {
			return "(deleted)"
		}
		names = append(names, found)
		d = d.Parent
	}
	var b strings.Builder
	for i := len(names) - 1; i >= 0; i-- {
		b.WriteByte('/')
		b.WriteString(names[i])
	}
	return b.String()
}

func sortedNames(d *Inode) []string {
	names := make([]string, 0, len(d.Ents))
	for k := range d.Ents {
		names = append(names, k)
	}
	sort.Strings(names)
	return names
}

// openIn opens or creates the file base in dir; n is the existing inode.
func (m *Machine) openIn(dir *Inode, base string, n *Inode, flag int, perm fs.FileMode) (*Inode, error) {
	acc := flag & (O_RDONLY | O_WRONLY | O_RDWR)
	if n == nil {
		if flag&O_CREATE == 0 {
			return nil, syscall.ENOENT
		}
		if base == "." || base == ".." {
			return nil, syscall.EISDIR
		}
		if dir.Links == 0 {
			return nil, syscall.ENOENT
		}
		if !m.may(dir, permW|permX) {
			return nil, syscall.EACCES
		}
		n = m.newInode(perm.Perm() &^ m.Umask)
		m.enter(dir, base, n)
		return n, nil
	}
	if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, syscall.EEXIST
	}
	if n.isDir() && (acc != O_RDONLY || flag&O_CREATE != 0) {
		return nil, syscall.EISDIR
	}
	if acc != O_WRONLY && !m.may(n, permR) || (acc != O_RDONLY || flag&O_TRUNC != 0) && !m.may(n, permW) {
		return nil, syscall.EACCES
	}
	if flag&O_TRUNC != 0 && acc != O_RDONLY {
		m.resize(n, 0)
	}
	return n, nil
}

// resize changes the length of a file within the quota.
func (m *Machine) resize(n *Inode, size int) bool {
	d := size - len(n.Data)
	if d != 0 {
		m.touch(n)
	}
	if d > 0 {
		if m.Quota >= 0 && int64(d) > m.Quota {
			return false
		}
		n.Data = append(n.Data, make([]byte, d)...)
	} else {
		n.Data = n.Data[:size:size]
	}
	if m.Quota >= 0 && n.ID > 0 {
		m.Quota -= int64(d)
	}
	n.Mtime = simtime.Epoch.Add(simtime.Elapsed())
	return true
}

// --- what a loss of power leaves ---

// enter changes a directory entry.
func (m *Machine) enter(dir *Inode, name string, n *Inode) {
	m.names = append(m.names, change{m.Ops, dir, name, dir.Ents[name], n})
	if n == nil {
		delete(dir.Ents, name)
	} else {
		dir.Ents[name] = n
	}
}

// touch is called before the contents of n change.
func (m *Machine) touch(n *Inode) {
	if !n.dirty && n != m.Out && n != m.ErrOut {
		n.dirty = true
		n.synced = append([]byte(nil), n.Data...)
		m.dirty = append(m.dirty, n)
	}
}

// flush makes the contents of n durable.
func (m *Machine) flush(n *Inode) { n.dirty, n.synced = false, nil }

// settle makes everything durable.
func (m *Machine) settle() {
	for _, n := range m.dirty {
		m.flush(n)
	}
	m.dirty, m.names = nil, nil
}

// PowerLoss changes the disk to what it may hold after power was lost: some
// of the last changes to directories are undone, and each file that was
// written and not synced holds some mixture of old and new contents. The draw
// function decides.
func (m *Machine) PowerLoss(draw func(n int) int) {
	m.note("power-loss")
	groups := 0
	for i, c := range m.names {
		if i == 0 || c.op != m.names[i-1].op {
			groups++
		}
	}
	lost := 0
	if draw(3) > 0 {
		lost = draw(groups + 1)
	}
	for i := len(m.names); i > 0 && lost > 0; i-- {
		c := m.names[i-1]
		if c.new != nil {
			c.new.Links--
		}
		if c.old != nil {
			c.old.Links++
			c.dir.Ents[c.name] = c.old
			if c.old.isDir() {
				c.old.Parent = c.dir
			}
		} else {
			delete(c.dir.Ents, c.name)
		}
		if i == 1 || m.names[i-2].op != c.op {
			lost--
		}
	}
	for _, n := range m.dirty {
		if !n.dirty {
			continue
		}
		switch draw(6) {
		case 0:
			// everything arrived
		case 1:
			n.Data = append([]byte(nil), n.synced...)
		case 2:
			n.Data = nil
		case 3:
			n.Data = n.Data[:draw(len(n.Data)+1)]
		case 4:
			// the size arrived, some of the data did not
			k := draw(len(n.Data) + 1)
			n.Data = append(append([]byte(nil), n.Data[:k]...), make([]byte, len(n.Data)-k)...)
		case 5:
			// blocks of old and new contents
			d := append([]byte(nil), n.Data...)
			k := draw(len(d) + 1)
			copy(d[k:], n.synced[min(k, len(n.synced)):])
			n.Data = d
		}
	}
	m.settle()
	if m.Trace {
		m.Log = append(m.Log, "POWER LOST")
	}
}

// --- access for the harness: no faults, no system calls ---

// Put writes a file, making its directories.
func (m *Machine) Put(path, data string) {
	dir := m.Mk(path[:strings.LastIndexByte(path, '/')])
	base := path[strings.LastIndexByte(path, '/')+1:]
	n := dir.Ents[base]
	if n == nil {
		n = m.newInode(0o644)
		dir.Ents[base] = n
	}
	n.Data = []byte(data)
}

// PutLink makes a symbolic link.
func (m *Machine) PutLink(path, target string) {
	dir := m.Mk(path[:strings.LastIndexByte(path, '/')])
	n := m.newInode(fs.ModeSymlink | 0o777)
	n.Target = target
	dir.Ents[path[strings.LastIndexByte(path, '/')+1:]] = n
}

// Mk makes a directory and its parents.
func (m *Machine) Mk(path string) *Inode {
	at := m.Root
	for _, p := range strings.Split(path, "/") {
		if p == "" {
			continue
		}
		n := at.Ents[p]
		if n == nil {
			n = m.newInode(fs.ModeDir | 0o755)
			n.Parent = at
			at.Ents[p] = n
		}
		at = n
	}
	return at
}

func (m *Machine) find(path string, follow bool) *Inode {
	m.super = true
	_, _, n, err := m.walk(m.Root, path, follow, 0)
	m.super = false
	if err != nil {
		return nil
	}
	return n
}

// Mode returns the permissions of a file, following links.
func (m *Machine) Mode(path string) (fs.FileMode, bool) {
	if n := m.find(path, true); n != nil {
		return n.Mode.Perm(), true
	}
	return 0, false
}

// Chmod sets the permissions of a file.
func (m *Machine) Chmod(path string, mode fs.FileMode) {
	if n := m.find(path, true); n != nil {
		n.Mode = n.Mode&^0o777 | mode
	}
}

// Get reads a file, following links.
func (m *Machine) Get(path string) (string, bool) {
	n := m.find(path, true)
	if n == nil || n.isDir() {
		return "", false
	}
	return string(n.Data), true
}

// Chdir sets the current directory.
func (m *Machine) Chdir(path string) { m.Cwd = m.Mk(path) }

// Snapshot lists every file below path: contents of files ("f:..."), targets
// of links ("l:...") and directories ("d").
func (m *Machine) Snapshot(path string) map[string]string {
	out := map[string]string{}
	n := m.find(path, false)
	if n == nil {
		return out
	}
	var rec func(p string, n *Inode)
	rec = func(p string, n *Inode) {
		switch {
		case n.isDir():
			out[p] = "d"
			for _, k := range sortedNames(n) {
				rec(strings.TrimSuffix(p, "/")+"/"+k, n.Ents[k])
			}
		case n.isLink():
			out[p] = "l:" + n.Target
		default:
			out[p] = "f:" + string(n.Data)
		}
	}
	rec(path, n)
	return out
}

// Modes returns the permissions of all files (no directories, no links) below path.
func (m *Machine) Modes(path string) map[string]fs.FileMode {
	out := map[string]fs.FileMode{}
	n := m.find(path, false)
	if n == nil {
		return out
	}
	var rec func(p string, n *Inode)
	rec = func(p string, n *Inode) {
		switch {
		case n.isDir():
			for _, k := range sortedNames(n) {
				rec(strings.TrimSuffix(p, "/")+"/"+k, n.Ents[k])
			}
		case n.isLink():
		default:
			out[p] = n.Mode.Perm()
		}
	}
	rec(path, n)
	return out
}

// Stdout returns what the process printed.
func (m *Machine) StdoutText() string { return string(m.Out.Data) }

// Stderr returns what the process reported.
func (m *Machine) StderrText() string { return string(m.ErrOut.Data) }
