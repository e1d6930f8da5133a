package simos

import (
	"errors"
	"io"
	"io/fs"
	"slices"
	"strings"
	"syscall"
	"time"

	"VERIFSIM/sim"
	"VERIFSIM/simtime"
)

// The standard files of the process.
var (
	Stdin  *File
	Stdout *File
	Stderr *File
	Args   []string
)

// File is an open file of the simulated process.
type File struct {
	name   string
	node   *Inode
	pos    int
	read   bool
	write  bool
	app    bool
	inRoot bool
	closed bool
	std    string
	wrote  int // bytes written through this handle
	names  []string
	dirInd int
	listed bool
	path   string
}

func perr(op, path string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: path, Err: err}
}

const oDirectory = 1 << 30 // not a flag of the system

func openPath(op, name string, flag int, perm fs.FileMode) (*File, error) {
	m := M
	var n *Inode
	kind := "open"
	acc := flag & (O_RDONLY | O_WRONLY | O_RDWR)
	if acc != O_RDONLY || flag&O_CREATE != 0 {
		kind = "create"
	}
	err := call(kind, name, func() error {
		if m.OpenFD >= 1000 {
			return syscall.EMFILE
		}
		if flag&O_CREATE != 0 && len(name) > 0 && name[len(name)-1] == '/' {
			if _, _, _, _, err := m.parent(name); err != nil {
				return err
			}
			t := strings.TrimRight(name, "/")
			last := t[strings.LastIndexByte(t, '/')+1:]
			if flag&O_EXCL != 0 && (last == "" || last == "." || last == "..") {
				return syscall.EEXIST
			}
			return syscall.EISDIR
		}
		m.creating = flag&O_CREATE != 0
		defer func() { m.creating = false }()
		dir, base, e, err := m.walk(m.Cwd, name, !(flag&O_CREATE != 0 && flag&O_EXCL != 0), 0)
		if err != nil {
			return err
		}
		if flag&oDirectory != 0 && e != nil && !e.isDir() {
			return syscall.ENOTDIR
		}
		n, err = m.openIn(dir, base, e, flag, perm)
		return err
	})
	if err != nil {
		return nil, perr(op, name, err)
	}
	return newFile(n, name, flag), nil
}

func newFile(n *Inode, name string, flag int) *File {
	acc := flag & (O_RDONLY | O_WRONLY | O_RDWR)
	M.OpenFD++
	return &File{name: name, node: n, read: acc != O_WRONLY, write: acc != O_RDONLY, app: flag&O_APPEND != 0}
}

// Open opens a file for reading.
func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }

// Create creates or truncates a file.
func Create(name string) (*File, error) {
	return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666)
}

// OpenFile is the generalized open call.
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	return openPath("open", name, flag, perm)
}

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &fs.PathError{Op: op, Path: f.name, Err: ErrClosed}
	}
	return nil
}

// Name returns the name the file was opened with.
func (f *File) Name() string { return f.name }

// Read reads up to len(b) bytes.
func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	n, err := f.readAt(b, f.pos)
	f.pos += n
	if n == 0 && err == nil && len(b) > 0 {
		return 0, io.EOF
	}
	return n, perr("read", f.name, err)
}

func (f *File) readAt(b []byte, pos int) (int, error) {
	op, flt := begin("read", f.name, len(b), false)
	var n int
	var err error
	switch {
	case flt.Err != 0:
		M.note("read:" + errName(flt.Err))
		err = flt.Err
	case f.node.isDir():
		err = syscall.EISDIR
	case !f.read:
		err = syscall.EBADF
	default:
		if pos < len(f.node.Data) {
			n = copy(b, f.node.Data[pos:])
		}
		if flt.Short >= 1 && flt.Short < n {
			M.note("read:short")
			n = flt.Short
		}
	}
	op.Bytes = n
	end(op, err)
	return n, err
}

// ReadAt reads from an offset.
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "readat", Path: f.name, Err: errors.New("negative offset")}
	}
	done := 0
	for len(b) > 0 {
		if err := f.check("read"); err != nil {
			return 0, err
		}
		n, err := f.readAt(b, int(off))
		if err != nil {
			return done, perr("read", f.name, err)
		}
		if n == 0 {
			return done, io.EOF
		}
		done += n
		off += int64(n)
		b = b[n:]
	}
	return done, nil
}

// Write writes b; like the real one it retries after short writes.
func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	done := 0
	for {
		pos := f.pos
		if f.app || f.std != "" {
			pos = len(f.node.Data)
		}
		n, err := f.writeAt(b[done:], pos)
		if n > 0 {
			f.pos = pos + n
		}
		done += n
		if err != nil {
			return done, perr("write", f.name, err)
		}
		if done == len(b) {
			return done, nil
		}
		if n == 0 {
			return done, perr("write", f.name, io.ErrUnexpectedEOF)
		}
	}
}

func (f *File) writeAt(b []byte, pos int) (int, error) {
	name := f.name
	op, flt := begin("write", name, len(b), true)
	if !f.write {
		end(op, syscall.EBADF)
		return 0, syscall.EBADF
	}
	n := len(b)
	var err error
	if flt.Short >= 0 && flt.Short < n {
		n = flt.Short
		if flt.Err == 0 && !flt.Kill {
			if n == 0 {
				n = 1
			}
			M.note("write:short")
		}
	} else if flt.Err != 0 {
		n = 0
	}
	if flt.Err != 0 {
		M.note("write:" + errName(flt.Err))
		err = flt.Err
	}
	if flt.Kill && flt.Short < 0 {
		n = 0
	}
	m := M
	if end := pos + n; n > 0 && end > len(f.node.Data) {
		q := m.Quota
		if f.std != "" {
			m.Quota = -1
		}
		if !m.resize(f.node, end) {
			// disk full: what fits is written.
			n = max(0, len(f.node.Data)+int(m.Quota)-pos)
			m.note("write:disk-full")
			if n == 0 && err == nil {
				err = syscall.ENOSPC
			}
			if n > 0 && pos+n > len(f.node.Data) {
				m.resize(f.node, pos+n)
			}
		}
		if f.std != "" {
			m.Quota = q
		}
	}
	if n > 0 {
		m.touch(f.node)
	}
	if n > 0 {
		copy(f.node.Data[pos:], b[:n])
	}
	f.wrote += n
	if flt.Kill {
		m.note("kill")
		m.trace(op, "KILLED after "+itoa(n)+" bytes")
		m.Killed = true
		if m.After != nil {
			m.After(op)
		}
		m.die()
	}
	if n != op.Bytes && m.Trace {
		m.trace(op, "only "+itoa(n)+" bytes")
	}
	end(op, err)
	return n, err
}

// WriteAt writes at an offset.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.app {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "writeat", Path: f.name, Err: errors.New("negative offset")}
	}
	done := 0
	for done < len(b) {
		if err := f.check("write"); err != nil {
			return 0, err
		}
		n, err := f.writeAt(b[done:], int(off)+done)
		done += n
		if err != nil {
			return done, perr("write", f.name, err)
		}
	}
	return done, nil
}

// WriteString writes a string.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// ReadFrom implements io.ReaderFrom.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return io.Copy(onlyWriter{f}, r)
}

type onlyWriter struct{ f *File }

func (w onlyWriter) Write(b []byte) (int, error) { return w.f.Write(b) }

// WriteTo implements io.WriterTo.
func (f *File) WriteTo(w io.Writer) (int64, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	return io.Copy(w, onlyReader{f})
}

type onlyReader struct{ f *File }

func (r onlyReader) Read(b []byte) (int, error) { return r.f.Read(b) }

// Close closes the file.
func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &fs.PathError{Op: "close", Path: f.name, Err: ErrClosed}
	}
	op, flt := begin("close", f.name, 0, f.wrote > 0)
	f.closed = true
	M.OpenFD--
	var err error
	if flt.Err != 0 {
		M.note("close:" + errName(flt.Err))
		err = flt.Err
		if lose := min(flt.Lose, f.wrote, len(f.node.Data)); lose > 0 && f.std == "" {
			M.resize(f.node, len(f.node.Data)-lose)
		}
	}
	end(op, err)
	return perr("close", f.name, err)
}

// Stat describes the file.
func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	var fi fs.FileInfo
	err := call("stat", f.name, func() error { fi = info(baseName(f.name), f.node); return nil })
	return fi, perr("stat", f.name, err)
}

// Seek sets the offset.
func (f *File) Seek(offset int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	p := int64(f.pos)
	switch whence {
	case io.SeekStart:
		p = offset
	case io.SeekCurrent:
		p += offset
	case io.SeekEnd:
		p = int64(len(f.node.Data)) + offset
	}
	if p < 0 {
		return 0, &fs.PathError{Op: "seek", Path: f.name, Err: syscall.EINVAL}
	}
	f.pos = int(p)
	f.listed, f.dirInd = false, 0
	return p, nil
}

// Sync flushes the file; a kill of the process loses nothing written, a loss
// of power may.
func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	return perr("sync", f.name, call("sync", f.name, func() error {
		if f.node.isDir() {
			M.names = nil
		}
		M.flush(f.node)
		return nil
	}))
}

// Truncate changes the size.
func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	return perr("truncate", f.name, call("truncate", f.name, func() error {
		if !f.write || size < 0 {
			return syscall.EINVAL
		}
		if !M.resize(f.node, int(size)) {
			return syscall.ENOSPC
		}
		return nil
	}))
}

// Chmod changes the mode.
func (f *File) Chmod(mode fs.FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	return perr("chmod", f.name, call("chmod", f.name, func() error { chmod(f.node, mode); return nil }))
}

func chmod(n *Inode, mode fs.FileMode) {
	n.Mode = n.Mode&^fs.ModePerm | mode.Perm()
}

// Chown changes the owner.
func (f *File) Chown(uid, gid int) error {
	if err := f.check("chown"); err != nil {
		return err
	}
	return perr("chown", f.name, call("chown", f.name, func() error { return nil }))
}

// Chdir changes the current directory to the file.
func (f *File) Chdir() error {
	if err := f.check("chdir"); err != nil {
		return err
	}
	return perr("chdir", f.name, call("chdir", f.name, func() error {
		if !f.node.isDir() {
			return syscall.ENOTDIR
		}
		if !M.may(f.node, permX) {
			return syscall.EACCES
		}
		M.Cwd = f.node
		return nil
	}))
}

// Fd returns a number for the file.
func (f *File) Fd() uintptr {
	switch f {
	case Stdin:
		return 0
	case Stdout:
		return 1
	case Stderr:
		return 2
	}
	return uintptr(1000 + f.node.ID)
}

func (f *File) SetDeadline(t time.Time) error         { return ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error     { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error    { return ErrNoDeadline }
func (f *File) SyscallConn() (syscall.RawConn, error) { panic(sim.Unsupported("File.SyscallConn")) }

// list reads the names of a directory, in an order the simulator draws.
func (f *File) list(n int, op string) ([]string, error) {
	if f.closed && (!f.listed || f.dirInd >= len(f.names)) {
		return nil, &fs.PathError{Op: op, Path: f.name, Err: errors.New("use of closed file")}
	}
	if !f.listed {
		var names []string
		err := call("readdir", f.name, func() error {
			if !f.node.isDir() {
				return syscall.ENOTDIR
			}
			if f.node.Links == 0 {
				return syscall.ENOENT
			}
			names = sortedNames(f.node)
			return nil
		})
		if err != nil {
			return nil, &fs.PathError{Op: op, Path: f.name, Err: err}
		}
		sim.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		f.names, f.dirInd, f.listed = names, 0, true
	}
	rest := f.names[f.dirInd:]
	if n > 0 {
		if len(rest) == 0 {
			return nil, io.EOF
		}
		rest = rest[:min(n, len(rest))]
	}
	f.dirInd += len(rest)
	return rest, nil
}

// ReadDir reads directory entries.
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if f == nil {
		return nil, ErrInvalid
	}
	names, err := f.list(n, "readdirent")
	out := []fs.DirEntry{}
	for _, name := range names {
		if c := f.node.Ents[name]; c != nil {
			d := &dirEntry{name: name, path: f.name + "/" + name, typ: c.Mode.Type()}
			if f.inRoot {
				i, err := f.lstatAt(name)
				if err != nil {
					return out, err
				}
				d.typ, d.info = i.mode.Type(), i
			}
			out = append(out, d)
		}
	}
	return out, err
}

// Readdirnames reads the names in a directory.
func (f *File) Readdirnames(n int) ([]string, error) {
	if f == nil {
		return nil, ErrInvalid
	}
	names, err := f.list(n, "readdirent")
	return append([]string{}, names...), err
}

// Readdir reads file information of a directory.
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	if f == nil {
		return nil, ErrInvalid
	}
	names, err := f.list(n, "readdirent")
	out := []fs.FileInfo{}
	for _, name := range names {
		if c := f.node.Ents[name]; c != nil {
			i, err := f.lstatAt(name)
			if err != nil {
				return out, err
			}
			out = append(out, i)
		}
	}
	return out, err
}

// lstatAt describes a directory entry.
func (f *File) lstatAt(name string) (*fileInfo, error) {
	var fi *fileInfo
	err := call("stat", joinPath(f.name, name), func() error {
		n, err := child(f.node, name)
		if err == nil {
			fi = info(name, n)
		}
		return err
	})
	return fi, perr("fstatat", f.name+"/"+name, err)
}

type dirEntry struct {
	name string
	path string
	typ  fs.FileMode
	info fs.FileInfo
}

func (d *dirEntry) Name() string      { return d.name }
func (d *dirEntry) IsDir() bool       { return d.typ.IsDir() }
func (d *dirEntry) Type() fs.FileMode { return d.typ }
func (d *dirEntry) String() string    { return fs.FormatDirEntry(d) }
func (d *dirEntry) Info() (fs.FileInfo, error) {
	if d.info != nil {
		return d.info, nil
	}
	return Lstat(d.path)
}

type fileInfo struct {
	name  string
	size  int64
	mode  fs.FileMode
	mtime time.Time
	node  *Inode
}

func info(name string, n *Inode) *fileInfo {
	size := int64(len(n.Data))
	if n.isLink() {
		size = int64(len(n.Target))
	}
	return &fileInfo{name: name, size: size, mode: n.Mode, mtime: n.Mtime, node: n}
}

func (fi *fileInfo) Name() string       { return fi.name }
func (fi *fileInfo) Size() int64        { return fi.size }
func (fi *fileInfo) Mode() fs.FileMode  { return fi.mode }
func (fi *fileInfo) ModTime() time.Time { return fi.mtime }
func (fi *fileInfo) IsDir() bool        { return fi.mode.IsDir() }
func (fi *fileInfo) Sys() any           { return nil }

// SameFile reports whether both describe the same file.
func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(*fileInfo)
	y, ok2 := b.(*fileInfo)
	return ok1 && ok2 && x.node == y.node
}

func baseName(name string) string {
	i := len(name) - 1
	for ; i > 0 && name[i] == '/'; i-- {
		name = name[:i]
	}
	for i--; i >= 0; i-- {
		if name[i] == '/' {
			name = name[i+1:]
			break
		}
	}
	return name
}

func joinPath(dir, name string) string {
	if len(dir) > 0 && dir[len(dir)-1] == '/' {
		return dir + name
	}
	return dir + "/" + name
}

// Stat describes a file.
func Stat(name string) (fs.FileInfo, error) { return stat("stat", name, true) }

// Lstat describes a file without following a link.
func Lstat(name string) (fs.FileInfo, error) { return stat("lstat", name, false) }

func stat(op, name string, follow bool) (fs.FileInfo, error) {
	var fi fs.FileInfo
	err := call("stat", name, func() error {
		n, err := M.lookup(name, follow)
		if err != nil {
			return err
		}
		fi = info(baseName(name), n)
		return nil
	})
	if err != nil {
		return nil, perr(op, name, err)
	}
	return fi, nil
}

// ReadFile reads a file.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return readAll(f)
}

func readAll(f *File) ([]byte, error) {
	data := make([]byte, 0, 512)
	for {
		n, err := f.Read(data[len(data):cap(data)])
		data = data[:len(data)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return data, err
		}
		if len(data) >= cap(data) {
			d := append(data[:cap(data)], 0)
			data = d[:len(data)]
		}
	}
}

// WriteFile writes a file.
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// ReadDir reads a directory, sorted by name.
func ReadDir(name string) ([]fs.DirEntry, error) {
	f, err := openPath("open", name, O_RDONLY|oDirectory, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	ents, err := f.ReadDir(-1)
	slices.SortFunc(ents, func(a, b fs.DirEntry) int {
		if a.Name() < b.Name() {
			return -1
		}
		if a.Name() > b.Name() {
			return 1
		}
		return 0
	})
	return ents, err
}

// Mkdir makes a directory.
func Mkdir(name string, perm fs.FileMode) error {
	return perr("mkdir", name, call("mkdir", name, func() error {
		dir, base, n, _, err := M.parent(name)
		if err != nil {
			return err
		}
		return M.mkdirIn(dir, base, n, perm)
	}))
}

func (m *Machine) mkdirIn(dir *Inode, base string, n *Inode, perm fs.FileMode) error {
	if n != nil {
		return syscall.EEXIST
	}
	if dir.Links == 0 {
		return syscall.ENOENT
	}
	if !m.may(dir, permW|permX) {
		return syscall.EACCES
	}
	d := m.newInode(fs.ModeDir | perm.Perm()&^m.Umask)
	d.Parent = dir
	m.enter(dir, base, d)
	return nil
}

// MkdirAll makes a directory and its parents.
func MkdirAll(path string, perm fs.FileMode) error {
	dir, err := Stat(path)
	if err == nil {
		if dir.IsDir() {
			return nil
		}
		return &fs.PathError{Op: "mkdir", Path: path, Err: syscall.ENOTDIR}
	}
	i := len(path)
	for i > 0 && path[i-1] == '/' {
		i--
	}
	for i > 0 && path[i-1] != '/' {
		i--
	}
	if i > 1 {
		if err = MkdirAll(path[:i-1], perm); err != nil {
			return err
		}
	}
	err = Mkdir(path, perm)
	if err != nil {
		dir, err1 := Lstat(path)
		if err1 == nil && dir.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

// Remove removes a file or empty directory.
func Remove(name string) error {
	return perr("remove", name, call("remove", name, func() error {
		dir, base, n, slash, err := M.parent(name)
		if err != nil {
			return err
		}
		if slash && n != nil && !n.isDir() {
			return syscall.ENOTDIR
		}
		return M.removeIn(dir, base, n)
	}))
}

func (m *Machine) removeIn(dir *Inode, base string, n *Inode) error {
	switch base {
	case "/":
		return syscall.EBUSY
	case ".":
		return syscall.EINVAL
	case "..":
		return syscall.ENOTEMPTY
	}
	if n == nil {
		return syscall.ENOENT
	}
	if !m.may(dir, permW|permX) {
		return syscall.EACCES
	}
	if n.isDir() && len(n.Ents) > 0 {
		return syscall.ENOTEMPTY
	}
	m.enter(dir, base, nil)
	n.Links--
	if m.Quota >= 0 && n.Links == 0 {
		m.Quota += int64(len(n.Data))
	}
	return nil
}

// RemoveAll removes a tree.
func RemoveAll(path string) error {
	if path == "" {
		return nil
	}
	if len(path) > 1 && path[len(path)-1] == '.' && path[len(path)-2] == '/' || path == "." {
		return &fs.PathError{Op: "RemoveAll", Path: path, Err: syscall.EINVAL}
	}
	err := Remove(path)
	if err == nil || IsNotExist(err) {
		return nil
	}
	trim := strings.TrimRight(path, "/")
	if trim == "" {
		return &fs.PathError{Op: "unlinkat", Path: path, Err: syscall.EBUSY}
	}
	dir, base := ".", trim
	if i := strings.LastIndexByte(trim, '/'); i >= 0 {
		dir, base = trim[:i], trim[i+1:]
		if dir == "" {
			dir = "/"
		}
	}
	parent, err := openPath("open", dir, O_RDONLY, 0)
	if IsNotExist(err) {
		return nil
	}
	if err != nil {
		return err
	}
	defer parent.Close()
	if err := removeAllFrom(parent.node, dir, base); err != nil {
		if e, ok := err.(*fs.PathError); ok {
			e.Path = dir + "/" + e.Path
		}
		return err
	}
	return nil
}

// removeAllFrom removes an entry of a directory and what is in it, as package
// os does.
func removeAllFrom(parent *Inode, dir, base string) error {
	path := joinPath(dir, base)
	unlink := func(rmdir bool) error {
		return call("remove", path, func() error {
			n, err := child(parent, base)
			if err != nil {
				return err
			}
			if !M.may(parent, permW|permX) {
				return syscall.EACCES
			}
			if n.isDir() && !rmdir {
				return syscall.EISDIR
			}
			return M.removeIn(parent, base, n)
		})
	}
	uErr := unlink(false)
	if uErr == nil || uErr == syscall.ENOENT {
		return nil
	}
	if uErr != syscall.EISDIR && uErr != syscall.EPERM && uErr != syscall.EACCES {
		return &fs.PathError{Op: "unlinkat", Path: base, Err: uErr}
	}
	var recurseErr error
	var d *Inode
	err := call("open", path, func() (err error) { d, err = openDirIn(parent, base); return })
	switch {
	case err == syscall.ENOENT:
		return nil
	case err == syscall.ENOTDIR:
		return &fs.PathError{Op: "unlinkat", Path: base, Err: uErr}
	case err != nil:
		if _, ok := err.(errSymlink); ok {
			err = uErr
		}
		recurseErr = &fs.PathError{Op: "openfdat", Path: base, Err: err}
	default:
		f := newFile(d, path, O_RDONLY)
		names, err := f.Readdirnames(-1)
		if err != nil {
			f.Close()
			return &fs.PathError{Op: "readdirnames", Path: base, Err: err}
		}
		for _, name := range names {
			if err := removeAllFrom(d, path, name); err != nil {
				if e, ok := err.(*fs.PathError); ok {
					e.Path = base + "/" + e.Path
				}
				if recurseErr == nil {
					recurseErr = err
				}
			}
		}
		f.Close()
	}
	err = unlink(true)
	if err == nil || err == syscall.ENOENT {
		return nil
	}
	if recurseErr != nil {
		return recurseErr
	}
	return &fs.PathError{Op: "unlinkat", Path: base, Err: err}
}

// Rename renames a file.
func Rename(oldpath, newpath string) error {
	err := call("rename", oldpath+" "+newpath, func() error {
		// package os looks first whether newpath is a directory.
		if fi, err := M.lookup(newpath, false); err == nil && fi.isDir() {
			ofi, err := M.lookup(oldpath, false)
			if err != nil {
				return err
			}
			if newpath == oldpath || fi != ofi {
				return syscall.EEXIST
			}
		}
		d1, b1, n1, slash1, err := M.parent(oldpath)
		if err != nil {
			return err
		}
		d2, b2, n2, slash2, err := M.parent(newpath)
		if err != nil {
			return err
		}
		if special(b1) || special(b2) {
			return syscall.EBUSY
		}
		if n1 != nil && !n1.isDir() && (slash1 || slash2) {
			return syscall.ENOTDIR
		}
		return M.renameIn(d1, b1, n1, d2, b2, n2)
	})
	if err != nil {
		return &LinkError{Op: "rename", Old: oldpath, New: newpath, Err: err}
	}
	return nil
}

func special(base string) bool { return base == "." || base == ".." || base == "/" }

func (m *Machine) renameIn(d1 *Inode, b1 string, n1, d2 *Inode, b2 string, n2 *Inode) error {
	if n1 == nil {
		return syscall.ENOENT
	}
	if special(b1) || special(b2) {
		return syscall.EBUSY
	}
	if n1 == n2 {
		return nil
	}
	if n1.isDir() {
		for p := d2; p != m.Root; p = p.Parent {
			if p == n1 {
				return syscall.EINVAL
			}
		}
	}
	if n2 != nil && n2.isDir() {
		for p := d1; p != m.Root; p = p.Parent {
			if p == n2 {
				return syscall.ENOTEMPTY
			}
		}
	}
	if d2.Links == 0 {
		return syscall.ENOENT
	}
	if !m.may(d1, permW|permX) || !m.may(d2, permW|permX) {
		return syscall.EACCES
	}
	if n2 != nil && n2.isDir() && !n1.isDir() {
		return syscall.EISDIR
	}
	if n2 != nil && !n2.isDir() && n1.isDir() {
		return syscall.ENOTDIR
	}
	if n1.isDir() && d1 != d2 && !m.may(n1, permW) {
		return syscall.EACCES
	}
	if n2 != nil {
		if n2.isDir() && len(n2.Ents) > 0 {
			return syscall.ENOTEMPTY
		}
		n2.Links--
		if m.Quota >= 0 && n2.Links == 0 {
			m.Quota += int64(len(n2.Data))
		}
	}
	m.enter(d1, b1, nil)
	m.enter(d2, b2, n1)
	if n1.isDir() {
		n1.Parent = d2
	}
	return nil
}

// Link makes a hard link.
func Link(oldname, newname string) error {
	err := call("link", oldname+" "+newname, func() error {
		n1, err := M.lookup(oldname, false)
		if err != nil {
			return err
		}
		d2, b2, n2, slash, err := M.parent(newname)
		if err != nil {
			return err
		}
		if slash && n2 == nil {
			return syscall.ENOENT
		}
		return M.linkIn(n1, d2, b2, n2)
	})
	if err != nil {
		return &LinkError{Op: "link", Old: oldname, New: newname, Err: err}
	}
	return nil
}

func (m *Machine) linkIn(n1, d2 *Inode, b2 string, n2 *Inode) error {
	if n1 == nil {
		return syscall.ENOENT
	}
	if n2 != nil {
		return syscall.EEXIST
	}
	if d2.Links == 0 {
		return syscall.ENOENT
	}
	if !m.may(d2, permW|permX) {
		return syscall.EACCES
	}
	if n1.isDir() {
		return syscall.EPERM
	}
	n1.Links++
	m.enter(d2, b2, n1)
	return nil
}

// Symlink makes a symbolic link.
func Symlink(oldname, newname string) error {
	err := call("symlink", newname, func() error {
		if oldname == "" {
			return syscall.ENOENT
		}
		d, b, n, slash, err := M.parent(newname)
		if err != nil {
			return err
		}
		if slash && n == nil {
			return syscall.ENOENT
		}
		return M.symlinkIn(oldname, d, b, n)
	})
	if err != nil {
		return &LinkError{Op: "symlink", Old: oldname, New: newname, Err: err}
	}
	return nil
}

func (m *Machine) symlinkIn(target string, d *Inode, b string, n *Inode) error {
	if target == "" {
		return syscall.ENOENT
	}
	if n != nil {
		return syscall.EEXIST
	}
	if d.Links == 0 {
		return syscall.ENOENT
	}
	if !m.may(d, permW|permX) {
		return syscall.EACCES
	}
	l := m.newInode(fs.ModeSymlink | 0o777)
	l.Target = target
	m.enter(d, b, l)
	return nil
}

// Readlink reads a symbolic link.
func Readlink(name string) (string, error) {
	target := ""
	err := call("stat", name, func() error {
		n, err := M.lookup(name, false)
		if err != nil {
			return err
		}
		if !n.isLink() {
			return syscall.EINVAL
		}
		target = n.Target
		return nil
	})
	return target, perr("readlink", name, err)
}

// Chmod changes the mode of a file.
func Chmod(name string, mode fs.FileMode) error {
	return perr("chmod", name, call("chmod", name, func() error {
		n, err := M.lookup(name, true)
		if err == nil {
			chmod(n, mode)
		}
		return err
	}))
}

// Chown changes the owner of a file.
func Chown(name string, uid, gid int) error {
	return perr("chown", name, call("chown", name, func() error { _, err := M.lookup(name, true); return err }))
}

// Lchown changes the owner of a file or link.
func Lchown(name string, uid, gid int) error {
	return perr("lchown", name, call("chown", name, func() error { _, err := M.lookup(name, false); return err }))
}

// Chtimes changes the times of a file.
func Chtimes(name string, atime, mtime time.Time) error {
	return perr("chtimes", name, call("chtimes", name, func() error {
		n, err := M.lookup(name, true)
		if err == nil && !mtime.IsZero() {
			n.Mtime = mtime
		}
		return err
	}))
}

// Truncate changes the size of a file.
func Truncate(name string, size int64) error {
	return perr("truncate", name, call("truncate", name, func() error {
		if size < 0 {
			return syscall.EINVAL
		}
		n, err := M.lookup(name, true)
		if err != nil {
			return err
		}
		if n.isDir() {
			return syscall.EISDIR
		}
		if !M.may(n, permW) {
			return syscall.EACCES
		}
		if !M.resize(n, int(size)) {
			return syscall.ENOSPC
		}
		return nil
	}))
}

// Chdir changes the current directory.
func Chdir(dir string) error {
	return perr("chdir", dir, call("chdir", dir, func() error {
		n, err := M.lookup(dir, true)
		if err != nil {
			return err
		}
		if !n.isDir() {
			return syscall.ENOTDIR
		}
		if !M.may(n, permX) {
			return syscall.EACCES
		}
		M.Cwd = n
		return nil
	}))
}

// Getwd returns the current directory.
func Getwd() (string, error) {
	p := M.PathOf(M.Cwd)
	if p == "(deleted)" {
		return "", NewSyscallError("getwd", syscall.ENOENT)
	}
	return p, nil
}

var _ = simtime.Epoch
