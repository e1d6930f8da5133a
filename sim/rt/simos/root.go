package simos

import (
	"errors"
	"io/fs"
	"slices"
	"strings"
	"syscall"
	"time"
)

// Root is a directory that operations cannot leave; path resolution follows
// the algorithm of the standard library.
type Root struct {
	name   string
	dir    *Inode
	closed bool
}

var errNotDir = errors.New("not a directory")

var errPathEscapes = errors.New("path escapes from parent")

type errSymlink string

func (errSymlink) Error() string { return "symlink" }

// OpenRoot opens a directory.
func OpenRoot(name string) (*Root, error) {
	var d *Inode
	err := call("open", name, func() error {
		n, err := M.lookup(name, true)
		if err != nil {
			return err
		}
		if !M.may(n, permR) {
			return syscall.EACCES
		}
		if !n.isDir() {
			return errors.New("not a directory")
		}
		d = n
		return nil
	})
	if err != nil {
		return nil, perr("open", name, err)
	}
	return &Root{name: name, dir: d}, nil
}

// OpenInRoot opens a file in a directory.
func OpenInRoot(dir, name string) (*File, error) {
	r, err := OpenRoot(dir)
	if err != nil {
		return nil, err
	}
	return r.Open(name)
}

// Name returns the name of the directory.
func (r *Root) Name() string { return r.name }

// Close closes the root.
func (r *Root) Close() error {
	if M.Dead {
		M.die()
	}
	r.closed = true
	return nil
}

func splitPathInRoot(s string, prefix, suffix []string) (_ []string, endsInSlash bool, err error) {
	if len(s) == 0 {
		return nil, false, errors.New("empty path")
	}
	if s[0] == '/' {
		return nil, false, errPathEscapes
	}
	parts := slices.Clone(prefix)
	i, j := 0, 1
	for {
		if j < len(s) && s[j] != '/' {
			j++
			continue
		}
		parts = append(parts, s[i:j])
		partEnd := j
		for j < len(s) && s[j] == '/' {
			j++
		}
		if j == len(s) {
			if len(s[partEnd:]) > 0 {
				endsInSlash = true
			}
			break
		}
		if parts[len(parts)-1] == "." {
			parts = parts[:len(parts)-1]
		}
		i = j
	}
	if len(suffix) > 0 && len(parts) > 0 && parts[len(parts)-1] == "." {
		parts = parts[:len(parts)-1]
	}
	parts = append(parts, suffix...)
	return parts, endsInSlash, nil
}

// child looks a single name up in a directory.
func child(d *Inode, name string) (*Inode, error) {
	if !d.isDir() {
		return nil, syscall.ENOTDIR
	}
	if !M.may(d, permX) {
		return nil, syscall.EACCES
	}
	if len(name) > 255 {
		return nil, syscall.ENAMETOOLONG
	}
	if strings.IndexByte(name, 0) >= 0 {
		return nil, syscall.EINVAL
	}
	if name == "." {
		return d, nil
	}
	if name == ".." {
		return d.Parent, nil
	}
	n := d.Ents[name]
	if n == nil {
		return nil, syscall.ENOENT
	}
	return n, nil
}

func openDirIn(d *Inode, name string) (*Inode, error) {
	n, err := child(d, name)
	if err != nil {
		return nil, err
	}
	if n.isLink() {
		return nil, errSymlink(n.Target)
	}
	if !n.isDir() {
		return nil, syscall.ENOTDIR
	}
	if !M.may(n, permR) {
		return nil, syscall.EACCES
	}
	return n, nil
}

// do performs f on the directory holding the last component.
func (r *Root) do(name string, create, noSlash bool, openDir func(*Inode, string) (*Inode, error), f func(d *Inode, name string, endsInSlash bool) error) error {
	if r.closed {
		return ErrClosed
	}
	parts, endsInSlash, err := splitPathInRoot(name, nil, nil)
	if err != nil {
		return err
	}
	if openDir == nil {
		openDir = openDirIn
	}
	dirfd := r.dir
	const maxSteps = 255
	const maxRestarts = 8
	i, steps, restarts, symlinks := 0, 0, 0, 0
	for {
		steps++
		if steps > maxSteps && restarts > maxRestarts {
			return syscall.ENAMETOOLONG
		}
		if parts[i] == ".." {
			restarts++
			end := i + 1
			for end < len(parts) && parts[end] == ".." {
				end++
			}
			count := end - i
			if count > i {
				return errPathEscapes
			}
			parts = slices.Delete(parts, i-count, end)
			if len(parts) == 0 {
				parts = []string{"."}
			}
			i = 0
			dirfd = r.dir
			continue
		}
		if i == len(parts)-1 {
			err = nil
			if endsInSlash && !noSlash {
				n, e := child(dirfd, parts[i])
				switch {
				case e == syscall.ENOENT && create:
				case e != nil:
					return e
				case n.isDir():
				case n.isLink():
					err = errSymlink(n.Target)
				default:
					return syscall.ENOTDIR
				}
			}
			if err == nil {
				err = f(dirfd, parts[i], endsInSlash)
				if err == nil {
					return nil
				}
			}
		} else {
			var d *Inode
			d, err = openDir(dirfd, parts[i])
			if err == nil {
				dirfd = d
			}
		}
		switch e := err.(type) {
		case nil:
		case errSymlink:
			symlinks++
			if symlinks > 8 {
				return syscall.ELOOP
			}
			last := i == len(parts)-1
			newparts, newEnds, err := splitPathInRoot(string(e), parts[:i], parts[i+1:])
			if err != nil {
				return err
			}
			if last && newEnds {
				endsInSlash = true
			}
			if len(newparts) < i || !slices.Equal(parts[:i], newparts[:i]) {
				i = 0
				dirfd = r.dir
			}
			parts = newparts
			continue
		case *fs.PathError:
			e.Path = strings.Join(parts[:i+1], "/")
			return e
		default:
			return err
		}
		i++
	}
}

func (r *Root) call(kind, name string, create, noSlash bool, f func(d *Inode, name string, endsInSlash bool) error) error {
	return call(kind, joinPath(r.name, name), func() error { return r.do(name, create, noSlash, nil, f) })
}

func badPerm(perm fs.FileMode, op, name string) error {
	if perm&0o777 != perm {
		return &fs.PathError{Op: op, Path: name, Err: errors.New("unsupported file mode")}
	}
	return nil
}

// Open opens a file for reading.
func (r *Root) Open(name string) (*File, error) { return r.OpenFile(name, O_RDONLY, 0) }

// Create creates or truncates a file.
func (r *Root) Create(name string) (*File, error) {
	return r.OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666)
}

// OpenFile opens a file.
func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	if err := badPerm(perm, "openat", name); err != nil {
		return nil, err
	}
	kind := "open"
	if flag&(O_WRONLY|O_RDWR|O_CREATE) != 0 {
		kind = "create"
	}
	var n *Inode
	err := r.call(kind, name, false, false, func(d *Inode, base string, _ bool) error {
		if M.OpenFD >= 1000 {
			return syscall.EMFILE
		}
		c, err := child(d, base)
		if err != nil && err != syscall.ENOENT {
			return err
		}
		if c != nil && c.isLink() {
			if flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL {
				return syscall.EEXIST
			}
			return errSymlink(c.Target)
		}
		n, err = M.openIn(d, base, c, flag, perm)
		return err
	})
	if err != nil {
		return nil, perr("openat", name, err)
	}
	f := newFile(n, joinPath(r.name, name), flag)
	f.inRoot = true
	return f, nil
}

// OpenRoot opens a directory in the root.
func (r *Root) OpenRoot(name string) (*Root, error) {
	var dir *Inode
	err := r.call("open", name, false, false, func(d *Inode, base string, _ bool) error {
		c, err := child(d, base)
		if err != nil {
			return err
		}
		if c.isLink() {
			return errSymlink(c.Target)
		}
		if !M.may(c, permR) {
			return syscall.EACCES
		}
		if !c.isDir() {
			return errNotDir
		}
		dir = c
		return nil
	})
	if err == errNotDir {
		return nil, perr("open", joinPath(r.name, name), err)
	}
	if err != nil {
		return nil, perr("openat", name, err)
	}
	return &Root{name: joinPath(r.name, name), dir: dir}, nil
}

func (r *Root) resolved(kind, op, name string, f func(n *Inode) error) error {
	return perr(op, name, r.call(kind, name, false, false, func(d *Inode, base string, _ bool) error {
		c, err := child(d, base)
		if err != nil {
			return err
		}
		if c.isLink() {
			return errSymlink(c.Target)
		}
		return f(c)
	}))
}

// Chmod changes the mode of a file.
func (r *Root) Chmod(name string, mode fs.FileMode) error {
	return r.resolved("chmod", "chmodat", name, func(n *Inode) error { chmod(n, mode); return nil })
}

// Chown changes the owner of a file.
func (r *Root) Chown(name string, uid, gid int) error {
	return r.resolved("chown", "chownat", name, func(n *Inode) error { return nil })
}

// Lchown changes the owner of a file or link.
func (r *Root) Lchown(name string, uid, gid int) error {
	return perr("lchownat", name, r.call("chown", name, false, false, func(d *Inode, base string, _ bool) error {
		_, err := child(d, base)
		return err
	}))
}

// Chtimes changes the times of a file.
func (r *Root) Chtimes(name string, atime, mtime time.Time) error {
	return r.resolved("chtimes", "chtimesat", name, func(n *Inode) error { n.Mtime = mtime; return nil })
}

func (m *Machine) mkdirAt(d *Inode, base string, perm fs.FileMode) error {
	n, err := child(d, base)
	if err != nil && err != syscall.ENOENT {
		return err
	}
	return m.mkdirIn(d, base, n, perm)
}

// Mkdir makes a directory.
func (r *Root) Mkdir(name string, perm fs.FileMode) error {
	if err := badPerm(perm, "mkdirat", name); err != nil {
		return err
	}
	return perr("mkdirat", name, r.call("mkdir", name, true, true, func(d *Inode, base string, _ bool) error {
		return M.mkdirAt(d, base, perm)
	}))
}

// MkdirAll makes a directory and its parents.
func (r *Root) MkdirAll(name string, perm fs.FileMode) error {
	if err := badPerm(perm, "mkdirat", name); err != nil {
		return err
	}
	openDir := func(d *Inode, base string) (*Inode, error) {
		for try := 0; ; try++ {
			n, err := openDirIn(d, base)
			switch err.(type) {
			case nil, errSymlink:
				return n, err
			}
			if try > 0 || err != syscall.ENOENT {
				return nil, &fs.PathError{Op: "openat", Err: err}
			}
			if err := M.mkdirAt(d, base, perm); err != nil {
				return nil, &fs.PathError{Op: "mkdirat", Err: err}
			}
		}
	}
	last := func(d *Inode, base string, _ bool) error {
		err := M.mkdirAt(d, base, perm)
		if err == syscall.EEXIST {
			n, e := child(d, base)
			if e == nil {
				if n.isDir() {
					err = nil
				} else if n.isLink() {
					var t *Inode
					e := r.do(name, false, false, nil, func(d *Inode, base string, _ bool) error {
						c, err := child(d, base)
						if err == nil && c.isLink() {
							return errSymlink(c.Target)
						}
						t = c
						return err
					})
					if e == nil && t.isDir() {
						err = nil
					} else if e == nil {
						err = syscall.ENOTDIR
					} else if !IsNotExist(e) {
						err = perr("statat", name, e)
					}
				}
			}
		}
		switch err.(type) {
		case nil, errSymlink:
			return err
		}
		return &fs.PathError{Op: "mkdirat", Err: err}
	}
	err := call("mkdir", joinPath(r.name, name), func() error { return r.do(name, true, true, openDir, last) })
	if err != nil {
		if _, ok := err.(*fs.PathError); !ok {
			err = &fs.PathError{Op: "mkdirat", Path: name, Err: err}
		}
	}
	return err
}

// Remove removes a file or empty directory.
func (r *Root) Remove(name string) error {
	return perr("removeat", name, r.call("remove", name, false, false, func(d *Inode, base string, _ bool) error {
		n, err := child(d, base)
		if err != nil {
			return err
		}
		return M.removeIn(d, base, n)
	}))
}

// RemoveAll removes a tree.
func (r *Root) RemoveAll(name string) error {
	for len(name) > 0 && name[len(name)-1] == '/' {
		name = name[:len(name)-1]
	}
	if name == "." || strings.HasSuffix(name, "/.") {
		return &fs.PathError{Op: "RemoveAll", Path: name, Err: syscall.EINVAL}
	}
	var dir *Inode
	var last string
	err := r.call("remove", name, false, false, func(d *Inode, base string, _ bool) error {
		dir, last = d, base
		return nil
	})
	if err == nil {
		err = removeAllFrom(dir, r.name, last)
		var e *fs.PathError
		if errors.As(err, &e) {
			err = e.Err
		}
	}
	if errors.Is(err, fs.ErrNotExist) {
		return nil
	}
	return perr("RemoveAll", name, err)
}

// Stat describes a file.
func (r *Root) Stat(name string) (fs.FileInfo, error) {
	var fi fs.FileInfo
	err := r.resolved("stat", "statat", name, func(n *Inode) error { fi = info(baseName(name), n); return nil })
	return fi, err
}

// Lstat describes a file or link.
func (r *Root) Lstat(name string) (fs.FileInfo, error) {
	var fi fs.FileInfo
	err := r.call("stat", name, false, false, func(d *Inode, base string, _ bool) error {
		c, err := child(d, base)
		if err == nil {
			fi = info(baseName(name), c)
		}
		return err
	})
	return fi, perr("statat", name, err)
}

// Readlink reads a symbolic link.
func (r *Root) Readlink(name string) (string, error) {
	target := ""
	err := r.call("stat", name, false, false, func(d *Inode, base string, _ bool) error {
		c, err := child(d, base)
		if err != nil {
			return err
		}
		if !c.isLink() {
			return syscall.EINVAL
		}
		target = c.Target
		return nil
	})
	return target, perr("readlinkat", name, err)
}

// Rename renames a file.
func (r *Root) Rename(oldname, newname string) error {
	err := call("rename", joinPath(r.name, oldname)+" "+joinPath(r.name, newname), func() error {
		return r.do(oldname, false, false, nil, func(d1 *Inode, b1 string, _ bool) error {
			return r.do(newname, true, false, nil, func(d2 *Inode, b2 string, slash bool) error {
				n1, err1 := child(d1, b1)
				n2, err2 := child(d2, b2)
				if slash {
					if err1 != nil {
						return err1
					}
					if !n1.isDir() {
						return syscall.ENOTDIR
					}
				}
				if err2 == nil && n2.isDir() {
					if err1 != nil {
						return err1
					}
					if b1 == b2 || n1 != n2 {
						return syscall.EEXIST
					}
				}
				switch {
				case !M.may(d1, permX) || !M.may(d2, permX):
					return syscall.EACCES
				case special(b1) || special(b2):
					return syscall.EBUSY
				case err1 != nil:
					return err1
				case err2 != nil && err2 != syscall.ENOENT:
					return err2
				}
				return M.renameIn(d1, b1, n1, d2, b2, n2)
			})
		})
	})
	if err != nil {
		return &LinkError{Op: "renameat", Old: oldname, New: newname, Err: err}
	}
	return nil
}

// Link makes a hard link.
func (r *Root) Link(oldname, newname string) error {
	err := call("link", joinPath(r.name, oldname)+" "+joinPath(r.name, newname), func() error {
		return r.do(oldname, false, false, nil, func(d1 *Inode, b1 string, _ bool) error {
			return r.do(newname, false, false, nil, func(d2 *Inode, b2 string, _ bool) error {
				n1, err := child(d1, b1)
				if err != nil {
					return err
				}
				n2, _ := child(d2, b2)
				return M.linkIn(n1, d2, b2, n2)
			})
		})
	})
	if err != nil {
		return &LinkError{Op: "linkat", Old: oldname, New: newname, Err: err}
	}
	return nil
}

// Symlink makes a symbolic link.
func (r *Root) Symlink(oldname, newname string) error {
	err := r.call("symlink", newname, false, false, func(d *Inode, base string, _ bool) error {
		n, err := child(d, base)
		if err == syscall.EACCES && oldname != "" {
			return err
		}
		return M.symlinkIn(oldname, d, base, n)
	})
	if err != nil {
		return &LinkError{Op: "symlinkat", Old: oldname, New: newname, Err: err}
	}
	return nil
}

// ReadFile reads a file.
func (r *Root) ReadFile(name string) ([]byte, error) {
	f, err := r.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return readAll(f)
}

// WriteFile writes a file.
func (r *Root) WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := r.OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err == nil {
		err = err1
	}
	return err
}

// FS returns a file system for the root.
func (r *Root) FS() fs.FS { return (*rootFS)(r) }

type rootFS Root

func (rfs *rootFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: ErrInvalid}
	}
	f, err := (*Root)(rfs).Open(name)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func (rfs *rootFS) ReadDir(name string) ([]fs.DirEntry, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "readdir", Path: name, Err: ErrInvalid}
	}
	f, err := (*Root)(rfs).Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	ents, err := f.ReadDir(-1)
	slices.SortFunc(ents, func(a, b fs.DirEntry) int { return strings.Compare(a.Name(), b.Name()) })
	return ents, err
}

func (rfs *rootFS) ReadFile(name string) ([]byte, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "readfile", Path: name, Err: ErrInvalid}
	}
	return (*Root)(rfs).ReadFile(name)
}

func (rfs *rootFS) Stat(name string) (fs.FileInfo, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: ErrInvalid}
	}
	return (*Root)(rfs).Stat(name)
}

func (rfs *rootFS) Lstat(name string) (fs.FileInfo, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "lstat", Path: name, Err: ErrInvalid}
	}
	return (*Root)(rfs).Lstat(name)
}

func (rfs *rootFS) ReadLink(name string) (string, error) {
	if !fs.ValidPath(name) {
		return "", &fs.PathError{Op: "readlink", Path: name, Err: ErrInvalid}
	}
	return (*Root)(rfs).Readlink(name)
}
