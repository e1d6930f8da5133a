package main

// Made of confsim.go.

import (
	"fmt"
	"io"
	"io/fs"
	"strings"

	"os"
	"path/filepath"
)

type confReal struct {
	files [3]*os.File
	roots [2]*os.Root
}

func (s *confReal) info(fi fs.FileInfo, err error) string {
	if err != nil {
		return confErr(err)
	}
	size := fi.Size()
	if fi.IsDir() {
		size = 0
	}
	return fmt.Sprintf("%s %v %d", fi.Name(), fi.Mode(), size)
}

func (s *confReal) entries(e []fs.DirEntry, err error, sorted bool) string {
	var names []string
	for _, d := range e {
		fi, err := d.Info()
		names = append(names, fmt.Sprintf("%s %v %v %s", d.Name(), d.Type(), d.IsDir(), s.info(fi, err)))
	}
	return confNames(names, sorted) + confErr(err)
}

func (s *confReal) do(o confOp) string {
	f := s.files[o.file]
	r := s.roots[o.root]
	switch o.name {
	case "Open":
		s.files[o.file] = nil
		g, err := os.OpenFile(o.a, o.flag, fs.FileMode(o.mode))
		if err == nil {
			s.files[o.file] = g
		}
		return confErr(err)
	case "Root.Open":
		if r == nil {
			return "-"
		}
		s.files[o.file] = nil
		g, err := r.OpenFile(o.a, o.flag, fs.FileMode(o.mode))
		if err == nil {
			s.files[o.file] = g
			return g.Name()
		}
		return confErr(err)
	case "OpenRoot":
		s.roots[o.root] = nil
		g, err := os.OpenRoot(o.a)
		if err == nil {
			s.roots[o.root] = g
			return g.Name()
		}
		return confErr(err)
	case "Root.OpenRoot":
		if r == nil {
			return "-"
		}
		g, err := r.OpenRoot(o.a)
		if err == nil {
			s.roots[1-o.root] = g
			return g.Name()
		}
		return confErr(err)
	case "OpenInRoot":
		g, err := os.OpenInRoot(o.a, o.b)
		if err == nil {
			s.files[o.file] = g
		}
		return confErr(err)
	case "Read", "ReadAt", "Write", "WriteAt", "WriteString", "Seek", "Close", "FTruncate", "FStat", "Sync", "FReadDir", "FReaddirnames", "FReaddir", "FChmod", "FChdir", "Name", "WriteTo", "ReadFrom":
		if f == nil {
			return "-"
		}
		if strings.HasPrefix(o.name, "FRead") {
			// a second listing depends on the file system
			s.files[o.file] = nil
			defer f.Close()
		}
		switch o.name {
		case "Read":
			b := make([]byte, o.n)
			n, err := f.Read(b)
			return fmt.Sprintf("%d %q %s", n, b[:max(n, 0)], confErr(err))
		case "ReadAt":
			b := make([]byte, o.n)
			n, err := f.ReadAt(b, int64(o.off))
			return fmt.Sprintf("%d %q %s", n, b[:max(n, 0)], confErr(err))
		case "Write":
			n, err := f.Write([]byte(o.data))
			return fmt.Sprint(n, confErr(err))
		case "WriteString":
			n, err := f.WriteString(o.data)
			return fmt.Sprint(n, confErr(err))
		case "WriteAt":
			n, err := f.WriteAt([]byte(o.data), int64(o.off))
			return fmt.Sprint(n, confErr(err))
		case "WriteTo":
			var b strings.Builder
			n, err := io.Copy(&b, f)
			return fmt.Sprintf("%d %q %s", n, b.String(), confErr(err))
		case "ReadFrom":
			n, err := io.Copy(f, strings.NewReader(o.data))
			return fmt.Sprintf("%d %s", n, confErr(err))
		case "Seek":
			if fi, err := f.Stat(); err == nil && fi.IsDir() {
				return "-" // depends on the file system
			}
			n, err := f.Seek(int64(o.off), o.n%3)
			return fmt.Sprint(n, confErr(err))
		case "Close":
			return confErr(f.Close())
		case "FTruncate":
			return confErr(f.Truncate(int64(o.off)))
		case "FStat":
			return s.info(f.Stat())
		case "Sync":
			return confErr(f.Sync())
		case "FReadDir":
			e, err := f.ReadDir(-1)
			if err != nil {
				return confFail(err)
			}
			return s.entries(e, err, true)
		case "FReaddirnames":
			e, err := f.Readdirnames(-1)
			return confNames(e, true) + confErr(err)
		case "FReaddir":
			e, err := f.Readdir(-1)
			var names []string
			for _, i := range e {
				names = append(names, s.info(i, nil))
			}
			if err != nil { // how far it got depends on the order of the listing
				return confFail(err)
			}
			return confNames(names, true)
		case "FChmod":
			return confErr(f.Chmod(fs.FileMode(o.mode)))
		case "FChdir":
			return confErr(f.Chdir())
		case "Name":
			return f.Name()
		}
	case "Mkdir":
		return confErr(os.Mkdir(o.a, fs.FileMode(o.mode)))
	case "MkdirAll":
		return confErr(os.MkdirAll(o.a, fs.FileMode(o.mode)))
	case "Remove":
		return confErr(os.Remove(o.a))
	case "RemoveAll":
		return confFail(os.RemoveAll(o.a))
	case "Rename":
		return confErr(os.Rename(o.a, o.b))
	case "Link":
		return confErr(os.Link(o.a, o.b))
	case "Symlink":
		return confErr(os.Symlink(o.b, o.a))
	case "Readlink":
		t, err := os.Readlink(o.a)
		return t + confErr(err)
	case "Chmod":
		return confErr(os.Chmod(o.a, fs.FileMode(o.mode)))
	case "Truncate":
		return confErr(os.Truncate(o.a, int64(o.off)))
	case "Chdir":
		return confErr(os.Chdir(o.a))
	case "Getwd":
		d, err := os.Getwd()
		return d + confErr(err)
	case "ReadFile":
		b, err := os.ReadFile(o.a)
		return fmt.Sprintf("%q %s", b, confErr(err))
	case "WriteFile":
		return confErr(os.WriteFile(o.a, []byte(o.data), fs.FileMode(o.mode)))
	case "ReadDir":
		e, err := os.ReadDir(o.a)
		return s.entries(e, err, false)
	case "Stat":
		return s.info(os.Stat(o.a))
	case "Lstat":
		return s.info(os.Lstat(o.a))
	case "SameFile":
		f1, err1 := os.Stat(o.a)
		f2, err2 := os.Stat(o.b)
		if err1 != nil || err2 != nil {
			return confErr(err1) + confErr(err2)
		}
		return fmt.Sprint(os.SameFile(f1, f2))
	case "CreateTemp":
		g, err := os.CreateTemp(o.a, "t*.x")
		if err != nil {
			return fmt.Sprint(err != nil)
		}
		res := s.info(g.Stat())
		g.Close()
		res += confErr(os.Remove(g.Name()))
		return res[strings.IndexByte(res, ' '):]
	case "Walk":
		var l []string
		err := filepath.Walk(o.a, func(path string, info fs.FileInfo, err error) error {
			if info == nil {
				l = append(l, path+": "+confErr(err))
			} else {
				l = append(l, path+": "+s.info(info, nil)+confErr(err))
			}
			if err != nil && o.n%2 == 0 {
				return err
			}
			if o.n%5 == 0 && len(l) == 3 {
				return fs.SkipDir
			}
			return nil
		})
		return confNames(l, false) + confErr(err)
	case "WalkDir":
		var l []string
		err := filepath.WalkDir(o.a, func(path string, d fs.DirEntry, err error) error {
			if d == nil {
				l = append(l, path+": "+confErr(err))
			} else {
				l = append(l, fmt.Sprint(path, ": ", d.Name(), d.Type(), confErr(err)))
			}
			if err != nil && o.n%2 == 0 {
				return err
			}
			if o.n%5 == 0 && len(l) == 3 {
				return fs.SkipDir
			}
			return nil
		})
		return confNames(l, false) + confErr(err)
	case "Glob":
		l, err := filepath.Glob(o.a + "/*")
		return confNames(l, false) + confErr(err)
	case "EvalSymlinks":
		p, err := filepath.EvalSymlinks(o.a)
		return p + confErr(err)
	case "Abs":
		p, err := filepath.Abs(o.a)
		return p + confErr(err)
	case "DirFS.ReadFile":
		b, err := fs.ReadFile(os.DirFS(o.b), o.a)
		return fmt.Sprintf("%q %s", b, confErr(err))
	case "DirFS.ReadDir":
		e, err := fs.ReadDir(os.DirFS(o.b), o.a)
		return s.entries(e, err, false)
	case "DirFS.Stat":
		return s.info(fs.Stat(os.DirFS(o.b), o.a))
	default:
		if r == nil {
			return "-"
		}
		switch o.name {
		case "Root.Mkdir":
			return confErr(r.Mkdir(o.a, fs.FileMode(o.mode)))
		case "Root.MkdirAll":
			return confErr(r.MkdirAll(o.a, fs.FileMode(o.mode)))
		case "Root.Remove":
			return confErr(r.Remove(o.a))
		case "Root.RemoveAll":
			return confFail(r.RemoveAll(o.a))
		case "Root.Rename":
			return confErr(r.Rename(o.a, o.b))
		case "Root.Link":
			return confErr(r.Link(o.a, o.b))
		case "Root.Symlink":
			return confErr(r.Symlink(o.b, o.a))
		case "Root.Readlink":
			t, err := r.Readlink(o.a)
			return t + confErr(err)
		case "Root.Chmod":
			return confErr(r.Chmod(o.a, fs.FileMode(o.mode)))
		case "Root.ReadFile":
			b, err := r.ReadFile(o.a)
			return fmt.Sprintf("%q %s", b, confErr(err))
		case "Root.WriteFile":
			return confErr(r.WriteFile(o.a, []byte(o.data), fs.FileMode(o.mode)))
		case "Root.Stat":
			return s.info(r.Stat(o.a))
		case "Root.Lstat":
			return s.info(r.Lstat(o.a))
		case "Root.Close":
			return confErr(r.Close())
		case "Root.FS.ReadDir":
			e, err := fs.ReadDir(r.FS(), o.a)
			if err != nil { // how far it got depends on the order of the listing
				return confFail(err)
			}
			return s.entries(e, err, false)
		case "Root.FS.ReadFile":
			b, err := fs.ReadFile(r.FS(), o.a)
			return fmt.Sprintf("%q %s", b, confErr(err))
		case "Root.FS.Stat":
			return s.info(fs.Stat(r.FS(), o.a))
		}
	}
	panic("no such operation: " + o.name)
}

func (s *confReal) close() {
	for _, f := range s.files {
		if f != nil {
			f.Close()
		}
	}
	for _, r := range s.roots {
		if r != nil {
			r.Close()
		}
	}
}

// snapshot lists the tree.
func (s *confReal) snapshot(dir string) []string {
	var l []string
	filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			l = append(l, path+" "+confErr(err))
			return nil
		}
		fi, err := os.Lstat(path)
		line := path + " " + s.info(fi, err)
		if d.Type()&fs.ModeSymlink != 0 {
			t, _ := os.Readlink(path)
			line += " -> " + t
		} else if d.Type().IsRegular() {
			b, err := os.ReadFile(path)
			line += fmt.Sprintf(" %q %s", b, confErr(err))
		}
		l = append(l, line)
		return nil
	})
	return l
}
