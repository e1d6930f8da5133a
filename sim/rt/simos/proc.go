package simos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"sort"
	"strings"
	"syscall"

	"VERIFSIM/sim"
)

// Exit ends the simulated process.
func Exit(code int) {
	if M.Dead {
		M.die()
	}
	M.Exited = true
	M.Code = code
	M.die()
}

func Getenv(key string) string { return M.Env[key] }

func LookupEnv(key string) (string, bool) { v, ok := M.Env[key]; return v, ok }

func Setenv(key, value string) error {
	if key == "" || strings.ContainsAny(key, "=\x00") {
		return NewSyscallError("setenv", syscall.EINVAL)
	}
	M.Env[key] = value
	return nil
}

func Unsetenv(key string) error { delete(M.Env, key); return nil }

func Clearenv() { M.Env = map[string]string{} }

func Environ() []string {
	var out []string
	for k, v := range M.Env {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return out
}

func ExpandEnv(s string) string { return os.Expand(s, Getenv) }

func UserHomeDir() (string, error) {
	if v := Getenv("HOME"); v != "" {
		return v, nil
	}
	return "", errors.New("$HOME is not defined")
}

func UserCacheDir() (string, error) { return userDir("XDG_CACHE_HOME", "/.cache") }

func UserConfigDir() (string, error) { return userDir("XDG_CONFIG_HOME", "/.config") }

func userDir(env, def string) (string, error) {
	dir := Getenv(env)
	if dir == "" {
		dir = Getenv("HOME")
		if dir == "" {
			return "", errors.New("neither $" + env + " nor $HOME are defined")
		}
		return dir + def, nil
	}
	if dir[0] != '/' {
		return "", errors.New("path in $" + env + " is relative")
	}
	return dir, nil
}

func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}

func nextRandom() string {
	M.tmp++
	return itoa(int(1000000 + M.tmp*7919%1000000))
}

func prefixAndSuffix(pattern string) (prefix, suffix string, err error) {
	if strings.IndexByte(pattern, '/') >= 0 {
		return "", "", errors.New("pattern contains path separator")
	}
	if pos := strings.LastIndexByte(pattern, '*'); pos != -1 {
		return pattern[:pos], pattern[pos+1:], nil
	}
	return pattern, "", nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	prefix, suffix, err := prefixAndSuffix(pattern)
	if err != nil {
		return nil, &fs.PathError{Op: "createtemp", Path: pattern, Err: err}
	}
	prefix = joinPath(dir, prefix)
	for {
		f, err := OpenFile(prefix+nextRandom()+suffix, O_RDWR|O_CREATE|O_EXCL, 0600)
		if IsExist(err) {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	prefix, suffix, err := prefixAndSuffix(pattern)
	if err != nil {
		return "", &fs.PathError{Op: "mkdirtemp", Path: pattern, Err: err}
	}
	prefix = joinPath(dir, prefix)
	for {
		name := prefix + nextRandom() + suffix
		err := Mkdir(name, 0700)
		if IsExist(err) {
			continue
		}
		if err != nil {
			return "", err
		}
		return name, nil
	}
}

// DirFS returns a file system for a directory.
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (dir dirFS) Open(name string) (fs.File, error) {
	fullname, err := dir.join(name)
	if err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	f, err := Open(fullname)
	if err != nil {
		// DirFS takes a string appropriate for GOOS,
		// while the name argument here is always slash separated.
		// dir.join will have mixed the two; undo that for
		// error reporting.
		err.(*fs.PathError).Path = name
		return nil, err
	}
	return f, nil
}

// The ReadFile method calls the [ReadFile] function for the file
// with the given name in the directory. The function provides
// robust handling for small files and special file systems.
// Through this method, dirFS implements [io/fs.ReadFileFS].
func (dir dirFS) ReadFile(name string) ([]byte, error) {
	fullname, err := dir.join(name)
	if err != nil {
		return nil, &fs.PathError{Op: "readfile", Path: name, Err: err}
	}
	b, err := ReadFile(fullname)
	if err != nil {
		if e, ok := err.(*fs.PathError); ok {
			// See comment in dirFS.Open.
			e.Path = name
		}
		return nil, err
	}
	return b, nil
}

// ReadDir reads the named directory, returning all its directory entries sorted
// by filename. Through this method, dirFS implements [io/fs.ReadDirFS].
func (dir dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
	fullname, err := dir.join(name)
	if err != nil {
		return nil, &fs.PathError{Op: "readdir", Path: name, Err: err}
	}
	entries, err := ReadDir(fullname)
	if err != nil {
		if e, ok := err.(*fs.PathError); ok {
			// See comment in dirFS.Open.
			e.Path = name
		}
		return nil, err
	}
	return entries, nil
}

func (dir dirFS) Stat(name string) (fs.FileInfo, error) {
	fullname, err := dir.join(name)
	if err != nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: err}
	}
	f, err := Stat(fullname)
	if err != nil {
		// See comment in dirFS.Open.
		err.(*fs.PathError).Path = name
		return nil, err
	}
	return f, nil
}

func (dir dirFS) Lstat(name string) (fs.FileInfo, error) {
	fullname, err := dir.join(name)
	if err != nil {
		return nil, &fs.PathError{Op: "lstat", Path: name, Err: err}
	}
	f, err := Lstat(fullname)
	if err != nil {
		// See comment in dirFS.Open.
		err.(*fs.PathError).Path = name
		return nil, err
	}
	return f, nil
}

func (dir dirFS) ReadLink(name string) (string, error) {
	fullname, err := dir.join(name)
	if err != nil {
		return "", &fs.PathError{Op: "readlink", Path: name, Err: err}
	}
	return Readlink(fullname)
}

// join returns the path for name in dir.
func (dir dirFS) join(name string) (string, error) {
	if dir == "" {
		return "", errors.New("os: DirFS with empty root")
	}
	if !fs.ValidPath(name) || strings.IndexByte(name, 0) >= 0 {
		return "", ErrInvalid
	}
	if dir[len(dir)-1] == '/' {
		return string(dir) + name, nil
	}
	return string(dir) + "/" + name, nil
}

// CopyFS copies a file system into a directory.
func CopyFS(dir string, fsys fs.FS) error {
	return fs.WalkDir(fsys, ".", func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		newPath := dir
		if path != "." {
			newPath = joinPath(dir, path)
		}
		switch d.Type() {
		case fs.ModeDir:
			return MkdirAll(newPath, 0777)
		case 0:
			r, err := fsys.Open(path)
			if err != nil {
				return err
			}
			defer r.Close()
			fi, err := r.Stat()
			if err != nil {
				return err
			}
			w, err := OpenFile(newPath, O_CREATE|O_EXCL|O_WRONLY, 0666|fi.Mode()&0777)
			if err != nil {
				return err
			}
			if _, err := io.Copy(w, r); err != nil {
				w.Close()
				return &fs.PathError{Op: "Copy", Path: newPath, Err: err}
			}
			return w.Close()
		}
		return &fs.PathError{Op: "CopyFS", Path: path, Err: ErrInvalid}
	})
}

func Hostname() (string, error)   { return "simhost", nil }
func Executable() (string, error) { return "/usr/bin/" + baseName(Args[0]), nil }
func Getpid() int                 { return 4242 }
func Getppid() int                { return 1 }
func Getuid() int                 { return 1000 }
func Geteuid() int                { return 1000 }
func Getgid() int                 { return 1000 }
func Getegid() int                { return 1000 }
func Getgroups() ([]int, error)   { return []int{1000}, nil }

var _ = sim.Step
