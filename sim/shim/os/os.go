// Package os stands in for os on the simulated machine.
package os

import (
	"errors"
	"io"
	"io/fs"
	"lhasim/vsim"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

type (
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	DirEntry     = os.DirEntry
	PathError    = os.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"

	ModeDir        = os.ModeDir
	ModeAppend     = os.ModeAppend
	ModeExclusive  = os.ModeExclusive
	ModeTemporary  = os.ModeTemporary
	ModeSymlink    = os.ModeSymlink
	ModeDevice     = os.ModeDevice
	ModeNamedPipe  = os.ModeNamedPipe
	ModeSocket     = os.ModeSocket
	ModeSetuid     = os.ModeSetuid
	ModeSetgid     = os.ModeSetgid
	ModeCharDevice = os.ModeCharDevice
	ModeSticky     = os.ModeSticky
	ModeIrregular  = os.ModeIrregular
	ModeType       = os.ModeType
	ModePerm       = os.ModePerm
)

var (
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrExist            = os.ErrExist
	ErrNotExist         = os.ErrNotExist
	ErrClosed           = os.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone

	Interrupt = os.Interrupt
	Kill      = os.Kill

	Stdin  = &File{vsim.Std(1)}
	Stdout = &File{vsim.Std(2)}
	Stderr = &File{vsim.Std(3)}

	Args []string
)

func init() {
	vsim.AddSwap(vsim.Swap{
		Fresh: func() {
			Args = nil
			if p := vsim.Loading(); p != nil {
				Args = append([]string{}, p.Args...)
			}
		},
		Save: func() any { return Args },
		Load: func(v any) { Args = v.([]string) },
	})
}

func IsExist(err error) bool                        { return os.IsExist(err) }
func IsNotExist(err error) bool                     { return os.IsNotExist(err) }
func IsPermission(err error) bool                   { return os.IsPermission(err) }
func IsTimeout(err error) bool                      { return os.IsTimeout(err) }
func IsPathSeparator(c uint8) bool                  { return c == '/' }
func NewSyscallError(s string, err error) error     { return os.NewSyscallError(s, err) }
func SameFile(a, b FileInfo) bool                   { return vsim.SameFile(a, b) }
func Expand(s string, m func(string) string) string { return os.Expand(s, m) }
func ExpandEnv(s string) string                     { return os.Expand(s, Getenv) }
func Exit(code int)                                 { vsim.Exit(code) }
func Getpid() int                                   { return 4242 }
func Getppid() int                                  { return 1 }
func Getpagesize() int                              { return 4096 }
func Hostname() (string, error)                     { return "sim", nil }
func Executable() (string, error)                   { return "/bin/lharc", nil }
func Getgroups() ([]int, error)                     { return []int{Getgid()}, nil }
func UserHomeDir() (string, error)                  { return "/w", nil }
func UserCacheDir() (string, error)                 { return "/w", nil }
func UserConfigDir() (string, error)                { return "/w", nil }
func Chmod(name string, m FileMode) error           { return vsim.Chmod(name, m) }
func Chown(name string, u, g int) error             { return vsim.Chown(name, u, g, true) }
func Lchown(name string, u, g int) error            { return vsim.Chown(name, u, g, false) }
func Chtimes(name string, a, m time.Time) error     { return vsim.Chtimes(name, m) }
func Chdir(name string) error                       { return vsim.Chdir(name) }
func Link(a, b string) error                        { return vsim.Link(a, b) }
func Symlink(a, b string) error                     { return vsim.Symlink(a, b) }
func Readlink(name string) (string, error)          { return vsim.Readlink(name) }
func Mkdir(name string, p FileMode) error           { return vsim.Mkdir(name, p) }
func Remove(name string) error                      { return vsim.Remove(name) }
func Rename(a, b string) error                      { return vsim.Rename(a, b) }
func Truncate(name string, n int64) error           { return vsim.Truncate(name, n) }
func Lstat(name string) (FileInfo, error)           { return vsim.Stat(name, false) }
func Stat(name string) (FileInfo, error)            { return vsim.Stat(name, true) }
func Open(name string) (*File, error)               { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error)             { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }
func NewFile(fd uintptr, name string) *File         { return nil }
func TempDir() string                               { return "/tmp" }
func Setenv(k, v string) error                      { vsim.W.Env[k] = v; return nil }
func Unsetenv(k string) error                       { delete(vsim.W.Env, k); return nil }
func Clearenv()                                     { vsim.W.Env = map[string]string{} }
func DirFS(dir string) fs.FS                        { return dirFS(dir) }

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func Geteuid() int { return euid() }
func Getuid() int  { return euid() }
func Getegid() int { return euid() }
func Getgid() int  { return euid() }
func euid() int {
	if vsim.W == nil {
		return 0
	}
	return vsim.W.Euid
}

func Getenv(k string) string {
	if vsim.W == nil {
		return ""
	}
	return vsim.W.Env[k]
}
func LookupEnv(k string) (string, bool) {
	if vsim.W == nil {
		return "", false
	}
	v, ok := vsim.W.Env[k]
	return v, ok
}
func Environ() []string {
	var r []string
	for k, v := range vsim.W.Env {
		r = append(r, k+"="+v)
	}
	sort.Strings(r)
	return r
}

func Getwd() (string, error) {
	if p := vsim.CurProc(); p != nil {
		return p.Cwd, nil
	}
	return "/w", nil
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	h, err := vsim.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{h}, nil
}

func MkdirAll(name string, perm FileMode) error {
	fi, err := Stat(name)
	if err == nil {
		if fi.IsDir() {
			return nil
		}
		return &PathError{Op: "mkdir", Path: name, Err: syscall.ENOTDIR}
	}
	if !errors.Is(err, fs.ErrNotExist) && !errors.Is(err, syscall.ENOTDIR) {
		return err
	}
	p := strings.TrimRight(name, "/")
	if i := strings.LastIndexByte(p, '/'); i > 0 {
		if err := MkdirAll(p[:i], perm); err != nil {
			return err
		}
	}
	err = Mkdir(p, perm)
	if err != nil {
		if fi, e := Lstat(p); e == nil && fi.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func prefixSuffix(pattern string) (string, string) {
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return pattern[:i], pattern[i+1:]
	}
	return pattern, ""
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	if strings.Contains(pattern, "/") {
		return nil, &PathError{Op: "createtemp", Path: pattern, Err: errors.New("pattern contains path separator")}
	}
	a, b := prefixSuffix(pattern)
	for try := 0; ; try++ {
		f, err := OpenFile(strings.TrimRight(dir, "/")+"/"+a+vsim.TempName()+b, O_RDWR|O_CREATE|O_EXCL, 0600)
		if IsExist(err) && try < 10000 {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	a, b := prefixSuffix(pattern)
	for try := 0; ; try++ {
		n := dir + "/" + a + vsim.TempName() + b
		err := Mkdir(n, 0700)
		if IsExist(err) && try < 10000 {
			continue
		}
		if err != nil {
			return "", err
		}
		return n, nil
	}
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.ReadDir(-1)
}

func RemoveAll(name string) error {
	fi, err := Lstat(name)
	if IsNotExist(err) {
		return nil
	}
	if err != nil {
		return err
	}
	if fi.IsDir() {
		es, err := ReadDir(name)
		if err != nil {
			return err
		}
		for _, e := range es {
			if err := RemoveAll(name + "/" + e.Name()); err != nil {
				return err
			}
		}
	}
	return Remove(name)
}

func CopyFS(dir string, fsys fs.FS) error { return errors.ErrUnsupported }

// File is an open file of the simulated machine.
type File struct{ h *vsim.Handle }

func (f *File) hd() *vsim.Handle {
	if f == nil {
		return nil
	}
	return f.h.Bind()
}

func (f *File) Name() string {
	return f.h.Path
}
func (f *File) Read(b []byte) (int, error)               { return f.hd().Read(b) }
func (f *File) ReadAt(b []byte, off int64) (int, error)  { return f.hd().ReadAt(b, off) }
func (f *File) Write(b []byte) (int, error)              { return f.hd().Write(b) }
func (f *File) WriteAt(b []byte, off int64) (int, error) { return f.hd().WriteAt(b, off) }
func (f *File) WriteString(s string) (int, error)        { return f.hd().Write([]byte(s)) }
func (f *File) Seek(off int64, whence int) (int64, error) {
	return f.hd().Seek(off, whence)
}
func (f *File) Close() error                       { return f.hd().Close() }
func (f *File) Sync() error                        { return f.hd().Sync() }
func (f *File) Stat() (FileInfo, error)            { return f.hd().Stat() }
func (f *File) Truncate(n int64) error             { return f.hd().Truncate(n) }
func (f *File) Chmod(m FileMode) error             { return f.hd().Chmod(m) }
func (f *File) Chown(u, g int) error               { return f.hd().Chown(u, g) }
func (f *File) Chdir() error                       { return vsim.Chdir(f.h.Path) }
func (f *File) Fd() uintptr                        { return 3 }
func (f *File) ReadDir(n int) ([]DirEntry, error)  { return f.hd().ReadDir(n) }
func (f *File) SetDeadline(t time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return ErrNoDeadline }
func (f *File) Readdir(n int) ([]FileInfo, error) {
	es, err := f.ReadDir(n)
	var r []FileInfo
	for _, e := range es {
		fi, _ := e.Info()
		r = append(r, fi)
	}
	return r, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, err
}

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, onlyReader{r}) }
func (f *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(onlyWriter{w}, onlyReader{f}) }

var _ = path.Base
