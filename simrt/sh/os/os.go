// Package os is package os on the simulated disk and process.
package os

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"simmod/simrt"
)

// Stdin, Stdout, Stderr and Args belong to the simulated process.
var (
	Stdin, Stdout, Stderr *File
	Args                  []string
)

// SimStart gives a new process its handles and arguments.
func SimStart() {
	Stdin = &File{std: 3, name: "/dev/stdin"}
	Stdout = &File{std: 1, name: "/dev/stdout"}
	Stderr = &File{std: 2, name: "/dev/stderr"}
	Args = simrt.Args()
}

// File is a simulated *os.File.
type File struct {
	fd     *simrt.FD
	std    int
	name   string
	closed bool
	off    int
}

func perr(op, name string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: name, Err: err}
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	switch name {
	case "/dev/stdout":
		return &File{std: 1, name: name}, nil
	case "/dev/stderr":
		return &File{std: 2, name: name}, nil
	case "/dev/null":
		return &File{std: 4, name: name}, nil
	}
	fd, err := simrt.SysOpen(name, flag, perm)
	if err != nil {
		return nil, perr("open", name, err)
	}
	return &File{fd: fd, name: name}, nil
}

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		if f.fd != nil {
			f.fd.NoteBad(op)
		}
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}
func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f.fd != nil {
		return uintptr(f.fd.N)
	}
	return uintptr(f.std % 3)
}
func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		n := 0
		if f.std == 3 {
			n = simrt.StdRead(b)
		}
		if n == 0 && len(b) > 0 {
			return 0, io.EOF
		}
		return n, nil
	}
	for {
		n, err := f.fd.Read(b)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return 0, perr("read", f.name, err)
		}
		if n == 0 && len(b) > 0 {
			return 0, io.EOF
		}
		return n, nil
	}
}
func (f *File) ReadAt(b []byte, off int64) (n int, err error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "readat", Path: f.name, Err: errors.New("negative offset")}
	}
	if f.fd == nil {
		return 0, perr("read", f.name, syscall.ESPIPE)
	}
	for len(b) > 0 {
		m, e := f.fd.ReadAt(b, off)
		if e == syscall.EINTR {
			continue
		}
		if e != nil {
			return n, perr("read", f.name, e)
		}
		if m == 0 {
			return n, io.EOF
		}
		n += m
		b = b[m:]
		off += int64(m)
	}
	return
}
func (f *File) Write(b []byte) (n int, err error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		if f.std == 3 {
			return 0, perr("write", f.name, syscall.EBADF)
		}
		if f.std < 3 {
			simrt.StdWrite(f.std, b)
		}
		return len(b), nil
	}
	for n < len(b) || len(b) == 0 {
		m, e := f.fd.Write(b[n:])
		if m > 0 {
			n += m
		}
		if e == syscall.EINTR {
			continue
		}
		if e != nil {
			return n, perr("write", f.name, e)
		}
		if m == 0 {
			if len(b) == 0 {
				return 0, nil
			}
			return n, perr("write", f.name, io.ErrUnexpectedEOF)
		}
	}
	return n, nil
}
func (f *File) WriteAt(b []byte, off int64) (n int, err error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.fd == nil {
		return 0, perr("write", f.name, syscall.ESPIPE)
	}
	for len(b) > 0 {
		m, e := f.fd.WriteAt(b, off)
		if e == syscall.EINTR {
			continue
		}
		if e != nil {
			return n, perr("write", f.name, e)
		}
		n += m
		b = b[m:]
		off += int64(m)
	}
	return
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return io.Copy(struct{ io.Writer }{f}, r)
}
func (f *File) WriteTo(w io.Writer) (int64, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	return io.Copy(w, struct{ io.Reader }{f})
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if f.fd == nil {
		return 0, perr("seek", f.name, syscall.ESPIPE)
	}
	n, err := f.fd.Seek(off, whence)
	return n, perr("seek", f.name, err)
}
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	if f.fd == nil {
		return nil
	}
	return perr("close", f.name, f.fd.Close())
}
func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.fd == nil {
		return nil, perr("stat", f.name, syscall.EBADF)
	}
	in, err := f.fd.Stat()
	if err != nil {
		return nil, perr("stat", f.name, err)
	}
	return in, nil
}
func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.fd == nil {
		return nil
	}
	return perr("sync", f.name, f.fd.Sync())
}
func (f *File) Truncate(n int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if f.fd == nil {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	return perr("truncate", f.name, f.fd.Truncate(n))
}
func (f *File) Chmod(m fs.FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	return Chmod(f.name, m)
}
func (f *File) SetDeadline(time.Time) error      { return os.ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error  { return os.ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return os.ErrNoDeadline }
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	es, err := ReadDir(f.name)
	if err != nil {
		return nil, err
	}
	es = es[min(f.off, len(es)):]
	if n > 0 {
		if len(es) == 0 {
			return nil, io.EOF
		}
		if len(es) > n {
			es = es[:n]
		}
	}
	f.off += len(es)
	return es, nil
}
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	es, err := f.ReadDir(n)
	var r []fs.FileInfo
	for _, e := range es {
		in, _ := e.Info()
		r = append(r, in)
	}
	return r, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, err
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func Stat(name string) (fs.FileInfo, error) {
	in, err := simrt.SysStat(name)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return in, nil
}
func Lstat(name string) (fs.FileInfo, error) {
	in, err := simrt.SysStat(name)
	if err != nil {
		return nil, perr("lstat", name, err)
	}
	return in, nil
}
func Remove(name string) error { return perr("remove", name, simrt.SysRemove(name)) }
func RemoveAll(name string) error {
	in, err := simrt.SysStat(name)
	if err == syscall.ENOENT {
		return nil
	}
	if err != nil {
		return perr("unlinkat", name, err)
	}
	if in.IsDir() {
		es, err := simrt.SysReadDir(name)
		if err != nil {
			return perr("unlinkat", name, err)
		}
		for _, e := range es {
			if err := RemoveAll(path.Join(name, e.Name())); err != nil {
				return err
			}
		}
	}
	return Remove(name)
}
func Rename(a, b string) error {
	if err := simrt.SysRename(a, b); err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	return nil
}
func Link(a, b string) error {
	return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.EPERM}
}
func Symlink(a, b string) error {
	return &os.LinkError{Op: "symlink", Old: a, New: b, Err: syscall.EPERM}
}
func Readlink(name string) (string, error)      { return "", perr("readlink", name, syscall.EINVAL) }
func Mkdir(name string, m fs.FileMode) error    { return perr("mkdir", name, simrt.SysMkdir(name, m)) }
func Truncate(name string, n int64) error       { return perr("truncate", name, simrt.SysTruncate(name, n)) }
func Chmod(name string, m fs.FileMode) error    { return perr("chmod", name, simrt.SysChmod(name, m)) }
func Chown(name string, u, g int) error         { return perr("chown", name, syscall.EPERM) }
func Chtimes(name string, a, m time.Time) error { return nil }
func MkdirAll(name string, m fs.FileMode) error {
	if in, err := simrt.SysStat(name); err == nil {
		if in.IsDir() {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if d := path.Dir(path.Clean(name)); d != "." && d != "/" && d != name {
		if err := MkdirAll(d, m); err != nil {
			return err
		}
	}
	if err := simrt.SysMkdir(name, m); err != nil && err != syscall.EEXIST {
		return perr("mkdir", name, err)
	}
	return nil
}

type dirEntry struct{ in fs.FileInfo }

func (d dirEntry) Name() string               { return d.in.Name() }
func (d dirEntry) IsDir() bool                { return d.in.IsDir() }
func (d dirEntry) Type() fs.FileMode          { return d.in.Mode().Type() }
func (d dirEntry) Info() (fs.FileInfo, error) { return d.in, nil }

func ReadDir(name string) ([]fs.DirEntry, error) {
	es, err := simrt.SysReadDir(name)
	if err != nil {
		return nil, perr("open", name, err)
	}
	var r []fs.DirEntry
	for _, e := range es {
		r = append(r, dirEntry{e})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	size := 0
	if in, err := f.Stat(); err == nil {
		size = int(in.Size())
	}
	size++
	if size < 512 {
		size = 512
	}
	data := make([]byte, 0, size)
	for {
		n, err := f.Read(data[len(data):cap(data)])
		data = data[:len(data)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return data, err
		}
		if len(data) >= cap(data) {
			d := append(data[:cap(data)], 0)
			data = d[:len(data)]
		}
	}
}
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	r := strconv.FormatUint(simrt.Rand()%1000000000, 10)
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		return path.Join(dir, pattern[:i]+r+pattern[i+1:])
	}
	return path.Join(dir, pattern+r)
}
func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
}
func MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0700)
}
func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}
func SameFile(a, b fs.FileInfo) bool { return a == b }

func Exit(code int) { simrt.Exit(code) }
func Getenv(k string) string {
	v, _ := simrt.Getenv(k)
	return v
}
func LookupEnv(k string) (string, bool) { return simrt.Getenv(k) }
func Setenv(k, v string) error          { simrt.Setenv(k, v); return nil }
func Unsetenv(k string) error           { simrt.Unsetenv(k); return nil }
func Environ() []string                 { return simrt.Environ() }
func ExpandEnv(s string) string         { return os.Expand(s, Getenv) }
func Getwd() (string, error)            { return simrt.Getwd(), nil }
func Chdir(d string) error              { return perr("chdir", d, simrt.Chdir(d)) }
func Getpid() int                       { return 4242 }
func Getppid() int                      { return 4241 }
func Getuid() int                       { return 1000 }
func Getgid() int                       { return 1000 }
func Geteuid() int                      { return 1000 }
func Getegid() int                      { return 1000 }
func Hostname() (string, error)         { return "sim", nil }
func Executable() (string, error)       { return "/work/goosli", nil }
func UserHomeDir() (string, error)      { return "/home/sim", nil }
func UserCacheDir() (string, error)     { return "/home/sim/.cache", nil }
func UserConfigDir() (string, error)    { return "/home/sim/.config", nil }
func Pipe() (r, w *File, err error)     { return nil, nil, syscall.EMFILE }

// Types, constants and pure functions of the real package.
type (
	PathError    = os.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	DirEntry     = os.DirEntry
	Signal       = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	ModeDir        = os.ModeDir
	ModeAppend     = os.ModeAppend
	ModeExclusive  = os.ModeExclusive
	ModeTemporary  = os.ModeTemporary
	ModeSymlink    = os.ModeSymlink
	ModeDevice     = os.ModeDevice
	ModeNamedPipe  = os.ModeNamedPipe
	ModeSocket     = os.ModeSocket
	ModeSetuid     = os.ModeSetuid
	ModeSetgid     = os.ModeSetgid
	ModeCharDevice = os.ModeCharDevice
	ModeSticky     = os.ModeSticky
	ModeIrregular  = os.ModeIrregular
	ModeType       = os.ModeType
	ModePerm       = os.ModePerm

	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2
)

var (
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrExist            = os.ErrExist
	ErrNotExist         = os.ErrNotExist
	ErrClosed           = os.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone

	Interrupt = os.Interrupt
	Kill      = os.Kill

	IsExist         = os.IsExist
	IsNotExist      = os.IsNotExist
	IsPermission    = os.IsPermission
	IsTimeout       = os.IsTimeout
	IsPathSeparator = os.IsPathSeparator
	NewSyscallError = os.NewSyscallError
	Expand          = os.Expand
	Getpagesize     = os.Getpagesize
)
