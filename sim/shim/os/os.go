// Package os is the simulated replacement for the standard os package: files
// live on the simulated disk. Process-level functions (exit, environment) are
// forwarded or refused.
package os

import (
	"io"
	"io/fs"
	real "os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"zsim/rt"
	"zsim/simfs"
)

func disk() *simfs.Disk {
	if simfs.Cur == nil {
		panic("simulator: file access without a simulated disk")
	}
	return simfs.Cur
}

// File is an open file of the simulated disk, or one of the standard streams.
type File struct {
	h    *simfs.Handle
	std  *real.File
	name string
}

// Standard streams.
var (
	Stdin  = &File{std: real.Stdin, name: "/dev/stdin"}
	Stdout = &File{std: real.Stderr, name: "/dev/stdout"}
	Stderr = &File{std: real.Stderr, name: "/dev/stderr"}
)

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	h, err := disk().OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{h: h, name: name}, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func (f *File) Name() string { return f.name }

func (f *File) ok() error {
	if f == nil {
		return ErrInvalid
	}
	return nil
}

func (f *File) Read(p []byte) (int, error) {
	if err := f.ok(); err != nil {
		return 0, err
	}
	if f.std != nil {
		return 0, io.EOF
	}
	b, err := disk().Read(f.h, len(p), 0, true)
	return copy(p, b), err
}

func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
	if err := f.ok(); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &PathError{Op: "readat", Path: f.name, Err: syscall.EINVAL}
	}
	for n < len(p) {
		b, e := disk().Read(f.h, len(p)-n, off+int64(n), false)
		n += copy(p[n:], b)
		if e != nil {
			return n, e
		}
	}
	return n, nil
}

func (f *File) Write(p []byte) (int, error) {
	if err := f.ok(); err != nil {
		return 0, err
	}
	if f.std != nil {
		return len(p), nil
	}
	own := append([]byte(nil), p...) // the instrumented read of the caller's bytes
	return disk().Write(f.h, own, 0, true)
}

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if err := f.ok(); err != nil {
		return 0, err
	}
	own := append([]byte(nil), p...)
	return disk().Write(f.h, own, off, false)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.ok(); err != nil {
		return 0, err
	}
	return disk().Seek(f.h, off, whence)
}

func (f *File) Close() error {
	if err := f.ok(); err != nil {
		return err
	}
	if f.std != nil {
		return nil
	}
	return disk().Close(f.h)
}

func (f *File) Sync() error {
	if err := f.ok(); err != nil {
		return err
	}
	if f.std != nil {
		return nil
	}
	return disk().Sync(f.h)
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.ok(); err != nil {
		return nil, err
	}
	if f.std != nil {
		return nil, ErrInvalid
	}
	rt.Point()
	if f.h.Closed {
		return nil, &PathError{Op: "stat", Path: f.name, Err: ErrClosed}
	}
	if f.h.F.StatErr != nil {
		return nil, &PathError{Op: "stat", Path: f.name, Err: f.h.F.StatErr}
	}
	return disk().InfoOf(f.name, f.h.Node), nil
}

func (f *File) Truncate(size int64) error {
	if err := f.ok(); err != nil {
		return err
	}
	simfs.Truncate(f.h.Node, size)
	return nil
}

func (f *File) Fd() uintptr                           { return ^uintptr(0) }
func (f *File) Chmod(FileMode) error                  { return nil }
func (f *File) Chown(int, int) error                  { return nil }
func (f *File) Chdir() error                          { return ErrInvalid }
func (f *File) SetDeadline(time.Time) error           { return ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error       { return ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error      { return ErrNoDeadline }
func (f *File) SyscallConn() (syscall.RawConn, error) { return nil, ErrInvalid }
func (f *File) ReadDir(int) ([]DirEntry, error)       { return nil, ErrInvalid }
func (f *File) Readdir(int) ([]FileInfo, error)       { return nil, ErrInvalid }
func (f *File) Readdirnames(int) ([]string, error)    { return nil, ErrInvalid }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Stat(name string) (FileInfo, error) {
	i, err := disk().Stat(name)
	if err != nil {
		return nil, err
	}
	return i, nil
}

func Lstat(name string) (FileInfo, error)       { return Stat(name) }
func Remove(name string) error                  { return disk().Remove(name) }
func Rename(a, b string) error                  { return disk().Rename(a, b) }
func Mkdir(name string, _ FileMode) error       { return disk().Mkdir(name) }
func Chmod(name string, _ FileMode) error       { _, err := disk().Stat(name); return err }
func Chown(name string, _, _ int) error         { _, err := disk().Stat(name); return err }
func Lchown(name string, _, _ int) error        { _, err := disk().Stat(name); return err }
func Chtimes(name string, _, _ time.Time) error { _, err := disk().Stat(name); return err }
func Chdir(string) error                        { return ErrInvalid }
func Link(string, string) error                 { return ErrInvalid }
func Symlink(string, string) error              { return ErrInvalid }
func Readlink(string) (string, error)           { return "", ErrInvalid }
func Getwd() (string, error)                    { return simfs.Cwd, nil }
func Getpid() int                               { return 4000 + rt.Processes }
func TempDir() string                           { return "/tmp" }
func Exit(code int)                             { panic("os.Exit called") }
func Pipe() (*File, *File, error)               { return nil, nil, ErrInvalid }
func NewFile(uintptr, string) *File             { return nil }
func SameFile(a, b FileInfo) bool               { return a.Sys() == b.Sys() }
func StartProcess(string, []string, *ProcAttr) (*Process, error) {
	return nil, ErrInvalid
}
func CopyFS(string, fs.FS) error { return ErrInvalid }
func DirFS(string) fs.FS         { panic("os.DirFS is not simulated") }

func MkdirAll(name string, perm FileMode) error {
	if _, err := disk().Stat(name); err == nil {
		return nil
	}
	if d := path.Dir(simfs.Abs(name)); d != simfs.Abs(name) {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	return disk().Mkdir(name)
}

func RemoveAll(name string) error {
	p := simfs.Abs(name)
	for _, e := range disk().Entries {
		if !e.Gone && (e.Name == p || strings.HasPrefix(e.Name, p+"/")) {
			e.Gone = true
		}
	}
	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func pattern(dir, pat string) string {
	if dir == "" {
		dir = "/tmp"
	}
	n := disk().TempName()
	if i := strings.LastIndex(pat, "*"); i >= 0 {
		return path.Join(dir, pat[:i]+n+pat[i+1:])
	}
	return path.Join(dir, pat+n)
}

func CreateTemp(dir, pat string) (*File, error) {
	return OpenFile(pattern(dir, pat), O_RDWR|O_CREATE|O_EXCL, 0600)
}

func MkdirTemp(dir, pat string) (string, error) {
	n := pattern(dir, pat)
	return n, disk().Mkdir(n)
}

func ReadDir(name string) ([]DirEntry, error) {
	p := simfs.Abs(name)
	var out []DirEntry
	for _, e := range disk().Entries {
		if !e.Gone && path.Dir(e.Name) == p && e.Name != p {
			out = append(out, fs.FileInfoToDirEntry(disk().InfoOf(e.Name, e.Node)))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out, nil
}
