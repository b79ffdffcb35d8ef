//go:build go1.25

// Package vos stands in for package os: the operations are carried out for real,
// after the scheduler was told of them.
package vos

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

// File is an open file.
type File struct {
	*os.File
	e    *vrt.OpenFile
	path string
}

// Real is the file itself.
func (f *File) Real() *os.File {
	if f == nil {
		return nil
	}
	return f.File
}

// Entry is its place in the table of open files.
func (f *File) Entry() *vrt.OpenFile { return f.e }

// Path is the name it was opened by.
func (f *File) Path() string { return f.path }

var (
	Stdin  = &File{File: os.Stdin, path: "stdin"}
	Stdout = &File{File: os.Stdout, path: "stdout"}
	Stderr = &File{File: os.Stderr, path: "stderr"}
)

func wrap(path string, f *os.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	abs, e := filepath.Abs(path)
	if e != nil {
		abs = path
	}
	return &File{File: f, e: vrt.Opened(abs, f), path: abs}, nil
}

func pathErr(op, path string, err error) error { return &os.PathError{Op: op, Path: path, Err: err} }

func do(op vrt.Op, real func() error) error {
	if err := vrt.Begin(&op); err != nil {
		return pathErr(op.Kind, op.Path, err)
	}
	err := real()
	vrt.Did(&op, err)
	return err
}

// OpenFile opens a file.
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	op := vrt.Op{Kind: "open", Path: name, Flag: flag, Mutates: flag&(os.O_CREATE|os.O_TRUNC) != 0}
	if flag&os.O_CREATE != 0 {
		op.Kind = "create"
	}
	if err := vrt.Begin(&op); err != nil {
		return nil, pathErr("open", name, err)
	}
	f, err := os.OpenFile(name, flag, perm)
	w, err := wrap(name, f, err)
	if w != nil {
		op.File = w.e.No
	}
	vrt.Did(&op, err)
	return w, err
}

// Open opens a file for reading.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create creates or empties a file.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// CreateTemp creates a new file with a fresh name.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = os.TempDir()
	}
	pre, suf, _ := cutLast(pattern, "*")
	for {
		n, ok := vrt.Unique()
		if !ok {
			f, err := os.CreateTemp(dir, pattern)
			if err != nil {
				return nil, err
			}
			return wrap(f.Name(), f, nil)
		}
		f, err := OpenFile(filepath.Join(dir, pre+strconv.FormatInt(900000000+n, 10)+suf), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if os.IsExist(err) {
			continue
		}
		return f, err
	}
}

func cutLast(s, sep string) (string, string, bool) {
	if i := strings.LastIndex(s, sep); i >= 0 {
		return s[:i], s[i+len(sep):], true
	}
	return s, "", false
}

// MkdirTemp creates a new directory.
func MkdirTemp(dir, pattern string) (string, error) {
	n, ok := vrt.Unique()
	if !ok {
		return os.MkdirTemp(dir, pattern)
	}
	if dir == "" {
		dir = os.TempDir()
	}
	pre, suf, _ := cutLast(pattern, "*")
	p := filepath.Join(dir, pre+strconv.FormatInt(900000000+n, 10)+suf)
	return p, Mkdir(p, 0700)
}

// NewFile wraps a descriptor.
func NewFile(fd uintptr, name string) *File {
	f := os.NewFile(fd, name)
	if f == nil {
		return nil
	}
	w, _ := wrap(name, f, nil)
	return w
}

// Pipe makes a pipe.
func Pipe() (*File, *File, error) {
	r, w, err := os.Pipe()
	if err != nil {
		return nil, nil, err
	}
	a, _ := wrap("pipe", r, nil)
	b, _ := wrap("pipe", w, nil)
	return a, b, nil
}

func (f *File) op(kind string, mut bool) vrt.Op {
	o := vrt.Op{Kind: kind, Path: f.path, Mutates: mut}
	if f.e != nil {
		o.File = f.e.No
	}
	return o
}

// Close closes; when it is made to fail the descriptor is gone all the same.
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	op := f.op("close", false)
	err := vrt.Begin(&op)
	if err == vrt.ErrDead {
		return err
	}
	err2 := f.File.Close()
	if f.e != nil {
		vrt.Closed(f.e)
	}
	if err != nil {
		return pathErr("close", f.path, err)
	}
	vrt.Did(&op, err2)
	return err2
}

// Sync writes the file to stable storage.
func (f *File) Sync() error {
	if f == nil {
		return os.ErrInvalid
	}
	return do(f.op("sync", false), func() error {
		_, err := f.File.Stat() // the files are in memory
		return err
	})
}

// Truncate sets the size.
func (f *File) Truncate(size int64) error {
	if f == nil {
		return os.ErrInvalid
	}
	o := f.op("truncate", true)
	o.N = size
	return do(o, func() error { return f.File.Truncate(size) })
}

// Chmod sets the mode.
func (f *File) Chmod(mode os.FileMode) error {
	return do(f.op("chmod", true), func() error { return f.File.Chmod(mode) })
}

// Read reads.
func (f *File) Read(b []byte) (n int, err error) {
	e := do(f.op("read", false), func() error { n, err = f.File.Read(b); return nil })
	if e != nil {
		return 0, e
	}
	return
}

// ReadAt reads at an offset.
func (f *File) ReadAt(b []byte, off int64) (n int, err error) {
	e := do(f.op("read", false), func() error { n, err = f.File.ReadAt(b, off); return nil })
	if e != nil {
		return 0, e
	}
	return
}

// Write writes.
func (f *File) Write(b []byte) (n int, err error) {
	err = do(f.op("write", true), func() (err error) { n, err = f.File.Write(b); return })
	return
}

// WriteAt writes at an offset.
func (f *File) WriteAt(b []byte, off int64) (n int, err error) {
	err = do(f.op("write", true), func() (err error) { n, err = f.File.WriteAt(b, off); return })
	return
}

// WriteString writes.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// ReadFrom copies from a reader.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

// WriteTo copies to a writer.
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

// Stat describes the file.
func (f *File) Stat() (fi os.FileInfo, err error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	err = do(f.op("stat", false), func() (err error) { fi, err = f.File.Stat(); return })
	return
}

// Stat describes a file.
func Stat(name string) (fi os.FileInfo, err error) {
	err = do(vrt.Op{Kind: "stat", Path: name}, func() (err error) { fi, err = os.Stat(name); return })
	return
}

// Lstat describes a file.
func Lstat(name string) (fi os.FileInfo, err error) {
	err = do(vrt.Op{Kind: "stat", Path: name}, func() (err error) { fi, err = os.Lstat(name); return })
	return
}

// ReadDir lists a directory.
func ReadDir(name string) (l []os.DirEntry, err error) {
	err = do(vrt.Op{Kind: "readdir", Path: name}, func() (err error) { l, err = os.ReadDir(name); return })
	return
}

// ReadFile reads a file.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	err = do(f.op("read", false), func() (err error) { out, err = io.ReadAll(f.File); return })
	return out, err
}

// WriteFile writes a file.
func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func mut(kind, a, b string, real func() error) error {
	return do(vrt.Op{Kind: kind, Path: a, Path2: b, Mutates: true}, real)
}

// Remove removes.
func Remove(name string) error {
	return mut("remove", name, "", func() error { return os.Remove(name) })
}

// RemoveAll removes what lies below.
func RemoveAll(path string) error {
	fi, err := Lstat(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		return err
	}
	if fi.IsDir() {
		l, err := ReadDir(path)
		if err != nil {
			return err
		}
		for _, e := range l {
			if err := RemoveAll(filepath.Join(path, e.Name())); err != nil {
				return err
			}
		}
	}
	return Remove(path)
}

// Rename renames.
func Rename(a, b string) error { return mut("rename", a, b, func() error { return os.Rename(a, b) }) }

// Link makes a hard link.
func Link(a, b string) error { return mut("link", a, b, func() error { return os.Link(a, b) }) }

// Symlink makes a symbolic link.
func Symlink(a, b string) error {
	return mut("symlink", a, b, func() error { return os.Symlink(a, b) })
}

// Mkdir makes a directory.
func Mkdir(name string, perm os.FileMode) error {
	return mut("mkdir", name, "", func() error { return os.Mkdir(name, perm) })
}

// MkdirAll makes a directory and those above.
func MkdirAll(name string, perm os.FileMode) error {
	return mut("mkdir", name, "", func() error { return os.MkdirAll(name, perm) })
}

// Truncate sets a file's size.
func Truncate(name string, size int64) error {
	return mut("truncate", name, "", func() error { return os.Truncate(name, size) })
}

// Chmod sets the mode.
func Chmod(name string, m os.FileMode) error {
	return mut("chmod", name, "", func() error { return os.Chmod(name, m) })
}

// Chown sets the owner.
func Chown(name string, u, g int) error {
	return mut("chmod", name, "", func() error { return os.Chown(name, u, g) })
}

// Lchown sets the owner.
func Lchown(name string, u, g int) error {
	return mut("chmod", name, "", func() error { return os.Lchown(name, u, g) })
}

// Chtimes sets the times.
func Chtimes(name string, a, m time.Time) error {
	return mut("chtimes", name, "", func() error { return os.Chtimes(name, a, m) })
}

// CopyFS copies a tree.
func CopyFS(dir string, fsys fs.FS) error {
	return mut("copyfs", dir, "", func() error { return os.CopyFS(dir, fsys) })
}

// Getpid is the process of the calling thread.
func Getpid() int {
	if p, ok := vrt.Pid(); ok {
		return p
	}
	return os.Getpid()
}
