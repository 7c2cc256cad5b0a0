// Package simos replaces the file access, exit and output calls of package os
// (and a few relatives) in instrumented code with a simulated file system.
package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"sort"
	"strings"
	"time"
)

// Disk is the simulated disk. Nil means the real one.
var Disk *FS

// Fault describes damage to one file.
type Fault struct {
	Missing  bool
	ErrAt    int // read error once this many bytes were read (-1: none)
	Short    int // longest read (0: unlimited)
	ShortSeq []int
	OpenErr  bool
	ErrEOF   bool // data and EOF are returned by the same read
}

// FS is a flat simulated file system.
type FS struct {
	Files  map[string][]byte
	Faults map[string]*Fault
	Opened map[string]int
	Fired  map[string]int
	Open_  int // open handles
}

// NewFS creates an empty file system.
func NewFS() *FS {
	return &FS{Files: map[string][]byte{}, Faults: map[string]*Fault{}, Opened: map[string]int{}, Fired: map[string]int{}}
}

// EIO is the injected read error.
var EIO = errors.New("input/output error")

func clean(name string) string {
	return strings.TrimPrefix(name, "./")
}

func (d *FS) open(name string) (*File, error) {
	name = clean(name)
	data, ok := d.Files[name]
	f := d.Faults[name]
	if f == nil {
		f = &Fault{ErrAt: -1}
	}
	if f.Missing {
		d.Fired["missing"]++
	}
	if !ok || f.Missing {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	if f.OpenErr {
		d.Fired["open_error"]++
		return nil, &fs.PathError{Op: "open", Path: name, Err: EIO}
	}
	d.Opened[name]++
	d.Open_++
	return &File{d: d, name: name, data: data, f: f}, nil
}

// File is an open file.
type File struct {
	d      *FS
	name   string
	data   []byte
	off    int
	f      *Fault
	n      int
	closed bool
	real   *os.File
	std    int
}

// Read reads with the faults of the file.
func (f *File) Read(p []byte) (int, error) {
	if f.real != nil {
		return f.real.Read(p)
	}
	if f.closed {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: fs.ErrClosed}
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.f.ErrAt >= 0 && f.off >= f.f.ErrAt {
		f.d.Fired["read_error"]++
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: EIO}
	}
	if f.off >= len(f.data) {
		return 0, io.EOF
	}
	n := len(f.data) - f.off
	if n > len(p) {
		n = len(p)
	}
	max := f.f.Short
	if len(f.f.ShortSeq) > 0 {
		max = f.f.ShortSeq[f.n%len(f.f.ShortSeq)]
		f.n++
	}
	if max > 0 && n > max {
		n = max
		f.d.Fired["short_read"]++
	}
	if f.f.ErrAt >= 0 && f.off+n > f.f.ErrAt {
		n = f.f.ErrAt - f.off
	}
	copy(p, f.data[f.off:f.off+n])
	f.off += n
	if f.f.ErrEOF && f.off == len(f.data) && f.f.ErrAt < 0 {
		f.d.Fired["data_with_eof"]++
		return n, io.EOF
	}
	return n, nil
}

// ReadAt is io.ReaderAt.
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if f.real != nil {
		return f.real.ReadAt(p, off)
	}
	if off > int64(len(f.data)) {
		return 0, io.EOF
	}
	if f.f.ErrAt >= 0 && int(off)+len(p) > f.f.ErrAt {
		f.d.Fired["read_error"]++
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: EIO}
	}
	n := copy(p, f.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// Seek is io.Seeker.
func (f *File) Seek(o int64, whence int) (int64, error) {
	if f.real != nil {
		return f.real.Seek(o, whence)
	}
	switch whence {
	case io.SeekCurrent:
		o += int64(f.off)
	case io.SeekEnd:
		o += int64(len(f.data))
	}
	if o < 0 || o > int64(len(f.data)) {
		return 0, fs.ErrInvalid
	}
	f.off = int(o)
	return o, nil
}

// Close closes the file.
func (f *File) Close() error {
	if f.real != nil {
		return f.real.Close()
	}
	if f.closed {
		return &fs.PathError{Op: "close", Path: f.name, Err: fs.ErrClosed}
	}
	f.closed = true
	f.d.Open_--
	return nil
}

// Write works on the standard streams only.
func (f *File) Write(p []byte) (int, error) {
	switch {
	case f.std == 1:
		return os.Stdout.Write(p)
	case f.std == 2:
		return os.Stderr.Write(p)
	case f.real != nil:
		return f.real.Write(p)
	}
	return 0, &fs.PathError{Op: "write", Path: f.name, Err: fs.ErrPermission}
}

// WriteString is like Write.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Sync does nothing.
func (f *File) Sync() error { return nil }

// The standard streams, looked up at every write.
var (
	Stdout = &File{std: 1, name: "stdout"}
	Stderr = &File{std: 2, name: "stderr"}
)

// Name is the file name.
func (f *File) Name() string { return f.name }

// Stat describes the file.
func (f *File) Stat() (fs.FileInfo, error) {
	if f.real != nil {
		return f.real.Stat()
	}
	return info{f.name, int64(len(f.data))}, nil
}

type info struct {
	name string
	size int64
}

func (i info) Name() string {
	if k := strings.LastIndexByte(i.name, '/'); k >= 0 {
		return i.name[k+1:]
	}
	return i.name
}
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return 0o444 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() any           { return nil }

// Open is os.Open.
func Open(name string) (*File, error) {
	if Disk == nil {
		f, err := os.Open(name)
		if err != nil {
			return nil, err
		}
		return &File{real: f, name: name}, nil
	}
	return Disk.open(name)
}

// OpenFile is os.OpenFile for reading.
func OpenFile(name string, _ int, _ fs.FileMode) (*File, error) { return Open(name) }

// ReadFile is os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// Stat is os.Stat.
func Stat(name string) (fs.FileInfo, error) {
	if Disk == nil {
		return os.Stat(name)
	}
	f := Disk.Faults[clean(name)]
	data, ok := Disk.Files[clean(name)]
	if f != nil && f.Missing {
		Disk.Fired["missing"]++
		ok = false
	}
	if !ok {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
	}
	return info{clean(name), int64(len(data))}, nil
}

type dirFS struct{ prefix string }

// DirFS is os.DirFS.
func DirFS(dir string) fs.FS {
	if Disk == nil {
		return os.DirFS(dir)
	}
	if dir == "." || dir == "" {
		return dirFS{""}
	}
	return dirFS{clean(strings.TrimSuffix(dir, "/")) + "/"}
}

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	f, err := Disk.open(d.prefix + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}

// ExitToken is the panic value of a simulated exit.
type ExitToken struct{ Code int }

func (e ExitToken) Error() string { return fmt.Sprintf("exit status %d", e.Code) }

// CatchExit turns exits into panics even without a simulated disk.
var CatchExit bool

// Exited is the code of the first exit.
var Exited *int

// Exit is os.Exit.
func Exit(code int) {
	if Disk == nil && !CatchExit {
		os.Exit(code)
	}
	if Exited == nil {
		// Nothing that runs on the way out counts.
		Exited = &code
		os.Stdout = os.Stderr
	}
	panic(ExitToken{code})
}

// LogFatal is log.Fatal.
func LogFatal(v ...interface{}) {
	fmt.Fprint(os.Stderr, v...)
	Exit(1)
}

// LogFatalf is log.Fatalf.
func LogFatalf(format string, v ...interface{}) {
	fmt.Fprintf(os.Stderr, format, v...)
	Exit(1)
}

// LogFatalln is log.Fatalln.
func LogFatalln(v ...interface{}) {
	fmt.Fprintln(os.Stderr, v...)
	Exit(1)
}

// FiredKeys lists the faults that fired.
func (d *FS) FiredKeys() []string {
	var out []string
	for k := range d.Fired {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
