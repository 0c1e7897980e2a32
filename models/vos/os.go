// Package os is an in-memory file system with the interface of package os
// that the repository uses, plus a crash model.
package os

import (
	"errors"
	"io"
	"sort"
	"strings"
	"time"
)

const (
	O_RDONLY = 0
	O_WRONLY = 1
	O_RDWR   = 2
	O_APPEND = 1024
	O_CREATE = 64
	O_EXCL   = 128
	O_SYNC   = 1052672
	O_TRUNC  = 512

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	PathSeparator = '/'
)

type FileMode uint32

const (
	ModeDir  FileMode = 1 << 31
	ModePerm FileMode = 0777
)

func (m FileMode) IsDir() bool     { return m&ModeDir != 0 }
func (m FileMode) IsRegular() bool { return m&ModeDir == 0 }
func (m FileMode) Perm() FileMode  { return m & ModePerm }

type FileInfo interface {
	Name() string
	Size() int64
	Mode() FileMode
	ModTime() time.Time
	IsDir() bool
	Sys() interface{}
}
type DirEntry interface {
	Name() string
	IsDir() bool
	Info() (FileInfo, error)
}

type PathError struct {
	Op, Path string
	Err      error
}

func (e *PathError) Error() string { return e.Op + " " + e.Path + ": " + e.Err.Error() }
func (e *PathError) Unwrap() error { return e.Err }

var (
	ErrNotExist = errors.New("file does not exist")
	ErrExist    = errors.New("file already exists")
	ErrClosed   = errors.New("file already closed")
	ErrInvalid  = errors.New("invalid argument")
	errNotDir   = errors.New("not a directory")
	errNotEmpty = errors.New("directory not empty")
	errPerm     = errors.New("bad file descriptor")
)

type node struct {
	data   []byte
	isDir  bool
	kids   map[string]*node
	synced []byte // what the last Sync made durable
}

var root = &node{isDir: true, kids: map[string]*node{}}

// ---- crash model
//
// A crash is a snapshot: at the crash point the state of the disk is kept, the
// process runs on as a ghost, and Revive puts the kept state back.

var (
	crashes func() bool
	dead    bool
	snap    *node
)

// OnArm, OnCrash and OnRevive are called at the respective moments by other
// models with durable state.
var OnArm, OnCrash, OnRevive []func()

// LoseUnsynced makes the crash a power failure: what was not synced is lost.
var LoseUnsynced bool

// Reset empties the file system and disarms the crash point.
func Reset() {
	root = &node{isDir: true, kids: map[string]*node{}}
	crashes, dead, snap = nil, false, nil
}

// CrashWhen puts the crash before the first mutation for which f says so. What
// the disk holds now is durable. A write may be cut: CutWrite, if set, says after how many bytes.
func CrashWhen(f func() bool) {
	crashes, dead, snap = f, false, nil
	root.arm()
	for _, f := range OnArm {
		f()
	}
}

// Revive ends the crashed state: what survived can be opened again. If the
// crash point was not reached, the crash happens now.
func Revive() {
	if !dead {
		crash()
	}
	root = snap
	for _, f := range OnRevive {
		f()
	}
	crashes, dead, snap = nil, false, nil
}

// Dead says that the crash point has been reached.
func Dead() bool { return dead }

// CutWrite chooses how much of the write that the crash interrupts reaches
// the file.
var CutWrite func(n int) int

func crash() {
	dead = true
	snap = root.snapshot()
	for _, f := range OnCrash {
		f()
	}
}

// Op is called before a mutation.
func Op() {
	if !dead && crashes != nil && crashes() {
		crash()
	}
}

func (n *node) arm() {
	n.synced = n.data[:len(n.data):len(n.data)]
	for _, k := range n.kids {
		k.arm()
	}
}

func (n *node) snapshot() *node {
	c := &node{isDir: n.isDir}
	if n.isDir {
		c.kids = map[string]*node{}
		for k, v := range n.kids {
			c.kids[k] = v.snapshot()
		}
		return c
	}
	d := n.data
	if LoseUnsynced {
		d = n.synced
	}
	c.data = d[:len(d):len(d)]
	return c
}

func split(p string) []string {
	var r []string
	for _, s := range strings.Split(p, "/") {
		if s == "" || s == "." {
			continue
		}
		if s == ".." {
			if len(r) > 0 {
				r = r[:len(r)-1]
			}
			continue
		}
		r = append(r, s)
	}
	return r
}

func find(p string) *node {
	n := root
	for _, s := range split(p) {
		if n == nil || !n.isDir {
			return nil
		}
		n = n.kids[s]
	}
	return n
}

func parent(p string) (*node, string) {
	parts := split(p)
	if len(parts) == 0 {
		return nil, ""
	}
	n := root
	for _, s := range parts[:len(parts)-1] {
		if n == nil || !n.isDir {
			return nil, ""
		}
		n = n.kids[s]
	}
	if n == nil || !n.isDir {
		return nil, ""
	}
	return n, parts[len(parts)-1]
}

type File struct {
	n      *node
	name   string
	off    int64
	flag   int
	closed bool
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	n := find(name)
	if n == nil {
		if flag&O_CREATE == 0 {
			return nil, &PathError{"open", name, ErrNotExist}
		}
		d, base := parent(name)
		if d == nil {
			return nil, &PathError{"open", name, ErrNotExist}
		}
		Op()
		n = &node{}
		d.kids[base] = n
	} else {
		if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
			return nil, &PathError{"open", name, ErrExist}
		}
		if n.isDir && flag&3 != O_RDONLY {
			return nil, &PathError{"open", name, errors.New("is a directory")}
		}
		if flag&O_TRUNC != 0 && len(n.data) != 0 {
			Op()
			n.data = nil
		}
	}
	return &File{n: n, name: name, flag: flag}, nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &PathError{"close", f.name, ErrClosed}
	}
	f.closed = true
	return nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.closed {
		return 0, &PathError{"read", f.name, ErrClosed}
	}
	if off < 0 {
		return 0, &PathError{"readat", f.name, errors.New("negative offset")}
	}
	if off >= int64(len(f.n.data)) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.closed {
		return 0, &PathError{"read", f.name, ErrClosed}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[f.off:])
	f.off += int64(n)
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.closed {
		return 0, &PathError{"write", f.name, ErrClosed}
	}
	if f.flag&3 == O_RDONLY {
		return 0, &PathError{"write", f.name, errPerm}
	}
	if f.flag&O_APPEND != 0 {
		f.off = int64(len(f.n.data))
	}
	n := f.put(b, f.off)
	f.off += int64(n)
	return n, nil
}

func (f *File) put(b []byte, off int64) int {
	if len(b) == 0 {
		return 0
	}
	if !dead && crashes != nil && crashes() {
		if CutWrite != nil {
			f.n.put(b[:CutWrite(len(b))], off)
		}
		crash()
	}
	f.n.put(b, off)
	return len(b)
}

func (n *node) put(b []byte, off int64) {
	if len(b) == 0 {
		return
	}
	if off > int64(len(n.data)) {
		n.data = append(n.data, make([]byte, off-int64(len(n.data)))...)
	}
	if off < int64(len(n.data)) { // snapshots share the old bytes
		n.data = append([]byte(nil), n.data...)
	}
	k := copy(n.data[off:], b)
	n.data = append(n.data, b[k:]...)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.closed {
		return 0, &PathError{"write", f.name, ErrClosed}
	}
	if f.flag&3 == O_RDONLY {
		return 0, &PathError{"write", f.name, errPerm}
	}
	return f.put(b, off), nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.closed {
		return 0, &PathError{"seek", f.name, ErrClosed}
	}
	switch whence {
	case 1:
		off += f.off
	case 2:
		off += int64(len(f.n.data))
	}
	if off < 0 {
		return 0, &PathError{"seek", f.name, ErrInvalid}
	}
	f.off = off
	return off, nil
}

func (f *File) Sync() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &PathError{"sync", f.name, ErrClosed}
	}
	if crashes != nil {
		f.n.synced = f.n.data[:len(f.n.data):len(f.n.data)]
	}
	return nil
}

func (f *File) Truncate(size int64) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &PathError{"truncate", f.name, ErrClosed}
	}
	if f.flag&3 == O_RDONLY || size < 0 {
		return &PathError{"truncate", f.name, ErrInvalid}
	}
	truncNode(f.n, size)
	return nil
}

func truncNode(n *node, size int64) {
	if size == int64(len(n.data)) {
		return
	}
	Op()
	if size < int64(len(n.data)) {
		n.data = append([]byte(nil), n.data[:size]...)
	} else {
		n.data = append(n.data, make([]byte, size-int64(len(n.data)))...)
	}
}

func Truncate(name string, size int64) error {
	n := find(name)
	if n == nil {
		return &PathError{"truncate", name, ErrNotExist}
	}
	truncNode(n, size)
	return nil
}

type info struct {
	name  string
	size  int64
	isDir bool
}

func (i *info) Name() string            { return i.name }
func (i *info) Size() int64             { return i.size }
func (i *info) IsDir() bool             { return i.isDir }
func (i *info) ModTime() (t time.Time)  { return }
func (i *info) Sys() interface{}        { return nil }
func (i *info) Info() (FileInfo, error) { return i, nil }
func (i *info) Mode() FileMode {
	if i.isDir {
		return ModeDir | 0755
	}
	return 0644
}

func mkInfo(name string, n *node) *info {
	return &info{name: name, size: int64(len(n.data)), isDir: n.isDir}
}

func (f *File) Stat() (FileInfo, error) {
	if f == nil {
		return nil, ErrInvalid
	}
	return mkInfo(f.name, f.n), nil
}

func Stat(name string) (FileInfo, error) {
	n := find(name)
	if n == nil {
		return nil, &PathError{"stat", name, ErrNotExist}
	}
	parts := split(name)
	base := "/"
	if len(parts) > 0 {
		base = parts[len(parts)-1]
	}
	return mkInfo(base, n), nil
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }

func Mkdir(name string, perm FileMode) error {
	if find(name) != nil {
		return &PathError{"mkdir", name, ErrExist}
	}
	d, base := parent(name)
	if d == nil {
		return &PathError{"mkdir", name, ErrNotExist}
	}
	Op()
	d.kids[base] = &node{isDir: true, kids: map[string]*node{}}
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	n := root
	for _, s := range split(name) {
		k := n.kids[s]
		if k == nil {
			Op()
			k = &node{isDir: true, kids: map[string]*node{}}
			n.kids[s] = k
		} else if !k.isDir {
			return &PathError{"mkdir", name, errNotDir}
		}
		n = k
	}
	return nil
}

func Remove(name string) error {
	d, base := parent(name)
	if d == nil || d.kids[base] == nil {
		return &PathError{"remove", name, ErrNotExist}
	}
	n := d.kids[base]
	if n.isDir && len(n.kids) > 0 {
		return &PathError{"remove", name, errNotEmpty}
	}
	Op()
	delete(d.kids, base)
	return nil
}

func RemoveAll(name string) error {
	d, base := parent(name)
	if d == nil || d.kids[base] == nil {
		return nil
	}
	Op()
	delete(d.kids, base)
	return nil
}

func Rename(from, to string) error {
	d, base := parent(from)
	if d == nil || d.kids[base] == nil {
		return &PathError{"rename", from, ErrNotExist}
	}
	d2, base2 := parent(to)
	if d2 == nil {
		return &PathError{"rename", to, ErrNotExist}
	}
	Op()
	n := d.kids[base]
	delete(d.kids, base)
	d2.kids[base2] = n
	return nil
}

func names(n *node) []string {
	var r []string
	for k := range n.kids {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// List returns the file infos of a directory in name order.
func List(name string) ([]FileInfo, error) {
	n := find(name)
	if n == nil {
		return nil, &PathError{"open", name, ErrNotExist}
	}
	if !n.isDir {
		return nil, &PathError{"readdirent", name, errNotDir}
	}
	var r []FileInfo
	for _, k := range names(n) {
		r = append(r, mkInfo(k, n.kids[k]))
	}
	return r, nil
}

func ReadDir(name string) ([]DirEntry, error) {
	l, err := List(name)
	if err != nil {
		return nil, err
	}
	var r []DirEntry
	for _, x := range l {
		r = append(r, x.(*info))
	}
	return r, nil
}

func (f *File) Readdir(n int) ([]FileInfo, error) { return List(f.name) }
func (f *File) ReadDir(n int) ([]DirEntry, error) { return ReadDir(f.name) }
func (f *File) Readdirnames(n int) ([]string, error) {
	if !f.n.isDir {
		return nil, errNotDir
	}
	return names(f.n), nil
}

func ReadFile(name string) ([]byte, error) {
	n := find(name)
	if n == nil || n.isDir {
		return nil, &PathError{"open", name, ErrNotExist}
	}
	return append([]byte{}, n.data...), nil
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	f.Close()
	return err
}

func isErr(err, target error) bool {
	if pe, ok := err.(*PathError); ok {
		err = pe.Err
	}
	return err == target
}

func IsNotExist(err error) bool { return isErr(err, ErrNotExist) }
func IsExist(err error) bool    { return isErr(err, ErrExist) }

// Exists tells whether a path exists (for harnesses).
func Exists(name string) bool { return find(name) != nil }

func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func Exit(code int)                   { panic("os.Exit") }
func TempDir() string                 { return "/tmp" }
func Getpid() int                     { return 1 }

type nullWriter struct{}

func (nullWriter) Write(p []byte) (int, error)       { return len(p), nil }
func (nullWriter) WriteString(s string) (int, error) { return len(s), nil }
func (nullWriter) Close() error                      { return nil }

var Stdout, Stderr nullWriter
var Args = []string{"replay"}
