package mc

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// An in-memory file system. Every operation is one step; reads and writes can fail or be
// cut short on the harness's request.

type inode struct {
	o     hobj
	ra    byte
	data  []byte
	dir   bool
	mtime int64
}

// FSOp is one effect on the file system, in order.
type FSOp struct {
	Op   string
	Path string
	Off  int64
	Data []byte
	Size int64
}

type fsState struct {
	o     hobj
	nodes map[string]*inode
	open  map[*File]bool
	ops   []FSOp
}

var fsys *fsState

// FSDelay, if set, is how long an operation of the file system takes.
var FSDelay func(op, path string, size int) time.Duration

// FSFault, if set, is asked before each file-system operation; a non-nil error makes the
// operation fail, and for writes n >= 0 is the number of bytes written first.
var FSFault func(op, path string, size int) (n int, err error)

// FSWatch, if set, is told about each write after it happened.
var FSWatch func(op FSOp)

func newFS() *fsState {
	return &fsState{nodes: map[string]*inode{"/": {dir: true}, "/tmp": {dir: true}, ".": {dir: true}}, open: map[*File]bool{}}
}

func clean(p string) string {
	p = filepath.Clean(p)
	return p
}

// FSReset forgets all files.
func FSReset() { fsys = newFS() }

// FSPut creates a file.
func FSPut(path string, data []byte) {
	fsys.nodes[clean(path)] = &inode{data: append([]byte(nil), data...)}
}

// FSDel removes a file.
func FSDel(path string) { delete(fsys.nodes, clean(path)) }

// FSGet returns a copy of a file's content.
func FSGet(path string) ([]byte, bool) {
	n := fsys.nodes[clean(path)]
	if n == nil || n.dir {
		return nil, false
	}
	if s != nil && !s.abort {
		s.cur.read(&n.o, 0x601)
	}
	return append([]byte(nil), n.data...), true
}

// FSList lists all files (not directories).
func FSList() []string {
	var r []string
	for p, n := range fsys.nodes {
		if !n.dir {
			r = append(r, p)
		}
	}
	sort.Strings(r)
	return r
}

// FSOpen lists the paths of the open files.
func FSOpen() []string {
	var r []string
	for f := range fsys.open {
		r = append(r, f.name)
	}
	sort.Strings(r)
	return r
}

// FSOps is the log of effects.
func FSOps() []FSOp { return fsys.ops }

// File is os.File.
type File struct {
	name   string
	n      *inode
	off    int64
	flag   int
	closed bool
	proc   *Proc
	std    bool
	sink   []byte
}

var Stderr = &File{name: "/dev/stderr", std: true}
var Stdout = &File{name: "/dev/stdout", std: true}
var Stdin = &File{name: "/dev/stdin", std: true}

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

func fsStep(what string, n *inode, write bool) bool {
	if s == nil {
		return true
	}
	if s.abort {
		return false
	}
	s.point(what, nil)
	o := &fsys.o
	if n != nil {
		o = &n.o
	}
	if write {
		s.cur.write(o, hashStr(what))
	} else {
		s.cur.read(o, hashStr(what))
	}
	return true
}

func fault(op, path string, size int) (int, error) {
	if FSFault == nil {
		return -1, nil
	}
	return FSFault(op, path, size)
}

var errAborted = errors.New("mc: execution is over")

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	if !fsStep("open", nil, true) {
		return nil, errAborted
	}
	if _, err := fault("open", name, 0); err != nil {
		return nil, perr("open", name, err)
	}
	p := clean(name)
	n := fsys.nodes[p]
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		d := filepath.Dir(p)
		if dn := fsys.nodes[d]; dn == nil || !dn.dir {
			return nil, perr("open", name, syscall.ENOENT)
		}
		n = &inode{}
		fsys.nodes[p] = n
		fsys.ops = append(fsys.ops, FSOp{Op: "create", Path: p})
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 {
			n.data = nil
			note(FSOp{Op: "truncate", Path: p})
		}
	}
	f := &File{name: name, n: n, flag: flag, proc: curProc()}
	fsys.open[f] = true
	return f, nil
}

func note(op FSOp) {
	fsys.ops = append(fsys.ops, op)
	if FSWatch != nil {
		FSWatch(op)
	}
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }

func (f *File) Fd() uintptr { return 3 }

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std {
		return f.readStd(b)
	}
	if !fsStep("read", f.n, false) {
		return 0, io.EOF
	}
	if f.flag&os.O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if _, err := fault("read", f.name, len(b)); err != nil {
		return 0, perr("read", f.name, err)
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := cp(b, f.n.data[f.off:])
	f.off += int64(n)
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if !fsStep("read", f.n, false) {
		return 0, io.EOF
	}
	if _, err := fault("read", f.name, len(b)); err != nil {
		return 0, perr("read", f.name, err)
	}
	if off < 0 {
		return 0, perr("readat", f.name, errors.New("negative offset"))
	}
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := cp(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

// cp copies and tells the race detector about the caller's buffer.
func cp(dst, src []byte) int {
	n := len(dst)
	if len(src) < n {
		n = len(src)
	}
	if RaceBuild && n > 0 {
		raceWrite(up(&dst[0]), n)
	}
	for i := 0; i < n; i++ {
		dst[i] = src[i]
	}
	return n
}

func (f *File) writeAt(b []byte, off int64) {
	end := off + int64(len(b))
	if end > int64(len(f.n.data)) {
		nd := make([]byte, end, end+end/2+64)
		for i := range f.n.data {
			nd[i] = f.n.data[i]
		}
		if int64(cap(f.n.data)) >= end {
			nd = f.n.data[:end]
		}
		f.n.data = nd
	}
	for i := range b {
		f.n.data[off+int64(i)] = b[i]
	}
	note(FSOp{Op: "write", Path: clean(f.name), Off: off, Data: append([]byte(nil), b...)})
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if RaceBuild && len(b) > 0 {
		raceRead(up(&b[0]), len(b))
	}
	if f.std {
		return f.writeStd(b)
	}
	if !fsStep("write", f.n, true) {
		return len(b), nil
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if FSDelay != nil {
		if d := FSDelay("write", f.name, len(b)); d > 0 {
			Sleep(d)
			if s == nil || s.abort {
				return len(b), nil
			}
		}
	}
	n, err := fault("write", f.name, len(b))
	w := b
	if err != nil {
		if n < 0 {
			n = 0
		}
		if n > len(b) {
			n = len(b)
		}
		w = b[:n]
	}
	if f.flag&os.O_APPEND != 0 {
		f.off = int64(len(f.n.data))
	}
	if len(w) > 0 {
		f.writeAt(w, f.off)
		f.off += int64(len(w))
	}
	if err != nil {
		return len(w), perr("write", f.name, err)
	}
	return len(b), nil
}

func (f *File) WriteString(x string) (int, error) { return f.Write([]byte(x)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&os.O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	if !fsStep("write", f.n, true) {
		return len(b), nil
	}
	if n, err := fault("write", f.name, len(b)); err != nil {
		if n > 0 {
			f.writeAt(b[:n], off)
		} else {
			n = 0
		}
		return n, perr("write", f.name, err)
	}
	f.writeAt(b, off)
	return len(b), nil
}

// ReadFrom mirrors os.File.ReadFrom (used by io.Copy).
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if !fsStep("seek", f.n, false) {
		return 0, errAborted
	}
	if _, err := fault("seek", f.name, 0); err != nil {
		return 0, perr("seek", f.name, err)
	}
	switch whence {
	case 0:
	case 1:
		off += f.off
	case 2:
		off += int64(len(f.n.data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	return off, nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if !fsStep("truncate", f.n, true) {
		return nil
	}
	if _, err := fault("truncate", f.name, 0); err != nil {
		return perr("truncate", f.name, err)
	}
	if size < 0 {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	truncNode(f.n, size)
	note(FSOp{Op: "truncate", Path: clean(f.name), Size: size})
	return nil
}

func truncNode(n *inode, size int64) {
	if size <= int64(len(n.data)) {
		n.data = append([]byte(nil), n.data[:size]...)
		return
	}
	n.data = append(append([]byte(nil), n.data...), make([]byte, size-int64(len(n.data)))...)
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	if !fsStep("sync", f.n, true) {
		return nil
	}
	if _, err := fault("sync", f.name, 0); err != nil {
		return perr("sync", f.name, err)
	}
	return nil
}

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	if !fsStep("fclose", f.n, true) {
		return nil
	}
	f.closed = true
	delete(fsys.open, f)
	if _, err := fault("close", f.name, 0); err != nil {
		return perr("close", f.name, err)
	}
	return nil
}

type fileInfo struct {
	name string
	n    *inode
	size int64
}

func (i fileInfo) Name() string { return filepath.Base(i.name) }
func (i fileInfo) Size() int64  { return i.size }
func (i fileInfo) Mode() fs.FileMode {
	if i.n.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i fileInfo) ModTime() time.Time { return time.Unix(0, i.n.mtime) }
func (i fileInfo) IsDir() bool        { return i.n.dir }
func (i fileInfo) Sys() any           { return nil }

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if !fsStep("stat", f.n, false) {
		return nil, errAborted
	}
	if _, err := fault("stat", f.name, 0); err != nil {
		return nil, perr("stat", f.name, err)
	}
	return fileInfo{f.name, f.n, int64(len(f.n.data))}, nil
}

func Stat(name string) (fs.FileInfo, error) {
	if !fsStep("stat", nil, false) {
		return nil, errAborted
	}
	if _, err := fault("stat", name, 0); err != nil {
		return nil, perr("stat", name, err)
	}
	n := fsys.nodes[clean(name)]
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return fileInfo{name, n, int64(len(n.data))}, nil
}

func Remove(name string) error {
	if !fsStep("remove", nil, true) {
		return nil
	}
	if _, err := fault("remove", name, 0); err != nil {
		return perr("remove", name, err)
	}
	p := clean(name)
	n := fsys.nodes[p]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(fsys.nodes, p)
	note(FSOp{Op: "remove", Path: p})
	return nil
}

func RemoveAll(name string) error {
	if !fsStep("removeall", nil, true) {
		return nil
	}
	p := clean(name)
	for k := range fsys.nodes {
		if k == p || strings.HasPrefix(k, p+"/") {
			delete(fsys.nodes, k)
		}
	}
	note(FSOp{Op: "remove", Path: p})
	return nil
}

func Rename(a, b string) error {
	if !fsStep("rename", nil, true) {
		return nil
	}
	if _, err := fault("rename", a, 0); err != nil {
		return perr("rename", a, err)
	}
	n := fsys.nodes[clean(a)]
	if n == nil {
		return perr("rename", a, syscall.ENOENT)
	}
	delete(fsys.nodes, clean(a))
	fsys.nodes[clean(b)] = n
	note(FSOp{Op: "rename", Path: clean(a), Data: []byte(clean(b))})
	return nil
}

func Truncate(name string, size int64) error {
	if !fsStep("truncate", nil, true) {
		return nil
	}
	if _, err := fault("truncate", name, 0); err != nil {
		return perr("truncate", name, err)
	}
	n := fsys.nodes[clean(name)]
	if n == nil {
		return perr("truncate", name, syscall.ENOENT)
	}
	if size < 0 {
		return perr("truncate", name, syscall.EINVAL)
	}
	truncNode(n, size)
	note(FSOp{Op: "truncate", Path: clean(name), Size: size})
	return nil
}

func Mkdir(name string, perm fs.FileMode) error {
	if fsys == nil {
		FSReset()
	}
	if !fsStep("mkdir", nil, true) {
		return nil
	}
	p := clean(name)
	if fsys.nodes[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	fsys.nodes[p] = &inode{dir: true}
	return nil
}

func MkdirAll(name string, perm fs.FileMode) error {
	if fsys == nil {
		FSReset()
	}
	if !fsStep("mkdir", nil, true) {
		return nil
	}
	for p := clean(name); p != "/" && p != "."; p = filepath.Dir(p) {
		if fsys.nodes[p] == nil {
			fsys.nodes[p] = &inode{dir: true}
		}
	}
	return nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

var tmpN int

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	tmpN++
	suffix := itoa(tmpN)
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pattern = pattern[:i] + suffix + pattern[i+1:]
	} else {
		pattern += suffix
	}
	return OpenFile(filepath.Join(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	tmpN++
	p := filepath.Join(dir, strings.Replace(pattern, "*", "", 1)+itoa(tmpN))
	return p, Mkdir(p, 0700)
}

// Chmod and the like change nothing that a program run as root could notice.
func Chmod(name string, mode fs.FileMode) error {
	_, err := Stat(name)
	return err
}

func Chtimes(name string, a, m time.Time) error {
	_, err := Stat(name)
	return err
}

func (f *File) Chmod(mode fs.FileMode) error { return f.check("chmod") }

// ReadDir is os.ReadDir.
func ReadDir(name string) ([]fs.DirEntry, error) {
	if !fsStep("readdir", nil, false) {
		return nil, errAborted
	}
	d := clean(name)
	if n := fsys.nodes[d]; n == nil || !n.dir {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var l []fs.DirEntry
	for p, n := range fsys.nodes {
		if p != d && filepath.Dir(p) == d {
			l = append(l, fs.FileInfoToDirEntry(fileInfo{p, n, int64(len(n.data))}))
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, nil
}

func TempDir() string { return "/tmp" }

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	return string(b[i:])
}
