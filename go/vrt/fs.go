package vrt

import (
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Op is one mutation of the file system.
type Op struct {
	Kind string // mkdir create write trunc rename remove
	Path string
	To   string
	Ino  int
	Off  int64
	Data []byte
	Size int64
	Time time.Time
}

func (o Op) String() string {
	switch o.Kind {
	case "write":
		return fmt.Sprintf("write %s @%d+%d", o.Path, o.Off, len(o.Data))
	case "trunc":
		return fmt.Sprintf("trunc %s ->%d", o.Path, o.Size)
	case "rename":
		return fmt.Sprintf("rename %s -> %s", o.Path, o.To)
	}
	return o.Kind + " " + o.Path
}

type inode struct {
	ino    int
	dir    bool
	data   []byte
	mod    time.Time
	lock   *VFile          // holder of the exclusive flock
	shared map[*VFile]bool // holders of shared flocks
	names  int
	path   string
}

// FS is an in-memory file system that records its mutations.
type FS struct {
	w       *World
	names   map[string]*inode
	inos    map[int]*inode
	nextIno int
	nextFd  int
	fds     map[int]*VFile
	Ops     []Op
	Gran    time.Duration // granularity of modification times
	// fault injection
	Calls    int // number of fallible operations so far
	FaultAt  int // 1-based index of the operation that fails (0: none)
	FaultN   int // number of consecutive failing operations (default 1)
	FaultErr error
	Faulted  []string
	OnCall   func(n int, name string)
	NoRecord bool
	Short    bool // a failing write stores half of its data first
}

// NewFS makes an empty file system.
func NewFS() *FS {
	fs := &FS{names: map[string]*inode{}, inos: map[int]*inode{}, fds: map[int]*VFile{}, nextFd: 10, Gran: 4 * time.Millisecond}
	fs.names["/"] = &inode{dir: true}
	return fs
}

// Rebuild makes the file system after the first n mutations of ops; if torn>=0 the n-th (0-based) mutation, a write,
// is applied with only its first torn bytes.
func Rebuild(ops []Op, n, torn int) *FS {
	fs := NewFS()
	for i := 0; i < n; i++ {
		fs.apply(ops[i])
	}
	if torn >= 0 && n < len(ops) {
		o := ops[n]
		o.Data = o.Data[:torn]
		fs.apply(o)
	}
	fs.Ops = nil
	return fs
}

// Clone copies the file system state (no open files, no locks).
func (fs *FS) Clone() *FS {
	c := NewFS()
	c.nextIno = fs.nextIno
	m := map[*inode]*inode{}
	for p, n := range fs.names {
		k, ok := m[n]
		if !ok {
			k = &inode{ino: n.ino, dir: n.dir, data: append([]byte(nil), n.data...), mod: n.mod, names: n.names, path: n.path}
			m[n] = k
			if !k.dir {
				c.inos[k.ino] = k
			}
		}
		c.names[p] = k
	}
	return c
}

// Apply applies one mutation; if torn>=0 it is a write of which only the first torn bytes are stored.
func (fs *FS) Apply(o Op, torn int) {
	if torn >= 0 {
		o.Data = o.Data[:torn]
	}
	fs.apply(o)
}

// Tears lists the lengths to which a write may be cut by a crash: at sector boundaries when it overwrites, anywhere when it appends.
func (fs *FS) Tears(o Op) []int {
	if o.Kind != "write" || len(o.Data) < 2 {
		return nil
	}
	n := fs.inos[o.Ino]
	l := len(o.Data)
	if n != nil && o.Off >= int64(len(n.data)) {
		if l == 2 {
			return []int{1}
		}
		return []int{1, l / 2, l - 1}
	}
	var out []int
	for b := (o.Off/512 + 1) * 512; b < o.Off+int64(l); b += 512 {
		out = append(out, int(b-o.Off))
	}
	if len(out) > 4 {
		out = []int{out[0], out[len(out)/3], out[2*len(out)/3], out[len(out)-1]}
	}
	return out
}

func (fs *FS) reset(w *World) {
	fs.w = w
	fs.fds = map[int]*VFile{}
	for _, n := range fs.names {
		n.lock, n.shared = nil, nil
	}
}

func (fs *FS) apply(o Op) {
	switch o.Kind {
	case "mkdir":
		fs.names[o.Path] = &inode{dir: true, mod: o.Time, path: o.Path}
	case "create":
		n := &inode{ino: o.Ino, mod: o.Time, names: 1, path: o.Path}
		if o.Ino >= fs.nextIno {
			fs.nextIno = o.Ino + 1
		}
		fs.inos[o.Ino] = n
		if old := fs.names[o.Path]; old != nil {
			old.names--
		}
		fs.names[o.Path] = n
	case "write":
		n := fs.inos[o.Ino]
		if n == nil {
			return
		}
		n.mod = o.Time
		if len(o.Data) == 0 {
			return
		}
		end := o.Off + int64(len(o.Data))
		n.grow(end)
		copy(n.data[o.Off:], o.Data)
	case "trunc":
		n := fs.inos[o.Ino]
		if n == nil {
			return
		}
		n.mod = o.Time
		if o.Size <= int64(len(n.data)) {
			n.data = n.data[:o.Size:o.Size]
		} else {
			n.grow(o.Size)
		}
	case "rename":
		n := fs.names[o.Path]
		if n == nil {
			return
		}
		if old := fs.names[o.To]; old != nil {
			old.names--
		}
		n.path = o.To
		fs.names[o.To] = n
		delete(fs.names, o.Path)
	case "remove":
		if n := fs.names[o.Path]; n != nil {
			n.names--
			delete(fs.names, o.Path)
		}
	}
}

func (n *inode) grow(size int64) {
	if int64(len(n.data)) >= size {
		return
	}
	if int64(cap(n.data)) >= size {
		old := len(n.data)
		n.data = n.data[:size]
		for i := old; i < len(n.data); i++ {
			n.data[i] = 0
		}
		return
	}
	nd := make([]byte, size, size+size/2)
	copy(nd, n.data)
	n.data = nd
}

func (fs *FS) do(o Op) {
	t := BaseTime
	if fs.w != nil {
		t = fs.w.now
	}
	o.Time = t.Truncate(fs.Gran)
	fs.apply(o)
	if !fs.NoRecord {
		fs.Ops = append(fs.Ops, o)
	}
}

// SetTime changes the modification time of a file, for harness fixtures.
func (fs *FS) SetTime(p string, t time.Time) {
	if n := fs.names[clean(p)]; n != nil {
		n.mod = t
	}
}

// Files lists the paths of regular files.
func (fs *FS) Files() []string {
	var out []string
	for p, n := range fs.names {
		if !n.dir {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// Content returns the content of a file, nil if absent.
func (fs *FS) Content(p string) []byte {
	if n := fs.names[clean(p)]; n != nil && !n.dir {
		return n.data
	}
	return nil
}

// SetContent replaces the content of an existing or new file, for harness fixtures.
func (fs *FS) SetContent(p string, data []byte) {
	p = clean(p)
	n := fs.names[p]
	if n == nil {
		n = &inode{ino: fs.nextIno, names: 1, path: p, mod: BaseTime}
		fs.nextIno++
		fs.inos[n.ino] = n
		fs.names[p] = n
	}
	n.data = append([]byte(nil), data...)
}

// RemoveFile removes a file, for harness fixtures.
func (fs *FS) RemoveFile(p string) { delete(fs.names, clean(p)) }

// MkdirFixture makes a directory path, for harness fixtures.
func (fs *FS) MkdirFixture(p string) {
	p = clean(p)
	for p != "/" {
		if fs.names[p] == nil {
			fs.names[p] = &inode{dir: true, path: p, mod: BaseTime}
		}
		p = path.Dir(p)
	}
}

func clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/cwd/" + p
	}
	return path.Clean(p)
}

func cur() *FS {
	if W == nil {
		panic("vrt: file operation outside a world")
	}
	return W.FS
}

// enter is the choice point and fault point of an operation.
func (fs *FS) enter(name, p string, yield bool) error {
	w := fs.w
	if w != nil && !w.aborting && yield {
		w.Yield("fs." + name)
	}
	if w != nil && w.aborting {
		return &os.PathError{Op: name, Path: p, Err: syscall.EIO}
	}
	fs.Calls++
	if fs.OnCall != nil {
		fs.OnCall(fs.Calls, name+" "+p)
	}
	n := fs.FaultN
	if n == 0 {
		n = 1
	}
	if fs.FaultAt > 0 && fs.Calls >= fs.FaultAt && fs.Calls < fs.FaultAt+n {
		fs.Faulted = append(fs.Faulted, name+" "+p)
		e := fs.FaultErr
		if e == nil {
			e = syscall.EIO
		}
		return &os.PathError{Op: name, Path: p, Err: e}
	}
	return nil
}

func perr(op, p string, e error) error { return &os.PathError{Op: op, Path: p, Err: e} }

// VFile is an open file.
type VFile struct {
	fs     *FS
	n      *inode
	name   string
	pos    int64
	fd     int
	closed bool
	flag   int
	dirPos int
}

type info struct {
	name string
	n    *inode
	size int64
	mod  time.Time
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) ModTime() time.Time { return i.mod }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() interface{}   { return nil }
func (i info) Mode() os.FileMode {
	if i.n.dir {
		return os.ModeDir | 0777
	}
	return 0666
}
func (i info) Type() os.FileMode          { return i.Mode().Type() }
func (i info) Info() (os.FileInfo, error) { return i, nil }

func mkinfo(p string, n *inode) info {
	return info{name: path.Base(p), n: n, size: int64(len(n.data)), mod: n.mod}
}

// OpenFile is os.OpenFile.
func OpenFile(name string, flag int, perm os.FileMode) (*VFile, error) {
	fs := cur()
	p := clean(name)
	if err := fs.enter("open", name, true); err != nil {
		return nil, err
	}
	n := fs.names[p]
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		d := fs.names[path.Dir(p)]
		if d == nil || !d.dir {
			return nil, perr("open", name, syscall.ENOENT)
		}
		fs.do(Op{Kind: "create", Path: p, Ino: fs.nextIno})
		n = fs.names[p]
	} else {
		if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 && len(n.data) > 0 {
			fs.do(Op{Kind: "trunc", Path: p, Ino: n.ino, Size: 0})
		}
	}
	f := &VFile{fs: fs, n: n, name: name, fd: fs.nextFd, flag: flag}
	fs.fds[f.fd] = f
	fs.nextFd++
	return f, nil
}

// Open is os.Open.
func Open(name string) (*VFile, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create is os.Create.
func Create(name string) (*VFile, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// Mkdir is os.Mkdir.
func Mkdir(name string, perm os.FileMode) error {
	fs := cur()
	p := clean(name)
	if err := fs.enter("mkdir", name, true); err != nil {
		return err
	}
	if fs.names[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if d := fs.names[path.Dir(p)]; d == nil || !d.dir {
		return perr("mkdir", name, syscall.ENOENT)
	}
	fs.do(Op{Kind: "mkdir", Path: p})
	return nil
}

// MkdirAll is os.MkdirAll.
func MkdirAll(name string, perm os.FileMode) error {
	fs := cur()
	p := clean(name)
	if err := fs.enter("mkdir", name, true); err != nil {
		return err
	}
	var todo []string
	for q := p; ; q = path.Dir(q) {
		if n := fs.names[q]; n != nil {
			if !n.dir {
				return perr("mkdir", q, syscall.ENOTDIR)
			}
			break
		}
		todo = append(todo, q)
	}
	for i := len(todo) - 1; i >= 0; i-- {
		fs.do(Op{Kind: "mkdir", Path: todo[i]})
	}
	return nil
}

// Remove is os.Remove.
func Remove(name string) error {
	fs := cur()
	p := clean(name)
	if err := fs.enter("remove", name, true); err != nil {
		return err
	}
	n := fs.names[p]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.dir {
		for q := range fs.names {
			if q != p && path.Dir(q) == p {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
		}
	}
	fs.do(Op{Kind: "remove", Path: p})
	return nil
}

// RemoveAll is os.RemoveAll.
func RemoveAll(name string) error {
	fs := cur()
	p := clean(name)
	if err := fs.enter("remove", name, true); err != nil {
		return err
	}
	var all []string
	for q := range fs.names {
		if q == p || strings.HasPrefix(q, p+"/") {
			all = append(all, q)
		}
	}
	sort.Sort(sort.Reverse(sort.StringSlice(all)))
	for _, q := range all {
		fs.do(Op{Kind: "remove", Path: q})
	}
	return nil
}

// Rename is os.Rename.
func Rename(from, to string) error {
	fs := cur()
	p, q := clean(from), clean(to)
	if err := fs.enter("rename", from, true); err != nil {
		return err
	}
	if fs.names[p] == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	fs.do(Op{Kind: "rename", Path: p, To: q})
	return nil
}

// Stat is os.Stat.
func Stat(name string) (os.FileInfo, error) {
	fs := cur()
	p := clean(name)
	if err := fs.enter("stat", name, true); err != nil {
		return nil, err
	}
	n := fs.names[p]
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return mkinfo(p, n), nil
}

// Getwd is os.Getwd.
func Getwd() (string, error) { return "/cwd", nil }

// ReadDirInfo is ioutil.ReadDir.
func ReadDirInfo(name string) ([]os.FileInfo, error) {
	fs := cur()
	p := clean(name)
	if err := fs.enter("readdir", name, true); err != nil {
		return nil, err
	}
	n := fs.names[p]
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !n.dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	var ps []string
	for q := range fs.names {
		if q != p && path.Dir(q) == p {
			ps = append(ps, q)
		}
	}
	sort.Strings(ps)
	var out []os.FileInfo
	for _, q := range ps {
		out = append(out, mkinfo(q, fs.names[q]))
	}
	return out, nil
}

// ReadDirEntries is os.ReadDir.
func ReadDirEntries(name string) ([]os.DirEntry, error) {
	is, err := ReadDirInfo(name)
	if err != nil {
		return nil, err
	}
	var out []os.DirEntry
	for _, i := range is {
		out = append(out, i.(info))
	}
	return out, nil
}

// ReadFile is os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return append([]byte{}, f.n.data...), nil
}

// WriteFile is os.WriteFile.
func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	if _, err := f.Write(data); err != nil {
		f.Close()
		return err
	}
	return f.Close()
}

// TruncatePath is os.Truncate.
func TruncatePath(name string, size int64) error {
	f, err := OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func (f *VFile) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

// Name is (*os.File).Name.
func (f *VFile) Name() string { return f.name }

// Fd is (*os.File).Fd.
func (f *VFile) Fd() uintptr {
	if f == nil || f.closed {
		return ^uintptr(0)
	}
	return uintptr(f.fd)
}

// Close is (*os.File).Close.
func (f *VFile) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.fs.w != nil && f.fs.w.aborting {
		return nil
	}
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	// a failing close releases the descriptor all the same
	err := f.fs.enter("close", f.name, true)
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	f.closed = true
	delete(f.fs.fds, f.fd)
	f.unlock()
	return err
}

// Sync is (*os.File).Sync.
func (f *VFile) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	return f.fs.enter("sync", f.name, true)
}

// Stat is (*os.File).Stat.
func (f *VFile) Stat() (os.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	// fstat of an open descriptor does not fail in practice: no fault point
	if w := f.fs.w; w != nil && !w.aborting {
		w.Yield("fs.fstat")
	}
	return mkinfo(f.name, f.n), nil
}

// Truncate is (*os.File).Truncate.
func (f *VFile) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if size < 0 {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	if err := f.fs.enter("truncate", f.name, true); err != nil {
		return err
	}
	if int64(len(f.n.data)) != size {
		f.fs.do(Op{Kind: "trunc", Path: f.n.path, Ino: f.n.ino, Size: size})
	}
	return nil
}

// WriteAt is (*os.File).WriteAt.
func (f *VFile) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("writeat", f.name, fmt.Errorf("negative offset"))
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if err := f.fs.enter("write", f.name, true); err != nil {
		if f.fs.Short && len(b) > 1 && !(f.fs.w != nil && f.fs.w.aborting) {
			h := len(b) / 2
			f.fs.do(Op{Kind: "write", Path: f.n.path, Ino: f.n.ino, Off: off, Data: append([]byte(nil), b[:h]...)})
			return h, err
		}
		return 0, err
	}
	if len(b) > 0 {
		f.fs.do(Op{Kind: "write", Path: f.n.path, Ino: f.n.ino, Off: off, Data: append([]byte(nil), b...)})
	}
	return len(b), nil
}

// Write is (*os.File).Write.
func (f *VFile) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&os.O_APPEND != 0 {
		f.pos = int64(len(f.n.data))
	}
	n, err := f.WriteAt(b, f.pos)
	f.pos += int64(n)
	return n, err
}

// WriteString is (*os.File).WriteString.
func (f *VFile) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// ReadAt is (*os.File).ReadAt.
func (f *VFile) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.name, fmt.Errorf("negative offset"))
	}
	if err := f.fs.enter("read", f.name, true); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

// Read is (*os.File).Read.
func (f *VFile) Read(b []byte) (int, error) {
	n, err := f.ReadAt(b, f.pos)
	f.pos += int64(n)
	if n > 0 && err == io.EOF {
		err = nil
	}
	return n, err
}

// Seek is (*os.File).Seek.
func (f *VFile) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
		f.pos = off
	case io.SeekCurrent:
		f.pos += off
	case io.SeekEnd:
		f.pos = int64(len(f.n.data)) + off
	}
	return f.pos, nil
}

// Readdir is (*os.File).Readdir; all entries are given at once.
func (f *VFile) Readdir(n int) ([]os.FileInfo, error) {
	is, err := ReadDirInfo(f.name)
	if err != nil {
		return nil, err
	}
	if f.pos > int64(len(is)) {
		f.pos = int64(len(is))
	}
	is = is[f.pos:]
	if n > 0 {
		if len(is) == 0 {
			return nil, io.EOF
		}
		if len(is) > n {
			is = is[:n]
		}
	}
	f.pos += int64(len(is))
	return is, nil
}

// Readdirnames is (*os.File).Readdirnames.
func (f *VFile) Readdirnames(n int) ([]string, error) {
	is, err := f.Readdir(n)
	var out []string
	for _, i := range is {
		out = append(out, i.Name())
	}
	return out, err
}

// ReadDir is (*os.File).ReadDir.
func (f *VFile) ReadDir(n int) ([]os.DirEntry, error) {
	is, err := f.Readdir(n)
	var out []os.DirEntry
	for _, i := range is {
		out = append(out, i.(info))
	}
	return out, err
}

// Chmod does nothing: there are no permissions.
func (f *VFile) Chmod(os.FileMode) error { return f.check("chmod") }

// SetDeadline is refused as for a file.
func (f *VFile) SetDeadline(time.Time) error { return os.ErrNoDeadline }

// CreateTemp is os.CreateTemp.
func CreateTemp(dir, pattern string) (*VFile, error) {
	if dir == "" {
		dir = "/tmp"
		MkdirAll(dir, 0777)
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for i := 1; ; i++ {
		f, err := OpenFile(path.Join(dir, pre+strconv.Itoa(i)+suf), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if err == nil || !os.IsExist(err) {
			return f, err
		}
	}
}

// MkdirTemp is os.MkdirTemp.
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
		MkdirAll(dir, 0777)
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for i := 1; ; i++ {
		p := path.Join(dir, pre+strconv.Itoa(i)+suf)
		err := Mkdir(p, 0700)
		if err == nil || !os.IsExist(err) {
			return p, err
		}
	}
}

// Flock is syscall.Flock.
func Flock(fd int, how int) error {
	fs := cur()
	f := fs.fds[fd]
	if f == nil {
		return syscall.EBADF
	}
	if err := fs.enter("flock", f.name, true); err != nil {
		return err.(*os.PathError).Err
	}
	n := f.n
	if how&syscall.LOCK_UN != 0 {
		f.unlock()
		return nil
	}
	ex := how&syscall.LOCK_EX != 0
	busy := func() bool {
		if n.lock != nil && n.lock != f {
			return true
		}
		if !ex {
			return false
		}
		for h := range n.shared {
			if h != f {
				return true
			}
		}
		return false
	}
	for busy() {
		if how&syscall.LOCK_NB != 0 {
			return syscall.EWOULDBLOCK
		}
		fs.w.Block("flock", func() bool { return !busy() })
	}
	f.unlock()
	if ex {
		n.lock = f
	} else {
		if n.shared == nil {
			n.shared = map[*VFile]bool{}
		}
		n.shared[f] = true
	}
	return nil
}

func (f *VFile) unlock() {
	if f.n.lock == f {
		f.n.lock = nil
	}
	delete(f.n.shared, f)
}
