// Package os is an in-memory file system with a volatile and a durable state, error injection
// and crash semantics, plus the process environment.
package os

import (
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifsim/simrt"
)

type inode struct {
	id     int
	dir    bool
	data   []byte
	mode   fs.FileMode
	mtime  int64 // wall ns
	synced []byte
	dirty  bool
	ents   map[string]*inode
	nlink  int
}

type jop struct {
	desc string
	undo func()
}

// FaultFn decides the fate of the n-th operation op on path: an errno (0: none), the fraction of
// a write that is done before the error, and a stall.
type FaultFn func(op, p string, n int) (e syscall.Errno, part float64, stall int64)

type Disk struct {
	Few, FewSeed, fewN uint64
	root     *inode
	nid      int
	journal  []jop
	Fault    FaultFn
	OnOp     func(op, p string, data []byte)
	n        int
	lastMono int64
	lastM    int64
	Tick     int64 // mtime granularity in ns
	Split    *simrt.Rng
	Ops      map[string]int
	Hits     map[string]int
	cwd      string
}

var D *Disk

func NewDisk(seed uint64) *Disk {
	d := &Disk{Tick: 1, Split: simrt.NewRng(seed), Ops: map[string]int{}, Hits: map[string]int{}, cwd: "/app"}
	d.root = d.node(true, 0755)
	D = d
	for _, p := range []string{"/tmp", "/app", "/etc"} {
		d.mkdirAll(p)
	}
	d.journal = nil
	return d
}

func (d *Disk) node(dir bool, mode fs.FileMode) *inode {
	d.nid++
	n := &inode{id: d.nid, dir: dir, mode: mode, nlink: 1}
	if dir {
		n.ents = map[string]*inode{}
	}
	n.mtime = d.stamp()
	return n
}

func (d *Disk) stamp() int64 {
	if simrt.S == nil {
		return 0
	}
	m := simrt.Now()
	w := simrt.Wall()
	if m == d.lastMono && d.lastM != 0 {
		d.lastM++ // later within the same simulated instant
	} else {
		d.lastM = w
	}
	d.lastMono = m
	return d.lastM / d.Tick * d.Tick
}

func (d *Disk) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = d.cwd + "/" + p
	}
	return path.Clean(p)
}

func (d *Disk) walk(p string) (*inode, syscall.Errno) {
	p = d.abs(p)
	n := d.root
	if p == "/" {
		return n, 0
	}
	for _, c := range strings.Split(p[1:], "/") {
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		x := n.ents[c]
		if x == nil {
			return nil, syscall.ENOENT
		}
		n = x
	}
	return n, 0
}

func (d *Disk) parent(p string) (*inode, string, syscall.Errno) {
	p = d.abs(p)
	dir, base := path.Split(p)
	n, e := d.walk(dir)
	if e != 0 {
		return nil, "", e
	}
	if !n.dir {
		return nil, "", syscall.ENOTDIR
	}
	if len(base) > 255 {
		return nil, "", syscall.ENAMETOOLONG
	}
	return n, base, 0
}

func (d *Disk) mkdirAll(p string) {
	p = d.abs(p)
	n := d.root
	for _, c := range strings.Split(p[1:], "/") {
		if c == "" {
			continue
		}
		x := n.ents[c]
		if x == nil {
			x = d.node(true, 0755)
			n.ents[c] = x
		}
		n = x
	}
}

func (d *Disk) log(desc string, undo func()) { d.journal = append(d.journal, jop{desc, undo}) }
func (d *Disk) commit()                      { d.journal = nil }

// Crash applies power-loss semantics: a suffix of the metadata operations since the last commit
// is lost, and data never synced is lost, kept or torn.
func (d *Disk) Crash(r *simrt.Rng) {
	keep := r.N(len(d.journal) + 1)
	if r.P(0.3) {
		keep = len(d.journal)
	}
	for i := len(d.journal) - 1; i >= keep; i-- {
		d.journal[i].undo()
	}
	d.journal = nil
	var rec func(n *inode)
	rec = func(n *inode) {
		if !n.dir {
			if n.dirty {
				switch r.N(5) {
				case 0: // as it was at the last sync
					n.data = append([]byte(nil), n.synced...)
				case 1: // length updated, data not: zeroes in place of a lost block
					k := r.N(len(n.data) + 1)
					nd := append([]byte(nil), n.data...)
					for i := k; i < len(nd); i++ {
						nd[i] = 0
					}
					n.data = nd
				case 2: // a prefix
					n.data = append([]byte(nil), n.data[:r.N(len(n.data)+1)]...)
				case 3: // nothing
					n.data = nil
				default: // everything
				}
				n.dirty = false
				n.synced = append([]byte(nil), n.data...)
			}
			return
		}
		for _, k := range sortedNames(n) {
			rec(n.ents[k])
		}
	}
	rec(d.root)
}

func sortedNames(n *inode) []string {
	ks := make([]string, 0, len(n.ents))
	for k := range n.ents {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- harness-side access (atomic, no faults, durable)

func (d *Disk) HWrite(p string, data []byte) {
	defer d.commit()
	d.mkdirAll(path.Dir(d.abs(p)))
	par, base, _ := d.parent(p)
	n := par.ents[base]
	if n == nil {
		n = d.node(false, 0644)
		par.ents[base] = n
	}
	n.data = append([]byte(nil), data...)
	n.synced = append([]byte(nil), data...)
	n.dirty = false
	n.mtime = d.stamp()
}

// HReplace renames a new file into place (new inode), with the given mtime (0: now).
func (d *Disk) HReplace(p string, data []byte, mtime int64) {
	defer d.commit()
	d.mkdirAll(path.Dir(d.abs(p)))
	par, base, _ := d.parent(p)
	n := d.node(false, 0644)
	n.data = append([]byte(nil), data...)
	n.synced = append([]byte(nil), data...)
	if mtime != 0 {
		n.mtime = mtime
	}
	par.ents[base] = n
}
func (d *Disk) HRead(p string) ([]byte, bool) {
	n, e := d.walk(p)
	if e != 0 || n.dir {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}
func (d *Disk) HMtime(p string) int64 {
	n, e := d.walk(p)
	if e != 0 {
		return 0
	}
	return n.mtime
}
func (d *Disk) HRemove(p string) {
	defer d.commit()
	par, base, e := d.parent(p)
	if e == 0 {
		delete(par.ents, base)
	}
}
func (d *Disk) HMkdir(p string) { d.mkdirAll(p) }
func (d *Disk) HList(p string) []string {
	n, e := d.walk(p)
	if e != 0 || !n.dir {
		return nil
	}
	return sortedNames(n)
}
func (d *Disk) HIsDir(p string) bool { n, e := d.walk(p); return e == 0 && n.dir }

// HTree lists every file and directory below p.
func (d *Disk) HTree(p string) []string {
	var out []string
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		for _, k := range sortedNames(n) {
			c := n.ents[k]
			q := path.Join(p, k)
			if c.dir {
				out = append(out, q+"/")
				rec(q, c)
			} else {
				out = append(out, q)
			}
		}
	}
	n, e := d.walk(p)
	if e == 0 && n.dir {
		rec(p, n)
	}
	return out
}

// ---- system-call layer

func (d *Disk) op(op, p string) (syscall.Errno, float64) {
	simrt.Y(0)
	d.n++
	d.Ops[op]++
	if d.Fault != nil {
		e, part, stall := d.Fault(op, d.abs(p), d.n)
		if stall > 0 {
			d.Hits["fs_stall"]++
			simrt.Sleep(stall)
		}
		if e != 0 {
			d.Hits["fs_"+op+"_"+errName(e)]++
			return e, part
		}
	}
	return 0, 0
}

func errName(e syscall.Errno) string {
	switch e {
	case syscall.ENOSPC:
		return "ENOSPC"
	case syscall.EIO:
		return "EIO"
	case syscall.EACCES:
		return "EACCES"
	case syscall.EMFILE:
		return "EMFILE"
	}
	return "err"
}

func perr(op, p string, e syscall.Errno) error { return &fs.PathError{Op: op, Path: p, Err: e} }

type fileInfo struct {
	name  string
	size  int64
	mode  fs.FileMode
	mtime int64
	n     *inode
}

func (f *fileInfo) Name() string               { return f.name }
func (f *fileInfo) Size() int64                { return f.size }
func (f *fileInfo) Mode() fs.FileMode          { return f.mode }
func (f *fileInfo) ModTime() time.Time         { return time.Unix(f.mtime/1e9, f.mtime%1e9) }
func (f *fileInfo) IsDir() bool                { return f.mode.IsDir() }
func (f *fileInfo) Sys() any                   { return nil }
func (f *fileInfo) Type() fs.FileMode          { return f.mode.Type() }
func (f *fileInfo) Info() (fs.FileInfo, error) { return f, nil }

func info(name string, n *inode) *fileInfo {
	m := n.mode
	sz := int64(len(n.data))
	if n.dir {
		m |= fs.ModeDir
		sz = 4096
	}
	return &fileInfo{name: name, size: sz, mode: m, mtime: n.mtime, n: n}
}

// dirent resolves its info lazily, like the real one: the file may be gone by then.
type dirent struct {
	dir  string
	name string
	isd  bool
}

func (e *dirent) Name() string { return e.name }
func (e *dirent) IsDir() bool  { return e.isd }
func (e *dirent) Type() fs.FileMode {
	if e.isd {
		return fs.ModeDir
	}
	return 0
}
func (e *dirent) Info() (fs.FileInfo, error) { return Lstat(path.Join(e.dir, e.name)) }
func (e *dirent) String() string             { return fs.FormatDirEntry(e) }

func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(*fileInfo)
	y, ok2 := b.(*fileInfo)
	return ok1 && ok2 && x.n == y.n
}

func Stat(name string) (fs.FileInfo, error) {
	if e, _ := D.op("stat", name); e != 0 {
		return nil, perr("stat", name, e)
	}
	n, e := D.walk(name)
	if e != 0 {
		return nil, perr("stat", name, e)
	}
	return info(path.Base(D.abs(name)), n), nil
}
func Lstat(name string) (fs.FileInfo, error) {
	if e, _ := D.op("lstat", name); e != 0 {
		return nil, perr("lstat", name, e)
	}
	n, e := D.walk(name)
	if e != 0 {
		return nil, perr("lstat", name, e)
	}
	return info(path.Base(D.abs(name)), n), nil
}

func Mkdir(name string, perm fs.FileMode) error {
	if e, _ := D.op("mkdir", name); e != 0 {
		return perr("mkdir", name, e)
	}
	par, base, e := D.parent(name)
	if e != 0 {
		return perr("mkdir", name, e)
	}
	if base == "" || par.ents[base] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	par.ents[base] = D.node(true, perm)
	D.log("mkdir "+name, func() { delete(par.ents, base) })
	return nil
}
func MkdirAll(p string, perm fs.FileMode) error {
	n, e := D.walk(p)
	if e == 0 {
		if n.dir {
			return nil
		}
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	a := D.abs(p)
	if a == "/" {
		return nil
	}
	if err := MkdirAll(path.Dir(a), perm); err != nil {
		return err
	}
	if err := Mkdir(a, perm); err != nil {
		if n, e := D.walk(a); e == 0 && n.dir {
			return nil
		}
		return err
	}
	return nil
}

func Remove(name string) error {
	if e, _ := D.op("remove", name); e != 0 {
		return perr("remove", name, e)
	}
	par, base, e := D.parent(name)
	if e != 0 {
		return perr("remove", name, e)
	}
	n := par.ents[base]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.dir && len(n.ents) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	delete(par.ents, base)
	D.log("unlink "+name, func() { par.ents[base] = n })
	if D.OnOp != nil {
		D.OnOp("remove", D.abs(name), nil)
	}
	return nil
}

func RemoveAll(name string) error {
	n, e := D.walk(name)
	if e != 0 {
		return nil
	}
	if n.dir {
		for _, k := range sortedNames(n) {
			if err := RemoveAll(path.Join(name, k)); err != nil {
				return err
			}
		}
	}
	return Remove(name)
}

// onTmp tells if the file is under /tmp, which is a file system of its own here, as on many a host.
func onTmp(name string) bool { return strings.HasPrefix(name, "/tmp/") }

func Rename(from, to string) error {
	lerr := func(e syscall.Errno) error { return &LinkError{Op: "rename", Old: from, New: to, Err: e} }
	if e, _ := D.op("rename", to); e != 0 {
		return lerr(e)
	}
	fp, fb, e := D.parent(from)
	if e != 0 {
		return lerr(e)
	}
	tp, tb, e := D.parent(to)
	if e != 0 {
		return lerr(e)
	}
	n := fp.ents[fb]
	if n == nil {
		return lerr(syscall.ENOENT)
	}
	if onTmp(from) != onTmp(to) {
		return lerr(syscall.EXDEV)
	}
	old := tp.ents[tb]
	if old != nil && old.dir && !n.dir {
		return lerr(syscall.EEXIST)
	}
	if old == n {
		return nil
	}
	delete(fp.ents, fb)
	tp.ents[tb] = n
	D.log("rename "+from+" "+to, func() {
		if old != nil {
			tp.ents[tb] = old
		} else {
			delete(tp.ents, tb)
		}
		fp.ents[fb] = n
	})
	if D.OnOp != nil {
		D.OnOp("rename", D.abs(to), n.data)
	}
	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}
func Chmod(name string, m fs.FileMode) error {
	n, e := D.walk(name)
	if e != 0 {
		return perr("chmod", name, e)
	}
	n.mode = m
	return nil
}
func Chtimes(name string, a, m time.Time) error {
	n, e := D.walk(name)
	if e != 0 {
		return perr("chtimes", name, e)
	}
	n.mtime = m.UnixNano()
	return nil
}
func Chdir(p string) error {
	n, e := D.walk(p)
	if e != 0 || !n.dir {
		return perr("chdir", p, syscall.ENOENT)
	}
	D.cwd = D.abs(p)
	return nil
}

const (
	O_RDONLY = syscall.O_RDONLY
	O_WRONLY = syscall.O_WRONLY
	O_RDWR   = syscall.O_RDWR
	O_APPEND = syscall.O_APPEND
	O_CREATE = syscall.O_CREAT
	O_EXCL   = syscall.O_EXCL
	O_SYNC   = syscall.O_SYNC
	O_TRUNC  = syscall.O_TRUNC
)

type LinkError = struct_LinkError

// File is an open file of the simulated file system, or a standard stream.
type File struct {
	name   string
	n      *inode
	off    int64
	flag   int
	closed bool
	std    int // 1 stdin, 2 stdout, 3 stderr
	lst    []string
	lpos   int
	listed bool
}

var (
	Stdin  = &File{name: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", std: 3}
)

// StdFault makes writes to stdout/stderr fail (closed pipe, full disk).
var StdFault func() error
var OpenFiles int

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	if e, _ := D.op("open", name); e != 0 {
		return nil, perr("open", name, e)
	}
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	n, e := D.walk(name)
	if e == syscall.ENOENT && flag&O_CREATE != 0 {
		par, base, e2 := D.parent(name)
		if e2 != 0 {
			return nil, perr("open", name, e2)
		}
		if base == "" {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if ce, _ := D.op("create", name); ce != 0 {
			return nil, perr("open", name, ce)
		}
		if x := par.ents[base]; x != nil { // created meanwhile
			if flag&O_EXCL != 0 {
				return nil, perr("open", name, syscall.EEXIST)
			}
			n = x
		} else {
			n = D.node(false, perm)
			par.ents[base] = n
			D.log("create "+name, func() { delete(par.ents, base) })
		}
	} else if e != 0 {
		return nil, perr("open", name, e)
	} else if flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if n.dir && flag&(O_WRONLY|O_RDWR) != 0 {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if !n.dir && flag&O_TRUNC != 0 && len(n.data) > 0 {
		n.data = nil
		n.dirty = true
		n.mtime = D.stamp()
	}
	OpenFiles++
	f := &File{name: name, n: n, flag: flag}
	if D.OnOp != nil {
		D.OnOp("open", D.abs(name), nil)
	}
	return f, nil
}
func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) chk(op string) error {
	if f == nil {
		return syscall.EINVAL
	}
	if f.closed {
		return &fs.PathError{Op: op, Path: f.name, Err: fs.ErrClosed}
	}
	return nil
}

func (f *File) Read(p []byte) (int, error) {
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		return 0, io.EOF
	}
	if e, _ := D.op("read", f.name); e != 0 {
		return 0, perr("read", f.name, e)
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	if D.Few > 0 { // a read may give fewer bytes than asked for
		D.fewN++
		if x := simrt.Mix(D.FewSeed, D.fewN); x%100 < D.Few {
			p = p[:1+(x>>8)%uint64(len(p))]
		}
	}
	n := copy(p, f.n.data[f.off:])
	f.off += int64(n)
	return n, nil
}
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.name, syscall.EINVAL)
	}
	if e, part := D.op("read", f.name); e != 0 {
		n := 0
		if part > 0 && off < int64(len(f.n.data)) {
			n = copy(p[:int(float64(len(p))*part)], f.n.data[off:])
		}
		return n, perr("read", f.name, e)
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if off >= int64(len(f.n.data)) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, f.n.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
func (f *File) writeRaw(p []byte, off int64) {
	end := off + int64(len(p))
	// copy on write: readers of the old slice are unaffected
	nd := make([]byte, max64(end, int64(len(f.n.data))))
	copy(nd, f.n.data)
	copy(nd[off:], p)
	f.n.data = nd
	f.n.dirty = true
	f.n.mtime = D.stamp()
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
func (f *File) Write(p []byte) (int, error) {
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		simrt.Y(0)
		if StdFault != nil {
			if err := StdFault(); err != nil {
				return 0, &fs.PathError{Op: "write", Path: f.name, Err: err}
			}
		}
		return len(p), nil
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	e, part := D.op("write", f.name)
	want := p
	if e != 0 {
		want = p[:int(float64(len(p))*part)]
	}
	if f.flag&O_APPEND != 0 {
		f.off = int64(len(f.n.data))
	}
	if len(want) > 0 {
		// a write becomes visible in two pieces: other processes and goroutines may look between
		k := D.Split.N(len(want) + 1)
		if k > 0 && k < len(want) {
			f.writeRaw(want[:k], f.off)
			f.off += int64(k)
			simrt.Y(0)
			if f.closed {
				return k, &fs.PathError{Op: "write", Path: f.name, Err: fs.ErrClosed}
			}
			want2 := want[k:]
			if f.flag&O_APPEND != 0 {
				f.off = int64(len(f.n.data))
			}
			f.writeRaw(want2, f.off)
			f.off += int64(len(want2))
		} else {
			f.writeRaw(want, f.off)
			f.off += int64(len(want))
		}
	}
	if D.OnOp != nil {
		D.OnOp("write", D.abs(f.name), want)
	}
	if e != 0 {
		return len(want), perr("write", f.name, e)
	}
	return len(p), nil
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	if e, _ := D.op("write", f.name); e != 0 {
		return 0, perr("write", f.name, e)
	}
	f.writeRaw(p, off)
	return len(p), nil
}
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}
func (f *File) Seek(off int64, wh int) (int64, error) {
	if err := f.chk("seek"); err != nil {
		return 0, err
	}
	switch wh {
	case 0:
		f.off = off
	case 1:
		f.off += off
	case 2:
		f.off = int64(len(f.n.data)) + off
	}
	return f.off, nil
}
func (f *File) Close() error {
	if err := f.chk("close"); err != nil {
		return err
	}
	if f.std != 0 {
		return nil
	}
	simrt.Y(0)
	f.closed = true
	OpenFiles--
	if D.OnOp != nil {
		D.OnOp("close", D.abs(f.name), nil)
	}
	return nil
}
func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.chk("stat"); err != nil {
		return nil, err
	}
	if e, _ := D.op("stat", f.name); e != 0 {
		return nil, perr("stat", f.name, e)
	}
	return info(path.Base(D.abs(f.name)), f.n), nil
}
func (f *File) Sync() error {
	if err := f.chk("sync"); err != nil {
		return err
	}
	if f.std != 0 {
		return nil
	}
	if e, _ := D.op("sync", f.name); e != 0 {
		return perr("sync", f.name, e)
	}
	if !f.n.dir {
		f.n.synced = append([]byte(nil), f.n.data...)
		f.n.dirty = false
	}
	D.commit()
	return nil
}
func (f *File) Truncate(size int64) error {
	if err := f.chk("truncate"); err != nil {
		return err
	}
	if e, _ := D.op("truncate", f.name); e != 0 {
		return perr("truncate", f.name, e)
	}
	nd := make([]byte, size)
	copy(nd, f.n.data)
	f.n.data = nd
	f.n.dirty = true
	f.n.mtime = D.stamp()
	return nil
}
func (f *File) Chmod(m fs.FileMode) error { f.n.mode = m; return nil }
func (f *File) list() error {
	if f.listed {
		return nil
	}
	if e, _ := D.op("readdir", f.name); e != 0 {
		return perr("readdirent", f.name, e)
	}
	if !f.n.dir {
		return perr("readdirent", f.name, syscall.ENOTDIR)
	}
	f.lst = sortedNames(f.n)
	f.listed = true
	return nil
}
func (f *File) Readdirnames(n int) ([]string, error) {
	if err := f.chk("readdir"); err != nil {
		return nil, err
	}
	if err := f.list(); err != nil {
		return nil, err
	}
	rest := f.lst[f.lpos:]
	if n > 0 {
		if len(rest) == 0 {
			return nil, io.EOF
		}
		if n < len(rest) {
			rest = rest[:n]
		}
	}
	f.lpos += len(rest)
	return append([]string{}, rest...), nil
}
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	names, err := f.Readdirnames(n)
	var out []fs.FileInfo
	for _, k := range names {
		fi, e := Lstat(path.Join(D.abs(f.name), k))
		if e != nil {
			if IsNotExistErr(e) {
				continue
			}
			return out, e
		}
		out = append(out, fi)
	}
	return out, err
}
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	names, err := f.Readdirnames(n)
	var out []fs.DirEntry
	for _, k := range names {
		c := f.n.ents[k]
		out = append(out, &dirent{dir: D.abs(f.name), name: k, isd: c != nil && c.dir})
	}
	return out, err
}
func (f *File) SetDeadline(t time.Time) error { return nil }

func ReadDir(name string) ([]fs.DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.ReadDir(-1)
}
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	// like the real one: read in pieces until EOF
	var out []byte
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

var tmpSeq int

func nextTmp(dir, pattern string) string {
	tmpSeq++
	s := itoa(int(simrt.Misc().U64() % 1000000000))
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		return path.Join(dir, pattern[:i]+s+pattern[i+1:])
	}
	return path.Join(dir, pattern+s)
}
func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b []byte
	for n > 0 {
		b = append([]byte{byte('0' + n%10)}, b...)
		n /= 10
	}
	return string(b)
}
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	for i := 0; ; i++ {
		f, err := OpenFile(nextTmp(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
		if err != nil && i < 100 && isExist(err) {
			continue
		}
		return f, err
	}
}
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	p := nextTmp(dir, pattern)
	return p, Mkdir(p, 0700)
}
func isExist(err error) bool {
	pe, ok := err.(*fs.PathError)
	return ok && pe.Err == syscall.EEXIST
}
func IsNotExistErr(err error) bool {
	pe, ok := err.(*fs.PathError)
	return ok && pe.Err == syscall.ENOENT
}
