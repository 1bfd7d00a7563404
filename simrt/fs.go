package simrt

import (
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Node is a file or directory of the simulated disk.
type Node struct {
	Dir  bool
	Data []byte
	Mode fs.FileMode
	Mod  time.Time // when it was last changed by a process; zero: long ago
	Sync uint64    // happens-before token of the last write (unused without races)
}

// Mut is one change a process made to the simulated disk.
type Mut struct {
	Sys  int    // number of the system call
	Kind string // create, truncate, write, remove, rename, mkdir, chmod
	Path string
}

// FS is the simulated disk. It outlives processes.
type FS struct {
	nodes map[string]*Node
	Free  int64 // bytes left, -1: unlimited
}

// NewFS makes an empty disk with / and /work.
func NewFS() *FS {
	f := &FS{nodes: map[string]*Node{}, Free: -1}
	f.nodes["/"] = &Node{Dir: true, Mode: fs.ModeDir | 0755}
	return f
}

// Mkdir creates a directory and its parents (harness side).
func (f *FS) Mkdir(p string) {
	p = path.Clean(p)
	for p != "/" && p != "." {
		if f.nodes[p] == nil {
			f.nodes[p] = &Node{Dir: true, Mode: fs.ModeDir | 0755}
		}
		p = path.Dir(p)
	}
}

// Put stores a file (harness side).
func (f *FS) Put(p string, data []byte) {
	p = path.Clean(p)
	f.Mkdir(path.Dir(p))
	f.nodes[p] = &Node{Data: append([]byte(nil), data...), Mode: 0644}
}

// Get reads a file (harness side).
func (f *FS) Get(p string) ([]byte, bool) {
	n := f.nodes[path.Clean(p)]
	if n == nil || n.Dir {
		return nil, false
	}
	return n.Data, true
}

// IsDir reports whether a path is a directory (harness side).
func (f *FS) IsDir(p string) bool {
	n := f.nodes[path.Clean(p)]
	return n != nil && n.Dir
}

// Del removes a file (harness side).
func (f *FS) Del(p string) { delete(f.nodes, path.Clean(p)) }

// List returns all file paths, sorted.
func (f *FS) List() []string {
	var r []string
	for p, n := range f.nodes {
		if !n.Dir {
			r = append(r, p)
		}
	}
	sort.Strings(r)
	return r
}

// Clone copies the disk.
func (f *FS) Clone() *FS {
	g := &FS{nodes: map[string]*Node{}, Free: f.Free}
	for p, n := range f.nodes {
		c := *n
		c.Data = append([]byte(nil), n.Data...)
		g.nodes[p] = &c
	}
	return g
}

// Fault is one injected fault, addressed by the system call it hits.
type Fault struct {
	Kind   string `json:"kind"` // open create fstat stat read write seek close rename remove mkdir readdir truncate sync chmod
	Path   string `json:"path"`
	Occ    int    `json:"occ"`    // 1-based occurrence of (kind, path)
	Action string `json:"action"` // err, trunc, grow, crash-before, crash-mid, crash-after, stall
	Errno  string `json:"errno,omitempty"`
	Arg    int64  `json:"arg,omitempty"`
	hit    bool
}

func (f Fault) String() string {
	s := fmt.Sprintf("%s %s #%d: %s", f.Kind, f.Path, f.Occ, f.Action)
	if f.Errno != "" {
		s += " " + f.Errno
	}
	if f.Arg != 0 {
		s += fmt.Sprintf(" (%d)", f.Arg)
	}
	return s
}

// SysRec records one system call.
type SysRec struct {
	N     int
	Kind  string
	Path  string
	Occ   int
	G     int
	Step  int64
	Arg   int64
	Err   string
	Ret   int64
	Fault string
}

// Proc is the simulated process.
type Proc struct {
	FS     *FS
	Args   []string
	Env    map[string]string
	Cwd    string
	Stdout []byte
	Stderr []byte
	Stdin  []byte

	Faults     []Fault
	ShortRead  int // 0: reads return all they can; else percent of reads cut short
	ShortWrite int // percent of raw writes that take only part of the data
	Errnos     map[string]int

	Log         []SysRec
	Muts        []Mut
	occ         map[string]int
	Open        []*FD
	nfd         int
	DoubleClose []string // uses of closed handles
	Injected    map[string]int64
	Lens        map[string]int64
}

// FD is an entry of the simulated handle table.
type FD struct {
	N      int
	Path   string
	node   *Node
	pos    int64
	rd, wr bool
	app    bool
	closed bool
	wrote  int64
	dirPos int
}

var errnos = map[string]syscall.Errno{
	"EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE, "EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC,
	"EDQUOT": syscall.EDQUOT, "EROFS": syscall.EROFS, "ENOENT": syscall.ENOENT, "ENOMEM": syscall.ENOMEM,
	"ESTALE": syscall.ESTALE, "EPERM": syscall.EPERM, "ENFILE": syscall.ENFILE, "EINVAL": syscall.EINVAL,
	"EFBIG": syscall.EFBIG, "ENXIO": syscall.ENXIO, "EISDIR": syscall.EISDIR, "ENOTDIR": syscall.ENOTDIR,
	"EPIPE": syscall.EPIPE, "ELOOP": syscall.ELOOP, "EINTR": syscall.EINTR, "EBADF": syscall.EBADF,
	"ETXTBSY": syscall.ETXTBSY, "ENAMETOOLONG": syscall.ENAMETOOLONG, "ETIMEDOUT": syscall.ETIMEDOUT,
}

// Abs resolves a path of the process.
func (p *Proc) Abs(q string) string {
	if q == "" {
		return ""
	}
	if !strings.HasPrefix(q, "/") {
		q = p.Cwd + "/" + q
	}
	return path.Clean(q)
}

func (p *Proc) inject(what string) {
	if p.Injected == nil {
		p.Injected = map[string]int64{}
	}
	p.Injected[what]++
}

// sys performs a system call on the coordinator. do carries out its effect;
// it gets the fault to apply (nil: none) and returns the result.
func sys(kind, pth string, arg int64, do func(w *World, p *Proc, f *Fault) (int64, error)) (ret int64, err error) {
	call(func() {
		w := W
		p := w.Proc
		if p.occ == nil {
			p.occ = map[string]int{}
		}
		key := kind + "|" + pth
		p.occ[key]++
		rec := SysRec{N: len(p.Log) + 1, Kind: kind, Path: pth, Occ: p.occ[key], G: cur.ID, Step: w.steps, Arg: arg}
		var flt *Fault
		for i := range p.Faults {
			f := &p.Faults[i]
			if !f.hit && f.Kind == kind && f.Path == pth && f.Occ == rec.Occ {
				f.hit = true
				flt = f
				rec.Fault = f.String()
				nm := f.Action
				if f.Errno != "" {
					nm = f.Errno
				}
				p.inject(kind + ":" + nm)
				break
			}
		}
		p.Log = append(p.Log, rec)
		if flt != nil && flt.Action == "crash-before" {
			w.end("killed", 137)
			return
		}
		ret, err = do(w, p, flt)
		lr := &p.Log[len(p.Log)-1]
		lr.Ret = ret
		if err != nil {
			lr.Err = err.Error()
		}
		if flt != nil && (flt.Action == "crash-after" || flt.Action == "crash-mid") {
			w.end("killed", 137)
			return
		}
		if flt != nil && flt.Action == "stall" {
			// a stalled system call: everybody else gets to run meanwhile
			g := cur
			w.block(g, "stalled system call")
			w.addTimer(time.Duration(flt.Arg)*time.Millisecond, func(w *World) { w.ready(g) })
		}
	})
	return
}

func faultErr(f *Fault) error {
	if f != nil && f.Action == "err" {
		if e, ok := errnos[f.Errno]; ok {
			return e
		}
		return syscall.EIO
	}
	return nil
}

func (p *Proc) mut(kind, pth string) {
	p.Muts = append(p.Muts, Mut{len(p.Log), kind, pth})
}

// Open flags, as in package syscall.
const (
	oWRONLY = syscall.O_WRONLY
	oRDWR   = syscall.O_RDWR
	oCREATE = syscall.O_CREAT
	oTRUNC  = syscall.O_TRUNC
	oEXCL   = syscall.O_EXCL
	oAPPEND = syscall.O_APPEND
)

// SysOpen opens a file.
func SysOpen(name string, flag int, perm fs.FileMode) (*FD, error) {
	kind := "open"
	if flag&(oWRONLY|oRDWR|oCREATE|oTRUNC) != 0 {
		kind = "create"
		if flag&(oCREATE|oTRUNC) == 0 {
			kind = "openw"
		}
	}
	var fd *FD
	pth := absOf(name)
	_, err := sys(kind, pth, int64(flag), func(w *World, p *Proc, f *Fault) (int64, error) {
		if e := faultErr(f); e != nil {
			return -1, e
		}
		if name == "" {
			return -1, syscall.ENOENT
		}
		n := p.FS.nodes[pth]
		wr := flag&(oWRONLY|oRDWR) != 0
		if n == nil {
			if flag&oCREATE == 0 {
				return -1, p.FS.missing(pth)
			}
			d := p.FS.nodes[path.Dir(pth)]
			if d == nil {
				return -1, p.FS.missing(pth)
			}
			if !d.Dir {
				return -1, syscall.ENOTDIR
			}
			if strings.HasSuffix(name, "/") {
				return -1, syscall.EISDIR
			}
			n = &Node{Mode: perm & 0777, Mod: w.wall()}
			p.FS.nodes[pth] = n
			p.mut("create", pth)
		} else {
			if flag&oEXCL != 0 && flag&oCREATE != 0 {
				return -1, syscall.EEXIST
			}
			if n.Dir && (wr || flag&oTRUNC != 0) {
				return -1, syscall.EISDIR
			}
			if !n.Dir && strings.HasSuffix(name, "/") {
				return -1, syscall.ENOTDIR
			}
			if n.Mode&0200 == 0 && wr || n.Mode&0400 == 0 && flag&oWRONLY == 0 {
				return -1, syscall.EACCES
			}
			if flag&oTRUNC != 0 && !n.Dir {
				p.FS.release(int64(len(n.Data)))
				n.Data = nil
				n.Mod = w.wall()
				p.mut("truncate", pth)
			}
		}
		p.nfd++
		fd = &FD{N: p.nfd + 2, Path: pth, node: n, rd: flag&oWRONLY == 0, wr: wr, app: flag&oAPPEND != 0}
		p.Open = append(p.Open, fd)
		return int64(fd.N), nil
	})
	if err != nil {
		return nil, err
	}
	return fd, nil
}

func (f *FS) release(n int64) {
	if f.Free >= 0 {
		f.Free += n
	}
}

func absOf(name string) (r string) {
	if W == nil {
		return name
	}
	return W.Proc.Abs(name)
}

func (p *Proc) bad(fd *FD, op string) bool {
	if fd.closed {
		p.DoubleClose = append(p.DoubleClose, op+" "+fd.Path)
		return true
	}
	return false
}

// Read is one raw read(2).
func (fd *FD) Read(b []byte) (int, error) {
	raceWriteRange(b)
	n, err := sys("read", fd.Path, int64(len(b)), func(w *World, p *Proc, f *Fault) (int64, error) {
		n, e := fd.rawRead(w, p, f, b, fd.pos)
		if n > 0 {
			fd.pos += n
		}
		return n, e
	})
	return int(n), err
}

// ReadAt is one raw pread(2).
func (fd *FD) ReadAt(b []byte, off int64) (int, error) {
	raceWriteRange(b)
	n, err := sys("read", fd.Path, int64(len(b)), func(w *World, p *Proc, f *Fault) (int64, error) {
		return fd.rawRead(w, p, f, b, off)
	})
	return int(n), err
}

func (fd *FD) rawRead(w *World, p *Proc, f *Fault, b []byte, off int64) (int64, error) {
	if p.bad(fd, "read") {
		return 0, syscall.EBADF
	}
	if f != nil && (f.Action == "trunc" || f.Action == "grow") {
		// another process changes the file under us
		if f.Action == "trunc" && f.Arg < int64(len(fd.node.Data)) {
			fd.node.Data = fd.node.Data[:f.Arg:f.Arg]
		} else if f.Action == "grow" {
			for i := int64(0); i < f.Arg; i++ {
				fd.node.Data = append(fd.node.Data, byte(w.hashAt(uint64(i))))
			}
		}
	}
	if e := faultErr(f); e != nil {
		return 0, e
	}
	if !fd.rd {
		return 0, syscall.EBADF
	}
	if fd.node.Dir {
		return 0, syscall.EISDIR
	}
	if len(b) == 0 || off >= int64(len(fd.node.Data)) {
		return 0, nil
	}
	max := len(b)
	if f != nil && f.Action == "short" {
		max = int(f.Arg)
	} else if p.ShortRead > 0 {
		h := w.hashAt(31)
		if int(h%100) < p.ShortRead {
			sizes := []int{1, 2, 7, 49, 84, 512, 1000, 4095}
			max = sizes[int(h>>8)%len(sizes)]
			p.inject("read:short")
		}
	}
	if max < 1 {
		max = 1
	}
	if max > len(b) {
		max = len(b)
	}
	return int64(copy(b[:max], fd.node.Data[off:])), nil
}

// Write is one raw write(2).
func (fd *FD) Write(b []byte) (int, error) {
	raceReadRange(b)
	n, err := sys("write", fd.Path, int64(len(b)), func(w *World, p *Proc, f *Fault) (int64, error) {
		off := fd.pos
		if fd.app && fd.node != nil {
			off = int64(len(fd.node.Data))
		}
		n, e := fd.rawWrite(w, p, f, b, off)
		if n > 0 {
			fd.pos = off + n
		}
		return n, e
	})
	return int(n), err
}

// WriteAt is one raw pwrite(2).
func (fd *FD) WriteAt(b []byte, off int64) (int, error) {
	raceReadRange(b)
	n, err := sys("write", fd.Path, int64(len(b)), func(w *World, p *Proc, f *Fault) (int64, error) {
		return fd.rawWrite(w, p, f, b, off)
	})
	return int(n), err
}

func (fd *FD) rawWrite(w *World, p *Proc, f *Fault, b []byte, off int64) (int64, error) {
	if p.bad(fd, "write") {
		return 0, syscall.EBADF
	}
	if !fd.wr {
		return 0, syscall.EBADF
	}
	max := int64(len(b))
	var fail error
	if f != nil {
		switch f.Action {
		case "err": // part of the data may have reached the disk, the call still fails
			fail = faultErr(f)
			if f.Arg < max {
				max = f.Arg
			}
		case "crash-mid", "short":
			if f.Arg < max {
				max = f.Arg
			}
		}
	} else if p.ShortWrite > 0 {
		h := w.hashAt(37)
		if int(h%100) < p.ShortWrite && max > 1 {
			max = 1 + int64(h>>8)%(max-1)
			p.inject("write:short")
		}
	}
	if grow := off + max - int64(len(fd.node.Data)); grow > 0 && p.FS.Free >= 0 {
		if p.FS.Free == 0 && fail == nil {
			p.inject("write:disk-full")
			return 0, syscall.ENOSPC
		}
		if grow > p.FS.Free {
			max -= grow - p.FS.Free
			if max < 0 {
				max = 0
			}
			grow = p.FS.Free
		}
		p.FS.Free -= grow
	}
	if max > 0 {
		if need := off + max; need > int64(len(fd.node.Data)) {
			if need <= int64(cap(fd.node.Data)) {
				old := len(fd.node.Data)
				fd.node.Data = fd.node.Data[:need]
				for i := old; i < int(need) && i < int(off); i++ {
					fd.node.Data[i] = 0
				}
			} else {
				nd := make([]byte, need, need*2+64)
				copy(nd, fd.node.Data)
				fd.node.Data = nd
			}
		}
		copy(fd.node.Data[off:off+max], b[:max])
		fd.wrote += max
		fd.node.Mod = w.wall()
		p.mut("write", fd.Path)
	}
	if fail != nil {
		return 0, fail
	}
	return max, nil
}

// Seek is lseek(2).
func (fd *FD) Seek(off int64, whence int) (int64, error) {
	return sys("seek", fd.Path, off, func(w *World, p *Proc, f *Fault) (int64, error) {
		if p.bad(fd, "seek") {
			return 0, syscall.EBADF
		}
		if e := faultErr(f); e != nil {
			return 0, e
		}
		np := off
		switch whence {
		case 1:
			np += fd.pos
		case 2:
			np += int64(len(fd.node.Data))
		}
		if np < 0 {
			return 0, syscall.EINVAL
		}
		fd.pos = np
		fd.dirPos = 0
		return np, nil
	})
}

// Close is close(2). Like Linux it frees the handle even when it fails.
func (fd *FD) Close() error {
	_, err := sys("close", fd.Path, 0, func(w *World, p *Proc, f *Fault) (int64, error) {
		if p.bad(fd, "close") {
			return 0, syscall.EBADF
		}
		fd.closed = true
		for i, x := range p.Open {
			if x == fd {
				p.Open = append(p.Open[:i:i], p.Open[i+1:]...)
				break
			}
		}
		if e := faultErr(f); e != nil {
			if f.Arg > 0 && fd.wrote > 0 { // delayed write failed: the tail is lost
				n := f.Arg
				if n > fd.wrote {
					n = fd.wrote
				}
				if n <= int64(len(fd.node.Data)) {
					fd.node.Data = fd.node.Data[:int64(len(fd.node.Data))-n]
				}
			}
			return 0, e
		}
		return 0, nil
	})
	return err
}

// Info is the simulated fs.FileInfo.
type Info struct {
	name string
	size int64
	mode fs.FileMode
	t    time.Time
}

func (i Info) Name() string       { return i.name }
func (i Info) Size() int64        { return i.size }
func (i Info) Mode() fs.FileMode  { return i.mode }
func (i Info) ModTime() time.Time { return i.t }
func (i Info) IsDir() bool        { return i.mode.IsDir() }
func (i Info) Sys() any           { return nil }

func infoOf(w *World, n *Node, pth string) Info {
	in := Info{name: path.Base(pth), size: int64(len(n.Data)), mode: n.Mode, t: n.Mod}
	if in.t.IsZero() {
		in.t = time.Unix(900000000, 0).UTC()
	}
	if n.Dir {
		in.size = 4096
	}
	return in
}

// Stat is fstat(2).
func (fd *FD) Stat() (Info, error) {
	var in Info
	_, err := sys("fstat", fd.Path, 0, func(w *World, p *Proc, f *Fault) (int64, error) {
		if p.bad(fd, "fstat") {
			return 0, syscall.EBADF
		}
		if e := faultErr(f); e != nil {
			return 0, e
		}
		in = infoOf(w, fd.node, fd.Path)
		return in.size, nil
	})
	return in, err
}

// missing is the error for a path that does not exist.
func (f *FS) missing(pth string) error {
	for d := path.Dir(pth); d != "/" && d != "."; d = path.Dir(d) {
		if n := f.nodes[d]; n != nil && !n.Dir {
			return syscall.ENOTDIR
		}
	}
	return syscall.ENOENT
}

// SysStat is stat(2).
func SysStat(name string) (Info, error) {
	var in Info
	pth := absOf(name)
	_, err := sys("stat", pth, 0, func(w *World, p *Proc, f *Fault) (int64, error) {
		if e := faultErr(f); e != nil {
			return 0, e
		}
		n := p.FS.nodes[pth]
		if n == nil || name == "" {
			return 0, p.FS.missing(pth)
		}
		in = infoOf(w, n, pth)
		return in.size, nil
	})
	return in, err
}

// SysRemove is unlink(2)/rmdir(2).
func SysRemove(name string) error {
	pth := absOf(name)
	_, err := sys("remove", pth, 0, func(w *World, p *Proc, f *Fault) (int64, error) {
		if e := faultErr(f); e != nil {
			return 0, e
		}
		n := p.FS.nodes[pth]
		if n == nil {
			return 0, p.FS.missing(pth)
		}
		if n.Dir {
			for q := range p.FS.nodes {
				if q != pth && path.Dir(q) == pth {
					return 0, syscall.ENOTEMPTY
				}
			}
		}
		p.FS.release(int64(len(n.Data)))
		delete(p.FS.nodes, pth)
		p.mut("remove", pth)
		return 0, nil
	})
	return err
}

// SysRename is rename(2).
func SysRename(from, to string) error {
	a, b := absOf(from), absOf(to)
	_, err := sys("rename", a, 0, func(w *World, p *Proc, f *Fault) (int64, error) {
		if e := faultErr(f); e != nil {
			return 0, e
		}
		n := p.FS.nodes[a]
		if n == nil || p.FS.nodes[path.Dir(b)] == nil {
			return 0, syscall.ENOENT
		}
		if n.Dir {
			return 0, syscall.EPERM
		}
		if t := p.FS.nodes[b]; t != nil && t.Dir {
			return 0, syscall.EISDIR
		}
		delete(p.FS.nodes, a)
		p.FS.nodes[b] = n
		p.mut("rename", a)
		p.mut("rename", b)
		return 0, nil
	})
	return err
}

// SysMkdir is mkdir(2).
func SysMkdir(name string, perm fs.FileMode) error {
	pth := absOf(name)
	_, err := sys("mkdir", pth, 0, func(w *World, p *Proc, f *Fault) (int64, error) {
		if e := faultErr(f); e != nil {
			return 0, e
		}
		if p.FS.nodes[pth] != nil {
			return 0, syscall.EEXIST
		}
		if d := p.FS.nodes[path.Dir(pth)]; d == nil || !d.Dir {
			return 0, p.FS.missing(pth)
		}
		p.FS.nodes[pth] = &Node{Dir: true, Mode: fs.ModeDir | perm}
		p.mut("mkdir", pth)
		return 0, nil
	})
	return err
}

// SysTruncate is truncate(2).
func SysTruncate(name string, size int64) error {
	pth := absOf(name)
	_, err := sys("truncate", pth, size, func(w *World, p *Proc, f *Fault) (int64, error) {
		if e := faultErr(f); e != nil {
			return 0, e
		}
		n := p.FS.nodes[pth]
		if n == nil {
			return 0, p.FS.missing(pth)
		}
		return 0, truncNode(w, p, n, pth, size)
	})
	return err
}

func truncNode(w *World, p *Proc, n *Node, pth string, size int64) error {
	if n.Dir {
		return syscall.EISDIR
	}
	if size < 0 {
		return syscall.EINVAL
	}
	d := make([]byte, size)
	copy(d, n.Data)
	n.Data = d
	n.Mod = w.wall()
	p.mut("truncate", pth)
	return nil
}

// Truncate is ftruncate(2).
func (fd *FD) Truncate(size int64) error {
	_, err := sys("truncate", fd.Path, size, func(w *World, p *Proc, f *Fault) (int64, error) {
		if p.bad(fd, "truncate") {
			return 0, syscall.EBADF
		}
		if e := faultErr(f); e != nil {
			return 0, e
		}
		if !fd.wr {
			return 0, syscall.EINVAL
		}
		return 0, truncNode(w, p, fd.node, fd.Path, size)
	})
	return err
}

// Sync is fsync(2).
func (fd *FD) Sync() error {
	_, err := sys("sync", fd.Path, 0, func(w *World, p *Proc, f *Fault) (int64, error) {
		if p.bad(fd, "sync") {
			return 0, syscall.EBADF
		}
		if e := faultErr(f); e != nil {
			return 0, e
		}
		return 0, nil
	})
	return err
}

// SysChmod is chmod(2).
func SysChmod(name string, m fs.FileMode) error {
	pth := absOf(name)
	_, err := sys("chmod", pth, 0, func(w *World, p *Proc, f *Fault) (int64, error) {
		if e := faultErr(f); e != nil {
			return 0, e
		}
		n := p.FS.nodes[pth]
		if n == nil {
			return 0, p.FS.missing(pth)
		}
		n.Mode = n.Mode&fs.ModeDir | m&0777
		p.mut("chmod", pth)
		return 0, nil
	})
	return err
}

// SysReadDir lists a directory, sorted.
func SysReadDir(name string) ([]Info, error) {
	pth := absOf(name)
	var r []Info
	_, err := sys("readdir", pth, 0, func(w *World, p *Proc, f *Fault) (int64, error) {
		if e := faultErr(f); e != nil {
			return 0, e
		}
		d := p.FS.nodes[pth]
		if d == nil {
			return 0, p.FS.missing(pth)
		}
		if !d.Dir {
			return 0, syscall.ENOTDIR
		}
		var qs []string
		for q := range p.FS.nodes {
			if q != pth && path.Dir(q) == pth {
				qs = append(qs, q)
			}
		}
		sort.Strings(qs)
		for _, q := range qs {
			r = append(r, infoOf(w, p.FS.nodes[q], q))
		}
		return int64(len(r)), nil
	})
	return r, err
}

// StdWrite writes to standard output (1) or error (2).
func StdWrite(n int, b []byte) {
	if !InSim() {
		return
	}
	s := string(b)
	call(func() {
		p := W.Proc
		if n == 1 {
			p.Stdout = append(p.Stdout, s...)
		} else {
			p.Stderr = append(p.Stderr, s...)
		}
	})
}

// StdRead reads standard input.
func StdRead(b []byte) int {
	n := 0
	raceWriteRange(b)
	call(func() {
		p := W.Proc
		n = copy(b, p.Stdin)
		p.Stdin = p.Stdin[n:]
	})
	return n
}

// Args, Env and directories of the process.
func Args() (r []string) {
	if W != nil {
		r = append(r, W.Proc.Args...)
	}
	return
}
func Getenv(k string) (v string, ok bool) {
	if InSim() {
		call(func() { v, ok = W.Proc.Env[k] })
	}
	return
}
func Setenv(k, v string) {
	call(func() {
		if W.Proc.Env == nil {
			W.Proc.Env = map[string]string{}
		}
		W.Proc.Env[k] = v
	})
}
func Unsetenv(k string) { call(func() { delete(W.Proc.Env, k) }) }
func Environ() (r []string) {
	call(func() {
		for k, v := range W.Proc.Env {
			r = append(r, k+"="+v)
		}
		sort.Strings(r)
	})
	return
}
func Getwd() (s string) {
	call(func() { s = W.Proc.Cwd })
	return
}
func Chdir(name string) error {
	pth := absOf(name)
	_, err := sys("chdir", pth, 0, func(w *World, p *Proc, f *Fault) (int64, error) {
		n := p.FS.nodes[pth]
		if n == nil {
			return 0, p.FS.missing(pth)
		}
		if !n.Dir {
			return 0, syscall.ENOTDIR
		}
		p.Cwd = pth
		return 0, nil
	})
	return err
}

// Println is the println builtin.
func Println(a ...any) { builtinPrint(true, a) }

// Print is the print builtin.
func Print(a ...any) { builtinPrint(false, a) }

func builtinPrint(nl bool, a []any) {
	if !InSim() {
		return
	}
	var sb strings.Builder
	for i, x := range a {
		if i > 0 && nl {
			sb.WriteByte(' ')
		}
		switch v := x.(type) {
		case float64:
			sb.WriteString(strconv.FormatFloat(v, 'g', -1, 64))
		case float32:
			sb.WriteString(strconv.FormatFloat(float64(v), 'g', -1, 32))
		case string:
			sb.WriteString(v)
		case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, uintptr:
			fmt.Fprint(&sb, v)
		case nil:
			sb.WriteString("nil")
		default:
			sb.WriteString("(0x0)") // addresses are not reproducible
		}
	}
	if nl {
		sb.WriteByte('\n')
	}
	StdWrite(2, []byte(sb.String()))
}

// NoteBad records the use of a closed handle.
func (fd *FD) NoteBad(op string) {
	call(func() { W.Proc.DoubleClose = append(W.Proc.DoubleClose, op+" "+fd.Path) })
}

// Peek is length and hash of a file, for harness code inside a run.
func (f *FS) Peek(p string) (n int, h uint64, ok bool) {
	call(func() {
		nd := f.nodes[path.Clean(p)]
		if nd == nil {
			return
		}
		ok = true
		n, h = len(nd.Data), 14695981039346656037
		for _, b := range nd.Data {
			h = (h ^ uint64(b)) * 1099511628211
		}
	})
	return
}

// Copy is a file's content, for harness code inside a run (nil: no file).
func (f *FS) Copy(p string) (b []byte) {
	var n int
	call(func() {
		if nd := f.nodes[path.Clean(p)]; nd != nil && !nd.Dir {
			n = len(nd.Data)
		}
	})
	b = make([]byte, n)
	call(func() {
		if nd := f.nodes[path.Clean(p)]; nd != nil && !nd.Dir {
			copy(b, nd.Data)
		}
	})
	return
}

// Syscalls is the number of system calls so far, for harness code inside a run.
func Syscalls() (n int) {
	call(func() { n = len(W.Proc.Log) })
	return
}

// OpenNow lists the open files, for harness code inside a run.
func OpenNow() []string {
	var fds []*FD
	call(func() { fds = append(fds, W.Proc.Open...) })
	var r []string
	for _, f := range fds {
		r = append(r, f.Path)
	}
	return r
}
