//go:build go1.22

package simk

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"syscall"
	"unsafe"
)

// Fault is one injected event: it hits the operation with index Op of a process,
// or, when On is set, the Op-th operation (from 0) of that kind on that file.
type Fault struct {
	Op   int    `json:"op"`
	On   string `json:"on,omitempty"` // kind and path
	Kind string `json:"kind"`         // err, short, lost, crash, torncrash
	Arg  int    `json:"arg"`          // err: errno; short/torncrash: bytes done; lost: bytes lost at close
	// Sticky: later operations of the same kind on the same file fail as well.
	Sticky bool `json:"sticky,omitempty"`
}

func (f Fault) String() string {
	s := f.Kind
	if f.Kind == "err" {
		s = ErrnoName(f.Arg)
	}
	return fmt.Sprintf("%s@%d", s, f.Op)
}

// ErrnoName returns the symbolic name of the errors that are injected.
func ErrnoName(e int) string {
	switch syscall.Errno(e) {
	case syscall.EIO:
		return "EIO"
	case syscall.ENOSPC:
		return "ENOSPC"
	case syscall.EACCES:
		return "EACCES"
	case syscall.EMFILE:
		return "EMFILE"
	case syscall.EROFS:
		return "EROFS"
	case syscall.EDQUOT:
		return "EDQUOT"
	case syscall.EINTR:
		return "EINTR"
	case syscall.ENOENT:
		return "ENOENT"
	case syscall.ESTALE:
		return "ESTALE"
	case syscall.ENOMEM:
		return "ENOMEM"
	case syscall.ETXTBSY:
		return "ETXTBSY"
	case syscall.ENOTEMPTY:
		return "ENOTEMPTY"
	}
	return fmt.Sprintf("errno%d", e)
}

// Op is one recorded operation of a process.
type Op struct {
	Kind  string
	Path  string
	Size  int // bytes asked for
	Ret   int
	Err   syscall.Errno
	Fault string
	Mut   bool // it changed the disk
}

type handle struct {
	node    *inode
	path    string
	pos     int64
	read    bool
	write   bool
	app     bool
	wrote   int64
	entries []string // directory listing
	entInit bool
}

// Chunking makes reads (and writes) transparently short.
type Chunking struct {
	Mode  string `json:"mode,omitempty"` // "", one, rand, alt, tail
	Seed  uint64 `json:"seed,omitempty"`
	Max   int    `json:"max,omitempty"`
	EIntr int    `json:"eintr,omitempty"` // percent of reads and opens that are interrupted first
	Write bool   `json:"write,omitempty"` // also writes
}

// Proc is a simulated process.
type Proc struct {
	ID       uint64
	Disk     *Disk
	Cwd      string
	Faults   []Fault
	Chunk    *Chunking
	MaxOps   int
	MaxSteps uint64 // bound on function calls and loop iterations (0: none)
	Steps    uint64
	DirSeed  uint64
	Sched    *Sched
	MapSeed  uint64 // order of map iterations (0: every choice is 0)
	NameSeed uint64 // names of temporary files
	// ClockSkew (seconds) and ClockJump (seed of leaps) disturb the clock.
	ClockSkew int64
	ClockJump uint64
	Draws     uint64 // random choices the process made
	Stack     string // of a panic

	Ops         []Op
	NOps        int
	Injected    map[string]int
	Unsupported map[string]int
	Exited      bool
	ExitCode    int
	Crashed     bool
	Overrun     bool
	Panic       string
	Stderr      []byte
	OverrunAt   string // stack where the steps ran out
	stepStop    uint64
	dead        bool
	mu          sync.Mutex
	fds         map[int]*handle
	crng        uint64
	sticky      map[string]syscall.Errno
	nth         map[string]int
	maxfd       int
	extraMut    map[string]bool
}

// ExePath is where the command is installed.
const ExePath = "/usr/local/bin/modelconv"

var procs [64]*Proc
var nextFD = 1 << 20

func init() {
	syscall.SimHook = hook
	syscall.SimExit = exitHook
}

func exitHook(code int) {
	t := runtime.SimTask()
	if t == 0 || procs[t&63] == nil {
		return
	}
	p := procs[t&63]
	if !p.dead {
		p.Exited = true
		p.ExitCode = code
		p.dead = true
	}
	runtime.Goexit()
}

// OpenFiles lists the files that are still open.
func (p *Proc) OpenFiles() []string {
	var r []string
	for _, h := range p.fds {
		r = append(r, h.path)
	}
	sort.Strings(r)
	return r
}

// Mutations lists the paths that operations of the process changed.
func (p *Proc) Mutations() []string {
	m := map[string]bool{}
	var r []string
	for _, o := range p.Ops {
		if o.Mut && !m[o.Path] {
			m[o.Path] = true
			r = append(r, o.Path)
		}
	}
	for f := range p.extraMut {
		if !m[f] {
			r = append(r, f)
		}
	}
	sort.Strings(r)
	return r
}

func hook(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, syscall.Errno, bool) {
	t := runtime.SimTask()
	if t == 0 {
		return 0, 0, false
	}
	p := procs[t&63]
	if p == nil {
		return 0, 0, false
	}
	main := t>>32 == 0 // not a goroutine that the task started itself
	if p.Sched != nil && main && !p.dead && yields(trap, a1) {
		p.Sched.Yield(p)
		defer p.Sched.Yield(p)
	}
	r, e, h := p.locked(trap, a1, a2, a3, a4, a5, a6)
	return uintptr(r), e, h
}

// Y is a step of the program: a function is entered, a loop goes round.
func Y() {
	if t := runtime.SimTask(); t != 0 && t>>32 == 0 {
		if p := procs[t&63]; p != nil {
			p.Steps++
			if p.Steps >= p.stepStop {
				p.stepped()
			}
		}
	}
}

// stepped is called when something is due at the current step.
func (p *Proc) stepped() {
	if p.dead {
		p.stepStop = 1 << 63
		return
	}
	if p.MaxSteps > 0 && p.Steps > p.MaxSteps {
		p.Overrun = true
		p.OverrunAt = string(debug.Stack())
		p.die()
	}
	if p.Sched != nil {
		p.Sched.Yield(p)
	}
	p.nextStop()
}

// nextStop sets the step at which stepped is called next.
func (p *Proc) nextStop() {
	p.stepStop = 1 << 63
	if p.MaxSteps > 0 {
		p.stepStop = p.MaxSteps + 1
	}
	if p.Sched != nil {
		if n := p.Steps + p.Sched.gap(); n < p.stepStop {
			p.stepStop = n
		}
	}
}

// yields: other tasks may run before and after these calls.
func yields(trap, a1 uintptr) bool {
	switch trap {
	case syscall.SYS_WRITE, syscall.SYS_READ:
		return a1 > 2
	case syscall.SYS_OPENAT, syscall.SYS_CLOSE, syscall.SYS_NEWFSTATAT, syscall.SYS_MKDIRAT, syscall.SYS_UNLINKAT,
		syscall.SYS_RENAMEAT, syscall.SYS_GETDENTS64, syscall.SYS_PREAD64, syscall.SYS_LSEEK, syscall.SYS_FTRUNCATE:
		return true
	}
	return false
}

func (p *Proc) locked(trap, a1, a2, a3, a4, a5, a6 uintptr) (int, syscall.Errno, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.syscall(trap, a1, a2, a3, a4, a5, a6)
}

func cstr(a uintptr) string {
	p := (*[4096]byte)(unsafe.Pointer(a))
	for i := range p {
		if p[i] == 0 {
			return string(p[:i])
		}
	}
	return string(p[:])
}

func bytesAt(a, n uintptr) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(a)), int(n))
}

const atFDCWD = -100

func (p *Proc) dirOf(fd uintptr) string {
	if int32(fd) == atFDCWD {
		return p.Cwd
	}
	if h := p.fds[int(fd)]; h != nil {
		return h.path
	}
	return "/nonexistent"
}

// begin accounts for an operation and decides its fault.
// done: the operation must return (ret, err) without being performed.
func (p *Proc) begin(kind, path string, size int) (idx int, f *Fault, err syscall.Errno, done bool) {
	idx = p.NOps
	p.NOps++
	p.Ops = append(p.Ops, Op{Kind: kind, Path: path, Size: size})
	if p.MaxOps > 0 && p.NOps > p.MaxOps {
		p.Overrun = true
		p.die()
	}
	on := kind + " " + path
	nth := p.nth[on]
	p.nth[on] = nth + 1
	for i := range p.Faults {
		if p.Faults[i].On == "" && p.Faults[i].Op == idx || p.Faults[i].On == on && p.Faults[i].Op == nth {
			f = &p.Faults[i]
			p.Ops[idx].Fault = f.String()
			name := kind + "/" + f.Kind
			if f.Kind == "err" {
				name = kind + "/" + ErrnoName(f.Arg)
			}
			switch f.Kind {
			case "err":
				p.Injected[name]++
				if f.Sticky {
					p.sticky[kind+" "+path] = syscall.Errno(f.Arg)
				}
				if kind == "closer" || kind == "closew" {
					return idx, f, syscall.Errno(f.Arg), false // the handle is released all the same
				}
				return idx, f, syscall.Errno(f.Arg), true
			case "crash":
				p.Injected[name]++
				p.Crashed = true
				p.die()
			case "short":
				if (kind == "read" || kind == "write") && f.Arg < size {
					p.Injected[name]++
				}
			case "lost":
				if kind == "closew" {
					p.Injected[name]++
				}
			case "torncrash":
				p.Injected[name]++
			}
			break
		}
	}
	if e, ok := p.sticky[kind+" "+path]; ok && f == nil {
		p.Ops[idx].Fault = "sticky"
		return idx, f, e, true
	}
	return idx, f, 0, false
}

func (p *Proc) die() {
	p.dead = true
	runtime.Goexit()
}

func (p *Proc) end(idx, ret int, err syscall.Errno, mut bool) (int, syscall.Errno, bool) {
	if idx >= 0 && idx < len(p.Ops) {
		o := &p.Ops[idx]
		o.Ret, o.Err, o.Mut = ret, err, mut
	}
	if err != 0 {
		return -1, err, true
	}
	return ret, 0, true
}

func (p *Proc) chunkRand() uint64 {
	p.crng += 0x9e3779b97f4a7c15
	z := p.crng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// chunk returns how many of n bytes are transferred.
func (p *Proc) chunk(n int, write bool) int {
	c := p.Chunk
	if c == nil || n <= 1 || (write && !c.Write) {
		return n
	}
	max := c.Max
	if max <= 0 {
		max = 16
	}
	switch c.Mode {
	case "one":
		p.Injected["chunk/one"]++
		return 1
	case "rand":
		m := int(p.chunkRand()%uint64(max)) + 1
		if m < n {
			p.Injected["chunk/rand"]++
			return m
		}
	case "mix": // sometimes full, sometimes short
		switch p.chunkRand() % 4 {
		case 0:
			return n
		case 1:
			p.Injected["chunk/one"]++
			return 1
		default:
			m := int(p.chunkRand()%uint64(n)) + 1
			if m < n {
				p.Injected["chunk/mix"]++
			}
			return m
		}
	case "fixed":
		if max < n {
			p.Injected["chunk/fixed"]++
			return max
		}
	}
	return n
}

func (p *Proc) interrupted() bool {
	if p.Chunk == nil || p.Chunk.EIntr == 0 {
		return false
	}
	if int(p.chunkRand()%100) < p.Chunk.EIntr {
		p.Injected["EINTR"]++
		return true
	}
	return false
}

func (p *Proc) newHandle(h *handle) int {
	fd := nextFD
	nextFD++
	p.fds[fd] = h
	if len(p.fds) > p.maxfd {
		p.maxfd = len(p.fds)
	}
	return fd
}

func (p *Proc) syscall(trap, a1, a2, a3, a4, a5, a6 uintptr) (int, syscall.Errno, bool) {
	if p.dead {
		return -1, syscall.EIO, true
	}
	switch trap {
	case syscall.SYS_OPENAT:
		return p.open(p.dirOf(a1), cstr(a2), int(a3))
	case syscall.SYS_OPEN:
		return p.open(p.Cwd, cstr(a1), int(a2))
	case syscall.SYS_READ:
		return p.read(int(a1), bytesAt(a2, a3), -1)
	case syscall.SYS_PREAD64:
		return p.read(int(a1), bytesAt(a2, a3), int64(a4))
	case syscall.SYS_WRITE:
		return p.write(int(a1), bytesAt(a2, a3), -1)
	case syscall.SYS_PWRITE64:
		return p.write(int(a1), bytesAt(a2, a3), int64(a4))
	case syscall.SYS_CLOSE:
		return p.close(int(a1))
	case syscall.SYS_LSEEK:
		return p.lseek(int(a1), int64(a2), int(a3))
	case syscall.SYS_FSTAT:
		h := p.fds[int(a1)]
		if h == nil {
			if a1 <= 2 {
				return 0, 0, false
			}
			return -1, syscall.EBADF, true
		}
		idx, _, err, done := p.begin("fstat", h.path, 0)
		if done {
			return p.end(idx, 0, err, false)
		}
		fillStat((*syscall.Stat_t)(unsafe.Pointer(a2)), h.node)
		return p.end(idx, 0, 0, false)
	case syscall.SYS_NEWFSTATAT:
		return p.stat(p.dirOf(a1), cstr(a2), a3, int(a1), a4&0x100 == 0)
	case syscall.SYS_STAT, syscall.SYS_LSTAT:
		return p.stat(p.Cwd, cstr(a1), a2, 0, trap == syscall.SYS_STAT)
	case syscall.SYS_GETDENTS64:
		return p.getdents(int(a1), bytesAt(a2, a3))
	case syscall.SYS_MKDIRAT:
		return p.mkdir(p.dirOf(a1), cstr(a2))
	case syscall.SYS_MKDIR:
		return p.mkdir(p.Cwd, cstr(a1))
	case syscall.SYS_UNLINKAT:
		return p.unlink(p.dirOf(a1), cstr(a2), a3&0x200 != 0)
	case syscall.SYS_UNLINK:
		return p.unlink(p.Cwd, cstr(a1), false)
	case syscall.SYS_RMDIR:
		return p.unlink(p.Cwd, cstr(a1), true)
	case syscall.SYS_RENAMEAT, 316: // renameat2
		return p.rename(p.dirOf(a1), cstr(a2), p.dirOf(a3), cstr(a4))
	case syscall.SYS_RENAME:
		return p.rename(p.Cwd, cstr(a1), p.Cwd, cstr(a2))
	case syscall.SYS_SYMLINKAT:
		return p.symlink(cstr(a1), p.dirOf(a2), cstr(a3))
	case syscall.SYS_SYMLINK:
		return p.symlink(cstr(a1), p.Cwd, cstr(a2))
	case syscall.SYS_LINKAT:
		return p.link(p.dirOf(a1), cstr(a2), p.dirOf(a3), cstr(a4))
	case syscall.SYS_FTRUNCATE:
		h := p.fds[int(a1)]
		if h == nil {
			return -1, syscall.EBADF, true
		}
		return p.truncate(h.node, h.path, int64(a2))
	case syscall.SYS_TRUNCATE:
		_, _, n, abs, err := p.Disk.walkTo(p.Cwd, cstr(a1))
		if err == 0 && n == nil {
			err = syscall.ENOENT
		}
		if err != 0 {
			return -1, err, true
		}
		return p.truncate(n, abs, int64(a2))
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		h := p.fds[int(a1)]
		if h == nil {
			return -1, syscall.EBADF, true
		}
		idx, _, err, done := p.begin("fsync", h.path, 0)
		if done {
			return p.end(idx, 0, err, false)
		}
		return p.end(idx, 0, 0, false)
	case syscall.SYS_FCHMOD, syscall.SYS_FCHOWN, syscall.SYS_FLOCK, syscall.SYS_FADVISE64:
		return 0, 0, true
	case syscall.SYS_FCHMODAT, syscall.SYS_CHMOD, syscall.SYS_UTIMENSAT, syscall.SYS_FACCESSAT, syscall.SYS_ACCESS:
		return 0, 0, true
	case syscall.SYS_READLINKAT, syscall.SYS_READLINK:
		dir := p.Cwd
		if trap == syscall.SYS_READLINKAT {
			dir = p.dirOf(a1)
			a1, a2, a3 = a2, a3, a4
		}
		if cstr(a1) == "/proc/self/exe" {
			return copy(bytesAt(a2, a3), ExePath), 0, true
		}
		if _, _, n, _, err := p.Disk.walkLinks(dir, cstr(a1), false, 0); err != 0 {
			return -1, err, true
		} else if n == nil {
			return -1, syscall.ENOENT, true
		} else if n.link != "" {
			return copy(bytesAt(a2, a3), n.link), 0, true
		}
		return -1, syscall.EINVAL, true
	case syscall.SYS_FCNTL:
		return -1, syscall.EINVAL, true
	case syscall.SYS_GETCWD:
		b := bytesAt(a1, a2)
		if len(b) < len(p.Cwd)+1 {
			return -1, syscall.ERANGE, true
		}
		copy(b, p.Cwd)
		b[len(p.Cwd)] = 0
		return len(p.Cwd) + 1, 0, true
	case syscall.SYS_CHDIR:
		_, _, n, abs, err := p.Disk.walkTo(p.Cwd, cstr(a1))
		if err == 0 && (n == nil || !n.isDir()) {
			err = syscall.ENOENT
		}
		if err != 0 {
			return -1, err, true
		}
		p.Cwd = abs
		return 0, 0, true
	case syscall.SYS_GETPID:
		return int(1000 + p.NameSeed%30000), 0, true
	case syscall.SYS_UNAME, syscall.SYS_GETRLIMIT, syscall.SYS_PRLIMIT64, syscall.SYS_GETUID, syscall.SYS_GETEUID, syscall.SYS_GETGID, syscall.SYS_GETEGID, 318 /* getrandom */, syscall.SYS_MMAP, syscall.SYS_MUNMAP, syscall.SYS_MADVISE, syscall.SYS_SCHED_YIELD:
		return 0, 0, false
	}
	p.Unsupported[fmt.Sprint(trap)]++
	return -1, syscall.ENOSYS, true
}

func fillStat(st *syscall.Stat_t, n *inode) {
	*st = syscall.Stat_t{Dev: 77, Ino: n.id, Nlink: 1, Blksize: 4096}
	if n.isDir() {
		st.Mode = syscall.S_IFDIR | 0755
		st.Size = 4096
	} else if n.link != "" {
		st.Mode = syscall.S_IFLNK | 0777
		st.Size = int64(len(n.link))
	} else {
		st.Mode = syscall.S_IFREG | 0644
		st.Size = int64(len(n.data))
	}
	st.Blocks = (st.Size + 511) / 512
	st.Mtim = syscall.Timespec{Sec: 1700000000}
}

func (p *Proc) open(dir, path string, flags int) (int, syscall.Errno, bool) {
	wr := flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0
	kind := "open"
	if wr || flags&syscall.O_CREAT != 0 {
		kind = "create"
	}
	follow := flags&syscall.O_NOFOLLOW == 0 && flags&(syscall.O_CREAT|syscall.O_EXCL) != syscall.O_CREAT|syscall.O_EXCL
	parent, base, n, abs, err := p.Disk.walkLinks(dir, path, follow, 0)
	if err == 0 && n != nil && n.link != "" && flags&syscall.O_NOFOLLOW != 0 {
		err = syscall.ELOOP
	}
	idx, _, ferr, done := p.begin(kind, abs, 0)
	if done {
		return p.end(idx, 0, ferr, false)
	}
	if p.interrupted() {
		return p.end(idx, 0, syscall.EINTR, false)
	}
	if err != 0 {
		return p.end(idx, 0, err, false)
	}
	mut := false
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			return p.end(idx, 0, syscall.ENOENT, false)
		}
		n = p.Disk.newFile()
		parent.dir[base] = n
		mut = true
	} else if flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
		return p.end(idx, 0, syscall.EEXIST, false)
	}
	if n.isDir() && wr {
		return p.end(idx, 0, syscall.EISDIR, false)
	}
	if !n.isDir() && flags&syscall.O_DIRECTORY != 0 {
		return p.end(idx, 0, syscall.ENOTDIR, false)
	}
	if flags&syscall.O_TRUNC != 0 && wr {
		mut = true
		n.data = nil
	}
	h := &handle{node: n, path: abs, read: flags&syscall.O_WRONLY == 0, write: wr, app: flags&syscall.O_APPEND != 0}
	return p.end(idx, p.newHandle(h), 0, mut)
}

func (p *Proc) read(fd int, b []byte, at int64) (int, syscall.Errno, bool) {
	h := p.fds[fd]
	if h == nil {
		if fd == 0 {
			return 0, 0, true
		}
		return -1, syscall.EBADF, true
	}
	idx, f, err, done := p.begin("read", h.path, len(b))
	if done {
		return p.end(idx, 0, err, false)
	}
	if p.interrupted() {
		return p.end(idx, 0, syscall.EINTR, false)
	}
	if h.node.isDir() {
		return p.end(idx, 0, syscall.EISDIR, false)
	}
	if !h.read {
		return p.end(idx, 0, syscall.EBADF, false)
	}
	pos := h.pos
	if at >= 0 {
		pos = at
	}
	n := 0
	if pos < int64(len(h.node.data)) {
		avail := int(int64(len(h.node.data)) - pos)
		if avail > len(b) {
			avail = len(b)
		}
		n = p.chunk(avail, false)
		if f != nil && f.Kind == "short" && f.Arg < n && f.Arg > 0 {
			n = f.Arg
		}
		copy(b[:n], h.node.data[pos:])
	}
	if at < 0 {
		h.pos += int64(n)
	}
	return p.end(idx, n, 0, false)
}

func (p *Proc) write(fd int, b []byte, at int64) (int, syscall.Errno, bool) {
	if fd == 1 || fd == 2 {
		if len(p.Stderr) < 1<<14 {
			p.Stderr = append(p.Stderr, b...)
		}
		return len(b), 0, true
	}
	h := p.fds[fd]
	if h == nil {
		return -1, syscall.EBADF, true
	}
	idx, f, err, done := p.begin("write", h.path, len(b))
	if done {
		return p.end(idx, 0, err, false)
	}
	if !h.write {
		return p.end(idx, 0, syscall.EBADF, false)
	}
	pos := h.pos
	if at >= 0 {
		pos = at
	}
	if h.app {
		pos = int64(len(h.node.data))
	}
	n := p.chunk(len(b), true)
	if f != nil && (f.Kind == "short" || f.Kind == "torncrash") && f.Arg < n {
		n = f.Arg
		if n < 0 {
			n = 0
		}
		if f.Kind == "short" && n == 0 {
			n = 1
		}
	}
	if p.Disk.Cap > 0 && n > 0 {
		grow := pos + int64(n) - int64(len(h.node.data))
		if free := p.Disk.Cap - p.Disk.Used(); grow > free {
			n -= int(grow - free)
			if n <= 0 {
				p.Injected["write/diskfull"]++
				return p.end(idx, 0, syscall.ENOSPC, false)
			}
			p.Injected["write/diskfull-short"]++
		}
	}
	if need := pos + int64(n); need > int64(len(h.node.data)) {
		if need > int64(cap(h.node.data)) {
			nd := make([]byte, len(h.node.data), need*2)
			copy(nd, h.node.data)
			h.node.data = nd
		}
		old := len(h.node.data)
		h.node.data = h.node.data[:need]
		for i := old; int64(i) < pos; i++ {
			h.node.data[i] = 0
		}
	}
	copy(h.node.data[pos:], b[:n])
	if at < 0 {
		h.pos = pos + int64(n)
	}
	h.wrote += int64(n)
	if f != nil && f.Kind == "torncrash" {
		p.Ops[idx].Ret, p.Ops[idx].Mut = n, true
		p.Crashed = true
		p.die()
	}
	return p.end(idx, n, 0, n > 0)
}

func (p *Proc) close(fd int) (int, syscall.Errno, bool) {
	h := p.fds[fd]
	if h == nil {
		if fd <= 2 {
			return 0, 0, true
		}
		return -1, syscall.EBADF, true
	}
	kind := "closer"
	if h.write {
		kind = "closew"
	}
	idx, f, err, _ := p.begin(kind, h.path, 0)
	delete(p.fds, fd)
	mut := false
	if f != nil && f.Kind == "lost" && h.write {
		// a deferred write error: cached data never reached the disk
		err = syscall.EIO
		lost := int64(f.Arg)
		if lost > h.wrote {
			lost = h.wrote
		}
		if l := int64(len(h.node.data)); lost > l {
			lost = l
		}
		h.node.data = h.node.data[:int64(len(h.node.data))-lost]
		mut = lost > 0
	}
	return p.end(idx, 0, err, mut)
}

func (p *Proc) lseek(fd int, off int64, whence int) (int, syscall.Errno, bool) {
	h := p.fds[fd]
	if h == nil {
		if fd <= 2 {
			return -1, syscall.ESPIPE, true
		}
		return -1, syscall.EBADF, true
	}
	idx, _, err, done := p.begin("seek", h.path, 0)
	if done {
		return p.end(idx, 0, err, false)
	}
	var n int64
	switch whence {
	case 0:
		n = off
	case 1:
		n = h.pos + off
	case 2:
		n = int64(len(h.node.data)) + off
	default:
		return p.end(idx, 0, syscall.EINVAL, false)
	}
	if n < 0 {
		return p.end(idx, 0, syscall.EINVAL, false)
	}
	if h.node.isDir() && n == 0 {
		h.entInit = false
	}
	h.pos = n
	return p.end(idx, int(n), 0, false)
}

func (p *Proc) stat(dir, path string, st uintptr, fd int, follow bool) (int, syscall.Errno, bool) {
	if path == "" && p.fds[fd] != nil { // AT_EMPTY_PATH
		fillStat((*syscall.Stat_t)(unsafe.Pointer(st)), p.fds[fd].node)
		return 0, 0, true
	}
	_, _, n, abs, err := p.Disk.walkLinks(dir, path, follow, 0)
	idx, _, ferr, done := p.begin("stat", abs, 0)
	if done {
		return p.end(idx, 0, ferr, false)
	}
	if err == 0 && n == nil {
		err = syscall.ENOENT
	}
	if err != 0 {
		return p.end(idx, 0, err, false)
	}
	fillStat((*syscall.Stat_t)(unsafe.Pointer(st)), n)
	return p.end(idx, 0, 0, false)
}

func strHash(seed uint64, s string) uint64 {
	h := seed ^ 14695981039346656037
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	h ^= h >> 29
	return h * 0xbf58476d1ce4e5b9
}

func (p *Proc) getdents(fd int, b []byte) (int, syscall.Errno, bool) {
	h := p.fds[fd]
	if h == nil {
		return -1, syscall.EBADF, true
	}
	idx, _, err, done := p.begin("readdir", h.path, len(b))
	if done {
		return p.end(idx, 0, err, false)
	}
	if !h.node.isDir() {
		return p.end(idx, 0, syscall.ENOTDIR, false)
	}
	if !h.entInit {
		h.entInit = true
		h.entries = nil
		for name := range h.node.dir {
			h.entries = append(h.entries, name)
		}
		sort.Slice(h.entries, func(i, j int) bool {
			a, b := strHash(p.DirSeed, h.entries[i]), strHash(p.DirSeed, h.entries[j])
			if p.DirSeed == 0 || a == b {
				return h.entries[i] < h.entries[j]
			}
			return a < b
		})
	}
	n := 0
	for len(h.entries) > 0 {
		name := h.entries[0]
		c := h.node.dir[name]
		if c == nil { // removed meanwhile
			h.entries = h.entries[1:]
			continue
		}
		rec := (19 + len(name) + 1 + 7) &^ 7
		if n+rec > len(b) {
			break
		}
		h.entries = h.entries[1:]
		e := b[n : n+rec]
		for i := range e {
			e[i] = 0
		}
		*(*uint64)(unsafe.Pointer(&e[0])) = c.id
		*(*uint64)(unsafe.Pointer(&e[8])) = uint64(n + rec)
		*(*uint16)(unsafe.Pointer(&e[16])) = uint16(rec)
		e[18] = 8 // DT_REG
		if c.isDir() {
			e[18] = 4
		}
		if c.link != "" {
			e[18] = 10
		}
		copy(e[19:], name)
		n += rec
	}
	return p.end(idx, n, 0, false)
}

func (p *Proc) mkdir(dir, path string) (int, syscall.Errno, bool) {
	parent, base, n, abs, err := p.Disk.walkTo(dir, path)
	idx, _, ferr, done := p.begin("mkdir", abs, 0)
	if done {
		return p.end(idx, 0, ferr, false)
	}
	if err != 0 {
		return p.end(idx, 0, err, false)
	}
	if n != nil || parent == nil {
		return p.end(idx, 0, syscall.EEXIST, false)
	}
	parent.dir[base] = p.Disk.newDir()
	return p.end(idx, 0, 0, true)
}

func (p *Proc) unlink(dir, path string, rmdir bool) (int, syscall.Errno, bool) {
	kind := "unlink"
	if rmdir {
		kind = "rmdir"
	}
	parent, base, n, abs, err := p.Disk.walkLinks(dir, path, false, 0)
	idx, _, ferr, done := p.begin(kind, abs, 0)
	if done {
		return p.end(idx, 0, ferr, false)
	}
	if err == 0 && n == nil {
		err = syscall.ENOENT
	}
	if err != 0 {
		return p.end(idx, 0, err, false)
	}
	if rmdir {
		if !n.isDir() {
			return p.end(idx, 0, syscall.ENOTDIR, false)
		}
		if len(n.dir) > 0 {
			return p.end(idx, 0, syscall.ENOTEMPTY, false)
		}
	} else if n.isDir() {
		return p.end(idx, 0, syscall.EISDIR, false)
	}
	if parent == nil {
		return p.end(idx, 0, syscall.EBUSY, false)
	}
	delete(parent.dir, base)
	return p.end(idx, 0, 0, true)
}

func (p *Proc) rename(dir1, path1, dir2, path2 string) (int, syscall.Errno, bool) {
	_, _, _, abs2, _ := p.Disk.walkLinks(dir2, path2, false, 0)
	idx, _, ferr, done := p.begin("rename", abs2, 0)
	if done {
		return p.end(idx, 0, ferr, false)
	}
	p1, b1, n1, abs1, err := p.Disk.walkLinks(dir1, path1, false, 0)
	if err == 0 && n1 == nil {
		err = syscall.ENOENT
	}
	if err != 0 {
		return p.end(idx, 0, err, false)
	}
	p2, b2, n2, _, err := p.Disk.walkLinks(dir2, path2, false, 0)
	if err != 0 {
		return p.end(idx, 0, err, false)
	}
	if p1 == nil || p2 == nil {
		return p.end(idx, 0, syscall.EBUSY, false)
	}
	if n2 != nil && n2.isDir() != n1.isDir() {
		return p.end(idx, 0, syscall.EISDIR, false)
	}
	if n2 != nil && n2.isDir() && len(n2.dir) > 0 {
		return p.end(idx, 0, syscall.ENOTEMPTY, false)
	}
	if n1 != n2 {
		delete(p1.dir, b1)
		p2.dir[b2] = n1
	}
	p.extraMut[abs1] = true
	return p.end(idx, 0, 0, true)
}

func (p *Proc) link(dir1, path1, dir2, path2 string) (int, syscall.Errno, bool) {
	p2, b2, n2, abs2, err := p.Disk.walkTo(dir2, path2)
	idx, _, ferr, done := p.begin("link", abs2, 0)
	if done {
		return p.end(idx, 0, ferr, false)
	}
	_, _, n1, _, err1 := p.Disk.walkTo(dir1, path1)
	if err == 0 {
		err = err1
	}
	if err == 0 && n1 == nil {
		err = syscall.ENOENT
	}
	if err == 0 && n2 != nil {
		err = syscall.EEXIST
	}
	if err != 0 {
		return p.end(idx, 0, err, false)
	}
	p2.dir[b2] = n1
	return p.end(idx, 0, 0, true)
}

func (p *Proc) symlink(to, dir, path string) (int, syscall.Errno, bool) {
	parent, base, n, abs, err := p.Disk.walkLinks(dir, path, false, 0)
	idx, _, ferr, done := p.begin("link", abs, 0)
	if done {
		return p.end(idx, 0, ferr, false)
	}
	if err == 0 && n != nil {
		err = syscall.EEXIST
	}
	if err != 0 {
		return p.end(idx, 0, err, false)
	}
	l := p.Disk.newFile()
	l.link = to
	parent.dir[base] = l
	return p.end(idx, 0, 0, true)
}

func (p *Proc) truncate(n *inode, path string, size int64) (int, syscall.Errno, bool) {
	idx, _, err, done := p.begin("truncate", path, int(size))
	if done {
		return p.end(idx, 0, err, false)
	}
	if size < int64(len(n.data)) {
		n.data = n.data[:size]
	} else {
		n.data = append(n.data, make([]byte, size-int64(len(n.data)))...)
	}
	return p.end(idx, 0, 0, true)
}
