//go:build go1.22

// Package simk is the simulated kernel: an in-memory disk, the system calls on
// it, processes (tasks) with their handles, fault injection and a seeded
// cooperative scheduler.
package simk

import (
	"crypto/sha256"
	"encoding/hex"
	"path"
	"sort"
	"strings"
	"syscall"
)

type inode struct {
	id    uint64
	dir   map[string]*inode // non-nil: directory
	data  []byte
	link  string // non-empty: symbolic link
	nlink int
}

func (n *inode) isDir() bool { return n.dir != nil }

// Disk is the durable state of a simulated machine.
type Disk struct {
	root   *inode
	nextID uint64
	// Cap is the number of bytes the files may hold in total (0: unlimited).
	Cap int64
}

func NewDisk() *Disk {
	d := &Disk{}
	d.root = d.newDir()
	d.MkdirAll("/tmp")
	d.MkdirAll("/work")
	return d
}

func (d *Disk) newDir() *inode {
	d.nextID++
	return &inode{id: d.nextID, dir: map[string]*inode{}, nlink: 1}
}

func (d *Disk) newFile() *inode {
	d.nextID++
	return &inode{id: d.nextID, nlink: 1}
}

func (d *Disk) Used() int64 {
	var n int64
	var walk func(i *inode)
	walk = func(i *inode) {
		n += int64(len(i.data))
		for _, c := range i.dir {
			walk(c)
		}
	}
	walk(d.root)
	return n
}

func splitPath(p string) []string {
	p = path.Clean("/" + p)
	if p == "/" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

// MkdirAll, WriteFile, ... are the simulator's own direct access, without faults.
func (d *Disk) MkdirAll(p string) *inode {
	n := d.root
	for _, s := range splitPath(p) {
		c := n.dir[s]
		if c == nil {
			c = d.newDir()
			n.dir[s] = c
		}
		n = c
	}
	return n
}

func (d *Disk) WriteFile(p string, data []byte) {
	dir := d.MkdirAll(path.Dir(p))
	f := dir.dir[path.Base(p)]
	if f == nil {
		f = d.newFile()
		dir.dir[path.Base(p)] = f
	}
	f.data = append([]byte{}, data...)
}

func (d *Disk) lookup(p string) *inode {
	n := d.root
	for _, s := range splitPath(p) {
		if n == nil || n.dir == nil {
			return nil
		}
		n = n.dir[s]
	}
	return n
}

func (d *Disk) Exists(p string) bool { return d.lookup(p) != nil }

func (d *Disk) ReadFile(p string) ([]byte, bool) {
	n := d.lookup(p)
	if n == nil || n.dir != nil {
		return nil, false
	}
	return n.data, true
}

func (d *Disk) Remove(p string) {
	if dir := d.lookup(path.Dir(p)); dir != nil && dir.dir != nil {
		delete(dir.dir, path.Base(p))
	}
}

// Files returns all files and directories (directories end in "/"), sorted.
func (d *Disk) Files() []string {
	var r []string
	var walk func(p string, n *inode)
	walk = func(p string, n *inode) {
		if n.dir == nil {
			r = append(r, p)
			return
		}
		r = append(r, p+"/")
		for name, c := range n.dir {
			walk(p+"/"+name, c)
		}
	}
	for name, c := range d.root.dir {
		walk("/"+name, c)
	}
	sort.Strings(r)
	return r
}

// Snapshot maps every path to its content ("dir" for directories).
func (d *Disk) Snapshot() map[string]string {
	m := map[string]string{}
	for _, f := range d.Files() {
		if strings.HasSuffix(f, "/") {
			m[f] = "dir"
		} else if n := d.lookup(f); n != nil && n.link != "" {
			m[f] = "link to " + n.link
		} else {
			b, _ := d.ReadFile(f)
			m[f] = string(b)
		}
	}
	return m
}

// Clone copies the disk.
func (d *Disk) Clone() *Disk {
	c := &Disk{nextID: d.nextID, Cap: d.Cap}
	var cp func(n *inode) *inode
	cp = func(n *inode) *inode {
		m := &inode{id: n.id, nlink: n.nlink, link: n.link}
		if n.dir != nil {
			m.dir = make(map[string]*inode, len(n.dir))
			for k, v := range n.dir {
				m.dir[k] = cp(v)
			}
		} else {
			m.data = append([]byte{}, n.data...)
		}
		return m
	}
	c.root = cp(d.root)
	return c
}

// Hash identifies the state of the disk.
func (d *Disk) Hash() string {
	h := sha256.New()
	for _, f := range d.Files() {
		h.Write([]byte(f))
		h.Write([]byte{0})
		if b, ok := d.ReadFile(f); ok {
			s := sha256.Sum256(b)
			h.Write(s[:])
		}
	}
	return hex.EncodeToString(h.Sum(nil)[:8])
}

// walkTo resolves p from dir and returns the parent directory, the last
// component and the node (nil if it does not exist).
func (d *Disk) walkTo(cwd, p string) (parent *inode, base string, n *inode, abs string, err syscall.Errno) {
	return d.walkLinks(cwd, p, true, 0)
}

// walkLinks: follow tells whether a link in the last place is followed.
func (d *Disk) walkLinks(cwd, p string, follow bool, depth int) (parent *inode, base string, n *inode, abs string, err syscall.Errno) {
	if depth > 20 {
		return nil, "", nil, p, syscall.ELOOP
	}
	if p == "" {
		return nil, "", nil, "", syscall.ENOENT
	}
	if strings.IndexByte(p, 0) >= 0 {
		return nil, "", nil, "", syscall.EINVAL
	}
	trailing := len(p) > 1 && strings.HasSuffix(p, "/") && depth == 0
	abs = p
	if !strings.HasPrefix(p, "/") {
		abs = cwd + "/" + p
	}
	// resolve component by component, like a kernel: "x/.." needs x to be there
	var stack []*inode
	var names []string
	cur := d.root
	comps := strings.Split(abs, "/")
	last := -1
	for i, s := range comps {
		if s != "" && s != "." {
			last = i
		}
	}
	for i, s := range comps {
		if s == "" || s == "." {
			continue
		}
		if len(s) > 255 {
			return nil, "", nil, abs, syscall.ENAMETOOLONG
		}
		if cur == nil {
			return nil, "", nil, abs, syscall.ENOENT
		}
		if cur.dir == nil {
			return nil, "", nil, abs, syscall.ENOTDIR
		}
		if s == ".." {
			if len(stack) > 0 {
				cur = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				names = names[:len(names)-1]
			}
			continue
		}
		next := cur.dir[s]
		if next != nil && next.link != "" && (i != last || follow || trailing) {
			to := next.link
			if !strings.HasPrefix(to, "/") {
				to = "/" + strings.Join(names, "/") + "/" + to
			}
			return d.walkLinks("/", to+"/"+strings.Join(comps[i+1:], "/"), follow, depth+1)
		}
		stack = append(stack, cur)
		names = append(names, s)
		if next == nil && i != last {
			// an intermediate component is missing
			return nil, "", nil, "/" + strings.Join(names, "/"), syscall.ENOENT
		}
		cur = next
	}
	abs = "/" + strings.Join(names, "/")
	if len(stack) == 0 {
		return nil, "", cur, "/", 0
	}
	if trailing && cur != nil && cur.dir == nil {
		return nil, "", nil, abs, syscall.ENOTDIR
	}
	return stack[len(stack)-1], names[len(names)-1], cur, abs, 0
}
