//go:build go1.22

package chk

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"net/url"
	"os"
	"path"
	"sort"
	"strings"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/unity"
	"github.com/binzume/modelconv/vrm"
	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/binzume/modelconv/zzverif/simk"
)

// CLI is main of the command.
var CLI func()

// Loaded is the outcome of a library load.
type Loaded struct {
	Doc  interface{}
	Err  error
	Dump string
}

// loadFn loads the document at path as the command does.
func loadFn(kind, p, scene string) (interface{}, error) {
	switch kind {
	case "pmx", "pmd":
		d, err := mmd.Load(p)
		return nilDoc(d == nil, d), err
	case "vmd":
		f, err := os.Open(p)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		d, err := mmd.NewVMDParser(f).Parse()
		return nilDoc(d == nil, d), err
	case "mqo", "mqox", "mqos", "mqoz":
		d, err := mqo.Load(p)
		return nilDoc(d == nil, d), err
	case "mqx":
		f, err := os.Open(p)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		d, err := mqo.ReadMQX(f)
		return nilDoc(d == nil, d), err
	case "fbxb", "fbxt":
		d, err := fbx.Load(p)
		return nilDoc(d == nil, d), err
	case "gltf", "gltfe", "glb":
		d, err := gltfutil.Load(p)
		return nilDoc(d == nil, d), err
	case "vrm":
		f, err := os.Open(p)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		d, err := vrm.Parse(f, p)
		return nilDoc(d == nil, d), err
	case "unity", "pkg":
		var as unity.Assets
		var err error
		if kind == "pkg" {
			as, err = unity.OpenPackage(p)
		} else {
			as, err = unity.OpenAssets(p)
		}
		if err != nil {
			return nil, err
		}
		defer as.Close()
		s, err := unity.LoadScene(as, scene)
		if s == nil {
			return nil, err
		}
		return s, err
	}
	return nil, fmt.Errorf("no loader for %s", kind)
}

func nilDoc(isNil bool, d interface{}) interface{} {
	if isNil {
		return nil
	}
	return d
}

// parseFn parses from a reader.
func parseFn(kind string, r io.Reader, p string) (interface{}, error) {
	switch kind {
	case "pmx", "pmd":
		d, err := mmd.Parse(r)
		return nilDoc(d == nil, d), err
	case "vmd":
		d, err := mmd.NewVMDParser(r).Parse()
		return nilDoc(d == nil, d), err
	case "mqo", "mqos":
		d, err := mqo.NewParser(r, "").Parse()
		return nilDoc(d == nil, d), err
	case "mqx":
		d, err := mqo.ReadMQX(r)
		return nilDoc(d == nil, d), err
	case "fbxb", "fbxt":
		d, err := fbx.Parse(r)
		return nilDoc(d == nil, d), err
	case "gltfe", "glb":
		d, err := gltfutil.Parse(r, p)
		return nilDoc(d == nil, d), err
	case "vrm":
		d, err := vrm.Parse(r, p)
		return nilDoc(d == nil, d), err
	}
	return nil, fmt.Errorf("no parser for %s", kind)
}

// docDump is the content of a loaded document.
func docDump(d interface{}) string {
	switch x := d.(type) {
	case *fbx.Document:
		return Dump(x, true)
	case *unity.Scene:
		return Dump(x.Objects, true) + Dump(x.Elements, true)
	}
	return Dump(d, true)
}

// newDisk puts the files of a world on a disk, with bystanders.
func newDisk(w *gen.World) *simk.Disk {
	d := simk.NewDisk()
	d.MkdirAll("/work/out")
	d.MkdirAll(w.Dir)
	for p, b := range w.Files {
		d.WriteFile(p, b)
	}
	d.WriteFile("/etc/passwd", []byte("root:x:0:0\n"))
	d.WriteFile("/root/.profile", []byte("# profile\n"))
	d.WriteFile("/work/notes.txt", []byte("keep me\n"))
	d.WriteFile(w.Dir+"/readme.txt", []byte("keep me too\n"))
	d.WriteFile("/tmp/other/file", []byte("someone else's\n"))
	return d
}

// runCLI runs the command as a process.
func runCLI(p *simk.Proc, args []string) {
	flag.CommandLine.VisitAll(func(f *flag.Flag) { f.Value.Set(f.DefValue) })
	os.Args = args
	p.Run(CLI)
}

func newProc(d *simk.Disk) *simk.Proc {
	return simk.NewProc(1, d)
}

// load runs a library load as a process and returns what it gave.
func load(p *simk.Proc, kind, file, scene string) *Loaded {
	l := &Loaded{}
	done := false
	p.Run(func() {
		l.Doc, l.Err = loadFn(kind, file, scene)
		done = true
	})
	if !done && l.Err == nil {
		l.Doc = nil
		switch {
		case p.Panic != "":
			l.Err = &crashErr{"panic: " + p.Panic}
		case p.Overrun:
			l.Err = &crashErr{"endless: more than the allowed number of operations"}
		default:
			l.Err = &crashErr{fmt.Sprintf("the loader ended the process (status %d)", p.ExitCode)}
		}
	}
	if l.Err == nil && l.Doc != nil {
		l.Dump = docDump(l.Doc)
	}
	return l
}

type crashErr struct{ s string }

func (e *crashErr) Error() string { return e.s }

// target is the file and scene that the loader of a world gets.
func target(w *gen.World) (kind, file, scene string) {
	switch w.Kind {
	case "unity":
		return w.Kind, w.Dir + "/Assets", w.Assets[0].Path
	case "pkg":
		return w.Kind, w.Model, w.Assets[0].Path
	}
	return w.Kind, w.Model, ""
}

// allowedNew tells whether the command may create or change p.
func outputPaths(c *gen.Case) func(p string) bool {
	stem := strings.TrimSuffix(path.Base(c.Out), path.Ext(c.Out))
	dir := path.Dir(c.Out)
	saved := path.Dir(c.Model) + "/saved_textures"
	if c.Kind == "unity" {
		saved = c.Dir + "/saved_textures"
	}
	uni := c.Kind == "unity" || c.Kind == "pkg"
	return func(p string) bool {
		p = strings.TrimSuffix(p, "/")
		switch {
		case p == c.Out:
			return true
		case c.OutExt == ".mqo" && p == dir+"/"+stem+".mqx":
			return true
		case c.OutExt == ".gltf" && (strings.HasPrefix(p, dir+"/"+stem) || strings.HasPrefix(p, dir+"/"+url.PathEscape(stem))) && strings.HasSuffix(p, ".bin"):
			return true
		case uni && (p == saved || strings.HasPrefix(p, saved+"/")):
			return true
		}
		return false
	}
}

// result is a finished run of the command.
type result struct {
	Code int
	Out  map[string]string // files that the run created or changed
	Gone []string          // files that it removed
	P    *simk.Proc
}

func exitCode(p *simk.Proc) int {
	if p.Exited {
		return p.ExitCode
	}
	return -1
}

// delta compares the disk with a snapshot from before.
func delta(before map[string]string, d *simk.Disk) (changed map[string]string, gone []string) {
	after := d.Snapshot()
	changed = map[string]string{}
	for p, v := range after {
		if o, ok := before[p]; !ok || o != v {
			changed[p] = v
		}
	}
	for p := range before {
		if _, ok := after[p]; !ok {
			gone = append(gone, p)
		}
	}
	sort.Strings(gone)
	return
}

func runCase(c *gen.Case, d *simk.Disk, setup func(*simk.Proc)) *result {
	p := newProc(d)
	p.Cwd = c.Cwd
	if setup != nil {
		setup(p)
	}
	before := d.Snapshot()
	runCLI(p, c.Args)
	r := &result{Code: exitCode(p), P: p}
	r.Out, r.Gone = delta(before, d)
	return r
}

func keys(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func diffOut(want, got map[string]string) string {
	for _, k := range keys(want) {
		g, ok := got[k]
		if !ok {
			return "missing " + k
		}
		if g != want[k] {
			i := 0
			for i < len(g) && i < len(want[k]) && g[i] == want[k][i] {
				i++
			}
			return fmt.Sprintf("%s differs at byte %d (%d bytes, want %d)", k, i, len(g), len(want[k]))
		}
	}
	for _, k := range keys(got) {
		if _, ok := want[k]; !ok {
			return "unexpected " + k
		}
	}
	return ""
}

// oddReader delivers data in an odd but legal way.
type oddReader struct {
	data  []byte
	pos   int
	r     *gen.R
	mode  int
	fail  int // >=0: error once pos reaches it
	err   error
	Stats map[string]int
}

func (o *oddReader) Read(b []byte) (int, error) {
	end := len(o.data)
	fin := io.EOF
	if o.fail >= 0 && o.fail <= end {
		end, fin = o.fail, o.err
	}
	if o.pos >= end {
		return 0, fin
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := end - o.pos
	if n > len(b) {
		n = len(b)
	}
	m := o.mode
	if m == 4 {
		m = o.r.N(4)
	}
	switch m {
	case 1:
		n = 1
	case 2:
		n = 1 + o.r.N(n)
	case 3:
		if o.r.P(30) {
			o.Stats["reader/empty"]++
			return 0, nil
		}
		if n > 7 {
			n = 1 + o.r.N(7)
		}
	}
	copy(b, o.data[o.pos:o.pos+n])
	o.pos += n
	if o.pos >= end && (o.mode == 2 || o.mode == 4 && o.r.P(50)) {
		o.Stats["reader/data+end"]++
		return n, fin
	}
	o.Stats["reader/short"]++
	return n, nil
}

var _ = bytes.NewReader
