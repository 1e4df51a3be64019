//go:build go1.22

package chk

import (
	"errors"
	"fmt"
	"path"
	"strings"

	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/binzume/modelconv/zzverif/simk"
)

// libEnv is a world and the document that its model holds.
type libEnv struct {
	w                 *gen.World
	kind, file, scene string
	disk              *simk.Disk
	ops               []simk.Op
	dump              string
	bytes             int
}

// world makes the world for a library load; kinds vmd and mqx load a companion.
func libWorld(s *Spec) (w *gen.World, kind, file, scene string) {
	r := gen.NewR(s.GSeed)
	if s.Scen == "big" {
		r.Big = 3
	}
	switch s.Kind {
	case "vmd":
		w = gen.NewWorld(r, "pmx", 0)
		w.AddMotion(r, s.Size)
		return w, "vmd", w.Motions[0], ""
	case "mqx":
		w = gen.NewWorld(r, "mqox", s.Size)
		return w, "mqx", strings.TrimSuffix(w.Model, ".mqo") + ".mqx", ""
	}
	w = gen.NewWorld(r, s.Kind, s.Size)
	kind, file, scene = target(w)
	return
}

func setupLib(s *Spec, st *Stats) interface{} {
	w, kind, file, scene := libWorld(s)
	e := &libEnv{w: w, kind: kind, file: file, scene: scene, disk: newDisk(w)}
	p := newProc(e.disk)
	l := load(p, kind, file, scene)
	if l.Err != nil || l.Doc == nil {
		st.skip("valid input does not load: " + s.Kind + ": " + short(fmt.Sprint(l.Err)))
		return nil
	}
	e.ops, e.dump = p.Ops, l.Dump
	for _, b := range w.Files {
		e.bytes += len(b)
	}
	return e
}

func short(s string) string {
	if len(s) > 70 {
		return s[:70]
	}
	return s
}

func chunking(r *gen.R) *simk.Chunking {
	c := &simk.Chunking{Mode: r.Pick("one", "rand", "rand", "mix", "mix", "fixed"), Seed: r.U64(), Max: r.PickN(1, 2, 3, 5, 7, 16, 64, 511, 4096)}
	if r.P(50) {
		c.EIntr = r.PickN(5, 20, 50)
	}
	if r.P(50) {
		c.Write = true
	}
	return c
}

var libKinds = []string{"pmx", "pmd", "vmd", "mqo", "mqox", "mqos", "mqx", "mqoz", "fbxb", "fbxt", "gltf", "gltfe", "glb", "vrm", "unity", "pkg"}
var readerKinds = []string{"pmx", "pmd", "vmd", "mqo", "mqos", "mqx", "fbxb", "fbxt", "gltfe", "glb", "vrm"}
var fileKinds = []string{"pmx", "pmd", "vmd", "mqo", "mqox", "mqos", "mqx", "mqoz", "fbxb", "fbxt", "gltf", "gltfe", "glb", "vrm", "pkg"}
var allExts = []string{".mqo", ".glb", ".vrm", ".mqoz", ".gltf", ".pmx", ".fbx"}

// caseEnv is a run of the command and its undisturbed result.
type caseEnv struct {
	c    *gen.Case
	disk *simk.Disk
	base *result
	ops  []simk.Op
}

func fixExt(kind, ext string) string {
	if ext == ".fbx" && !strings.HasPrefix(kind, "fbx") {
		return ".glb"
	}
	return ext
}

func newCaseEnv(s *Spec, st *Stats) *caseEnv {
	c := gen.NewCase(gen.NewR(s.GSeed), s.Kind, fixExt(s.Kind, s.Ext), s.Size)
	e := &caseEnv{c: c, disk: newDisk(c.World)}
	e.base = runCase(c, e.disk.Clone(), nil)
	e.ops = e.base.P.Ops
	return e
}

func setupCase(s *Spec, st *Stats) interface{} {
	e := newCaseEnv(s, st)
	if e.base.Code != 0 {
		st.skip("undisturbed run fails: " + s.Kind + s.Ext + ": " + short(lastLine(e.base.P)))
		return nil
	}
	return e
}

func lastLine(p *simk.Proc) string {
	if p.Panic != "" {
		return "panic: " + where(p.Stack) + ": " + p.Panic
	}
	l := strings.Split(strings.TrimSpace(string(p.Stderr)), "\n")
	s := l[len(l)-1]
	if len(s) > 20 {
		s = s[20:] // the date
	}
	return s
}

// where is the innermost frame of the repository in a stack.
func where(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/binzume/modelconv/") && !strings.Contains(l, "/zzverif/") {
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/binzume/modelconv/")
		}
	}
	return ""
}

func init() {
	register(&Scenario{Prop: "C01", Name: "lib", Weight: 3, Kinds: libKinds, Real: "library loaders",
		Setup: setupLib,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			var ts []*Trial
			for i := 0; i < n; i++ {
				ts = append(ts, &Trial{Chunk: chunking(r)})
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*libEnv)
			d := e.disk
			if e.kind == "pkg" {
				d = d.Clone()
			}
			p := newProc(d)
			t.apply(p)
			l := load(p, e.kind, e.file, e.scene)
			st.proc(p)
			st.state(l.Dump, fmt.Sprint(p.NOps))
			if l.Err != nil {
				return fmt.Sprintf("%s: error with short reads only: %v", path.Base(e.file), l.Err)
			}
			if l.Dump != e.dump {
				return fmt.Sprintf("%s: another document with short reads: %s", path.Base(e.file), Diff(e.dump, l.Dump))
			}
			st.out("same document")
			return ""
		}})

	register(&Scenario{Prop: "C01", Name: "reader", Weight: 2, Kinds: readerKinds, Real: "parsers of all formats, given a reader",
		Setup: setupReader,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			var ts []*Trial
			for i := 0; i < n; i++ {
				ts = append(ts, &Trial{N: []int64{int64(r.In(1, 4)), int64(r.U64() >> 1), -1}})
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*libEnv)
			l := parseOdd(e, t, st)
			if l.Err != nil {
				return fmt.Sprintf("%s: error from an unusual but correct reader: %v", path.Base(e.file), l.Err)
			}
			if l.Dump != e.dump {
				return fmt.Sprintf("%s: another document from an unusual but correct reader: %s", path.Base(e.file), Diff(e.dump, l.Dump))
			}
			st.out("same document")
			return ""
		}})

	register(&Scenario{Prop: "C01", Name: "cli", Weight: 2, Kinds: gen.Kinds, Exts: allExts, Real: "the whole command",
		Setup: setupCase,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			var ts []*Trial
			for i := 0; i < 1+n/4; i++ {
				ts = append(ts, &Trial{Chunk: chunking(r)})
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*caseEnv)
			res := runCase(e.c, e.disk.Clone(), t.apply)
			st.proc(res.P)
			st.state(fmt.Sprint(res.Code), fmt.Sprint(res.P.NOps))
			if res.Code != 0 {
				return fmt.Sprintf("%v: fails with short reads and writes only (status %d): %s", e.c.Args, res.Code, lastLine(res.P))
			}
			if d := diffOut(e.base.Out, res.Out); d != "" {
				return fmt.Sprintf("%v: other output with short reads and writes: %s", e.c.Args, d)
			}
			st.out("same output")
			return ""
		}})

	// ---- C02

	register(&Scenario{Prop: "C02", Name: "lib", Weight: 3, Kinds: libKinds, Real: "library loaders",
		Setup: setupLib,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*libEnv)
			// large files are read in few calls: also fail in the middle of them
			ts := faultTrials(r, e.ops, n, readTarget(e.w, e.kind, e.file))
			for i := 0; i < n/2; i++ {
				ts = append(ts, chunkedFault(r, e.ops, readTarget(e.w, e.kind, e.file)))
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*libEnv)
			d := e.disk
			if e.kind == "pkg" {
				d = d.Clone()
			}
			p := newProc(d)
			t.apply(p)
			l := load(p, e.kind, e.file, e.scene)
			st.proc(p)
			st.state(l.Dump, errKey(l.Err))
			return judgeLoad(e, l, t, p, st)
		}})

	register(&Scenario{Prop: "C02", Name: "reader", Weight: 2, Kinds: readerKinds, Real: "parsers of all formats, given a reader",
		Setup: setupReader,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*libEnv)
			size := len(e.w.Files[e.file])
			var ts []*Trial
			for i := 0; i < n*2; i++ {
				ts = append(ts, &Trial{N: []int64{int64(r.N(5)), int64(r.U64() >> 1), int64(r.N(size + 1))}})
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*libEnv)
			l := parseOdd(e, t, st)
			st.Injected["reader/error"]++
			if c, ok := l.Err.(*crashErr); ok {
				return fmt.Sprintf("%s: %v when reading fails at byte %d", path.Base(e.file), c, t.N[2])
			}
			if l.Err == nil && l.Doc != nil && l.Dump != e.dump {
				return fmt.Sprintf("%s: reading failed at byte %d and a different document was returned without an error: %s", path.Base(e.file), t.N[2], Diff(e.dump, l.Dump))
			}
			if l.Err == nil && l.Doc == nil {
				return fmt.Sprintf("%s: reading failed at byte %d and neither a document nor an error was returned", path.Base(e.file), t.N[2])
			}
			st.out(errClass(l.Err))
			return ""
		}})

	register(&Scenario{Prop: "C02", Name: "cli", Weight: 3, Kinds: gen.Kinds, Exts: allExts, Real: "the whole command",
		Setup: setupCase,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*caseEnv)
			want := readTarget(e.c.World, e.c.Kind, "")
			ts := faultTrials(r, e.ops, n, want)
			for i := 0; i < n/3; i++ {
				ts = append(ts, chunkedFault(r, e.ops, want))
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*caseEnv)
			d := e.disk.Clone()
			res := runCase(e.c, d, t.apply)
			st.proc(res.P)
			st.state(fmt.Sprint(res.Code), d.Hash(), errPlace(res.P))
			if res.Code != 0 {
				st.out("failure reported")
				return ""
			}
			if d := diffOut(e.base.Out, res.Out); d != "" {
				return fmt.Sprintf("%v: reading failed (%s) but the command succeeded with other output: %s", e.c.Args, faultText(res.P), d)
			}
			st.out("same output")
			return ""
		}})

	// ---- C03

	register(&Scenario{Prop: "C03", Name: "cut", Weight: 4, Kinds: fileKinds, Real: "library loaders",
		Setup: setupLib,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*libEnv)
			var ts []*Trial
			files := cutFiles(e)
			for i := 0; i < n*3; i++ {
				f := r.N(len(files))
				size := len(e.w.Files[files[f]])
				if size == 0 {
					continue
				}
				pos := r.N(size)
				switch r.N(5) {
				case 0:
					pos = size - 1 - r.N(min(size, 40)) // just the end
				case 1:
					pos = pos &^ 511 // a sector boundary
				}
				ts = append(ts, &Trial{N: []int64{int64(f), int64(pos)}})
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*libEnv)
			files := cutFiles(e)
			f := files[int(t.N[0])%len(files)]
			data := e.w.Files[f]
			pos := int(t.N[1])
			if pos > len(data) {
				pos = len(data)
			}
			d := e.disk.Clone()
			d.WriteFile(f, data[:pos])
			p := newProc(d)
			l := load(p, e.kind, e.file, e.scene)
			st.proc(p)
			st.Injected["truncation"]++
			st.state(l.Dump, errKey(l.Err))
			if c, ok := l.Err.(*crashErr); ok {
				return fmt.Sprintf("%s cut at %d of %d: %v", path.Base(f), pos, len(data), c)
			}
			if l.Err != nil {
				st.out("error")
				return ""
			}
			if l.Doc == nil {
				return fmt.Sprintf("%s cut at %d of %d: neither a document nor an error", path.Base(f), pos, len(data))
			}
			if l.Dump == e.dump {
				st.out("same document")
				return ""
			}
			if cutAllowed(e, f, data, pos, l.Doc) {
				st.out("cut between sections")
				return ""
			}
			return fmt.Sprintf("%s cut at %d of %d bytes loads as a different document: %s", path.Base(f), pos, len(data), Diff(e.dump, l.Dump))
		}})

	register(&Scenario{Prop: "C03", Name: "cli", Weight: 1, Kinds: []string{"pmx", "mqox", "mqoz", "fbxb", "gltf", "glb", "vrm", "pkg"}, Exts: allExts, Real: "the whole command",
		Setup: setupCase,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*caseEnv)
			var ts []*Trial
			files := e.c.Primary()
			for i := 0; i < n; i++ {
				f := r.N(len(files))
				size := len(e.c.Files[files[f]])
				if size < 1 {
					continue
				}
				ts = append(ts, &Trial{N: []int64{int64(f), int64(r.N(size))}})
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*caseEnv)
			files := e.c.Primary()
			f := files[int(t.N[0])%len(files)]
			data := e.c.Files[f]
			pos := min(int(t.N[1]), len(data))
			d := e.disk.Clone()
			d.WriteFile(f, data[:pos])
			res := runCase(e.c, d, nil)
			st.proc(res.P)
			st.Injected["truncation"]++
			st.state(fmt.Sprint(res.Code), d.Hash(), lastLine(res.P))
			if res.Code != 0 {
				st.out("failure reported")
				return ""
			}
			if diff := diffOut(e.base.Out, res.Out); diff != "" {
				if e.c.Role[f] == "motion" && vmdBoundary(data, pos) || e.c.Kind == "mqox" && e.c.Role[f] == "model" && mqoBoundary(data, pos) {
					st.out("cut between sections")
					return ""
				}
				return fmt.Sprintf("%v: %s cut at %d of %d bytes, but the command succeeded with other output: %s", e.c.Args, path.Base(f), pos, len(data), diff)
			}
			st.out("same output")
			return ""
		}})
}

func errClass(err error) string {
	if err == nil {
		return "no error"
	}
	return "error"
}

func faultText(p *simk.Proc) string {
	for i, o := range p.Ops {
		if o.Fault != "" {
			return fmt.Sprintf("%s at operation %d: %s %s", o.Fault, i, o.Kind, o.Path)
		}
	}
	return "no fault was reached"
}

// readTarget accepts the operations that read what the load cannot do without.
func readTarget(w *gen.World, kind, file string) func(o simk.Op) string {
	prim := map[string]bool{}
	for _, p := range w.Primary() {
		prim[p] = true
	}
	if kind == "vmd" || kind == "mqx" {
		prim = map[string]bool{file: true}
	}
	return func(o simk.Op) string {
		switch o.Kind {
		case "open", "read", "seek":
			if prim[o.Path] {
				return o.Kind + " " + o.Path
			}
		case "readdir":
			if kind == "unity" && strings.HasPrefix(o.Path, w.Dir+"/Assets") {
				return o.Kind
			}
		}
		return ""
	}
}

// chunkedFault reads in small pieces and fails at one of them.
func chunkedFault(r *gen.R, ops []simk.Op, want func(o simk.Op) string) *Trial {
	t := &Trial{Chunk: &simk.Chunking{Mode: "rand", Seed: r.U64(), Max: r.PickN(16, 64, 300, 1000)}}
	pk := newPicker(ops, want)
	if len(pk.names) == 0 {
		return t
	}
	i := pk.pick(r)
	f := faultFor(r, i, ops[i], r.P(30))
	f.On, f.Op = ops[i].Kind+" "+ops[i].Path, r.N(r.PickN(2, 8, 60))
	f.Arg = eIO
	t.Faults = []simk.Fault{f}
	return t
}

func judgeLoad(e *libEnv, l *Loaded, t *Trial, p *simk.Proc, st *Stats) string {
	if c, ok := l.Err.(*crashErr); ok {
		return fmt.Sprintf("%s: %v after %s", path.Base(e.file), c, faultText(p))
	}
	if l.Err != nil {
		st.out("error")
		return ""
	}
	if l.Doc == nil {
		return fmt.Sprintf("%s: neither a document nor an error after %s", path.Base(e.file), faultText(p))
	}
	if l.Dump != e.dump {
		return fmt.Sprintf("%s: a different document and no error after %s: %s", path.Base(e.file), faultText(p), Diff(e.dump, l.Dump))
	}
	st.out("same document")
	return ""
}

func setupReader(s *Spec, st *Stats) interface{} {
	w, kind, file, _ := libWorld(s)
	e := &libEnv{w: w, kind: kind, file: file, disk: newDisk(w)}
	l := parseOdd(e, &Trial{N: []int64{0, 1, -1}}, NewStats())
	if l.Err != nil || l.Doc == nil {
		st.skip("valid input does not parse: " + s.Kind + ": " + short(fmt.Sprint(l.Err)))
		return nil
	}
	e.dump = l.Dump
	return e
}

var errInjected = errors.New("injected read failure")

func parseOdd(e *libEnv, t *Trial, st *Stats) *Loaded {
	o := &oddReader{data: e.w.Files[e.file], r: gen.NewR(uint64(t.N[1])), mode: int(t.N[0]), fail: int(t.N[2]), err: errInjected, Stats: map[string]int{}}
	p := newProc(e.disk)
	l := &Loaded{}
	done := false
	p.Run(func() {
		l.Doc, l.Err = parseFn(e.kind, o, e.file)
		done = true
	})
	if !done {
		l.Doc = nil
		if p.Panic != "" {
			l.Err = &crashErr{"panic: " + p.Panic}
		} else {
			l.Err = &crashErr{fmt.Sprintf("the parser ended the process (status %d)", p.ExitCode)}
		}
	}
	if l.Err == nil && l.Doc != nil {
		l.Dump = docDump(l.Doc)
	}
	if st.cur != nil {
		st.proc(p)
		for k, n := range o.Stats {
			st.Injected[k] += n
		}
		st.state(l.Dump, errKey(l.Err))
	}
	return l
}

func cutFiles(e *libEnv) []string {
	if e.kind == "vmd" || e.kind == "mqx" {
		return []string{e.file}
	}
	return e.w.Primary()
}

// errPlace: the kinds and files of the operations that failed.
func errPlace(p *simk.Proc) string {
	var b strings.Builder
	for _, o := range p.Ops {
		if o.Fault != "" && o.Err != 0 {
			fmt.Fprintf(&b, "%s %s %d;", o.Kind, o.Path, o.Err)
		}
	}
	return b.String()
}
