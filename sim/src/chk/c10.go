//go:build go1.22

package chk

import (
	"fmt"
	"path"
	"strings"

	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/binzume/modelconv/zzverif/simk"
)

// everyOp accepts all operations.
func everyOp(o simk.Op) string {
	if strings.HasPrefix(o.Path, tmpPrefix) {
		return o.Kind + " " + path.Base(o.Path)
	}
	return o.Kind + " " + o.Path
}

// pipeEnv is a conversion by the library and its undisturbed result.
type pipeEnv struct {
	w    *gen.World
	o    *pipeOpt
	out  string
	disk *simk.Disk
	ops  []simk.Op
	base map[string]string
	err  error
}

func newPipe(s *Spec) *pipeEnv {
	r := gen.NewR(s.GSeed)
	e := &pipeEnv{w: gen.NewWorld(r, s.Kind, s.Size)}
	if gl := s.Ext == ".glb" || s.Ext == ".gltf" || s.Ext == ".vrm"; gl && r.P(40) {
		e.w.AddMotion(r, s.Size)
	}
	e.o = randPipe(r)
	e.out = "/work/out/" + r.Pick("result", "出力") + s.Ext
	e.disk = newDisk(e.w)
	return e
}

func setupPipe(s *Spec, st *Stats) interface{} {
	e := newPipe(s)
	d := e.disk.Clone()
	p := newProc(d)
	if e.err = inProc(p, func() error { return pipeline(e.w, e.out, e.o) }); e.err != nil {
		st.skip("undisturbed conversion fails: " + s.Kind + s.Ext + ": " + short(e.err.Error()))
		return nil
	}
	e.ops = p.Ops
	e.base, _ = delta(e.disk.Snapshot(), d)
	return e
}

var pipeExts = []string{".mqo", ".glb", ".vrm", ".mqoz", ".gltf", ".pmx"}

// openLeft judges the handles after an operation that returned.
func openLeft(p *simk.Proc, err error, what string, st *Stats) string {
	if _, died := err.(*crashErr); died || p.Panic != "" || p.Crashed {
		st.out("did not return")
		return ""
	}
	if l := p.OpenFiles(); len(l) > 0 {
		return fmt.Sprintf("%s returned (%s) and left %d files open, e.g. %s, after %s", what, errClass(err), len(l), l[0], faultText2(p))
	}
	st.out(errClass(err) + ", all closed")
	return ""
}

func init() {
	register(&Scenario{Prop: "C10", Name: "load", Weight: 4, Kinds: libKinds, Real: "library loaders",
		Setup: setupLib,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*libEnv)
			ts := []*Trial{{}}
			ts = append(ts, faultTrials(r, e.ops, n, everyOp)...)
			ts = append(ts, damageTrials(r, n/2, damageFiles(e), func(f string) []byte { return e.w.Files[f] })...)
			for i := 0; i < n/3; i++ {
				ts = append(ts, chunkedFault(r, e.ops, everyOp))
				files := cutFiles(e)
				f := r.N(len(files))
				ts = append(ts, &Trial{N: []int64{int64(f), int64(r.N(len(e.w.Files[files[f]]) + 1))}})
			}
			if e.kind == "pkg" {
				for i := 0; i < n/4; i++ {
					ts = append(ts, &Trial{Cap: int64(1 + r.N(written(e.ops)+2))})
				}
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*libEnv)
			d := e.disk.Clone()
			files := damageFiles(e)
			for i := range t.Damage {
				f := files[t.Damage[i].File%len(files)]
				cur, _ := d.ReadFile(f)
				d.WriteFile(f, damage(cur, &t.Damage[i]))
				st.Injected["damage/"+t.Damage[i].Mode]++
			}
			if len(t.N) == 2 {
				cf := cutFiles(e)
				f := cf[int(t.N[0])%len(cf)]
				b := e.w.Files[f]
				d.WriteFile(f, b[:min(len(b), int(t.N[1]))])
				st.Injected["truncation"]++
			}
			if t.Cap > 0 {
				d.Cap = d.Used() + t.Cap
			}
			p := newProc(d)
			t.apply(p)
			err := inProc(p, func() error { _, err := loadFn(e.kind, e.file, e.scene); return err })
			st.proc(p)
			st.state(errKey(err), errPlace(p), fmt.Sprint(p.NOps))
			return openLeft(p, err, "loading "+path.Base(e.file), st)
		}})

	register(&Scenario{Prop: "C10", Name: "save", Weight: 3, Kinds: saveKinds, Real: "library savers",
		Setup: setupSave,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*saveEnv)
			ts := []*Trial{{}}
			ts = append(ts, faultTrials(r, e.ops, n, everyOp)...)
			for i := 0; i < n/3+1; i++ {
				ts = append(ts, &Trial{Cap: int64(1 + r.N(written(e.ops)+2))}, chunkedWriteFault(r, e.ops))
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*saveEnv)
			d := e.disk.Clone()
			if t.Cap > 0 {
				d.Cap = d.Used() + t.Cap
			}
			doc, _ := makeDoc(e.kind, e.seed, e.size)
			p := newProc(d)
			t.apply(p)
			err := inProc(p, func() error { return saveDoc(doc, e.path) })
			st.proc(p)
			st.state(errKey(err), errPlace(p), fmt.Sprint(p.NOps))
			return openLeft(p, err, "saving "+path.Base(e.path), st)
		}})

	register(&Scenario{Prop: "C10", Name: "convert", Weight: 4, Kinds: gen.Kinds, Exts: pipeExts, Real: "load, conversion and save by the library",
		Setup: setupPipe,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*pipeEnv)
			ts := []*Trial{{}}
			ts = append(ts, faultTrials(r, e.ops, n, everyOp)...)
			ts = append(ts, texTrials(r, e.w, n/2)...)
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*pipeEnv)
			d := e.disk.Clone()
			breakTextures(e.w, d, t, st)
			p := newProc(d)
			t.apply(p)
			err := inProc(p, func() error { return pipeline(e.w, e.out, e.o) })
			st.proc(p)
			st.state(errKey(err), errPlace(p), fmt.Sprint(p.NOps))
			return openLeft(p, err, "converting "+path.Base(e.w.Model)+" to "+path.Base(e.out), st)
		}})

	register(&Scenario{Prop: "C10", Name: "cli", Weight: 2, Kinds: gen.Kinds, Exts: allExts, Real: "the whole command",
		Setup: setupCase,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*caseEnv)
			ts := []*Trial{{}}
			ts = append(ts, faultTrials(r, e.ops, n/2, everyOp)...)
			return append(ts, texTrials(r, e.c.World, n/2)...)
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*caseEnv)
			d := e.disk.Clone()
			breakTextures(e.c.World, d, t, st)
			res := runCase(e.c, d, t.apply)
			st.proc(res.P)
			st.state(fmt.Sprint(res.Code), errPlace(res.P), fmt.Sprint(res.P.NOps))
			if res.Code != 0 {
				st.out("exit with an error")
				return ""
			}
			return openLeft(res.P, nil, fmt.Sprint(e.c.Args), st)
		}})

	// ---- C11
	vary := func(r *gen.R, n int) []*Trial {
		var ts []*Trial
		for i := 0; i < n; i++ {
			t := &Trial{MapSeed: r.U64() | 1}
			if r.P(60) {
				t.DirSeed = r.U64() | 1
			}
			if r.P(60) {
				t.NameSeed = r.U64() >> 20
			}
			if r.P(40) {
				t.Skew = int64(r.N(2000000000)) - 1000000000
			}
			if r.P(30) {
				t.Jump = r.U64() | 1
			}
			ts = append(ts, t)
		}
		return ts
	}
	register(&Scenario{Prop: "C11", Name: "cli", Weight: 4, Kinds: gen.Kinds, Exts: allExts, MaxSize: 8, Real: "the whole command",
		Setup:  setupCase,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial { return vary(r, n) },
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*caseEnv)
			res := runCase(e.c, e.disk.Clone(), t.apply)
			st.proc(res.P)
			st.Injected["map order"]++
			st.state(fmt.Sprint(t.MapSeed))
			if res.Code != 0 {
				return fmt.Sprintf("%v: fails in another run (status %d): %s", e.c.Args, res.Code, lastLine(res.P))
			}
			if d := diffOut(e.base.Out, res.Out); d != "" {
				return fmt.Sprintf("%v: another run writes other bytes: %s", e.c.Args, d)
			}
			st.out("same output")
			return ""
		}})
	register(&Scenario{Prop: "C11", Name: "lib", Weight: 2, Kinds: gen.Kinds, Exts: pipeExts, MaxSize: 8, Real: "load, conversion and save by the library",
		Setup:  setupPipe,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial { return vary(r, n) },
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*pipeEnv)
			d := e.disk.Clone()
			p := newProc(d)
			t.apply(p)
			err := inProc(p, func() error { return pipeline(e.w, e.out, e.o) })
			st.proc(p)
			st.Injected["map order"]++
			st.state(fmt.Sprint(t.MapSeed))
			if err != nil {
				return fmt.Sprintf("%s to %s: fails in another run: %v", path.Base(e.w.Model), path.Base(e.out), err)
			}
			out, _ := delta(e.disk.Snapshot(), d)
			if d := diffOut(e.base, out); d != "" {
				return fmt.Sprintf("%s to %s: another run writes other bytes: %s", path.Base(e.w.Model), path.Base(e.out), d)
			}
			st.out("same output")
			return ""
		}})
	register(&Scenario{Prop: "C11", Name: "save", Weight: 1, Kinds: saveKinds, MaxSize: 8, Real: "library savers",
		Setup:  setupSave,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial { return vary(r, n) },
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*saveEnv)
			d := e.disk.Clone()
			doc, _ := makeDoc(e.kind, e.seed, e.size)
			p := newProc(d)
			t.apply(p)
			before := d.Snapshot()
			err := inProc(p, func() error { return saveDoc(doc, e.path) })
			st.proc(p)
			st.Injected["map order"]++
			st.state(fmt.Sprint(t.MapSeed))
			if err != nil {
				return fmt.Sprintf("saving %s fails in another run: %v", path.Base(e.path), err)
			}
			out, _ := delta(before, d)
			if diff := diffOut(e.out, out); diff != "" {
				return fmt.Sprintf("saving %s writes other bytes in another run: %s", path.Base(e.path), diff)
			}
			st.out("same bytes")
			return ""
		}})
	register(&Scenario{Prop: "C11", Name: "load", Weight: 1, Kinds: libKinds, MaxSize: 8, Real: "library loaders",
		Setup:  setupLib,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial { return vary(r, n/2) },
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*libEnv)
			d := e.disk
			if e.kind == "pkg" {
				d = d.Clone()
			}
			p := newProc(d)
			t.apply(p)
			l := load(p, e.kind, e.file, e.scene)
			st.proc(p)
			st.Injected["map order"]++
			st.state(fmt.Sprint(t.MapSeed))
			if l.Err != nil {
				return fmt.Sprintf("%s: another load fails: %v", path.Base(e.file), l.Err)
			}
			if l.Dump != e.dump {
				return fmt.Sprintf("%s: another load gives another document: %s", path.Base(e.file), Diff(e.dump, l.Dump))
			}
			st.out("same document")
			return ""
		}})

	// ---- C15
	register(&Scenario{Prop: "C15", Name: "cli", Weight: 3, Kinds: append(append([]string{}, gen.Kinds...), "pkg", "unity"), Exts: allExts, Real: "the whole command",
		Setup: setupCase,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*caseEnv)
			var ts []*Trial
			for i := 0; i < n; i++ {
				t := crashTrial(r, e.ops)
				if r.P(30) {
					t.Faults2 = crashTrial(r, e.ops).Faults
				}
				if r.P(15) { // or a run that failed
					if x := faultTrials(r, e.ops, 1, everyOp); len(x) > 0 {
						t.Faults = x[0].Faults
					}
				}
				if r.P(10) {
					t.Cap = int64(1 + r.N(written(e.ops)+2))
				}
				if r.P(30) { // the runs differ in what is random
					t.N = []int64{int64(r.U64() >> 30)}
				}
				ts = append(ts, t)
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*caseEnv)
			d := e.disk.Clone()
			if t.Cap > 0 {
				d.Cap = d.Used() + t.Cap
			}
			seed := uint64(0)
			if len(t.N) > 0 {
				seed = uint64(t.N[0])
			}
			var first *simk.Proc
			for i, fs := range [][]simk.Fault{t.Faults, t.Faults2} {
				if i == 1 && len(fs) == 0 {
					continue
				}
				res := runCase(e.c, d, func(p *simk.Proc) {
					p.Faults = fs
					p.NameSeed = 100 + seed + uint64(i)
					p.MapSeed = seed * uint64(i+1)
				})
				st.proc(res.P)
				if first == nil {
					first = res.P
				}
			}
			d.Cap = 0
			left := d.Hash()
			res := runCase(e.c, d, func(p *simk.Proc) { p.NameSeed = 200 + seed; p.DirSeed = seed })
			st.proc(res.P)
			st.state(left)
			if res.Code != 0 {
				return fmt.Sprintf("%v: fails (status %d) after a run that ended with %s: %s", e.c.Args, res.Code, faultText2(first), lastLine(res.P))
			}
			after := d.Snapshot()
			for _, f := range keys(e.base.Out) {
				v, ok := after[f]
				if !ok {
					return fmt.Sprintf("%v: after a run that ended with %s the next one does not write %s", e.c.Args, faultText2(first), f)
				}
				if v != e.base.Out[f] {
					return fmt.Sprintf("%v: after a run that ended with %s the next one's %s is not that of an undisturbed run (%d bytes, want %d)", e.c.Args, faultText2(first), f, len(v), len(e.base.Out[f]))
				}
			}
			// what the output refers to is there; what else the killed run left is not under an output's name
			before := e.disk.Snapshot()
			for f := range after {
				if _, ok := e.base.Out[f]; ok || strings.HasPrefix(f, "/tmp/") || inSaved(f) {
					continue
				}
				if _, ok := before[f]; !ok {
					return fmt.Sprintf("%v: after a run that ended with %s and a complete one, %s is left over", e.c.Args, faultText2(first), f)
				}
			}
			st.out("complete result")
			return ""
		}})
}

// texTrials plans damage to textures: N = [seed].
func texTrials(r *gen.R, w *gen.World, n int) []*Trial {
	var ts []*Trial
	for i := 0; i < n; i++ {
		ts = append(ts, &Trial{N: []int64{int64(r.U64() >> 20)}})
	}
	return ts
}

// texturesOf lists the texture files of a world on disk.
func texturesOf(w *gen.World) []string {
	var r []string
	for _, f := range w.Paths() {
		if w.Role[f] == "texture" || w.Kind == "unity" && (strings.HasSuffix(f, ".png") || strings.HasSuffix(f, ".jpg") || strings.HasSuffix(f, ".tga") || strings.HasSuffix(f, ".bmp")) {
			r = append(r, f)
		}
	}
	return r
}

// breakTextures breaks some of the textures. It returns those and what happened.
func breakTextures(w *gen.World, d *simk.Disk, t *Trial, st *Stats) map[string]string {
	broken := map[string]string{}
	if len(t.N) == 0 {
		return broken
	}
	r := gen.NewR(uint64(t.N[0]))
	for i, f := range texturesOf(w) {
		if i > 0 && r.P(40) {
			continue
		}
		b, _ := d.ReadFile(f)
		how := r.Pick("missing", "truncated", "truncated", "flipped", "flipped", "empty", "directory", "garbage", "header")
		switch how {
		case "missing":
			d.Remove(f)
		case "truncated":
			d.WriteFile(f, b[:r.N(len(b)+1)])
		case "flipped":
			c := append([]byte{}, b...)
			for k := r.In(1, 4); k > 0 && len(c) > 0; k-- {
				c[r.N(len(c))] ^= byte(1 << r.N(8))
			}
			d.WriteFile(f, c)
		case "empty":
			d.WriteFile(f, nil)
		case "directory":
			d.Remove(f)
			d.MkdirAll(f)
		case "garbage":
			c := make([]byte, r.N(400))
			for i := range c {
				c[i] = byte(r.U64())
			}
			d.WriteFile(f, c)
		case "header":
			c := append([]byte{}, b...)
			for i := 0; i < 24 && i < len(c); i++ {
				if r.P(30) {
					c[i] = byte(r.U64())
				}
			}
			d.WriteFile(f, c)
		}
		broken[f] = how
		st.Injected["texture/"+how]++
	}
	return broken
}
