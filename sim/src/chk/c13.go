//go:build go1.22

package chk

import (
	"fmt"
	"path"
	"strings"

	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/binzume/modelconv/zzverif/simk"
)

// Bounds of a run: steps (function calls and loop iterations) and system calls
// for an input of so many bytes. They are far above what any run needs.
func maxSteps(bytes int) uint64 { return 30000000 + 20000*uint64(bytes) }
func maxOps(bytes int) int      { return 100000 + 400*bytes }

func sizeOn(d *simk.Disk) int {
	n := 0
	for _, f := range d.Files() {
		b, _ := d.ReadFile(f)
		n += len(b)
	}
	return n
}

func slowness(st *Stats, p *simk.Proc, bytes int) {
	st.out(fmt.Sprintf("ended; %d%% of the allowed steps, %d%% of the allowed operations, at most", (p.Steps*100/maxSteps(bytes)/10+1)*10, (p.NOps*100/maxOps(bytes)/10+1)*10))
}

func endless(p *simk.Proc, bytes int) string {
	at := "operations"
	if p.Steps > p.MaxSteps {
		at = "steps, at " + where(p.OverrunAt)
	}
	return fmt.Sprintf("does not end: %d steps and %d operations for %d bytes (too many %s)", p.Steps, p.NOps, bytes, at)
}

// hard plans inputs and deliveries that are hard to finish with.
func hardTrials(r *gen.R, n int, files []string, get func(string) []byte) []*Trial {
	ts := []*Trial{{}}
	for i := 0; i < n; i++ {
		t := &Trial{}
		switch i % 4 {
		case 0:
			t = damageTrials(r, 1, files, get)[0]
		case 1:
			f := r.N(len(files))
			t.N = []int64{int64(f), int64(r.N(len(get(files[f])) + 1))}
		case 2:
			t = damageTrials(r, 1, files, get)[0]
			t.Damage = append(t.Damage, Damage{File: r.N(len(files)), Mode: r.Pick("dupline", "insert", "u8"), Pos: r.N(1000), Len: 100, Val: r.U64() >> 1})
		}
		if i%4 == 3 || r.P(30) {
			t.Chunk = chunking(r)
			if r.P(50) {
				t.Chunk.Mode, t.Chunk.EIntr = "one", r.PickN(0, 50, 80)
			}
		}
		ts = append(ts, t)
	}
	return ts
}

func hardDisk(d *simk.Disk, t *Trial, st *Stats, files []string) *simk.Disk {
	d = d.Clone()
	for i := range t.Damage {
		f := files[t.Damage[i].File%len(files)]
		cur, _ := d.ReadFile(f)
		d.WriteFile(f, damage(cur, &t.Damage[i]))
		st.Injected["damage/"+t.Damage[i].Mode]++
	}
	if len(t.N) == 2 {
		f := files[int(t.N[0])%len(files)]
		b, _ := d.ReadFile(f)
		d.WriteFile(f, b[:min(len(b), int(t.N[1]))])
		st.Injected["truncation"]++
	}
	return d
}

func init() {
	register(&Scenario{Prop: "C13", Name: "load", Weight: 3, Kinds: libKinds, MaxSize: 6, Real: "library loaders",
		Setup: func(s *Spec, st *Stats) interface{} {
			w, kind, file, scene := libWorld(s)
			return &libEnv{w: w, kind: kind, file: file, scene: scene, disk: newDisk(w)}
		},
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*libEnv)
			return hardTrials(r, n, damageFiles(e), func(f string) []byte { return e.w.Files[f] })
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*libEnv)
			d := hardDisk(e.disk, t, st, damageFiles(e))
			bytes := sizeOn(d)
			p := newProc(d)
			t.apply(p)
			p.MaxSteps, p.MaxOps = maxSteps(bytes), maxOps(bytes)
			err := inProc(p, func() error { _, err := loadFn(e.kind, e.file, e.scene); return err })
			st.proc(p)
			st.state(errKey(err), fmt.Sprint(p.NOps))
			if p.Overrun {
				return fmt.Sprintf("loading %s %s", path.Base(e.file), endless(p, bytes))
			}
			slowness(st, p, bytes)
			return ""
		}})

	setup := func(s *Spec, st *Stats) interface{} {
		r := gen.NewR(s.GSeed)
		r.Cyclic = s.Scen == "cyclic" || s.GSeed%3 == 0
		c := gen.NewCase(r, s.Kind, fixExt(s.Kind, s.Ext), s.Size)
		return &caseEnv{c: c, disk: newDisk(c.World)}
	}
	run := func(env interface{}, t *Trial, st *Stats) string {
		e := env.(*caseEnv)
		d := hardDisk(e.disk, t, st, e.c.Primary())
		bytes := sizeOn(d)
		res := runCase(e.c, d, func(p *simk.Proc) {
			t.apply(p)
			p.MaxSteps, p.MaxOps = maxSteps(bytes), maxOps(bytes)
		})
		st.proc(res.P)
		st.state(fmt.Sprint(res.Code), d.Hash())
		if res.P.Overrun {
			return fmt.Sprintf("%v %s", e.c.Args, endless(res.P, bytes))
		}
		st.out(fmt.Sprintf("status %d", res.Code))
		slowness(st, res.P, bytes)
		return ""
	}
	register(&Scenario{Prop: "C13", Name: "cli", Weight: 3, Kinds: gen.Kinds, Exts: allExts, MaxSize: 6, Real: "the whole command",
		Setup: setup, Run: run,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*caseEnv)
			return hardTrials(r, n, e.c.Primary(), func(f string) []byte { return e.c.Files[f] })
		}})
	register(&Scenario{Prop: "C13", Name: "cyclic", Weight: 4, Kinds: gen.Kinds, Exts: allExts, MaxSize: 6, Real: "the whole command",
		Setup: setup, Run: run,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			return []*Trial{{}, {MapSeed: r.U64()}, {Chunk: chunking(r)}}
		}})
}

var _ = strings.Join
