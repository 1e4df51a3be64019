//go:build go1.22

package chk

import (
	"fmt"
	"path"
	"strings"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/binzume/modelconv/zzverif/simk"
)

// One step of a history: 6 numbers.
const stepLen = 6

type histEnv struct {
	kinds []string
	paths []string // path i holds documents of kinds[i]
	seeds []uint64
	sizes []int
	files map[string]map[string]string // what a save on an empty disk leaves
	want  map[string]string
}

func (e *histEnv) doc(k, i int) (interface{}, error) {
	return makeDoc(e.kinds[k], e.seeds[i]+uint64(k), e.sizes[i])
}

func setupHist(s *Spec, st *Stats) interface{} {
	r := gen.NewR(s.GSeed)
	e := &histEnv{files: map[string]map[string]string{}, want: map[string]string{}}
	stem := "/work/" + r.Pick("m", "モデル", "a b", "x.y")
	add := func(kind, stem string) {
		p := stem + saveExt(kind)
		for _, o := range e.paths {
			if o == p {
				return
			}
		}
		e.kinds = append(e.kinds, kind)
		e.paths = append(e.paths, p)
	}
	add(s.Kind, stem)
	add(s.Kind, stem+"2")
	for i := 0; i < 2; i++ {
		add(saveKinds[r.N(len(saveKinds))], stem)
	}
	for i := 0; i < 3; i++ {
		e.seeds = append(e.seeds, r.U64()>>1)
		e.sizes = append(e.sizes, r.N(s.Size+1))
	}
	for k := range e.paths {
		for i := range e.seeds {
			d, err := e.doc(k, i)
			if err != nil {
				st.skip("document cannot be made: " + e.kinds[k] + ": " + short(err.Error()))
				return nil
			}
			key := fmt.Sprint(k, " ", i)
			disk := simk.NewDisk()
			before := disk.Snapshot()
			if err := inProc(newProc(disk), func() error { return saveDoc(d, e.paths[k]) }); err != nil {
				st.skip("document cannot be saved: " + e.kinds[k] + ": " + short(err.Error()))
				return nil
			}
			e.files[key], _ = delta(before, disk)
			// Saving a .mqo gives objects and materials distinct names: that is what is stored.
			fresh, _ := e.doc(k, i)
			if m, ok := fresh.(*mqo.Document); ok && strings.HasSuffix(e.paths[k], ".mqo") {
				m.FixNames()
			}
			e.want[key] = content(fresh)
		}
	}
	return e
}

func init() {
	register(&Scenario{Prop: "C06", Name: "history", Weight: 1, Kinds: saveKinds, Step: stepLen, Real: "library savers and loaders",
		Setup: setupHist,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*histEnv)
			var ts []*Trial
			for i := 0; i < n; i++ {
				t := &Trial{}
				steps := r.In(1, 12)
				for j := 0; j < steps; j++ {
					op := r.PickN(0, 0, 0, 1, 1, 2, 3, 4, 5)
					k := r.N(len(e.paths))
					if r.P(50) {
						k = 0
					}
					t.N = append(t.N, int64(op), int64(k), int64(r.N(len(e.seeds))), int64(r.U64()>>1), int64(r.N(100)), int64(r.N(4)))
				}
				ts = append(ts, t)
			}
			return ts
		},
		Run: runHist})
}

func runHist(env interface{}, t *Trial, st *Stats) string {
	e := env.(*histEnv)
	disk := simk.NewDisk()
	disk.WriteFile("/work/notes.txt", []byte("keep me\n"))
	state := map[int]int{} // path -> document whose save succeeded last
	describe := func(i int) string { return fmt.Sprintf("step %d of %d", i+1, len(t.N)/stepLen) }
	check := func(i, k int) string {
		di, ok := state[k]
		if !ok {
			return ""
		}
		var doc interface{}
		p := newProc(disk)
		p.MapSeed = uint64(i)
		err := inProc(p, func() error {
			var err error
			doc, err = loadDoc(e.kinds[k], e.paths[k])
			return err
		})
		st.proc(p)
		if err != nil || doc == nil {
			return fmt.Sprintf("%s: loading %s, whose last save succeeded: %v", describe(i), path.Base(e.paths[k]), err)
		}
		want := e.want[fmt.Sprint(k, " ", di)]
		if got := content(doc); got != want {
			return fmt.Sprintf("%s: %s is not the document that was saved there last: %s", describe(i), path.Base(e.paths[k]), Diff(want, got))
		}
		st.out("loaded what was saved")
		return ""
	}
	n := len(t.N) / stepLen
	for i := 0; i < n; i++ {
		a := t.N[i*stepLen : (i+1)*stepLen]
		op, k, di := int(a[0]), int(a[1])%len(e.paths), int(a[2])%len(e.seeds)
		if op == 3 {
			if msg := check(i, k); msg != "" {
				return msg
			}
			continue
		}
		r := gen.NewR(uint64(a[3]))
		key := fmt.Sprint(k, " ", di)
		doc, err := e.doc(k, di)
		if err != nil {
			return ""
		}
		if op == 5 {
			// another program writes the document there
			if files := foreign(doc, e.paths[k], r); files != nil {
				for _, f := range keys(files) {
					disk.WriteFile(f, []byte(files[f]))
				}
				state[k] = di
				st.out("written by another program")
				if m, ok := doc.(*mqo.Document); ok && !uniqueNames(m) {
					delete(state, k)
				}
			}
			continue
		}
		p := newProc(disk)
		switch op {
		case 1, 2:
			// how many operations are there?
			dry := newProc(disk.Clone())
			dd, _ := e.doc(k, di)
			inProc(dry, func() error { return saveDoc(dd, e.paths[k]) })
			if op == 1 {
				if ts := faultTrials(r, dry.Ops, 1, writeSide); len(ts) > 0 {
					p.Faults = ts[0].Faults
				}
				if r.P(20) {
					p.Faults = nil
					disk.Cap = disk.Used() + int64(r.N(written(dry.Ops)+1))
				}
			} else {
				f := simk.Fault{Op: r.N(len(dry.Ops) + 1), Kind: "crash"}
				if f.Op < len(dry.Ops) && dry.Ops[f.Op].Kind == "write" {
					f.Kind, f.Arg = "torncrash", r.N(dry.Ops[f.Op].Size+1)
				}
				p.Faults = []simk.Fault{f}
			}
		}
		fixes := strings.HasSuffix(e.paths[k], ".mqo") && !uniqueNames(doc)
		was := content(doc)
		save := func() error { return saveDoc(doc, e.paths[k]) }
		delete(state, k)
		err = inProc(p, save)
		disk.Cap = 0
		st.proc(p)
		st.out("save: " + errClass(err))
		if c, ok := err.(*crashErr); ok && !p.Crashed {
			return fmt.Sprintf("%s: saving %s: %v", describe(i), path.Base(e.paths[k]), c)
		}
		if p.Crashed {
			continue
		}
		if now := content(doc); now != was && !fixes {
			return fmt.Sprintf("%s: saving %s changed the document: %s", describe(i), path.Base(e.paths[k]), Diff(was, now))
		}
		if err != nil {
			if len(p.Faults) == 0 && p.Injected["write/diskfull"] == 0 {
				return fmt.Sprintf("%s: saving %s on a working disk: %v", describe(i), path.Base(e.paths[k]), err)
			}
			continue
		}
		again := 1
		if op == 4 {
			again = 2
		}
		for ; again > 0; again-- {
			for _, f := range keys(e.files[key]) {
				b, _ := disk.ReadFile(f)
				if !strings.HasSuffix(f, "/") && string(b) != e.files[key][f] {
					return fmt.Sprintf("%s: after saving %s, %s differs from what a save on an empty disk writes (%d bytes, want %d)", describe(i), path.Base(e.paths[k]), path.Base(f), len(b), len(e.files[key][f]))
				}
			}
			if again == 2 {
				p2 := newProc(disk)
				if err := inProc(p2, save); err != nil {
					return fmt.Sprintf("%s: saving %s a second time: %v", describe(i), path.Base(e.paths[k]), err)
				}
				st.proc(p2)
			}
		}
		state[k] = di
	}
	for k := range e.paths {
		if msg := check(n-1, k); msg != "" {
			return msg
		}
	}
	if b, _ := disk.ReadFile("/work/notes.txt"); string(b) != "keep me\n" {
		return "a file that has nothing to do with the saves changed"
	}
	st.state(disk.Hash())
	return ""
}

// foreign encodes a document independently of the repository's writers.
func foreign(doc interface{}, p string, r *gen.R) map[string]string {
	name := path.Base(p)
	stem := strings.TrimSuffix(name, path.Ext(name))
	switch d := doc.(type) {
	case *mmd.Document:
		return map[string]string{p: string(gen.EncodePMX(r, d))}
	case *mqo.Document:
		mqx := ""
		if len(d.Plugins) > 0 {
			mqx = stem + ".mqx"
		}
		b := gen.EncodeMQO(r, d, mqx, false)
		if strings.HasSuffix(p, ".mqoz") {
			names, files := []string{stem + ".mqo"}, [][]byte{b}
			if mqx != "" {
				names, files = append(names, mqx), append(files, gen.EncodeMQX(d, stem+".mqo"))
			}
			return map[string]string{p: string(gen.Zip(names, files, r.P(40)))}
		}
		m := map[string]string{p: string(b)}
		if mqx != "" {
			m[path.Dir(p)+"/"+mqx] = string(gen.EncodeMQX(d, name))
		}
		return m
	case *fbx.Document:
		if r.P(50) {
			return map[string]string{p: string(gen.EncodeFBX(r, d.RawNode))}
		}
		return map[string]string{p: string(gen.EncodeFBXText(r, d.RawNode))}
	}
	return nil
}
