//go:build go1.22

package chk

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/binzume/modelconv/zzverif/simk"
)

// Solo runs a spec's task k in a process of its own; set by the driver.
var Solo func(sp *Spec, k int) (string, error)

// ctask is one of several conversions in one process.
type ctask struct {
	w    *gen.World
	o    *pipeOpt
	out  string
	solo string // its result when it runs alone in a fresh process
}

// move puts a world below another directory.
func move(w *gen.World, root string) {
	mv := func(p string) string {
		if strings.HasPrefix(p, "/work/") {
			return root + p[len("/work"):]
		}
		return p
	}
	files, role := map[string][]byte{}, map[string]string{}
	for f, b := range w.Files {
		files[mv(f)], role[mv(f)] = b, w.Role[f]
	}
	w.Files, w.Role = files, role
	w.Model, w.Input, w.Dir = mv(w.Model), mv(w.Input), mv(w.Dir)
	for i := range w.Motions {
		w.Motions[i] = mv(w.Motions[i])
	}
	for i := range w.Textures {
		w.Textures[i] = mv(w.Textures[i])
	}
}

// makeTask makes task k of a spec. It depends on the spec and k only.
func makeTask(s *Spec, k int) *ctask {
	r := gen.NewR(s.GSeed)
	kind, ext := s.Kind, s.Ext
	same := r.P(40)
	if k > 0 {
		r = gen.NewR(mix(s.GSeed, uint64(k)))
		if !same || r.P(30) {
			kind = gen.Kinds[r.N(len(gen.Kinds))]
		}
		if r.P(60) {
			ext = pipeExts[r.N(len(pipeExts))]
		}
	}
	if s.Scen == "same" {
		r = gen.NewR(s.GSeed ^ 1)
		kind = s.Kind
	}
	t := &ctask{w: gen.NewWorld(r, kind, s.Size)}
	if gl := ext == ".glb" || ext == ".gltf" || ext == ".vrm"; gl && r.P(40) {
		t.w.AddMotion(r, s.Size)
	}
	if s.Scen == "same" {
		r = gen.NewR(mix(s.GSeed, uint64(k)))
	}
	t.o = randPipe(r)
	root := "/work"
	if s.Scen == "interleave" {
		root = fmt.Sprintf("/work/t%d", k)
		move(t.w, root)
	}
	t.out = root + "/out/result" + ext
	if s.Scen == "same" {
		t.out = fmt.Sprintf("%s/out/result%d%s", root, k, ext)
	}
	return t
}

// put places the input of a task on a disk.
func (t *ctask) put(d *simk.Disk) {
	d.MkdirAll(path.Dir(t.out))
	d.MkdirAll(t.w.Dir)
	for f, b := range t.w.Files {
		d.WriteFile(f, b)
	}
}

// mine: the file belongs to the results of the task.
func (t *ctask) mine(f string) bool {
	if _, ok := t.w.Files[f]; ok {
		return false
	}
	stem := strings.TrimSuffix(t.out, path.Ext(t.out))
	return strings.HasPrefix(f, stem) || inSaved(f) && (strings.HasPrefix(f, t.w.Dir+"/") || strings.HasPrefix(f, path.Dir(t.w.Model)+"/"))
}

// outcome is the result of a task as text.
func (t *ctask) outcome(d *simk.Disk, err error) string {
	var b strings.Builder
	if err != nil {
		fmt.Fprintf(&b, "error %s\n", err)
	}
	snap := d.Snapshot()
	for _, f := range keys(snap) {
		if t.mine(f) {
			fmt.Fprintf(&b, "%s %d %x\n", f, len(snap[f]), h64(snap[f]))
		}
	}
	return b.String()
}

// RunSolo executes task k of a spec alone and returns its result.
func RunSolo(sp *Spec, k int) string {
	t := makeTask(sp, k)
	d := simk.NewDisk()
	t.put(d)
	p := newProc(d)
	err := inProc(p, func() error { return pipeline(t.w, t.out, t.o) })
	return t.outcome(d, err)
}

type taskEnv struct {
	s     *Spec
	tasks []*ctask
}

func setupTasks(n int) func(s *Spec, st *Stats) interface{} {
	return func(s *Spec, st *Stats) interface{} {
		e := &taskEnv{s: s}
		for k := 0; k < n; k++ {
			t := makeTask(s, k)
			var err error
			if t.solo, err = Solo(s, k); err != nil {
				st.skip("the conversion alone: " + short(err.Error()))
				return nil
			}
			e.tasks = append(e.tasks, t)
		}
		if strings.HasPrefix(e.tasks[0].solo, "error") {
			st.skip("the conversion alone fails: " + s.Kind + s.Ext + " " + short(e.tasks[0].solo))
			return nil
		}
		return e
	}
}

func schedTrial(r *gen.R) *Trial {
	return &Trial{SSeed: r.U64() | 1, Stay: r.PickN(0, 20, 50, 80, 95), NameSeed: uint64(r.PickN(7, 7, 8))}
}

// concurrently runs tasks on one disk, interleaved as the trial says.
func concurrently(e *taskEnv, t *Trial, st *Stats, use []int) (d *simk.Disk, errs []error, procs []*simk.Proc, ok bool) {
	d = simk.NewDisk()
	sc := &simk.Sched{Seed: t.SSeed, Stay: t.Stay}
	if len(t.Choices) > 0 {
		sc.Replay, sc.Choices = true, t.Choices
	}
	var fns []func()
	errs = make([]error, len(use))
	for i, k := range use {
		task := e.tasks[k]
		task.put(d)
		p := simk.NewProc(uint64(i+1), d)
		if t.NameSeed != 0 {
			p.NameSeed = t.NameSeed
		}
		if i == 0 {
			p.Faults = t.Faults
		}
		procs = append(procs, p)
		i := i
		errs[i] = &crashErr{"ended"}
		fns = append(fns, func() { errs[i] = pipeline(task.w, task.out, task.o) })
	}
	sc.Run(procs, fns)
	for i, p := range procs {
		st.proc(p)
		if p.Panic != "" {
			errs[i] = &crashErr{"panic: " + p.Panic + " " + where(p.Stack)}
		}
	}
	st.Switches += sc.Switches
	st.Inter[sc.Hash()] = true
	st.state(fmt.Sprint(sc.Hash()))
	if sc.Stuck {
		st.skip("tasks wait for each other outside the simulator")
		return d, errs, procs, false
	}
	if len(t.Choices) == 0 {
		t.Choices = sc.Trace
	}
	return d, errs, procs, true
}

func init() {
	register(&Scenario{Prop: "C12", Name: "interleave", Weight: 3, Kinds: gen.Kinds, Exts: pipeExts, Real: "load, conversion and save by the library, two or three at a time",
		Setup: setupTasks(3),
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*taskEnv)
			var ts []*Trial
			var ops []simk.Op
			for i := 0; i < n; i++ {
				t := schedTrial(r)
				t.N = []int64{int64(r.N(3))}
				if i%4 == 3 { // the first one meets trouble
					if ops == nil {
						d := simk.NewDisk()
						e.tasks[0].put(d)
						p := newProc(d)
						inProc(p, func() error { return pipeline(e.tasks[0].w, e.tasks[0].out, e.tasks[0].o) })
						ops = p.Ops
					}
					if x := faultTrials(r, ops, 1, everyOp); len(x) > 0 {
						t.Faults = x[0].Faults
					}
				}
				ts = append(ts, t)
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*taskEnv)
			use := []int{0, 1, 2}
			if t.N[0] == 0 {
				use = []int{0, 1}
			}
			d, errs, procs, ok := concurrently(e, t, st, use)
			if !ok {
				return ""
			}
			for i, k := range use {
				if i == 0 && len(t.Faults) > 0 {
					continue
				}
				if got := e.tasks[k].outcome(d, errs[i]); got != e.tasks[k].solo {
					return fmt.Sprintf("%s to %s, while others run: %s", path.Base(e.tasks[k].w.Model), path.Base(e.tasks[k].out), lineDiff(e.tasks[k].solo, got))
				}
				if l := procs[i].OpenFiles(); len(l) > 0 {
					return fmt.Sprintf("%s to %s, while others run: left %s open", path.Base(e.tasks[k].w.Model), path.Base(e.tasks[k].out), l[0])
				}
			}
			if !(len(t.Faults) > 0) {
				for f := range d.Snapshot() {
					if strings.HasPrefix(f, tmpPrefix) {
						return fmt.Sprintf("%s is left after all conversions ended", f)
					}
				}
			}
			st.out("as alone")
			return ""
		}})

	register(&Scenario{Prop: "C12", Name: "same", Weight: 1, Kinds: []string{"pkg", "unity", "pkg", "mqox", "unity", "glb", "pkg", "fbxb", "pmx"}, Exts: pipeExts, Real: "load, conversion and save by the library, of one input at the same time",
		Setup: setupTasks(3),
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			var ts []*Trial
			for i := 0; i < n; i++ {
				t := schedTrial(r)
				t.N = []int64{int64(r.N(2))}
				ts = append(ts, t)
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*taskEnv)
			use := []int{0, 1, 2}
			if t.N[0] == 0 {
				use = []int{0, 1}
			}
			d, errs, _, ok := concurrently(e, t, st, use)
			if !ok {
				return ""
			}
			for i, k := range use {
				// a saved texture of another task is not this one's result
				got := e.tasks[k].outcome(d, errs[i])
				have := map[string]bool{}
				for _, l := range strings.Split(got, "\n") {
					have[l] = true
				}
				for _, l := range strings.Split(e.tasks[k].solo, "\n") {
					if !have[l] {
						return fmt.Sprintf("%s to %s, while others convert the same file: %s", path.Base(e.tasks[k].w.Model), path.Base(e.tasks[k].out), lineDiff(e.tasks[k].solo, got))
					}
				}
				if errs[i] != nil {
					return fmt.Sprintf("%s to %s, while others convert the same file: %v", path.Base(e.tasks[k].w.Model), path.Base(e.tasks[k].out), errs[i])
				}
			}
			st.out("as alone")
			return ""
		}})

	register(&Scenario{Prop: "C12", Name: "sequence", Weight: 3, Kinds: gen.Kinds, Exts: pipeExts, Step: 2, Real: "loads, conversions and saves by the library, one after another",
		Setup: setupTasks(4),
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			var ts []*Trial
			for i := 0; i < n/4+1; i++ {
				t := &Trial{}
				for k := r.In(2, 7); k > 0; k-- {
					bad := int64(0)
					if r.P(30) {
						bad = int64(1 + r.N(1<<30))
					}
					t.N = append(t.N, int64(r.N(4)), bad)
				}
				t.N = append(t.N, int64(r.N(4)), 0)
				ts = append(ts, t)
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*taskEnv)
			var prev []string
			for i := 0; i+1 < len(t.N); i += 2 {
				task := e.tasks[int(t.N[i])%len(e.tasks)]
				d := simk.NewDisk()
				task.put(d)
				p := newProc(d)
				if t.N[i+1] != 0 { // this one fails somewhere
					r := gen.NewR(uint64(t.N[i+1]))
					p.Faults = []simk.Fault{{Op: r.N(r.PickN(10, 100, 1000)), Kind: "err", Arg: eIO}}
				}
				err := inProc(p, func() error { return pipeline(task.w, task.out, task.o) })
				st.proc(p)
				name := path.Base(task.w.Model) + " to " + path.Base(task.out)
				if t.N[i+1] == 0 {
					got := task.outcome(d, err)
					st.state(got, strings.Join(prev, ";"))
					if got != task.solo {
						return fmt.Sprintf("%s, after %d other conversions in the process (%s): %s", name, len(prev), strings.Join(prev, ", "), lineDiff(task.solo, got))
					}
					st.out("as in a fresh process")
				}
				prev = append(prev, name)
			}
			st.Inter[h64(prev...)] = true
			return ""
		}})
}

func lineDiff(a, b string) string {
	as, bs := strings.Split(strings.TrimSpace(a), "\n"), strings.Split(strings.TrimSpace(b), "\n")
	in := func(l []string, s string) bool {
		i := sort.SearchStrings(l, s)
		return i < len(l) && l[i] == s
	}
	sa, sb := append([]string{}, as...), append([]string{}, bs...)
	sort.Strings(sa)
	sort.Strings(sb)
	var d []string
	for _, l := range as {
		if !in(sb, l) {
			d = append(d, "want "+l)
		}
	}
	for _, l := range bs {
		if !in(sa, l) {
			d = append(d, "got "+l)
		}
	}
	return short2(strings.Join(d, "; "))
}

func short2(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// SoloMain answers a request of the driver's parent.
func SoloMain(in []byte) string {
	var q struct {
		Spec *Spec
		K    int
	}
	if err := json.Unmarshal(in, &q); err != nil {
		return "bad request"
	}
	return RunSolo(q.Spec, q.K)
}
