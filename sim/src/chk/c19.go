//go:build go1.22

package chk

import (
	"fmt"
	"math"
	"path"
	"sort"
	"strings"

	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/zzverif/gen"
)

// A motion becomes an animation of the bones and morphs.

type moveEnv struct {
	chainEnv
	args    []string
	out     string
	base    *glb // the same without motions
	baseIn  string
	motions []*mmd.Animation
	bones   map[string]bool
	rot     bool
	problem string
}

func setupMove(s *Spec, st *Stats) interface{} {
	r := gen.NewR(s.GSeed)
	r.Neat, r.Human = true, true
	e := &moveEnv{bones: map[string]bool{}}
	e.seed = s.GSeed
	e.w = gen.NewWorld(r, s.Kind, s.Size)
	w := e.w
	q := e.first()
	q.check()
	mmdIn := s.Kind == "pmx" || s.Kind == "pmd"
	var flags []string
	f := func(p int, s ...string) {
		if r.P(p) {
			flags = append(flags, s...)
		}
	}
	if mmdIn {
		flags = append(flags, "-autotpose", "none", "-mmdFixInheritParentThreshold", "2")
	}
	if r.P(25) {
		flags = append(flags, "-rot180")
		e.rot = true
	}
	if mmdIn && s.Ext == ".vrm" {
		e.rot = true
	}
	f(15, "-reuseGeometry")
	f(15, "-ignoreHierarchy")
	f(10, "-unlit=*")
	f(10, "-physics")
	e.disk = newDisk(w)
	d := e.disk.Clone()
	p := newProc(d)
	p.Cwd = "/work"
	d.WriteFile("/work/base/x", nil)
	e.baseIn = "/work/base/b" + s.Ext
	args := append([]string{"modelconv"}, flags...)
	runCLI(p, append(append([]string{}, args...), w.Model, e.baseIn))
	if exitCode(p) != 0 {
		e.problem = "the conversion without motions fails"
		return e
	}
	var err error
	if e.base, err = readGLTF(e.baseIn, d.ReadFile); err != nil {
		e.problem = "the conversion without motions cannot be read"
		return e
	}
	nodes, unique := e.base.vnodes()
	if !unique {
		e.problem = "nodes with the same name"
		return e
	}
	var bones, morphs []string
	for _, b := range q.bones {
		e.bones[b.name] = true
		bones = append(bones, b.name)
	}
	seen := map[string]bool{}
	for _, n := range nodes {
		if n.mesh >= 0 {
			for _, t := range e.base.targetsOf(n.mesh) {
				if seen[t] {
					e.problem = "morphs with the same name"
					return e
				}
				seen[t] = true
				morphs = append(morphs, t)
			}
		}
	}
	bones, morphs = append(bones, "nobody", "頭"), append(morphs, "nothing", "あ")
	var files []string
	for n := r.In(1, 2); n > 0; n-- {
		b := gen.VMD(r, s.Size+1, bones, morphs)
		e.motions = append(e.motions, decodeVMD(b))
		files = append(files, fmt.Sprintf("%s/%s%d.%s", w.Dir, r.Pick("motion", "モーション", "dance 1"), n, r.Pick("vmd", "vmd", "VMD")))
		e.disk.WriteFile(files[len(files)-1], b)
	}
	e.out = r.Pick("/work/out/result", w.Dir+"/out") + s.Ext
	e.args = append(append(append(args, w.Model), files...), e.out)
	p = newProc(e.disk.Clone())
	p.Cwd = "/work"
	runCLI(p, e.args)
	e.ops = p.Ops
	return e
}

type track struct {
	t []float64
	v [][]float64
}

func (k *track) at(t float64) []float64 {
	i := sort.SearchFloat64s(k.t, t-1e-4)
	if i == len(k.t) {
		return k.v[i-1]
	}
	if i == 0 || k.t[i] < t+1e-4 {
		return k.v[i]
	}
	f := (t - k.t[i-1]) / (k.t[i] - k.t[i-1])
	var r []float64
	for c := range k.v[i] {
		r = append(r, k.v[i-1][c]*(1-f)+k.v[i][c]*f)
	}
	return r
}

func (k *track) sort() {
	sort.Sort(k)
}
func (k *track) Len() int           { return len(k.t) }
func (k *track) Less(i, j int) bool { return k.t[i] < k.t[j] }
func (k *track) Swap(i, j int)      { k.t[i], k.t[j] = k.t[j], k.t[i]; k.v[i], k.v[j] = k.v[j], k.v[i] }

// expect is what an animation has to hold: tracks by node and path.
func (e *moveEnv) expect(a *mmd.Animation) map[string]*track {
	nodes, _ := e.base.vnodes()
	r := map[string]*track{}
	get := func(k string) *track {
		if r[k] == nil {
			r[k] = &track{}
		}
		return r[k]
	}
	sign := 1.0
	if e.rot {
		sign = -1
	}
	for i, n := range nodes {
		if n.mesh < 0 && e.bones[n.name] {
			var rest q3
			for c, x := range e.base.arr(e.base.obj(e.base.list("nodes")[i]), "translation") {
				rest[c] = e.base.float(x)
			}
			turned, moved := false, false
			kr, kt := &track{}, &track{}
			for _, s := range a.Bone {
				if s.Target != n.name {
					continue
				}
				t := float64(s.Frame) / 30
				q, p := s.Rotation, s.Position
				kr.t, kt.t = append(kr.t, t), append(kt.t, t)
				kr.v = append(kr.v, []float64{-sign * float64(q.X), -float64(q.Y), sign * float64(q.Z), float64(q.W)})
				kt.v = append(kt.v, []float64{rest[0] + sign*float64(p.X)*0.08, rest[1] + float64(p.Y)*0.08, rest[2] - sign*float64(p.Z)*0.08})
				turned = turned || q != mmd.Quaternion{W: 1}
				moved = moved || p != mmd.Vector3{}
			}
			if turned {
				*get(fmt.Sprint(i, " rotation")) = *kr
			}
			if moved {
				*get(fmt.Sprint(i, " translation")) = *kt
			}
		}
		if n.mesh >= 0 {
			names := e.base.targetsOf(n.mesh)
			one := map[string]*track{}
			times := map[float64]bool{}
			for _, t := range names {
				k := &track{}
				for _, s := range a.Morph {
					if s.Target == t {
						k.t, k.v = append(k.t, float64(s.Frame)/30), append(k.v, []float64{float64(s.Value)})
						times[float64(s.Frame)/30] = true
					}
				}
				if len(k.t) > 0 {
					k.sort()
					one[t] = k
				}
			}
			if len(one) > 0 {
				k := get(fmt.Sprint(i, " weights"))
				for t := range times {
					var v []float64
					for _, n := range names {
						if one[n] != nil {
							v = append(v, one[n].at(t)...)
						} else {
							v = append(v, 0)
						}
					}
					k.t, k.v = append(k.t, t), append(k.v, v)
				}
			}
		}
	}
	for _, k := range r {
		k.sort()
	}
	return r
}

func (e *moveEnv) check(g *glb) string {
	var want []map[string]*track
	var names []string
	for _, a := range e.motions {
		if x := e.expect(a); len(x) > 0 {
			want = append(want, x)
			names = append(names, a.Name)
		}
	}
	anims := g.list("animations")
	if len(anims) != len(want) {
		return fmt.Sprintf("%d animations, should be %d", len(anims), len(want))
	}
	for i, v := range anims {
		a := g.obj(v)
		if str(a, "name") != names[i] {
			return fmt.Sprintf("animation %d is called %q, should be %q", i, a["name"], names[i])
		}
		got := map[string]*track{}
		for _, c := range g.arr(a, "channels") {
			ch := g.obj(c)
			t := g.obj(ch["target"])
			key := fmt.Sprint(g.num(t, "node", -1), " ", t["path"])
			if got[key] != nil {
				return "two channels for node " + key
			}
			s := g.obj(g.arr(a, "samplers")[g.num(ch, "sampler", 0)])
			if m := str(s, "interpolation"); m != "" && m != "LINEAR" {
				return "interpolation is " + m
			}
			in, out := g.num(s, "input", 0), g.num(s, "output", 0)
			k := &track{}
			k.t, _ = g.values(in)
			vals, _ := g.values(out)
			if o := g.obj(g.list("accessors")[out]); o["normalized"] == true {
				div := map[int]float64{5121: 255, 5123: 65535}[g.num(o, "componentType", 0)]
				for j := range vals {
					vals[j] /= div
				}
			} else if g.num(o, "componentType", 0) != 5126 {
				return "the values of node " + key + " are not normalized"
			}
			if len(k.t) == 0 || len(vals)%len(k.t) != 0 {
				return fmt.Sprintf("node %s has %d times and %d values", key, len(k.t), len(vals))
			}
			for j := 1; j < len(k.t); j++ {
				if k.t[j] <= k.t[j-1] {
					return fmt.Sprintf("the times of node %s do not increase: %v", key, k.t)
				}
			}
			acc := g.obj(g.list("accessors")[in])
			for b, x := range map[string]float64{"min": k.t[0], "max": k.t[len(k.t)-1]} {
				if l := g.arr(acc, b); len(l) != 1 || math.Abs(g.float(l[0])-x) > 1e-6*(1+x) {
					return fmt.Sprintf("the %s of the times of node %s is %v, should be %v", b, key, l, x)
				}
			}
			n := len(vals) / len(k.t)
			for j := range k.t {
				k.v = append(k.v, vals[j*n:j*n+n])
			}
			got[key] = k
		}
		var keys []string
		for k := range want[i] {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, key := range keys {
			w, k := want[i][key], got[key]
			what := "animation of node " + key
			if k == nil {
				return what + " is missing"
			}
			if len(k.t) != len(w.t) {
				return fmt.Sprintf("%s has the times %v, should have %v", what, k.t, w.t)
			}
			for j, t := range w.t {
				if math.Abs(t-k.t[j]) > 1e-5*(1+t) {
					return fmt.Sprintf("%s has the times %v, should have %v", what, k.t, w.t)
				}
				x, y := w.v[j], k.v[j]
				ok := len(x) == len(y)
				dot := 1.0
				if ok && strings.HasSuffix(key, "rotation") {
					dot = x[0]*y[0] + x[1]*y[1] + x[2]*y[2] + x[3]*y[3]
				}
				for c := 0; ok && c < len(x); c++ {
					tol := 2e-6 * (1 + math.Abs(x[0]) + math.Abs(x[len(x)-1]))
					if strings.HasSuffix(key, "weights") {
						tol = 1.01 / 255
					}
					z := y[c]
					if dot < 0 {
						z = -z
					}
					ok = math.Abs(x[c]-z) <= tol+1e-6*math.Abs(x[c])
				}
				if !ok {
					return fmt.Sprintf("%s at %g s is %v, should be %v", what, t, y, x)
				}
			}
		}
		for k := range got {
			if want[i][k] == nil {
				return "node " + k + " is animated"
			}
		}
	}
	return ""
}

func (e *moveEnv) run(t *Trial, st *Stats) string {
	if e.problem != "" {
		st.skip(e.problem)
		return ""
	}
	d := e.disk.Clone()
	did := e.attempt(t, 0, d, e.args, e.out, st, nil)
	if !strings.HasSuffix(did, ": ") {
		return did
	}
	g, err := readGLTF(e.out, d.ReadFile)
	if err != nil {
		return did + "the output cannot be read: " + err.Error()
	}
	if m := e.check(g); m != "" {
		return did + m
	}
	if len(g.list("animations")) > 0 {
		st.out("animated: " + e.w.Kind + " to " + path.Ext(e.out))
	} else {
		st.out("nothing to animate")
	}
	// the model itself is the same
	delete(g.j, "animations")
	if m := sameGL(e.base, g, q3{1, 1, 1}, false, func(g *glb, i int) string { return "" }); m != "" {
		return did + "with the motion, " + m
	}
	st.state(d.Hash())
	return ""
}

func init() {
	register(&Scenario{Prop: "C19", Name: "motion", Weight: 1, Kinds: []string{"pmx", "pmx", "pmd", "mqox", "mqoz", "fbxb"},
		Exts: []string{".glb", ".gltf", ".vrm"}, MaxSize: 5, Real: "the whole command",
		Setup: setupMove,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			return chainTrials(env.(*moveEnv).ops, r, n)
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			return env.(*moveEnv).run(t, st)
		}})
}
