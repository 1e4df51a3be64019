//go:build go1.22

package chk

import (
	"fmt"
	"path"
	"strings"

	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/binzume/modelconv/zzverif/simk"
)

// chainEnv is a model and the conversions that are made one after the other.
type chainEnv struct {
	w    *gen.World
	disk *simk.Disk
	exts []string
	dir  string // of the outputs
	seed uint64
	ops  []simk.Op
}

func glExt(e string) bool { return e == ".glb" || e == ".gltf" || e == ".vrm" }

// first is the model of the world, from what the generator put into the file.
func (e *chainEnv) first() *qDoc {
	w := e.w
	switch {
	case w.PMX != nil:
		return ofMMD(w.PMX, 1)
	case w.Kind == "pmd":
		return ofMMD(decodePMD(w.Files[w.Model]), 1)
	case w.MQO != nil:
		return ofMQO(w.MQO)
	case w.FBX != nil:
		return ofFBX(w.FBX)
	case w.Assets != nil:
		return ofUnity(w.Assets)
	}
	g, err := readGLTF(w.Model, func(p string) ([]byte, bool) { b, ok := w.Files[p]; return b, ok })
	if err != nil {
		return nil
	}
	return ofGLTF(g, 1, true)
}

// read reads a file. input: as the source of a further conversion.
func readQ(d *simk.Disk, file string, input bool) (q *qDoc, err error) {
	switch ext := path.Ext(file); {
	case glExt(ext):
		g, err := readGLTF(file, d.ReadFile)
		if err != nil {
			return nil, err
		}
		defer func() {
			if r := recover(); r != nil {
				ge, ok := r.(*glErr)
				if !ok {
					panic(r)
				}
				err = ge
			}
		}()
		if input {
			return ofGLTF(g, 1, true), nil
		}
		return ofGLTF(g, 1000, false), nil
	case ext == ".pmx":
		err = inProc(newProc(d), func() error {
			doc, err := mmd.Load(file)
			if err != nil {
				return err
			}
			if input {
				q = ofMMD(doc, 1)
			} else {
				q = ofMMD(doc, 80)
			}
			return nil
		})
	default:
		err = inProc(newProc(d), func() error {
			doc, err := mqo.Load(file)
			if err == nil {
				q = ofMQO(doc)
			}
			return err
		})
	}
	return
}

// plain: a name that can stand in an option.
func plain(s string) bool { return s != "" && !strings.ContainsAny(s, ",:[]\\*?") }

// step chooses the options of one conversion and applies them to the model.
func (e *chainEnv) step(q *qDoc, r *gen.R, in, ext string) (flags []string) {
	mmdIn := strings.HasSuffix(in, ".pmx") || strings.HasSuffix(in, ".pmd")
	scale := 1.0
	if mmdIn {
		scale = 80
	}
	sv := q3{1, 1, 1}
	rot := false
	add := func(s ...string) { flags = append(flags, s...) }
	num := func(opts ...string) (string, float64) {
		s := opts[r.N(len(opts))]
		var f float64
		fmt.Sscan(s, &f)
		return s, f
	}
	if r.P(25) {
		s, f := num("0.5", "2", "10", "3")
		add("-scale", s)
		scale = f
	}
	for i, n := range []string{"-scaleX", "-scaleY", "-scaleZ"} {
		if r.P(10) {
			s, f := num("0.5", "2", "1.5")
			add(n, s)
			sv[i] = f
		}
	}
	if r.P(15) {
		add("-rot180")
		rot = true
	}
	if mmdIn && ext == ".vrm" {
		rot = true
		add("-autotpose", "none", "-mmdFixInheritParentThreshold", "2")
	}
	sv = sv.mul(scale)
	if rot {
		sv[0], sv[2] = -sv[0], -sv[2]
	}
	q.transform(sv)
	if len(q.bones) > 1 && !dup(q.bones) && r.P(15) {
		a, b := r.N(len(q.bones)), r.N(len(q.bones))
		if !q.below(b, a) && plain(q.bones[a].name) && plain(q.bones[b].name) {
			add("-chparent", q.bones[a].name+":"+q.bones[b].name)
			q.bones[a].parent = q.bones[b].name
		}
	}
	if !q.one && len(q.objs) > 0 && r.P(15) {
		k := r.N(len(q.objs))
		same := 0
		for _, o := range q.objs {
			if o.name == q.objs[k].name {
				same++
			}
		}
		if plain(q.objs[k].name) && same == 1 {
			add("-hide", q.objs[k].name)
			q.objs[k].hidden = true
			for i := k + 1; i < len(q.objs) && q.objs[i].depth > q.objs[k].depth; i++ {
				q.objs[i].hidden = true
			}
		}
	}
	ignore := func(n string) {
		for i := range q.mats {
			if q.mats[i].name == n {
				q.mats[i].name += "$IGNORE"
				q.mats[i].col[3] = 0
			}
		}
	}
	pick := func() string { return q.mats[r.N(len(q.mats))].name }
	if len(q.mats) > 0 && r.P(12) {
		if n := pick(); plain(n) {
			add("-hidemat", n)
			ignore(n)
		}
	}
	if r.P(20) {
		var ns []string
		seen := map[string]bool{}
		for _, o := range q.objs {
			for n := range o.morph {
				if !seen[n] {
					seen[n] = true
					ns = append(ns, n)
				}
			}
		}
		for _, m := range q.mats {
			if p := strings.SplitN(m.name, ":", 3); len(p) == 3 && p[0] == "$MORPH" && !seen[p[1]] {
				seen[p[1]] = true
				ns = append(ns, p[1])
			}
		}
		sortStrings(ns)
		if len(ns) > 0 {
			n := ns[r.N(len(ns))]
			if plain(n) {
				s, f := num("0.5", "1", "0.25")
				add("-morph", n+":"+s)
				q.applyMorph(n, f)
			}
		}
	}
	if len(q.mats) > 0 && r.P(15) {
		n := pick()
		s := r.Pick("0", "0.5", "opaque", "blend", "mask")
		if plain(n) {
			add("-alpha", n+":"+s)
			if s == "0" {
				ignore(n)
			}
			for i := range q.mats {
				if q.mats[i].name == n {
					switch s {
					case "0.5":
						q.mats[i].col[3] = 0.5
					case "opaque":
						q.mats[i].col[3] = 1
					}
				}
			}
		}
	}
	for _, s := range []string{"-physics", "-unlit=*"} {
		if r.P(10) {
			add(s)
		}
	}
	if glExt(ext) {
		for _, s := range []string{"-reuseGeometry", "-ignoreHierarchy", "-texReCompress", "-detectAlphaTexture", "-gltfExportLight"} {
			if r.P(10) || q.dups && r.P(40) {
				add(s)
			}
		}
	}
	return
}

func (q *qDoc) transform(s q3) {
	for _, o := range q.objs {
		for i := range o.v {
			o.v[i] = o.v[i].by(s)
		}
		for _, m := range o.morph {
			for i := range m {
				m[i] = m[i].by(s)
			}
		}
	}
	for i := range q.bones {
		q.bones[i].pos = q.bones[i].pos.by(s)
	}
	for i := range q.lights {
		q.lights[i].m = qScale(s).mul(q.lights[i].m)
	}
}

// below: bone a is b or below b.
func (q *qDoc) below(a, b int) bool {
	by := map[string]int{}
	for i, x := range q.bones {
		by[x.name] = i
	}
	for n := 0; n <= len(q.bones); n++ {
		if a == b {
			return true
		}
		p, ok := by[q.bones[a].parent]
		if !ok {
			return false
		}
		a = p
	}
	return true
}

func (q *qDoc) applyMorph(n string, f float64) {
	for _, o := range q.objs {
		df := o.morph[n]
		if df == nil {
			continue
		}
		for i, d := range df {
			o.v[i] = o.v[i].add(d.mul(f))
		}
		for _, t := range q.objs { // the other shapes follow
			if t.target && t.name != n && o.morph[t.name] != nil {
				for i, d := range df {
					t.v[i] = t.v[i].add(d.mul(f))
				}
			}
		}
		for i, d := range df {
			df[i] = d.mul(1 - f)
		}
	}
	by := map[string]int{}
	for i, m := range q.mats {
		by[m.name] = i
	}
	for _, m := range q.mats {
		if p := "$MORPH:" + n + ":"; strings.HasPrefix(m.name, p) {
			if k, ok := by[m.name[len(p):]]; ok {
				for c := range m.col {
					q.mats[k].col[c] = q.mats[k].col[c]*(1-f) + m.col[c]*f
				}
			}
		}
	}
}

// rename takes back the numbers that make names unique.
func (q *qDoc) rename(got *qDoc) {
	names := map[string]bool{}
	for _, o := range q.objs {
		names[o.name] = true
	}
	for _, o := range got.objs {
		if i := strings.LastIndex(o.name, "_"); i > 0 && !names[o.name] && names[o.name[:i]] {
			o.name = o.name[:i]
		}
	}
}

// sameTree looks for the objects in the nodes of a glTF file.
func (q *qDoc) sameTree(d *simk.Disk, file string, flat bool, x qOut, st *Stats) (msg string) {
	var want []string
	var up []string
	for _, o := range q.objs {
		if o.target {
			continue
		}
		name := fbxPlain(o.name)
		if flat {
			for i := range o.f {
				if x.keep(q, o, &o.f[i]) {
					want = append(want, name)
					break
				}
			}
			continue
		}
		if o.depth > len(up) {
			st.skip("an object without a parent: tree not compared")
			return ""
		}
		up = append(up[:o.depth:o.depth], name)
		want = append(want, strings.Join(up, "\x00"))
	}
	g, err := readGLTF(file, d.ReadFile)
	if err != nil {
		return err.Error()
	}
	defer func() {
		if r := recover(); r != nil {
			ge, ok := r.(*glErr)
			if !ok {
				panic(r)
			}
			msg = ge.Error()
		}
	}()
	nodes := g.list("nodes")
	_, parent := g.world()
	got := map[string]int{}
	for i := range nodes {
		s, _ := g.obj(nodes[i])["name"].(string)
		s = fbxPlain(s)
		for k := i; ; {
			p, ok := parent[k]
			if !ok {
				break
			}
			n, _ := g.obj(nodes[p])["name"].(string)
			s = fbxPlain(n) + "\x00" + s
			k = p
		}
		got[s]++
	}
	for _, w := range want {
		if got[w] == 0 {
			return fmt.Sprintf("there is no node %q (nodes: %q)", strings.Split(w, "\x00"), got)
		}
		got[w]--
	}
	return ""
}

// textures says which pictures an output in glTF holds.
func (q *qDoc) textures(d *simk.Disk, dir string, flags []string) {
	re := strings.Contains(strings.Join(flags, " "), "-texReCompress")
	for i := range q.mats {
		m := &q.mats[i]
		if m.tex == "" {
			continue
		}
		p := m.tex
		if !path.IsAbs(p) {
			p = path.Join(dir, p)
		}
		b, ok := d.ReadFile(p)
		if x, saved := q.files[m.tex]; saved {
			b, ok = x, true
		}
		ext := strings.ToLower(path.Ext(m.tex))
		switch {
		case !ok:
			m.tex = ""
		case ext != ".png" && ext != ".jpg" && ext != ".jpeg" || re:
			m.gone = true
		default:
			m.tex, m.data = path.Base(m.tex), b
		}
	}
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func setupChain(s *Spec, st *Stats) interface{} {
	r := gen.NewR(s.GSeed)
	r.Neat = true
	if s.Scen == "big" {
		r.Big = 2
	}
	e := &chainEnv{seed: s.GSeed}
	e.w = gen.NewWorld(r, s.Kind, s.Size)
	e.disk = newDisk(e.w)
	e.exts = []string{s.Ext}
	next := []string{".mqo", ".mqoz", ".pmx", ".glb", ".gltf", ".vrm"}
	for n := r.N(3); n > 0; n-- {
		e.exts = append(e.exts, next[r.N(len(next))])
	}
	e.dir = "/work/out"
	if r.P(50) {
		e.dir = e.w.Dir
	}
	e.ops = nil
	tmp := NewStats()
	tmp.cur = s
	if m := e.run(&Trial{}, tmp, func(p *simk.Proc) {
		if e.ops == nil {
			e.ops = p.Ops
		}
	}); m != "" {
		e.ops = nil // the first trial will tell
	}
	return e
}

// runGL converts a glTF file to another one. It returns a text that ends with
// ": " when all is well.
func (e *chainEnv) runGL(t *Trial, k int, d *simk.Disk, in, out string, st *Stats, seen func(p *simk.Proc)) string {
	a, err := readGLTF(in, d.ReadFile)
	if err != nil {
		return "the input cannot be read: " + err.Error()
	}
	r := gen.NewR(mix(e.seed, uint64(900+k)))
	flags, s := glStep(a, r)
	args := append(append([]string{"modelconv"}, flags...), in, out)
	did := e.attempt(t, k, d, args, out, st, seen)
	if !strings.HasSuffix(did, ": ") {
		return did
	}
	b, err := readGLTF(out, d.ReadFile)
	if err != nil {
		return did + "the output cannot be read: " + err.Error()
	}
	vrm := path.Ext(out) == ".vrm"
	one := path.Ext(out) != ".gltf"
	pa, pb := pictures(d, in, one), pictures(d, out, false)
	defer func() {
		if x := recover(); x != nil {
			panic(fmt.Sprint(x, " ", args))
		}
	}()
	return did + sameGL(a, b, s, vrm, func(g *glb, i int) string {
		if g == a {
			return pa(g, i)
		}
		return pb(g, i)
	})
}

// attempt runs the command, after a disturbed attempt. It returns a text that
// ends with ": " when the command succeeds.
func (e *chainEnv) attempt(t *Trial, k int, d *simk.Disk, args []string, out string, st *Stats, seen func(p *simk.Proc)) string {
	if len(t.N) > 0 && t.N[0]&1 == 1 { // an older one is there
		d.WriteFile(out, []byte("older\n"))
	}
	if k == 0 && len(t.Faults) > 0 {
		p := newProc(d)
		p.Cwd = "/work"
		t.apply(p)
		runCLI(p, args)
		st.proc(p)
		st.out(fmt.Sprintf("disturbed attempt: status %d", exitCode(p)))
	}
	p := newProc(d)
	p.Cwd = "/work"
	u := t.clone()
	u.Faults = nil
	u.apply(p)
	runCLI(p, args)
	st.proc(p)
	if seen != nil {
		seen(p)
	}
	did := strings.Join(args, " ") + ": "
	if exitCode(p) != 0 {
		return fmt.Sprintf("%sfails (status %d): %s", did, exitCode(p), lastLine(p))
	}
	return did
}

func (e *chainEnv) run(t *Trial, st *Stats, seen func(p *simk.Proc)) string {
	d := e.disk.Clone()
	q := e.first()
	if q == nil {
		st.skip("no model")
		return ""
	}
	in, did := e.w.Model, ""
	for k, ext := range e.exts {
		from := strings.ToLower(path.Ext(in))
		if glExt(from) && glExt(ext) {
			out := fmt.Sprintf("%s/step%d%s", e.dir, k, ext)
			m := e.runGL(t, k, d, in, out, st, seen)
			did += m
			if m != "" && !strings.HasSuffix(m, ": ") {
				return did
			}
			st.out("conserved: " + from + " to " + ext)
			st.state(d.Hash())
			var err error
			if q, err = readQ(d, out, true); err != nil {
				return fmt.Sprintf("%sthe output cannot be read: %v", did, err)
			}
			in = out
			continue
		}
		if from == ext && (ext == ".pmx" || k > 0) {
			break
		}
		q.check()
		if strings.HasPrefix(q.problem, "!") {
			return did + q.problem[1:]
		}
		if q.problem != "" {
			st.skip(q.problem)
			break
		}
		r := gen.NewR(mix(e.seed, uint64(900+k)))
		out := fmt.Sprintf("%s/step%d%s", e.dir, k, ext)
		flags := e.step(q, r, in, ext)
		args := append(append([]string{"modelconv"}, flags...), in, out)
		if k == 0 {
			args[len(args)-2] = e.w.Input
		}
		if glExt(ext) {
			q.textures(d, path.Dir(in), flags)
		}
		m := e.attempt(t, k, d, args, out, st, seen)
		did += m
		if !strings.HasSuffix(m, ": ") {
			return did
		}
		got, err := readQ(d, out, false)
		if err != nil {
			return fmt.Sprintf("%sthe output cannot be read: %v", did, err)
		}
		if strings.HasPrefix(got.problem, "!") {
			return did + got.problem[1:]
		}
		x := qOut{gl: glExt(ext), pmx: ext == ".pmx", mqo: ext == ".mqo" || ext == ".mqoz"}
		if got.problem != "" && !x.gl && !q.one && !q.dups {
			return did + "the output has " + got.problem
		}
		if q.dups {
			q.rename(got)
		}
		if m := q.same(got, x, st); m != "" {
			return did + m
		}
		if x.gl && !q.one {
			if m := q.sameTree(d, out, strings.Contains(strings.Join(flags, " "), "-ignoreHierarchy"), x, st); m != "" {
				return did + m
			}
		}
		if x.gl && q.lights != nil {
			if m := q.sameLights(d, out, strings.Contains(strings.Join(flags, " "), "-gltfExportLight")); m != "" {
				return did + m
			}
		}
		st.out("conserved: " + from + " to " + ext)
		st.state(d.Hash())
		if q, err = readQ(d, out, true); err != nil {
			return fmt.Sprintf("%sthe output cannot be read: %v", did, err)
		}
		in = out
	}
	return ""
}

// chainTrials: an undisturbed run, schedules and orders, disturbed first attempts.
func chainTrials(ops []simk.Op, r *gen.R, n int) []*Trial {
	ts := []*Trial{{}}
	for len(ts) < n/2 {
		ts = append(ts, &Trial{Chunk: chunking(r), MapSeed: r.U64() >> 1, DirSeed: r.U64() >> 1, NameSeed: r.U64() >> 1})
	}
	if len(ops) > 0 {
		ts = append(ts, faultTrials(r, ops, n-len(ts), anyOp)...)
		ts = append(ts, crashTrial(r, ops))
	}
	for _, t := range ts[1:] {
		t.N = []int64{int64(r.N(2))}
		if t.MapSeed == 0 && r.P(50) {
			t.MapSeed = r.U64() >> 1
		}
	}
	return ts
}

func init() {
	for _, name := range []string{"chain", "big", "scene"} {
		sc := &Scenario{Prop: "C17", Name: name, Weight: 20, Kinds: []string{"pmx", "pmd", "mqo", "mqox", "mqos", "mqoz", "fbxb", "fbxt", "gltf", "gltfe", "glb", "vrm"},
			Exts: []string{".mqo", ".pmx", ".glb", ".mqoz", ".gltf", ".vrm"}, MaxSize: 5, Real: "the whole command, several times in a row",
			Setup: setupChain,
			Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
				return chainTrials(env.(*chainEnv).ops, r, n)
			},
			Run: func(env interface{}, t *Trial, st *Stats) string {
				return env.(*chainEnv).run(t, st, nil)
			}}
		if name == "scene" {
			sc.Weight, sc.MaxSize, sc.Kinds = 8, 8, []string{"unity", "pkg"}
		}
		if name == "big" {
			sc.Weight, sc.MaxSize, sc.Kinds = 1, 2, []string{"pmx", "mqox", "pmd", "pmx", "glb", "mqo", "gltf"}
			sc.Trials = func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
				return []*Trial{{}, {MapSeed: r.U64() >> 1, N: []int64{0}}}
			}
		}
		register(sc)
	}
}
