//go:build go1.22

package chk

import (
	"archive/tar"
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/binzume/modelconv/unity"
	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/binzume/modelconv/zzverif/simk"
)

var failModes = []string{"missing", "isdir", "inext", "outext", "truncate", "damage", "readfault", "outdir", "outisdir", "empty", "nomotion"}

const tmpPrefix = "/tmp/modelconv_assets_"

// oldOutputs puts files where the outputs will be.
func oldOutputs(e *caseEnv, d *simk.Disk, mode int) {
	for k, v := range e.base.Out {
		if inSaved(k) || strings.HasSuffix(k, "/") {
			continue
		}
		o := strings.Repeat("older output\n", 1+len(v)/8)
		if mode == 2 {
			o = "x"
		}
		d.WriteFile(k, []byte(o))
	}
}

func setupFail(s *Spec, st *Stats) interface{} {
	c := gen.NewCase(gen.NewR(s.GSeed), s.Kind, fixExt(s.Kind, s.Ext), s.Size)
	e := &caseEnv{c: c}
	// often the output lies beside the input and has its name
	if s.GSeed%3 == 0 && s.Kind != "unity" {
		stem := strings.TrimSuffix(c.Model, path.Ext(c.Model))
		clash := false
		for _, x := range []string{c.OutExt, ".mqx", "0.bin"} {
			if _, ok := c.Files[stem+x]; ok {
				clash = true
			}
		}
		if !clash {
			c.Out = stem + c.OutExt
			c.Args[len(c.Args)-1] = c.Out
		}
	}
	e.disk = newDisk(c.World)
	e.base = runCase(c, e.disk.Clone(), nil)
	e.ops = e.base.P.Ops
	if e.base.Code != 0 {
		st.skip("undisturbed run fails: " + s.Kind + s.Ext + ": " + short(lastLine(e.base.P)))
		return nil
	}
	return e
}

// loadable tells whether every input that the command needs can be loaded.
func loadable(c *gen.Case, d *simk.Disk) bool {
	kind, file, scene := target(c.World)
	if l := load(newProc(d.Clone()), kind, file, scene); l.Err != nil {
		return false
	}
	for _, m := range c.Motions {
		if l := load(newProc(d.Clone()), "vmd", m, ""); l.Err != nil {
			return false
		}
	}
	return true
}

func init() {
	register(&Scenario{Prop: "C07", Name: "fail", Weight: 3, Kinds: gen.Kinds, Exts: allExts, Real: "the whole command",
		Setup: setupFail,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*caseEnv)
			var ts []*Trial
			prim := e.c.Primary()
			for i := 0; i < n; i++ {
				m := i % len(failModes)
				t := &Trial{}
				f := r.N(len(prim))
				pos := 0
				switch failModes[m] {
				case "truncate":
					pos = r.N(len(e.c.Files[prim[f]]) + 1)
				case "damage":
					for k := r.In(1, 3); k > 0; k-- {
						t.Damage = append(t.Damage, randDamage(r, len(prim), func(f int) int { return len(e.c.Files[prim[f]]) }))
					}
				case "readfault":
					if x := faultTrials(r, e.ops, 1, readTarget(e.c.World, e.c.Kind, "")); len(x) > 0 {
						t = x[0]
					}
				}
				t.N = []int64{int64(m), int64(f), int64(pos), int64(r.N(3))}
				ts = append(ts, t)
			}
			return ts
		},
		Run: runFail})

	register(&Scenario{Prop: "C07", Name: "inputs", Weight: 3, Kinds: gen.Kinds, Exts: allExts, Real: "the whole command",
		Setup: setupFail,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*caseEnv)
			ts := faultTrials(r, e.ops, n, func(o simk.Op) string { return o.Kind + " " + o.Path })
			for i := 0; i < n/3; i++ {
				ts = append(ts, crashTrial(r, e.ops))
			}
			ts = append(ts, &Trial{}, &Trial{N: []int64{1}})
			for _, t := range ts {
				if r.P(30) {
					t.N = []int64{int64(r.In(1, 2))}
				}
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*caseEnv)
			d := e.disk.Clone()
			if len(t.N) > 0 {
				oldOutputs(e, d, int(t.N[0]))
			}
			before := d.Snapshot()
			res := runCase(e.c, d, t.apply)
			st.proc(res.P)
			st.state(fmt.Sprint(res.Code), d.Hash())
			after := d.Snapshot()
			for _, f := range keys(e.disk.Snapshot()) {
				if _, out := e.base.Out[f]; out {
					continue
				}
				v, ok := after[f]
				if !ok {
					return fmt.Sprintf("%v: %s is gone after the run (%s)", e.c.Args, f, faultText2(res.P))
				}
				if v != before[f] {
					return fmt.Sprintf("%v: %s, which is not an output, changed (%s)", e.c.Args, f, faultText2(res.P))
				}
			}
			st.out("inputs untouched")
			return ""
		}})
}

func crashTrial(r *gen.R, ops []simk.Op) *Trial {
	t := &Trial{}
	f := simk.Fault{Op: r.N(len(ops) + 1), Kind: "crash"}
	if r.P(50) { // rather where something is changed
		var w []int
		for i, o := range ops {
			if o.Mut {
				w = append(w, i, i+1)
			}
		}
		if len(w) > 0 {
			f.Op = w[r.N(len(w))]
		}
	}
	if f.Op < len(ops) && ops[f.Op].Kind == "write" && r.P(70) {
		f.Kind, f.Arg = "torncrash", r.N(ops[f.Op].Size+1)
	}
	t.Faults = []simk.Fault{f}
	return t
}

func runFail(env interface{}, t *Trial, st *Stats) string {
	e := env.(*caseEnv)
	d := e.disk.Clone()
	oldOutputs(e, d, int(t.N[3]))
	prim := e.c.Primary()
	f := prim[int(t.N[1])%len(prim)]
	c := *e.c
	c.Args = append([]string{}, e.c.Args...)
	mode := failModes[int(t.N[0])%len(failModes)]
	certain := true // the conversion is impossible
	loads := false  // the input itself can be loaded
	inputArg := 1 + len(c.Flags)
	switch mode {
	case "missing":
		d.Remove(c.Model)
	case "isdir":
		d.Remove(c.Model)
		d.MkdirAll(c.Model)
		if c.Kind == "pkg" {
			certain = false // a directory can be a package
		}
	case "empty":
		d.WriteFile(c.Model, nil)
		if c.Kind != "pkg" && c.Kind != "mqoz" && c.Kind != "glb" && c.Kind != "vrm" && c.Kind != "pmx" && c.Kind != "pmd" {
			certain = false
		}
	case "inext":
		b := c.Files[c.Model]
		d.WriteFile("/work/in/model.abc", b)
		c.Args[inputArg] = "/work/in/model.abc"
	case "outext":
		loads = true
		c.Args[len(c.Args)-1] = strings.TrimSuffix(c.Args[len(c.Args)-1], c.OutExt) + ".xyz"
	case "truncate":
		b := c.Files[f]
		d.WriteFile(f, b[:min(int(t.N[2]), len(b))])
		certain = false
	case "damage":
		for i := range t.Damage {
			g := prim[t.Damage[i].File%len(prim)]
			b, _ := d.ReadFile(g)
			d.WriteFile(g, damage(b, &t.Damage[i]))
		}
		certain = false
	case "readfault":
		certain = false
	case "outdir":
		loads = true
		c.Args[len(c.Args)-1] = "/work/nowhere/result" + c.OutExt
	case "outisdir":
		loads = true
		d.Remove(c.Out)
		d.MkdirAll(c.Out)
	case "nomotion":
		if len(c.Motions) == 0 {
			certain = false
		} else {
			loads = c.Kind == "unity" || c.Kind == "pkg"
			d.Remove(c.Motions[int(t.N[1])%len(c.Motions)])
		}
	}
	st.Injected["cause/"+mode]++
	if !certain && mode != "readfault" && !loadable(&c, d) {
		certain = true
	}
	before := d.Snapshot()
	p := newProc(d)
	p.Cwd = c.Cwd
	t.apply(p)
	runCLI(p, c.Args)
	st.proc(p)
	code := exitCode(p)
	changed, gone := delta(before, d)
	st.state(mode, fmt.Sprint(code), d.Hash())
	if code == 0 {
		if certain {
			return fmt.Sprintf("%v: the conversion is impossible (%s), but the command reports success", c.Args, mode)
		}
		st.out("succeeded")
		return ""
	}
	st.out("failure reported: " + mode)
	if mode == "readfault" {
		certain = true
	}
	if !certain && !loads {
		return "" // the input loads: it is the conversion that fails
	}
	for _, g := range gone {
		return fmt.Sprintf("%v: the command failed (%s) and removed %s", c.Args, mode, g)
	}
	for _, g := range keys(changed) {
		switch {
		case strings.HasPrefix(g, tmpPrefix):
		case inSaved(g) && (c.Kind == "unity" || c.Kind == "pkg"):
		case loads && mode != "outext" && (outputPaths(&c)(g) || strings.HasPrefix(g, strings.TrimSuffix(c.Out, c.OutExt))):
		default:
			return fmt.Sprintf("%v: the command failed (%s) but %s was created or changed", c.Args, mode, g)
		}
	}
	return ""
}

// ---- C08, C09

// tmpLeft lists what is in the temporary directory and was not there before.
func tmpLeft(before map[string]string, d *simk.Disk) []string {
	var r []string
	for f, v := range d.Snapshot() {
		if strings.HasPrefix(f, "/tmp/") {
			if o, ok := before[f]; !ok || o != v {
				r = append(r, f)
			}
		}
	}
	sort.Strings(r)
	return r
}

// removalFailed: a fault hit the removal of the temporary directory itself.
func removalFailed(p *simk.Proc) bool {
	removing := false
	for _, o := range p.Ops {
		if (o.Kind == "unlink" || o.Kind == "rmdir") && strings.HasPrefix(o.Path, tmpPrefix) {
			removing = true
		}
		if o.Fault != "" && removing {
			return true
		}
		if o.Fault != "" && (o.Kind == "rmdir" || o.Kind == "unlink") {
			return true
		}
	}
	return false
}

func anyOp(o simk.Op) string {
	if o.Kind == "unlink" || o.Kind == "rmdir" {
		return "" // the removal may fail
	}
	if strings.HasPrefix(o.Path, tmpPrefix) {
		return o.Kind + " " + path.Base(o.Path) // one group for each kind of file
	}
	return o.Kind + " " + o.Path
}

// hostile adds entries to a package that try to reach other places.
func hostile(r *gen.R, w *gen.World) {
	es := append([]gen.TarEntry{}, w.Entries...)
	evil := func() string {
		return r.Pick("../evil", "../../work/notes.txt", "/etc/passwd", "../../../root/.profile", "..", "/", "../other/file", "x/../../evil2",
			"./../evil3", "a/../../../etc/passwd", "//etc/passwd", "../modelconv_assets_evil/x", strings.Repeat("../", 12)+"etc/passwd", "../../"+strings.TrimPrefix(w.Model, "/"), "..\\evil", "a/b/c/d/e", strings.Repeat("n", 300))
	}
	g := func() string { return fmt.Sprintf("%016x%016x", r.U64(), r.U64()) }
	n := r.In(1, 4)
	soft := r.P(50) // what the archive allows: only the names of assets
	for i := 0; i < n; i++ {
		at := r.N(len(es) + 1)
		var add []gen.TarEntry
		id := g()
		to := r.Pick("/etc", "/work", "../../work", "..", "/work/notes.txt", "/root/.profile", w.Model, "/tmp/other")
		pick := r.N(10)
		if soft {
			pick = r.PickN(5, 6)
		}
		switch pick {
		case 0, 1:
			add = []gen.TarEntry{{Name: evil(), Data: []byte("evil content")}}
		case 2:
			add = []gen.TarEntry{{Name: evil() + "/", Dir: true}, {Name: evil() + "/asset", Data: []byte("evil")}}
		case 3: // a link to a directory, then a file "below" it
			add = []gen.TarEntry{{Name: id, Type: tar.TypeSymlink, Link: to}, {Name: id + "/" + r.Pick("passwd", "notes.txt", "asset", "evil4"), Data: []byte("evil")}}
		case 4: // a link to a file, then the file
			add = []gen.TarEntry{{Name: id + "/", Dir: true}, {Name: id + "/asset", Type: r.Byte(tar.TypeSymlink, tar.TypeLink), Link: r.Pick("/work/notes.txt", "../../../work/notes.txt", w.Model)}, {Name: id + "/asset", Data: []byte("evil")}}
		case 5: // an asset whose path leads elsewhere
			add = []gen.TarEntry{{Name: id + "/", Dir: true}, {Name: id + "/asset", Data: []byte("evil")}, {Name: id + "/asset.meta", Data: []byte("guid: " + evil() + "\n")}, {Name: id + "/pathname", Data: []byte(evil())}}
		case 6: // the path of an existing asset
			for k := range es {
				if strings.HasSuffix(es[k].Name, "/pathname") && r.P(40) && k > 6 {
					es[k].Data = []byte(r.Pick(evil(), "Assets/"+evil(), "Assets/../../notes.txt", "Assets/..", "Assets/x.png\n/etc/passwd", "", "Assets/"+strings.Repeat("long", 80)+".png"))
				}
			}
		case 7: // other types of entries
			add = []gen.TarEntry{{Name: id, Type: r.Byte(tar.TypeFifo, tar.TypeChar, tar.TypeBlock, tar.TypeLink), Link: "/etc/passwd"}}
		case 8: // a whole asset under an evil identifier
			pre := r.Pick("../"+id, "/tmp/"+id, "../../work/"+id, "..")
			k := r.N(len(w.Assets))
			a := w.Assets[k]
			add = []gen.TarEntry{{Name: pre + "/", Dir: true}, {Name: pre + "/asset", Data: a.Data}, {Name: pre + "/asset.meta", Data: a.Meta}, {Name: pre + "/pathname", Data: []byte(a.Path)}}
		case 9: // the directory of an existing asset becomes a link
			k := r.N(len(w.Assets))
			add = []gen.TarEntry{{Name: w.Assets[k].GUID, Type: tar.TypeSymlink, Link: to}}
		}
		es = append(es[:at:at], append(add, es[at:]...)...)
	}
	// textures and materials with identifiers that contain directories
	if r.P(40) {
		bad := r.Pick("../../../../work/notes", "..", "../x", "/etc/passwd", "a/b")
		old := w.Assets[len(w.Assets)-1-r.N(min(len(w.Assets)-1, 3))].GUID
		for k := range es {
			if strings.Contains(es[k].Name, old) {
				es[k].Name = strings.ReplaceAll(es[k].Name, old, bad)
			}
			if len(es[k].Data) > 0 && !es[k].Dir {
				es[k].Data = []byte(strings.ReplaceAll(string(es[k].Data), old, bad))
			}
		}
	}
	w.Entries = es
	w.Files[w.Model] = gen.Package(r, es)
}

type pkgEnv struct {
	*caseEnv
	clean bool
}

func setupPkg(evil bool) func(s *Spec, st *Stats) interface{} {
	return func(s *Spec, st *Stats) interface{} {
		r := gen.NewR(s.GSeed)
		c := gen.NewCase(r, "pkg", fixExt("pkg", s.Ext), s.Size)
		if evil {
			hostile(gen.NewR(s.GSeed^99), c.World)
		}
		e := &caseEnv{c: c, disk: newDisk(c.World)}
		e.base = runCase(c, e.disk.Clone(), nil)
		e.ops = e.base.P.Ops
		return e
	}
}

func pkgTrials(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
	e := env.(*caseEnv)
	ts := []*Trial{{}}
	ts = append(ts, faultTrials(r, e.ops, n, anyOp)...)
	total := written(e.ops)
	for i := 0; i < n/4; i++ {
		ts = append(ts, &Trial{Cap: int64(1 + r.N(total+total/8+2))})
	}
	for i := 0; i < n/4; i++ {
		ts = append(ts, &Trial{Damage: []Damage{randDamage(r, 1, func(int) int { return len(e.c.Files[e.c.Model]) })}})
		ts = append(ts, &Trial{N: []int64{int64(r.N(len(e.c.Files[e.c.Model])))}}) // cut
	}
	for _, t := range ts[1:] {
		if r.P(10) {
			t.Chunk = chunking(r)
		}
	}
	return ts
}

// pkgDisk prepares the disk of a trial.
func pkgDisk(e *caseEnv, t *Trial, st *Stats) *simk.Disk {
	d := e.disk.Clone()
	for i := range t.Damage {
		b, _ := d.ReadFile(e.c.Model)
		d.WriteFile(e.c.Model, damage(b, &t.Damage[i]))
		st.Injected["damage/"+t.Damage[i].Mode]++
	}
	if len(t.N) == 1 {
		b, _ := d.ReadFile(e.c.Model)
		d.WriteFile(e.c.Model, b[:min(len(b), int(t.N[0]))])
		st.Injected["truncation"]++
	}
	if t.Cap > 0 {
		d.Cap = d.Used() + t.Cap
	}
	return d
}

func init() {
	tmpCLI := func(env interface{}, t *Trial, st *Stats) string {
		e := env.(*caseEnv)
		d := pkgDisk(e, t, st)
		before := d.Snapshot()
		res := runCase(e.c, d, t.apply)
		st.proc(res.P)
		st.state(fmt.Sprint(res.Code), d.Hash(), errPlace(res.P))
		if res.P.Crashed || res.P.Panic != "" {
			st.out("died")
			return ""
		}
		if removalFailed(res.P) {
			st.out("the removal itself failed")
			return ""
		}
		if l := tmpLeft(before, d); len(l) > 0 {
			return fmt.Sprintf("%v (status %d): %d files left in the temporary directory, e.g. %s, after %s", e.c.Args, res.Code, len(l), l[0], faultText2(res.P))
		}
		st.out(fmt.Sprintf("status %d, nothing left", res.Code))
		return ""
	}
	register(&Scenario{Prop: "C08", Name: "cli", Weight: 3, Kinds: []string{"pkg"}, Exts: []string{".mqo", ".glb", ".vrm", ".gltf", ".pmx", ".mqoz"}, Real: "the whole command",
		Setup: setupPkg(false), Trials: pkgTrials, Run: tmpCLI})
	register(&Scenario{Prop: "C08", Name: "hostile", Weight: 1, Kinds: []string{"pkg"}, Exts: []string{".mqo", ".glb"}, Real: "the whole command",
		Setup: setupPkg(true), Trials: pkgTrials, Run: tmpCLI})
	register(&Scenario{Prop: "C08", Name: "lib", Weight: 4, Kinds: []string{"pkg"}, Step: 3, Real: "package unity",
		Setup: func(s *Spec, st *Stats) interface{} {
			r := gen.NewR(s.GSeed)
			w := gen.NewWorld(r, "pkg", s.Size)
			e := &pkgLibEnv{w: w, disk: newDisk(w)}
			// a second package
			w2 := gen.NewWorld(r, "pkg", s.Size/2)
			e.pkgs = []string{w.Model, "/work/second.unitypackage", "/work/damaged.unitypackage", "/work/none.unitypackage"}
			e.scenes = []string{w.Assets[0].Path, w2.Assets[0].Path, "", ""}
			e.disk.WriteFile(e.pkgs[1], w2.Files[w2.Model])
			b := append([]byte{}, w.Files[w.Model]...)
			b[len(b)-3] ^= 0x10 // a checksum that does not fit
			if r.P(50) {
				b = b[:len(b)*2/3]
			}
			e.disk.WriteFile(e.pkgs[2], b)
			p := newProc(e.disk.Clone())
			e.run(p, []int64{0, 0, 0, 2, 0, 0, 3, 0, 5, 1, 0, 0, 0, 1, 0, 2, 1, 0, 1, 1, 0}, false)
			e.ops = p.Ops
			return e
		},
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*pkgLibEnv)
			var ts []*Trial
			for i := 0; i < n; i++ {
				t := &Trial{}
				if i > 0 && r.P(75) {
					if x := faultTrials(r, e.ops, 1, anyOp); len(x) > 0 {
						t = x[0]
					}
				} else if r.P(30) {
					t.Cap = int64(1 + r.N(written(e.ops)+1))
				}
				for k := r.In(2, 8); k > 0; k-- {
					t.N = append(t.N, int64(r.PickN(0, 0, 1, 2, 3, 3)), int64(r.PickN(0, 0, 0, 1, 1, 2, 3)), int64(r.N(40)))
				}
				ts = append(ts, t)
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*pkgLibEnv)
			d := e.disk.Clone()
			if t.Cap > 0 {
				d.Cap = d.Used() + t.Cap
			}
			before := d.Snapshot()
			p := newProc(d)
			t.apply(p)
			msg := e.run(p, t.N, true)
			st.proc(p)
			st.state(d.Hash(), errPlace(p), msg)
			if msg != "" && (len(t.Faults) == 0 && t.Cap == 0 || strings.HasPrefix(msg, "panic")) {
				return msg
			}
			if removalFailed(p) {
				st.out("the removal itself failed")
				return ""
			}
			if l := tmpLeft(before, d); len(l) > 0 {
				return fmt.Sprintf("after closing all packages %d files are left in the temporary directory, e.g. %s (%s)", len(l), l[0], faultText2(p))
			}
			st.out("nothing left")
			return ""
		}})

	// ---- C09
	places := func(c *gen.Case) func(f string) bool {
		out := outputPaths(c)
		return func(f string) bool {
			f = strings.TrimSuffix(f, "/")
			return strings.HasPrefix(f, tmpPrefix) || out(f)
		}
	}
	within := func(env interface{}, t *Trial, st *Stats) string {
		e := env.(*caseEnv)
		d := pkgDisk(e, t, st)
		before := d.Snapshot()
		res := runCase(e.c, d, t.apply)
		st.proc(res.P)
		st.state(fmt.Sprint(res.Code), d.Hash())
		ok := places(e.c)
		temps := map[string]bool{}
		for _, f := range res.P.Mutations() {
			if !ok(f) {
				return fmt.Sprintf("%v: writes to %s (%s)", e.c.Args, f, faultText2(res.P))
			}
			if strings.HasPrefix(f, tmpPrefix) {
				temps[strings.SplitN(f[len(tmpPrefix):], "/", 2)[0]] = true
			}
		}
		if len(temps) > 1 {
			return fmt.Sprintf("%v: writes to a temporary directory that is not its own: %v", e.c.Args, len(temps))
		}
		changed, gone := delta(before, d)
		for _, f := range append(keys(changed), gone...) {
			if !ok(f) {
				return fmt.Sprintf("%v: changed %s", e.c.Args, f)
			}
		}
		st.out(fmt.Sprintf("status %d, contained", res.Code))
		return ""
	}
	register(&Scenario{Prop: "C09", Name: "hostile", Weight: 6, Kinds: []string{"pkg"}, Exts: []string{".mqo", ".glb", ".vrm", ".gltf", ".pmx", ".mqoz"}, Real: "the whole command",
		Setup: setupPkg(true), Trials: pkgTrials, Run: within})
	register(&Scenario{Prop: "C09", Name: "plain", Weight: 1, Kinds: []string{"pkg"}, Exts: []string{".mqo", ".glb", ".gltf"}, Real: "the whole command",
		Setup: setupPkg(false), Trials: pkgTrials, Run: within})
	register(&Scenario{Prop: "C09", Name: "project", Weight: 2, Kinds: []string{"unity"}, Exts: []string{".mqo", ".glb", ".gltf"}, Real: "the whole command",
		Setup: func(s *Spec, st *Stats) interface{} {
			r := gen.NewR(s.GSeed)
			c := gen.NewCase(r, "unity", fixExt("unity", s.Ext), s.Size)
			// identifiers that contain directories, in all files that mention them
			for k := r.N(3); k > 0; k-- {
				bad := r.Pick("../../../notes", "..", "../x", "/etc/passwd", "a/b", ".")
				old := c.Assets[r.N(len(c.Assets))].GUID
				for f, b := range c.Files {
					if strings.HasPrefix(f, c.Dir+"/") {
						c.Files[f] = []byte(strings.ReplaceAll(string(b), old, bad))
					}
				}
			}
			e := &caseEnv{c: c, disk: newDisk(c.World)}
			e.base = runCase(c, e.disk.Clone(), nil)
			e.ops = e.base.P.Ops
			return e
		},
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*caseEnv)
			return append([]*Trial{{}}, faultTrials(r, e.ops, n, anyOp)...)
		},
		Run: within})
}

type pkgLibEnv struct {
	w            *gen.World
	disk         *simk.Disk
	pkgs, scenes []string
	ops          []simk.Op
}

// run performs a history of opens (0), closes (1), scene loads (2) and file reads
// (3) and closes everything at the end. It returns what went wrong without a fault.
func (e *pkgLibEnv) run(p *simk.Proc, n []int64, judge bool) (msg string) {
	var open []unity.Assets
	var which []int
	err := inProc(p, func() error {
		for i := 0; i+3 <= len(n); i += 3 {
			op, k, x := n[i], int(n[i+1])%len(e.pkgs), int(n[i+2])
			switch op {
			case 0:
				as, err := unity.OpenPackage(e.pkgs[k])
				if err == nil && as != nil {
					open, which = append(open, as), append(which, k)
				} else if judge && k < 2 && msg == "" {
					msg = fmt.Sprintf("a good package cannot be opened: %v", err)
				}
				if err == nil && k >= 2 && judge && msg == "" {
					msg = "a damaged or missing package opens without an error"
				}
			case 1:
				if len(open) > 0 {
					i := x % len(open)
					if err := open[i].Close(); err != nil && judge && msg == "" {
						msg = fmt.Sprintf("closing: %v", err)
					}
					open, which = append(open[:i:i], open[i+1:]...), append(which[:i:i], which[i+1:]...)
				}
			case 2:
				if len(open) > 0 {
					i := x % len(open)
					if which[i] < 2 {
						if _, err := unity.LoadScene(open[i], e.scenes[which[i]]); err != nil && judge && msg == "" {
							msg = fmt.Sprintf("the scene of an open package does not load: %v", err)
						}
					}
				}
			case 3:
				if len(open) > 0 {
					as := open[x%len(open)]
					all := as.GetAllAssets()
					if which[x%len(open)] >= 2 || len(all) == 0 {
						continue
					}
					if f, err := as.Open(all[x%len(all)].Path); err == nil { // not there: a folder
						b := make([]byte, 100)
						f.Read(b)
						f.Close()
					}
					if f, err := as.Open(e.scenes[which[x%len(open)]]); err == nil {
						f.Close()
					} else if judge && msg == "" {
						msg = fmt.Sprintf("a file of an open package does not open: %v", err)
					}
				}
			}
		}
		for _, as := range open {
			if err := as.Close(); err != nil && judge && msg == "" {
				msg = fmt.Sprintf("closing: %v", err)
			}
		}
		return nil
	})
	if err != nil {
		return err.Error()
	}
	return msg
}
