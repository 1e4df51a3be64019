//go:build go1.22

package chk

import (
	"bytes"
	"fmt"
	"image"
	"net/url"
	"path"
	"strings"

	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/binzume/modelconv/zzverif/simk"
)

// sourceOf is a texture file that an image of the output may stand for.
func sourceOf(w *gen.World, name string) string {
	if s := sourcesOf(w, name); len(s) > 0 {
		return s[0]
	}
	return ""
}

func sourcesOf(w *gen.World, name string) (r []string) {
	if u, err := url.PathUnescape(name); err == nil && strings.Contains(name, "%") {
		name = u
	}
	name = path.Base(strings.ReplaceAll(name, "\\", "/"))
	var k int
	if n, _ := fmt.Sscanf(name, "img%d", &k); n == 1 && name == fmt.Sprint("img", k) && k < len(w.Textures) {
		return []string{w.Textures[k]}
	}
	for _, f := range texturesOf(w) {
		if b := path.Base(f); b == name || w.Kind == "unity" && strings.HasSuffix(name, "_"+b) {
			r = append(r, f)
		}
	}
	return
}

// touched are the textures that the faults of a trial may have affected.
func touched(w *gen.World, p *simk.Proc, m map[string]string) {
	for _, o := range p.Ops {
		if o.Fault != "" {
			for _, f := range sourcesOf(w, path.Base(o.Path)) {
				m[f] = o.Kind + " " + o.Fault
			}
		}
	}
}

func isTexture(w *gen.World) func(o simk.Op) string {
	m := map[string]bool{}
	for _, f := range texturesOf(w) {
		m[f] = true
	}
	return func(o simk.Op) string {
		if w.Kind == "unity" && m[o.Path] && o.Kind == "stat" {
			return "" // part of listing the project
		}
		if m[o.Path] || inSaved(o.Path) && path.Ext(o.Path) != ".tmp" && sourceOf(w, path.Base(o.Path)) != "" && o.Kind != "rename" {
			return o.Kind + " " + o.Path
		}
		return ""
	}
}

// usesBase: the material's base color texture is one of the broken ones.
func (g *glb) usesBase(v interface{}, skip func(string) bool) bool {
	t := g.obj(g.obj(g.obj(v)["pbrMetallicRoughness"])["baseColorTexture"])
	if t["index"] == nil {
		return false
	}
	name, _ := g.image(g.num(t, "index", 0))
	return skip(name)
}

// judgeTextures compares an output with that of an undisturbed run.
func judgeTextures(w *gen.World, d *simk.Disk, base map[string]string, file string, broken map[string]string, st *Stats) string {
	g, err := readGLTF(file, d.ReadFile)
	if err != nil {
		return fmt.Sprintf("%s is not valid: %v", path.Base(file), err)
	}
	b, err := readGLTF(file, func(f string) ([]byte, bool) { s, ok := base[f]; return []byte(s), ok })
	if err != nil {
		return fmt.Sprintf("%s of the undisturbed run is not valid: %v", path.Base(file), err)
	}
	if x, y := b.shape(), g.shape(); x != y {
		return fmt.Sprintf("%s: more than textures has changed: %s", path.Base(file), Diff(x, y))
	}
	skip := func(name string) bool {
		for _, f := range sourcesOf(w, name) {
			if broken[f] != "" {
				return true
			}
		}
		return false
	}
	bm, gm := b.list("materials"), g.list("materials")
	if len(bm) != len(gm) {
		return fmt.Sprintf("%s: %d materials, without the fault %d", path.Base(file), len(gm), len(bm))
	}
	for i := range bm {
		alpha := b.usesBase(bm[i], skip)
		if x, y := b.material(bm[i], skip, alpha), g.material(gm[i], skip, alpha); x != y {
			return fmt.Sprintf("%s: material %d has lost or changed more than the broken texture: %s", path.Base(file), i, Diff(x, y))
		}
	}
	if x, y := b.vrmMaterials(skip), g.vrmMaterials(skip); x != y {
		return fmt.Sprintf("%s: a material property has changed: %s", path.Base(file), Diff(x, y))
	}
	n := 0
	for i := range g.list("images") {
		name, data := g.imageData(i)
		if bytes.HasPrefix(data, []byte("uri ")) {
			continue
		}
		n++
		src := sourceOf(w, name)
		if src != "" {
			same := false
			for _, c := range sourcesOf(w, name) {
				if f, ok := d.ReadFile(c); ok && bytes.Equal(f, data) {
					same = true
				}
			}
			if same {
				st.out("image: the source's bytes")
				continue
			}
			for _, c := range d.Files() { // the copy that was saved
				if inSaved(c) && path.Base(c) == name {
					if f, ok := d.ReadFile(c); ok && bytes.Equal(f, data) {
						src = c
					}
				}
			}
			if inSaved(src) {
				st.out("image: the saved copy's bytes")
				continue
			}
		}
		img, _, err := image.Decode(bytes.NewReader(data))
		if err != nil {
			return fmt.Sprintf("%s: image %q (%d bytes) is neither its source file nor a complete picture: %v", path.Base(file), name, len(data), err)
		}
		if img.Bounds().Empty() {
			return fmt.Sprintf("%s: image %q has no pixels", path.Base(file), name)
		}
		st.out("image: encoded again, decodes")
	}
	st.out(fmt.Sprintf("valid; %d broken textures", len(broken)))
	st.state(fmt.Sprint(len(broken), n, h64(g.shape())))
	return ""
}

func (g *glb) vrmMaterials(skip func(string) bool) string {
	var s strings.Builder
	for _, b := range g.arr(g.obj(g.obj(g.j["extensions"])["VRM"]), "materialProperties") {
		c := jmap{}
		for k, v := range g.obj(b) {
			c[k] = v
		}
		t := jmap{}
		for k, v := range g.obj(c["textureProperties"]) {
			name, data := g.image(g.toInt(v))
			if !skip(name) {
				t[k] = fmt.Sprintf("%s %x", name, h64(string(data)))
			}
		}
		c["textureProperties"] = t
		s.WriteString(canon(c) + "\n")
	}
	return s.String()
}

func init() {
	exts := []string{".glb", ".gltf", ".vrm", ".glb"}
	trials := func(w *gen.World, ops []simk.Op, r *gen.R, n int) []*Trial {
		ts := []*Trial{{}}
		if len(texturesOf(w)) == 0 {
			return ts
		}
		ts = append(ts, texTrials(r, w, n/2)...)
		ts = append(ts, faultTrials(r, ops, n-n/2, isTexture(w))...)
		for _, t := range ts {
			if len(t.Faults) > 0 && w.Kind != "unity" && r.P(20) {
				t.N = []int64{int64(r.U64() >> 20)}
			}
			if r.P(20) {
				t.Chunk = chunking(r)
			}
		}
		return ts
	}
	register(&Scenario{Prop: "C14", Name: "cli", Weight: 5, Kinds: gen.Kinds, Exts: exts, MaxSize: 6, Real: "the whole command",
		Setup: setupCase,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*caseEnv)
			return trials(e.c.World, e.ops, r, n)
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*caseEnv)
			d := e.disk.Clone()
			broken := breakTextures(e.c.World, d, t, st)
			res := runCase(e.c, d, t.apply)
			st.proc(res.P)
			touched(e.c.World, res.P, broken)
			if res.Code != 0 {
				return fmt.Sprintf("%v: fails (status %d) because of textures %s: %s", e.c.Args, res.Code, brokenText(broken), lastLine(res.P))
			}
			if m := judgeTextures(e.c.World, d, e.base.Out, e.c.Out, broken, st); m != "" {
				return fmt.Sprintf("%v, textures %s: %s", e.c.Args, brokenText(broken), m)
			}
			return ""
		}})
	register(&Scenario{Prop: "C14", Name: "lib", Weight: 3, Kinds: gen.Kinds, Exts: exts, MaxSize: 6, Real: "load, conversion and save by the library",
		Setup: setupPipe,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*pipeEnv)
			return trials(e.w, e.ops, r, n)
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*pipeEnv)
			d := e.disk.Clone()
			broken := breakTextures(e.w, d, t, st)
			p := newProc(d)
			t.apply(p)
			err := inProc(p, func() error { return pipeline(e.w, e.out, e.o) })
			st.proc(p)
			touched(e.w, p, broken)
			what := path.Base(e.w.Model) + " to " + path.Base(e.out)
			if err != nil {
				return fmt.Sprintf("converting %s fails because of textures %s: %v", what, brokenText(broken), err)
			}
			if m := judgeTextures(e.w, d, e.base, e.out, broken, st); m != "" {
				return fmt.Sprintf("converting %s, textures %s: %s", what, brokenText(broken), m)
			}
			return ""
		}})
}

func brokenText(m map[string]string) string {
	var s []string
	for _, k := range keys(m) {
		s = append(s, path.Base(k)+" ("+m[k]+")")
	}
	return strings.Join(s, ", ")
}
