//go:build go1.22

package chk

import (
	"fmt"
	"math"
	"path"
	"sort"
	"strings"

	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/binzume/modelconv/zzverif/simk"
)

// glTF to glTF: everything stays as it is, but for the scale.

// moved: nodes are placed by translations only.
func (g *glb) onlyMoved() bool {
	for _, v := range g.list("nodes") {
		n := g.obj(v)
		if n["matrix"] != nil || n["scale"] != nil {
			return false
		}
		for k, x := range g.arr(n, "rotation") {
			if k < 3 && g.float(x) != 0 {
				return false
			}
		}
	}
	return true
}

// glStep chooses the options.
func glStep(g *glb, r *gen.R) (flags []string, s q3) {
	s = q3{1, 1, 1}
	if r.P(35) {
		n := r.Pick("0.5", "2", "10")
		var f float64
		fmt.Sscan(n, &f)
		flags, s = append(flags, "-scale", n), s.mul(f)
	}
	if g.onlyMoved() {
		for i, n := range []string{"-scaleX", "-scaleY", "-scaleZ"} {
			if r.P(10) {
				flags = append(flags, n, "0.5")
				s[i] *= 0.5
			}
		}
		if r.P(15) {
			flags = append(flags, "-rot180")
			s[0], s[2] = -s[0], -s[2]
		}
	}
	return
}

// drop0 removes what has its default value.
func drop0(v interface{}) interface{} {
	switch x := v.(type) {
	case jmap:
		c := jmap{}
		for k, e := range x {
			if e = drop0(e); e != nil {
				c[k] = e
			}
		}
		if len(c) > 0 {
			return c
		}
		return nil
	case []interface{}:
		var c []interface{}
		for _, e := range x {
			c = append(c, drop0(e))
		}
		if len(c) > 0 {
			return c
		}
		return nil
	}
	if s := canon(v); s == "0" || s == `""` || s == "false" || s == "null" {
		return nil
	}
	return v
}

func withDefaults(m jmap, def jmap) jmap {
	c := jmap{}
	for k, v := range def {
		c[k] = v
	}
	for k, v := range m {
		c[k] = v
	}
	for k, v := range c {
		if canon(v) == canon(def[k]) {
			delete(c, k)
		}
	}
	return c
}

// plainMat is a material without what has its default value.
func plainMat(m jmap) jmap {
	m = withDefaults(m, jmap{"alphaMode": "OPAQUE", "alphaCutoff": 0.5, "doubleSided": false, "emissiveFactor": []interface{}{0, 0, 0}})
	if p, ok := m["pbrMetallicRoughness"].(jmap); ok {
		m["pbrMetallicRoughness"] = withDefaults(p, jmap{"metallicFactor": 1, "roughnessFactor": 1, "baseColorFactor": []interface{}{1, 1, 1, 1}})
	}
	return m
}

// sameGL compares a glTF file with what it was made from.
func sameGL(a, b *glb, s q3, vrm bool, pic func(g *glb, image int) string) string {
	text := func(what string, x, y interface{}) string {
		if p, q := canon(x), canon(y); p != q {
			return fmt.Sprintf("%s: %s, should be %s", what, clip(q), clip(p))
		}
		return ""
	}
	max := 1e-3
	near := func(x, y []float64, scale *q3, tol float64) bool {
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			w := x[i]
			if scale != nil {
				w *= scale[i%3]
			}
			if math.Abs(y[i]-w) > tol*math.Max(max, math.Abs(w)) {
				return false
			}
		}
		return true
	}
	acc := func(what string, m, n jmap, k string, scale *q3) string {
		if m[k] == nil && n[k] == nil {
			return ""
		}
		if m[k] == nil || n[k] == nil {
			return fmt.Sprintf("%s: %s is there in one of the files only", what, k)
		}
		i, j := g0(a, m, k), g0(b, n, k)
		ma, mb := a.obj(a.list("accessors")[i]), b.obj(b.list("accessors")[j])
		x, _ := a.values(i)
		y, _ := b.values(j)
		if canon(ma["type"]) != canon(mb["type"]) || canon(drop0(ma["normalized"])) != canon(drop0(mb["normalized"])) {
			return fmt.Sprintf("%s: %s has another type", what, k)
		}
		if ct := canon(mb["componentType"]); canon(ma["componentType"]) != ct && !(k == "JOINTS_0" && vrm && ct == "5123") {
			return fmt.Sprintf("%s: %s has another component type", what, k)
		}
		if !near(x, y, scale, 1e-6) {
			return fmt.Sprintf("%s: %s is %s, should be %s (times %v)", what, k, clip(fmt.Sprint(y)), clip(fmt.Sprint(x)), scale)
		}
		if scale == nil {
			for _, bound := range []string{"min", "max"} {
				if m := text(what+" "+k+" "+bound, ma[bound], mb[bound]); m != "" {
					return m
				}
			}
		}
		return ""
	}
	for _, k := range []string{"nodes", "meshes", "materials", "skins", "animations", "textures", "images", "samplers", "scenes", "cameras"} {
		if x, y := len(a.list(k)), len(b.list(k)); x != y {
			return fmt.Sprintf("%d %s, should be %d", y, k, x)
		}
	}
	// nodes
	wa, _ := a.world()
	wb, _ := b.world()
	for _, m := range wa {
		for _, x := range m {
			max = math.Max(max, math.Abs(x))
		}
	}
	for i, v := range a.list("nodes") {
		n, o := a.obj(v), b.obj(b.list("nodes")[i])
		what := fmt.Sprintf("node %d (%v)", i, n["name"])
		for _, k := range []string{"name", "mesh", "skin", "camera", "children", "extras"} {
			if m := text(what+" "+k, n[k], o[k]); m != "" {
				return m
			}
		}
		x, y := wa[i], wb[i]
		for c := 0; c < 3; c++ {
			x[12+c] *= s[c]
			if math.Abs(x[12+c]-y[12+c]) > 2e-5*max*math.Max(1, math.Abs(s[c])) {
				return fmt.Sprintf("%s is at %v, should be at %v", what, y[12:15], x[12:15])
			}
		}
		if !vrm || n["mesh"] != nil && n["skin"] == nil {
			for c := 0; c < 12; c++ {
				if math.Abs(x[c]-y[c]) > 1e-4 {
					return fmt.Sprintf("%s has the orientation %v, should have %v", what, y[:12], x[:12])
				}
			}
		}
	}
	for i, v := range a.list("scenes") {
		n, o := a.obj(v), b.obj(b.list("scenes")[i])
		for _, k := range []string{"name", "nodes"} {
			if m := text(fmt.Sprint("scene ", i, k), n[k], o[k]); m != "" {
				return m
			}
		}
	}
	if m := text("scene", a.j["scene"], b.j["scene"]); m != "" {
		return m
	}
	// meshes
	for i, v := range a.list("meshes") {
		n, o := a.obj(v), b.obj(b.list("meshes")[i])
		what := fmt.Sprintf("mesh %d (%v)", i, n["name"])
		for _, k := range []string{"name", "extras", "weights"} {
			if m := text(what+" "+k, n[k], o[k]); m != "" {
				return m
			}
		}
		pa, pb := a.arr(n, "primitives"), b.arr(o, "primitives")
		if len(pa) != len(pb) {
			return fmt.Sprintf("%s has %d primitives, should have %d", what, len(pb), len(pa))
		}
		for j := range pa {
			p, q := a.obj(pa[j]), b.obj(pb[j])
			w := fmt.Sprintf("%s primitive %d", what, j)
			if a.num(p, "mode", 4) != b.num(q, "mode", 4) {
				return w + " has another mode"
			}
			if m := text(w+" material", p["material"], q["material"]); m != "" {
				return m
			}
			if m := acc(w, p, q, "indices", nil); m != "" {
				return m
			}
			maps := [][2]jmap{{a.obj(p["attributes"]), b.obj(q["attributes"])}}
			ta, tb := a.arr(p, "targets"), b.arr(q, "targets")
			if len(ta) != len(tb) {
				return fmt.Sprintf("%s has %d targets, should have %d", w, len(tb), len(ta))
			}
			for k := range ta {
				maps = append(maps, [2]jmap{a.obj(ta[k]), b.obj(tb[k])})
			}
			for _, m := range maps {
				keys := map[string]bool{}
				for _, x := range m {
					for k := range x {
						keys[k] = true
					}
				}
				var ks []string
				for k := range keys {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					var sc *q3
					if k == "POSITION" && s != (q3{1, 1, 1}) {
						sc = &s
					}
					if m := acc(w, m[0], m[1], k, sc); m != "" {
						return m
					}
				}
			}
		}
	}
	// skins
	for i, v := range a.list("skins") {
		n, o := a.obj(v), b.obj(b.list("skins")[i])
		what := fmt.Sprint("skin ", i)
		for _, k := range []string{"name", "joints", "skeleton"} {
			if m := text(what+" "+k, n[k], o[k]); m != "" {
				return m
			}
		}
		if n["inverseBindMatrices"] == nil {
			continue
		}
		if o["inverseBindMatrices"] == nil {
			return what + " has no matrices"
		}
		x, _ := a.values(g0(a, n, "inverseBindMatrices"))
		y, _ := b.values(g0(b, o, "inverseBindMatrices"))
		for k, j := range a.arr(n, "joints") {
			var p, q qm
			copy(p[:], x[k*16:])
			copy(q[:], y[k*16:])
			t := 1 + math.Abs(p[12]) + math.Abs(p[13]) + math.Abs(p[14])
			p, q = wa[a.toInt(j)].mul(p), wb[b.toInt(j)].mul(q)
			for c := 0; c < 3; c++ {
				p[12+c] *= s[c]
			}
			for c := range p {
				if math.Abs(p[c]-q[c]) > 1e-4*(t+max)*(1+math.Abs(s[0])) {
					return fmt.Sprintf("%s moves the vertexes of joint %d by %v, should do by %v", what, k, q, p)
				}
			}
		}
	}
	// animations
	for i, v := range a.list("animations") {
		n, o := a.obj(v), b.obj(b.list("animations")[i])
		what := fmt.Sprint("animation ", i)
		for _, k := range []string{"name", "channels"} {
			if m := text(what+" "+k, drop0(n[k]), drop0(o[k])); m != "" {
				return m
			}
		}
		for j, sv := range a.arr(n, "samplers") {
			p, q := a.obj(sv), b.obj(b.arr(o, "samplers")[j])
			if m := text(what+" interpolation", withDefaults(p, jmap{"interpolation": "LINEAR"})["interpolation"], withDefaults(q, jmap{"interpolation": "LINEAR"})["interpolation"]); m != "" {
				return m
			}
			if m := acc(what, p, q, "input", nil); m != "" {
				return m
			}
			var sc *q3
			for _, cv := range a.arr(n, "channels") {
				if c := a.obj(cv); a.num(c, "sampler", 0) == j && a.obj(c["target"])["path"] == "translation" && s != (q3{1, 1, 1}) {
					sc = &s
				}
			}
			if m := acc(what, p, q, "output", sc); m != "" {
				return m
			}
		}
	}
	// materials and textures
	for i, v := range a.list("textures") {
		n, o := a.obj(v), b.obj(b.list("textures")[i])
		if m := text(fmt.Sprint("texture ", i), drop0(n), drop0(o)); m != "" {
			return m
		}
	}
	for i, v := range a.list("samplers") {
		def := jmap{"wrapS": 10497, "wrapT": 10497}
		if m := text(fmt.Sprint("sampler ", i), withDefaults(a.obj(v), def), withDefaults(b.obj(b.list("samplers")[i]), def)); m != "" {
			return m
		}
	}
	for i, v := range a.list("images") {
		n, o := a.obj(v), b.obj(b.list("images")[i])
		if m := text(fmt.Sprint("name of image ", i), n["name"], o["name"]); m != "" {
			return m
		}
		if x, y := pic(a, i), pic(b, i); x != "" && x != y {
			return fmt.Sprintf("image %d is %s, should be %s", i, clip(fmt.Sprintf("%q", y)), clip(fmt.Sprintf("%q", x)))
		}
	}
	for i, v := range a.list("materials") {
		n, o := plainMat(a.obj(v)), plainMat(b.obj(b.list("materials")[i]))
		if x, y := canon(n["extensions"]), canon(o["extensions"]); x != y {
			return fmt.Sprintf("material %d has the extensions %s, should have %s", i, y, x)
		}
		if m := text(fmt.Sprint("material ", i), drop0(n), drop0(o)); m != "" {
			return m
		}
	}
	// extensions
	used := func(g *glb) jmap {
		m := jmap{}
		for _, v := range g.list("extensionsUsed") {
			if s, _ := v.(string); s != "VRM" || !vrm {
				m[s] = true
			}
		}
		return m
	}
	if m := text("extensions", used(a), used(b)); m != "" {
		return m
	}
	if _, ok := a.obj(a.j["extensions"])["VRM"]; !vrm || ok {
		return text("extensions", drop0(a.j["extensions"]), drop0(b.j["extensions"]))
	}
	return ""
}

func clip(s string) string {
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func g0(g *glb, m jmap, k string) int { return g.num(m, k, 0) }

// pictures tells what an image shows.
func pictures(d *simk.Disk, file string, embedded bool) func(g *glb, i int) string {
	return func(g *glb, i int) string {
		_, data := g.imageData(i)
		s := string(data)
		if !strings.HasPrefix(s, "uri ") {
			return "data " + s
		}
		if embedded {
			if b, ok := d.ReadFile(path.Join(path.Dir(file), s[4:])); ok {
				return "data " + string(b)
			}
		}
		return s
	}
}
