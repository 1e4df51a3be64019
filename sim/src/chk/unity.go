//go:build go1.22

package chk

import (
	"fmt"
	"math"
	"path"

	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/binzume/modelconv/zzverif/simk"
)

// What a Unity scene looks like, from the description it was written from.

type qLight struct {
	gen.ULight
	obj   *qObj
	m     qm // to the world
	maybe bool
}

// uShape is a mesh that Unity itself has.
func uShape(id int64) (name string, v []q3, f [][]int, uv [][][2]float64) {
	square := [][2]float64{{1, 1}, {0, 1}, {0, 0}, {1, 0}}
	ring := func(n int, r, y float64) int {
		k := len(v)
		for j := 0; j < n; j++ {
			a := float64(j) / float64(n) * 2 * math.Pi
			v = append(v, q3{math.Cos(a) * r, y, math.Sin(a) * r})
		}
		return k
	}
	face := func(k []int, t ...[2]float64) { f, uv = append(f, k), append(uv, t) }
	// dome: rings a to b of 0..n of a ball at height y
	const n = 32
	dome := func(rows, a, b int, y float64) {
		var start []int
		for i := a; i <= b; i++ {
			t := float64(i) / float64(rows) * math.Pi
			if i == 0 || i == rows {
				start = append(start, len(v))
				v = append(v, q3{0, y + math.Cos(t)*0.5, 0})
			} else {
				start = append(start, ring(n, math.Sin(t)*0.5, y+math.Cos(t)*0.5))
			}
		}
		for i := a; i < b; i++ {
			p, q := start[i-a], start[i-a+1]
			for j := 0; j < n; j++ {
				j2 := (j + 1) % n
				u := func(dj, di int) [2]float64 { return [2]float64{float64(j+dj) / n, float64(i+di) / float64(rows)} }
				switch {
				case i == 0:
					face([]int{p, q + j, q + j2}, u(0, 0), u(0, 1), u(1, 1))
				case i == rows-1:
					face([]int{p + j, q, p + j2}, u(0, 0), u(0, 1), u(1, 0))
				default:
					face([]int{p + j, q + j, q + j2, p + j2}, u(0, 0), u(0, 1), u(1, 1), u(1, 0))
				}
			}
		}
	}
	side := func(top, bottom int) {
		for i := 0; i < n; i++ {
			a, b, k := 1-float64(i)/n, 1-float64(i+1)/n, (i+1)%n
			face([]int{top + i, bottom + i, bottom + k, top + k}, [2]float64{a, 0}, [2]float64{a, 1}, [2]float64{b, 1}, [2]float64{b, 0})
		}
	}
	switch id {
	case 10202:
		name = "Cube"
		for _, z := range []float64{-0.5, 0.5} {
			v = append(v, q3{-0.5, -0.5, z}, q3{0.5, -0.5, z}, q3{0.5, 0.5, z}, q3{-0.5, 0.5, z})
		}
		face([]int{0, 1, 2, 3}, square...)
		face([]int{7, 6, 5, 4}, square...)
		face([]int{4, 5, 1, 0}, square...)
		face([]int{3, 2, 6, 7}, square...)
		face([]int{2, 1, 5, 6}, square[3], square[0], square[1], square[2])
		face([]int{0, 3, 7, 4}, square[1], square[2], square[3], square[0])
	case 10206:
		name = "Cylinder"
		top := ring(n, 0.5, 1)
		bottom := ring(n, 0.5, -1)
		side(top, bottom)
		var a, b []int
		var t [][2]float64
		for i := 0; i < n; i++ {
			a = append(a, top+i)
			b = append(b, bottom+n-1-i)
			t = append(t, [2]float64{float64(i) / n, 1})
		}
		face(a, t...)
		face(b, t...)
	case 10207:
		name = "Sphere"
		dome(16, 0, 16, 0)
	case 10208:
		name = "Capsule"
		dome(8, 0, 4, 0.5)
		k := len(v)
		side(k-n, k)
		dome(8, 4, 8, -0.5)
	case 10209:
		name = "Plane"
		v = []q3{{-5, 0, -5}, {5, 0, -5}, {5, 0, 5}, {-5, 0, 5}}
		face([]int{0, 1, 2, 3}, square...)
	case 10210:
		name = "Quad"
		v = []q3{{-0.5, -0.5, 0}, {0.5, -0.5, 0}, {-0.5, 0.5, 0}, {0.5, 0.5, 0}}
		face([]int{1, 0, 2, 3}, square...)
	}
	return
}

const uDefaultMat = "0000000000000000f000000000000000"

// ofUnity is the main scene of a project.
func ofUnity(as []*gen.UAsset) *qDoc {
	q := &qDoc{dups: true, files: map[string][]byte{}, lights: []qLight{}}
	by := map[string]*gen.UAsset{}
	for _, a := range as {
		by[a.GUID] = a
	}
	mats := map[string]int{}
	uvs := map[int][2]float64{}
	mat := func(g string) int {
		if k, ok := mats[g]; ok {
			return k
		}
		k := len(q.mats)
		mats[g] = k
		m := qMat{name: g, col: [4]float64{1, 1, 1, 1}}
		if g == uDefaultMat {
			m.name = "UnityDefaultMaterial"
		}
		if a := by[g]; a != nil && a.Mat != nil {
			m.name = a.Mat.Name
			for i, c := range a.Mat.Color {
				m.col[i] = float64(c)
			}
			if t := by[a.Mat.Main]; t != nil {
				m.tex = "saved_textures/" + t.GUID + "_" + path.Base(t.Path)
				q.files[m.tex] = t.Data
				uvs[k] = [2]float64{float64(a.Mat.UV[0]), float64(a.Mat.UV[1])}
			}
		}
		q.mats = append(q.mats, m)
		return k
	}
	scaled := func(k int, uv [][2]float64) (r [][2]float64) {
		s, ok := uvs[k]
		if !ok {
			s = [2]float64{1, 1}
		}
		for _, u := range uv {
			r = append(r, [2]float64{u[0] * s[0], u[1] * s[1]})
		}
		return
	}
	var scene func(s *gen.UScene, root int64, d int, tr qm, active bool)
	var object func(s *gen.UScene, i, d int, tr qm, active bool)
	object = func(s *gen.UScene, i, d int, tr qm, active bool) {
		u := s.Objs[i]
		active = active && u.Active
		o := &qObj{name: u.Name, depth: d, hidden: !active, morph: map[string][]q3{}}
		q.objs = append(q.objs, o)
		f := func(x float32) float64 { return float64(x) }
		tr = tr.mul(qTrans(q3{f(u.Pos[0]), f(u.Pos[1]), -f(u.Pos[2])})).
			mul(qQuat(-f(u.Rot[0]), -f(u.Rot[1]), f(u.Rot[2]), f(u.Rot[3]))).
			mul(qScale(q3{f(u.Scale[0]), f(u.Scale[1]), f(u.Scale[2])}))
		var mf, mr *gen.UComp
		for k := range u.Comps {
			switch u.Comps[k].Type {
			case 33:
				mf = &u.Comps[k]
			case 23:
				mr = &u.Comps[k]
			}
		}
		if mf != nil && mr != nil {
			var ms []int
			for _, g := range mr.Mats {
				ms = append(ms, mat(g))
			}
			if name, v, fs, uv := uShape(mf.MeshID); name != "" && by[mf.Mesh] == nil {
				o.name += "(" + name + ")"
				o.hidden = o.hidden || !mr.Enabled
				for _, x := range v {
					o.v = append(o.v, tr.at(x))
				}
				for k := range fs {
					o.f = append(o.f, qFace{mat: ms[0], v: fs[k], uv: scaled(ms[0], uv[k])})
				}
			} else if a := by[mf.Mesh]; a != nil && a.FBX != nil {
				o.name += "(FBX)"
				x := ofFBXModel(a.FBX, a.Recycle[mf.MeshID])
				if x.problem != "" {
					q.problem = x.problem
				}
				m := tr.mul(qScale(q3{-0.01, 0.01, -0.01}))
				for _, p := range x.objs {
					p.depth = d + 1
					p.hidden = !active || !mr.Enabled
					for k := range p.v {
						p.v[k] = m.at(p.v[k])
						p.w[k] = map[string]float64{}
					}
					order := map[int]int{}
					if len(p.f) > 1 && len(ms) > 1 {
						for _, y := range p.f {
							if _, ok := order[y.mat]; !ok {
								order[y.mat] = len(order)
							}
						}
					}
					for k := range p.f {
						y := &p.f[k]
						if y.mat >= len(ms) {
							q.problem = "an FBX mesh with more materials than its renderer"
							break
						}
						if n, ok := order[y.mat]; ok {
							y.mat = n
						}
						y.mat = ms[y.mat]
						if y.uv != nil {
							y.uv = scaled(y.mat, y.uv)
						}
					}
					q.objs = append(q.objs, p)
				}
			}
		}
		for len(o.w) < len(o.v) {
			o.w = append(o.w, map[string]float64{})
		}
		for _, c := range u.Comps {
			if c.Light != nil {
				q.lights = append(q.lights, qLight{ULight: *c.Light, obj: o, m: tr, maybe: active && o.hidden})
			}
		}
		for _, c := range u.Children {
			object(s, c, d+1, tr, active)
		}
		scene(s, u.TR, d+1, tr, active)
	}
	scene = func(s *gen.UScene, parent int64, d int, tr qm, active bool) {
		for _, p := range s.Prefabs {
			if a := by[p.GUID]; p.Parent == parent && a != nil && a.Scene != nil {
				object(a.Scene.With(p.Mods), 0, d, tr, active)
			}
		}
	}
	main := as[0].Scene
	tr := qScale(q3{1000, 1000, 1000})
	for i, o := range main.Objs {
		if o.Father < 0 {
			object(main, i, 0, tr, true)
		}
	}
	scene(main, 0, 0, tr, true)
	if len(q.mats) == 0 {
		q.mats = append(q.mats, qMat{name: "dummy", col: [4]float64{1, 1, 1, 1}})
	}
	return q
}

// sameLights compares the lights of a glTF file.
func (q *qDoc) sameLights(d *simk.Disk, file string, want bool) (msg string) {
	g, err := readGLTF(file, d.ReadFile)
	if err != nil {
		return err.Error()
	}
	defer func() {
		if r := recover(); r != nil {
			ge, ok := r.(*glErr)
			if !ok {
				panic(r)
			}
			msg = ge.Error()
		}
	}()
	ext := g.obj(g.obj(g.j["extensions"])["KHR_lights_punctual"])
	defs := g.arr(ext, "lights")
	world, _ := g.world()
	type lit struct {
		name string
		l    jmap
		m    qm
	}
	var got []lit
	for i, v := range g.list("nodes") {
		n := g.obj(v)
		x := g.obj(g.obj(n["extensions"])["KHR_lights_punctual"])
		if x["light"] == nil {
			continue
		}
		k := g.num(x, "light", 0)
		if k < 0 || k >= len(defs) {
			return fmt.Sprintf("node %d has light %d of %d", i, k, len(defs))
		}
		name, _ := n["name"].(string)
		got = append(got, lit{name, g.obj(defs[k]), world[i]})
	}
	for i, l := range q.lights {
		if !want || l.obj.hidden && !l.maybe {
			continue
		}
		typ := []string{"spot", "directional", "point"}[l.Type]
		pos := l.m.at(q3{}).mul(0.001)
		dir := l.m.at(q3{0, 0, -1}).mul(0.001).sub(pos).unit()
		ok := false
		for k, x := range got {
			if x.l == nil || x.l["type"] != typ {
				continue
			}
			p := x.m.at(q3{})
			if !p.near(pos, 1e-4*(1+math.Abs(pos[0])+math.Abs(pos[1])+math.Abs(pos[2]))) {
				continue
			}
			if typ != "point" && !x.m.at(q3{0, 0, -1}).sub(p).unit().near(dir, 1e-3) {
				continue
			}
			num := func(v interface{}, want float64) bool { return v != nil && math.Abs(g.float(v)-want) < 1e-4*(1+want) }
			c := g.arr(x.l, "color")
			same := len(c) == 3 && num(x.l["intensity"], float64(l.Intensity))
			for a := 0; same && a < 3; a++ {
				same = num(c[a], float64(l.Color[a]))
			}
			if typ != "directional" {
				same = same && num(x.l["range"], float64(l.Range))
			}
			if typ == "spot" {
				s := g.obj(x.l["spot"])
				half := math.Pi / 360
				same = same && num(s["outerConeAngle"], float64(l.Angle)*half) && num(s["innerConeAngle"], float64(l.Inner)*half)
			}
			if same {
				ok = true
				got[k].l = nil
				break
			}
		}
		if !ok && !l.maybe {
			return fmt.Sprintf("light %d (%v, of %q at %v towards %v) is not in the output; it has %v", i, l.ULight, l.obj.name, pos, dir, got)
		}
	}
	for _, x := range got {
		if x.l != nil {
			return fmt.Sprintf("there should be no light %v at node %q", x.l, x.name)
		}
	}
	return ""
}

func (a q3) unit() q3 {
	n := math.Sqrt(a[0]*a[0] + a[1]*a[1] + a[2]*a[2])
	if n == 0 {
		return a
	}
	return a.mul(1 / n)
}
