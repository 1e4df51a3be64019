//go:build go1.22

package chk

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
)

// A small model of what a converted model consists of, in the coordinates of
// Metasequoia, and its readers for every format. None of them uses the
// converters.

type q3 [3]float64

func (a q3) add(b q3) q3      { return q3{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func (a q3) sub(b q3) q3      { return q3{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func (a q3) mul(s float64) q3 { return q3{a[0] * s, a[1] * s, a[2] * s} }
func (a q3) by(b q3) q3       { return q3{a[0] * b[0], a[1] * b[1], a[2] * b[2]} }
func (a q3) near(b q3, t float64) bool {
	return math.Abs(a[0]-b[0]) <= t && math.Abs(a[1]-b[1]) <= t && math.Abs(a[2]-b[2]) <= t
}

// qm is a matrix in column order.
type qm [16]float64

var qIdent = qm{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}

func (a qm) mul(b qm) (c qm) {
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			for k := 0; k < 4; k++ {
				c[i*4+j] += a[k*4+j] * b[i*4+k]
			}
		}
	}
	return
}

func (a qm) at(v q3) q3 {
	return q3{a[0]*v[0] + a[4]*v[1] + a[8]*v[2] + a[12], a[1]*v[0] + a[5]*v[1] + a[9]*v[2] + a[13], a[2]*v[0] + a[6]*v[1] + a[10]*v[2] + a[14]}
}

func qTrans(v q3) qm { m := qIdent; m[12], m[13], m[14] = v[0], v[1], v[2]; return m }
func qScale(v q3) qm { m := qIdent; m[0], m[5], m[10] = v[0], v[1], v[2]; return m }

// qRot rotates around axis i.
func qRot(i int, a float64) qm {
	m := qIdent
	j, k := (i+1)%3, (i+2)%3
	m[j*4+j], m[k*4+k] = math.Cos(a), math.Cos(a)
	m[j*4+k], m[k*4+j] = math.Sin(a), -math.Sin(a)
	return m
}

func qQuat(x, y, z, w float64) qm {
	return qm{1 - 2*(y*y+z*z), 2 * (x*y + z*w), 2 * (x*z - y*w), 0,
		2 * (x*y - z*w), 1 - 2*(x*x+z*z), 2 * (y*z + x*w), 0,
		2 * (x*z + y*w), 2 * (y*z - x*w), 1 - 2*(x*x+y*y), 0, 0, 0, 0, 1}
}

type qMat struct {
	name string
	col  [4]float64
	tex  string
	data []byte // of the picture, when the file holds it
	gone bool   // the texture may be missing in the output, or not
}

type qFace struct {
	mat int
	v   []int
	uv  [][2]float64 // nil: none
}

type qObj struct {
	name   string
	depth  int
	hidden bool
	target bool // of a morph
	v      []q3
	f      []qFace
	morph  map[string][]q3 // differences
	w      []map[string]float64
}

type qBone struct {
	name, parent string
	pos          q3
}

type qDoc struct {
	mats    []qMat
	objs    []*qObj
	bones   []qBone
	one     bool // objects have no identity (MMD)
	noW     bool // the format's reader takes no weights
	dups    bool // names of objects need not be unique
	lights  []qLight
	files   map[string][]byte // pictures that the conversion saves
	problem string
}

func v3of(x, y, z float32) q3 { return q3{float64(x), float64(y), float64(z)} }

// ofMMD: scale is that of the positions.
func ofMMD(d *mmd.Document, scale float64) *qDoc {
	q := &qDoc{one: true}
	cv := func(x, y, z float32) q3 { return v3of(x, y, -z).mul(scale) }
	for _, m := range d.Materials {
		x := qMat{name: m.Name, col: [4]float64{float64(m.Color.X), float64(m.Color.Y), float64(m.Color.Z), float64(m.Color.W)}}
		if m.TextureID >= 0 {
			x.tex = slash(d.Textures[m.TextureID])
		}
		q.mats = append(q.mats, x)
	}
	nb := len(q.mats)
	o := &qObj{morph: map[string][]q3{}}
	for _, v := range d.Vertexes {
		o.v = append(o.v, cv(v.Pos.X, v.Pos.Y, v.Pos.Z))
		w := map[string]float64{}
		for i, b := range v.Bones {
			if b >= 0 && b < len(d.Bones) && i < len(v.BoneWeights) && v.BoneWeights[i] > 0 {
				w[d.Bones[b].Name] += float64(v.BoneWeights[i])
			}
		}
		o.w = append(o.w, w)
	}
	k := 0
	for mi, m := range d.Materials {
		for n := m.Count / 3; n > 0 && k < len(d.Faces); n-- {
			f := qFace{mat: mi}
			for _, v := range d.Faces[k].Verts {
				f.v = append(f.v, v)
				f.uv = append(f.uv, [2]float64{float64(d.Vertexes[v].UV.X), float64(d.Vertexes[v].UV.Y)})
			}
			o.f = append(o.f, f)
			k++
		}
	}
	for _, m := range d.Morphs {
		if o.morph[m.Name] != nil {
			q.problem = "two morphs of one name"
		}
		if len(m.Vertex) > 0 {
			o.morph[m.Name] = make([]q3, len(o.v))
		}
		for _, v := range m.Vertex {
			o.morph[m.Name][v.Target] = o.morph[m.Name][v.Target].add(cv(v.Offset.X, v.Offset.Y, v.Offset.Z))
		}
		for _, x := range m.Material {
			if x.Target < 0 || x.Target >= nb {
				continue
			}
			c := q.mats[x.Target]
			c.name = "$MORPH:" + m.Name + ":" + c.name
			df := [4]float64{float64(x.Diffuse.X), float64(x.Diffuse.Y), float64(x.Diffuse.Z), float64(x.Diffuse.W)}
			for i := range df {
				if x.Flags&1 == 1 {
					c.col[i] += df[i]
				} else {
					c.col[i] *= df[i]
				}
			}
			q.mats = append(q.mats, c)
		}
	}
	for _, b := range d.Bones {
		x := qBone{name: b.Name, pos: cv(b.Pos.X, b.Pos.Y, b.Pos.Z)}
		if b.ParentID >= 0 && b.ParentID < len(d.Bones) {
			x.parent = d.Bones[b.ParentID].Name
		}
		q.bones = append(q.bones, x)
	}
	q.objs = []*qObj{o}
	return q
}

func slash(s string) string { return strings.ReplaceAll(s, "\\", "/") }

func ofMQO(d *mqo.Document) *qDoc {
	q := &qDoc{}
	for _, m := range d.Materials {
		q.mats = append(q.mats, qMat{name: m.Name, tex: m.Texture, col: [4]float64{float64(m.Color.X), float64(m.Color.Y), float64(m.Color.Z), float64(m.Color.W)}})
	}
	byName := map[string]*qObj{}
	byID := map[int]*qObj{}
	src := map[*qObj]*mqo.Object{}
	for i, o := range d.Objects {
		x := &qObj{name: o.Name, depth: o.Depth, hidden: !o.Visible, morph: map[string][]q3{}}
		for _, v := range o.Vertexes {
			x.v = append(x.v, v3of(v.X, v.Y, v.Z))
			x.w = append(x.w, map[string]float64{})
		}
		for _, f := range o.Faces {
			y := qFace{mat: f.Material, v: append([]int{}, f.Verts...)}
			if len(f.UVs) >= len(f.Verts) {
				for _, u := range f.UVs {
					y.uv = append(y.uv, [2]float64{float64(u.X), float64(u.Y)})
				}
			}
			x.f = append(x.f, y)
		}
		if byName[o.Name] != nil {
			q.problem = "two objects of one name"
		}
		byName[o.Name] = x
		id := o.UID
		if id == 0 {
			id = i + 1
		}
		byID[id] = x
		src[x] = o
		q.objs = append(q.objs, x)
	}
	for _, p := range d.Plugins {
		switch pl := p.(type) {
		case *mqo.BonePlugin:
			name := map[int]string{}
			bs := pl.Bones()
			for _, b := range bs {
				name[b.ID] = b.Name
			}
			for _, b := range bs {
				q.bones = append(q.bones, qBone{b.Name, name[b.Parent], v3of(b.Pos.X, b.Pos.Y, b.Pos.Z)})
				for _, w := range b.Weights {
					x := byID[w.ObjectID]
					if x == nil {
						continue
					}
					for _, vw := range w.Vertexes {
						k, ok := src[x].VertexByUID[vw.VertexID]
						if !ok {
							k = vw.VertexID - 1
						}
						if k >= 0 && k < len(x.w) && vw.Weight > 0 {
							x.w[k][b.Name] += float64(vw.Weight) / 100
						}
					}
				}
			}
		case *mqo.MorphPlugin:
			for _, l := range pl.MorphSet.Targets {
				base := byName[l.Base]
				for _, t := range l.Target {
					o := byName[t.Name]
					if base == nil || o == nil || o == base || len(o.v) != len(base.v) {
						q.problem = "a morph without a fitting object"
						continue
					}
					if o.target {
						q.problem = "an object is the target of two morphs"
					}
					o.target = true
					df := make([]q3, len(o.v))
					for i := range df {
						df[i] = o.v[i].sub(base.v[i])
					}
					base.morph[t.Name] = df
				}
			}
		}
	}
	return q
}

// ofGLTF: scale is that of the positions.
func ofGLTF(g *glb, scale float64, input bool) *qDoc {
	q := &qDoc{noW: input}
	for _, v := range g.list("materials") {
		m := g.obj(v)
		x := qMat{name: fmt.Sprint(m["name"]), col: [4]float64{1, 1, 1, 1}}
		if m["name"] == nil {
			x.name = ""
		}
		pbr := g.obj(m["pbrMetallicRoughness"])
		for i, c := range g.arr(pbr, "baseColorFactor") {
			x.col[i] = g.float(c)
		}
		if t := g.obj(pbr["baseColorTexture"]); t["index"] != nil {
			name, data := g.image(g.num(t, "index", 0))
			if s := string(data); strings.HasPrefix(s, "uri ") {
				x.tex = s[4:]
			} else {
				x.tex, x.data = name, data
				if input {
					x.tex = ""
				}
			}
		}
		q.mats = append(q.mats, x)
	}
	nodes := g.list("nodes")
	world, parent := g.world()
	name := func(i int) string {
		s, _ := g.obj(nodes[i])["name"].(string)
		return s
	}
	seen := map[string]bool{}
	for i, v := range nodes {
		n := g.obj(v)
		if n["mesh"] == nil {
			continue
		}
		m := g.obj(g.list("meshes")[g.num(n, "mesh", 0)])
		o := &qObj{morph: map[string][]q3{}}
		o.name, _ = m["name"].(string)
		if seen[o.name] {
			q.problem = "two objects of one name"
		}
		seen[o.name] = true
		var joints []int
		tr := world[i]
		if n["skin"] != nil {
			s := g.obj(g.list("skins")[g.num(n, "skin", 0)])
			var ibm []float64
			if s["inverseBindMatrices"] != nil {
				ibm, _ = g.values(g.num(s, "inverseBindMatrices", 0))
			}
			for k, j := range g.arr(s, "joints") {
				joints = append(joints, g.toInt(j))
				if ibm != nil && !input {
					var b qm
					copy(b[:], ibm[k*16:])
					p := world[g.toInt(j)].mul(b)
					for c := range p {
						if math.Abs(p[c]-qIdent[c]) > 1e-4*(1+math.Abs(b[12])+math.Abs(b[13])+math.Abs(b[14])) {
							q.problem = fmt.Sprintf("!joint %q of %q: its matrix does not undo its position (%v)", name(g.toInt(j)), o.name, p)
						}
					}
				}
			}
			tr = qIdent
		}
		targets := g.arr(g.obj(m["extras"]), "targetNames")
		for _, pv := range g.arr(m, "primitives") {
			p := g.obj(pv)
			if p["indices"] == nil || g.num(p, "mode", 4) != 4 {
				continue
			}
			at := g.obj(p["attributes"])
			base := len(o.v)
			pos, _ := g.values(g.num(at, "POSITION", 0))
			for k := 0; k < len(pos); k += 3 {
				o.v = append(o.v, tr.at(q3{pos[k], pos[k+1], pos[k+2]}).mul(scale))
				o.w = append(o.w, map[string]float64{})
			}
			var uv []float64
			if at["TEXCOORD_0"] != nil {
				uv, _ = g.values(g.num(at, "TEXCOORD_0", 0))
			}
			if at["JOINTS_0"] != nil && joints != nil && !input {
				jv, _ := g.values(g.num(at, "JOINTS_0", 0))
				wv, _ := g.values(g.num(at, "WEIGHTS_0", 0))
				for k := range jv {
					if wv[k] > 0 {
						o.w[base+k/4][name(joints[int(jv[k])])] += wv[k]
					}
				}
			}
			for k, tv := range g.arr(p, "targets") {
				if input {
					break
				}
				tn := fmt.Sprint("#", k)
				if k < len(targets) {
					tn, _ = targets[k].(string)
				}
				df := o.morph[tn]
				for len(df) < len(o.v) {
					df = append(df, q3{})
				}
				dv, _ := g.values(g.num(g.obj(tv), "POSITION", 0))
				for c := 0; c < len(dv); c += 3 {
					df[base+c/3] = q3{dv[c], dv[c+1], dv[c+2]}.mul(scale)
				}
				o.morph[tn] = df
			}
			ix, _ := g.values(g.num(p, "indices", 0))
			for k := 0; k+2 < len(ix); k += 3 {
				f := qFace{mat: g.num(p, "material", 0)}
				for _, c := range []int{0, 2, 1} {
					v := int(ix[k+c])
					f.v = append(f.v, base+v)
					if uv != nil {
						f.uv = append(f.uv, [2]float64{uv[v*2], uv[v*2+1]})
					}
				}
				o.f = append(o.f, f)
			}
		}
		for tn, df := range o.morph {
			for len(df) < len(o.v) {
				df = append(df, q3{})
			}
			o.morph[tn] = df
		}
		q.objs = append(q.objs, o)
	}
	add := func(i int) {
		b := qBone{name: name(i), pos: world[i].at(q3{}).mul(scale)}
		if p, ok := parent[i]; ok {
			b.parent = name(p)
		}
		q.bones = append(q.bones, b)
	}
	if !input {
		for i := range nodes {
			add(i)
		}
		return q
	}
	done := map[int]bool{}
	for _, v := range g.list("skins") {
		s := g.obj(v)
		if s["skeleton"] == nil || done[g.num(s, "skeleton", 0)] {
			continue
		}
		root := g.num(s, "skeleton", 0)
		done[root] = true
		var walk func(i int)
		walk = func(i int) {
			add(i)
			if i == root {
				q.bones[len(q.bones)-1].parent = ""
			}
			for _, c := range g.arr(g.obj(nodes[i]), "children") {
				walk(g.toInt(c))
			}
		}
		walk(root)
	}
	return q
}

func (g *glb) float(v interface{}) float64 {
	var f float64
	fmt.Sscan(fmt.Sprint(v), &f)
	return f
}

// world returns the matrices of the nodes in the scene, and their parents.
func (g *glb) world() ([]qm, map[int]int) {
	nodes := g.list("nodes")
	parent := map[int]int{}
	local := make([]qm, len(nodes))
	for i, v := range nodes {
		n := g.obj(v)
		for _, c := range g.arr(n, "children") {
			parent[g.toInt(c)] = i
		}
		fs := func(name string, def ...float64) []float64 {
			for k, x := range g.arr(n, name) {
				def[k] = g.float(x)
			}
			return def
		}
		if n["matrix"] != nil {
			copy(local[i][:], fs("matrix", make([]float64, 16)...))
			continue
		}
		t, r, s := fs("translation", 0, 0, 0), fs("rotation", 0, 0, 0, 1), fs("scale", 1, 1, 1)
		local[i] = qTrans(q3{t[0], t[1], t[2]}).mul(qQuat(r[0], r[1], r[2], r[3])).mul(qScale(q3{s[0], s[1], s[2]}))
	}
	w := make([]qm, len(nodes))
	for i := range nodes {
		w[i] = local[i]
		for k := i; ; {
			p, ok := parent[k]
			if !ok {
				break
			}
			w[i] = local[p].mul(w[i])
			k = p
		}
	}
	return w, parent
}

// ofFBX reads the tree of nodes.
func ofFBX(root *fbx.Node) *qDoc { return ofFBXModel(root, "") }

// ofFBXModel: only the model of this name, without its transform, with the
// materials numbered as in the file.
func ofFBXModel(root *fbx.Node, only string) *qDoc {
	q := &qDoc{}
	val := func(n *fbx.Node, i int) interface{} { return n.Attributes[i].Value }
	objs := root.FindChild("Objects").Children
	byID := map[int64]*fbx.Node{}
	for _, n := range objs {
		byID[val(n, 0).(int64)] = n
	}
	kids := map[int64][]int64{} // in the order of the connections
	parent := map[int64]int64{}
	isModel := func(id int64) bool { return id == 0 || byID[id].Name == "Model" }
	for _, c := range root.FindChild("Connections").Children {
		p, k := val(c, 2).(int64), val(c, 1).(int64)
		if isModel(p) && isModel(k) {
			if val(c, 0) != "OO" {
				continue
			}
			if old, ok := parent[k]; ok {
				for i, x := range kids[old] {
					if x == k {
						kids[old] = append(kids[old][:i:i], kids[old][i+1:]...)
						break
					}
				}
			}
			parent[k] = p
		}
		kids[p] = append(kids[p], k)
	}
	num := func(v interface{}) float64 {
		switch x := v.(type) {
		case float64:
			return x
		case int32:
			return float64(x)
		case int64:
			return float64(x)
		}
		return 0
	}
	prop := func(n *fbx.Node, name string, def ...float64) []float64 {
		for _, p := range n.FindChild("Properties70").GetChildren() {
			if val(p, 0) == name {
				for i := range def {
					def[i] = num(val(p, 4+i))
				}
			}
		}
		return def
	}
	gs := root.FindChild("GlobalSettings")
	var coord qm
	coord[15] = 1
	for row, a := range []string{"Coord", "Up", "Front"} {
		coord[int(prop(gs, a+"Axis", 0)[0])*4+row] = prop(gs, a+"AxisSign", 1)[0]
	}
	raw := func(n *fbx.Node) string { return strings.ReplaceAll(val(n, 1).(string), "\x00\x01", "::") }
	f64 := func(n *fbx.Node, child string) []float64 {
		c := n.FindChild(child)
		if c == nil || len(c.Attributes) == 0 {
			return nil
		}
		f, _ := val(c, 0).([]float64)
		return f
	}
	i32 := func(n *fbx.Node, child string) []int32 {
		c := n.FindChild(child)
		if c == nil || len(c.Attributes) == 0 {
			return nil
		}
		f, _ := val(c, 0).([]int32)
		return f
	}
	str := func(n *fbx.Node, child string) string {
		c := n.FindChild(child)
		if c == nil {
			return ""
		}
		s, _ := val(c, 0).(string)
		return s
	}
	matID := map[int64]int{}
	for _, n := range objs {
		if n.Name != "Material" {
			continue
		}
		id := val(n, 0).(int64)
		matID[id] = len(q.mats)
		c, op := prop(n, "DiffuseColor", 1, 1, 1), prop(n, "Opacity", 1)
		m := qMat{name: raw(n), col: [4]float64{c[0], c[1], c[2], op[0]}}
		for _, k := range kids[id] {
			if byID[k].Name == "Texture" {
				m.tex = slash(str(byID[k], "RelativeFilename"))
			}
		}
		q.mats = append(q.mats, m)
	}
	local := func(id int64) qm {
		n := byID[id]
		t, r, s := prop(n, "Lcl Translation", 0, 0, 0), prop(n, "Lcl Rotation", 0, 0, 0), prop(n, "Lcl Scaling", 1, 1, 1)
		d := math.Pi / 180
		return qTrans(q3{t[0], t[1], t[2]}).mul(qRot(2, r[2]*d)).mul(qRot(1, r[1]*d)).mul(qRot(0, r[0]*d)).mul(qScale(q3{s[0], s[1], s[2]}))
	}
	world := func(id int64) qm {
		if only != "" {
			return coord
		}
		m := qIdent
		for id != 0 {
			m = local(id).mul(m)
			id = parent[id]
		}
		return coord.mul(m)
	}
	kind := func(id int64) string { s, _ := val(byID[id], 2).(string); return s }
	bonePos := map[int64]q3{}
	var boneOrder []int64
	var visit func(id int64, depth int)
	visit = func(id int64, depth int) {
		o := &qObj{name: fbxPlain(val(byID[id], 1).(string)), depth: depth, morph: map[string][]q3{}}
		q.objs = append(q.objs, o)
		m := world(id)
		var refs []int
		var geo *fbx.Node
		var geoID int64
		for _, k := range kids[id] {
			switch byID[k].Name {
			case "Material":
				refs = append(refs, matID[k])
			case "Geometry":
				if geo == nil {
					geo, geoID = byID[k], k
				}
			}
		}
		if geo != nil {
			v := f64(geo, "Vertices")
			for i := 0; i+2 < len(v); i += 3 {
				o.v = append(o.v, m.at(q3{v[i], v[i+1], v[i+2]}))
				o.w = append(o.w, map[string]float64{})
			}
			lm, lu := geo.FindChild("LayerElementMaterial"), geo.FindChild("LayerElementUV")
			var mats, ui []int32
			same := false
			if lm != nil {
				mats = i32(lm, "Materials")
				same = str(lm, "MappingInformationType") == "AllSame"
			}
			var uv []float64
			if lu != nil && str(lu, "MappingInformationType") == "ByPolygonVertex" {
				uv, ui = f64(lu, "UV"), i32(lu, "UVIndex")
			}
			var f qFace
			np := 0
			for i, x := range i32(geo, "PolygonVertexIndex") {
				end := x < 0
				if end {
					x = ^x
				}
				f.v = append(f.v, int(x))
				if uv != nil {
					k := i
					if ui != nil {
						k = int(ui[i])
					}
					f.uv = append(f.uv, [2]float64{uv[k*2], 1 - uv[k*2+1]})
				}
				if !end {
					continue
				}
				k := 0
				if same {
					k = int(mats[0])
				} else if mats != nil {
					k = int(mats[np])
				}
				if only != "" {
					f.mat = k
				} else if k < len(refs) {
					f.mat = refs[k]
				}
				for a, b := 0, len(f.v)-1; a < b; a, b = a+1, b-1 {
					f.v[a], f.v[b] = f.v[b], f.v[a]
					if f.uv != nil {
						f.uv[a], f.uv[b] = f.uv[b], f.uv[a]
					}
				}
				o.f = append(o.f, f)
				f = qFace{}
				np++
			}
			var shapes []*qObj
			for _, df := range kids[geoID] {
				for _, sub := range kids[df] {
					switch kind(sub) {
					case "Cluster":
						var b int64
						for _, k := range kids[sub] {
							b = k
						}
						for k := b; k != 0; k = parent[k] {
							if _, ok := bonePos[k]; !ok {
								boneOrder = append(boneOrder, k)
								bonePos[k] = world(k).at(q3{})
							}
						}
						var link qm
						copy(link[:], f64(byID[sub], "TransformLink"))
						bonePos[b] = coord.mul(link).at(q3{})
						ws := f64(byID[sub], "Weights")
						for i, k := range i32(byID[sub], "Indexes") {
							if ws[i] > 0 {
								o.w[k][raw(byID[b])] += ws[i]
							}
						}
					case "BlendShapeChannel":
						for _, sh := range kids[sub] {
							n := byID[sh]
							s := &qObj{name: raw(n), depth: depth + 1, hidden: true, target: true, v: append([]q3{}, o.v...), f: o.f, w: make([]map[string]float64, len(o.v)), morph: map[string][]q3{}}
							sv := f64(n, "Vertices")
							for i, k := range i32(n, "Indexes") {
								s.v[k] = m.at(q3{v[k*3] + sv[i*3], v[k*3+1] + sv[i*3+1], v[k*3+2] + sv[i*3+2]})
							}
							df := make([]q3, len(o.v))
							for i := range df {
								df[i] = s.v[i].sub(o.v[i])
							}
							if o.morph[s.name] != nil {
								q.problem = "two morphs of one name"
							}
							o.morph[s.name] = df
							shapes = append(shapes, s)
						}
					}
				}
			}
			q.objs = append(q.objs, shapes...)
		}
		for _, k := range kids[id] {
			if byID[k].Name == "Model" && kind(k) != "LimbNode" {
				visit(k, depth+1)
			}
		}
	}
	var hasGeo func(id int64) bool
	hasGeo = func(id int64) bool {
		for _, k := range kids[id] {
			if byID[k].Name == "Geometry" || byID[k].Name == "Model" && hasGeo(k) {
				return true
			}
		}
		return false
	}
	if only != "" {
		var found []int64
		nested := false
		for _, n := range objs {
			if id := val(n, 0).(int64); n.Name == "Model" && fbxPlain(val(n, 1).(string)) == only {
				found = append(found, id)
				nested = nested || parent[id] != 0
			}
		}
		switch {
		case len(found) > 1:
			q.problem = "two models of one name in an FBX file"
		case nested:
			q.problem = "a model below another one in an FBX file"
		case len(found) == 1:
			visit(found[0], 0)
			if len(q.objs) > 1 {
				q.problem = "a model of an FBX file with models or shapes below it"
			}
		}
		return q
	}
	for _, id := range kids[0] {
		if byID[id].Name == "Model" && kind(id) != "LimbNode" && hasGeo(id) {
			visit(id, 0)
		}
	}
	seen := map[string]bool{}
	for _, o := range q.objs {
		if seen[o.name] {
			q.problem = "two objects of one name"
		}
		seen[o.name] = true
	}
	for _, b := range boneOrder {
		x := qBone{name: raw(byID[b]), pos: bonePos[b]}
		if parent[b] != 0 {
			x.parent = raw(byID[parent[b]])
		}
		q.bones = append(q.bones, x)
	}
	return q
}

// fbxPlain is a name without its class.
func fbxPlain(s string) string {
	if i := strings.Index(s, "\x00\x01"); i >= 0 {
		s = s[:i]
	}
	for _, c := range []string{"Model", "Material", "Geometry"} {
		s = strings.TrimPrefix(strings.TrimSuffix(s, "::"+c), c+"::")
	}
	return s
}

// ---- comparison

type qCorner struct {
	pos   q3
	uv    [2]float64
	hasUV bool
	w     map[string]float64
	m     map[string]q3
}

// qOut says what an output of a format holds of a model.
type qOut struct {
	gl, pmx, mqo bool
	flat         bool // no hierarchy
}

// keep tells which faces of an object are in the output.
func (x qOut) keep(q *qDoc, o *qObj, f *qFace) bool {
	if x.mqo {
		return true
	}
	if o.hidden || o.target || len(f.v) < 3 || f.mat < 0 || f.mat >= len(q.mats) {
		return false
	}
	if n := q.mats[f.mat].name; x.gl && (strings.HasSuffix(n, "$IGNORE") || strings.HasPrefix(n, "$MORPH:")) {
		return false
	}
	return true
}

// matMap maps the materials of q to those of the output.
func (x qOut) matMap(q *qDoc) (m map[int]int) {
	m = map[int]int{}
	used := map[int]bool{}
	for _, o := range q.objs {
		for i := range o.f {
			if !o.hidden && !o.target {
				used[o.f[i].mat] = true
			}
		}
	}
	for i, mt := range q.mats {
		if x.gl && (!used[i] || strings.HasSuffix(mt.name, "$IGNORE") || strings.HasPrefix(mt.name, "$MORPH:")) {
			continue
		}
		m[i] = len(m)
	}
	return
}

type qPoly struct{ c []int }

// group is the faces of one material (of one object).
type qGroup struct {
	corners []qCorner
	polys   []qPoly
	tris    int
}

func (q *qDoc) groups(x qOut, byObj bool, mm func(int) int, keep func(o *qObj, f *qFace) bool) map[string]*qGroup {
	r := map[string]*qGroup{}
	for _, o := range q.objs {
		for i := range o.f {
			f := &o.f[i]
			if !keep(o, f) {
				continue
			}
			key := fmt.Sprint("material ", mm(f.mat))
			if byObj {
				key = fmt.Sprintf("object %q ", fbxPlain(o.name)) + key
			}
			g := r[key]
			if g == nil {
				g = &qGroup{}
				r[key] = g
			}
			var p qPoly
			for k, v := range f.v {
				c := qCorner{pos: o.v[v], w: o.w[v], m: map[string]q3{}}
				if f.uv != nil {
					c.uv, c.hasUV = f.uv[k], true
				}
				for n, df := range o.morph {
					c.m[fbxPlain(n)] = df[v]
				}
				p.c = append(p.c, len(g.corners))
				g.corners = append(g.corners, c)
			}
			g.polys = append(g.polys, p)
			if len(f.v) > 2 {
				g.tris += len(f.v) - 2
			}
		}
	}
	return r
}

func gkeys(m map[string]*qGroup) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// check notes what makes names ambiguous.
func (q *qDoc) check() {
	seen := map[string]bool{}
	for _, m := range q.mats {
		if seen[m.name] {
			q.problem = "two materials of one name"
		}
		seen[m.name] = true
	}
}

// same compares what an output holds (got) with what it should hold.
func (want *qDoc) same(got *qDoc, x qOut, st *Stats) string {
	max := 1e-3
	for _, d := range []*qDoc{want, got} {
		for _, o := range d.objs {
			for _, v := range o.v {
				for _, c := range v {
					max = math.Max(max, math.Abs(c))
				}
			}
		}
		for _, b := range d.bones {
			for _, c := range b.pos {
				max = math.Max(max, math.Abs(c))
			}
		}
		for _, o := range d.objs {
			for _, m := range o.morph {
				for _, v := range m {
					for _, c := range v {
						max = math.Max(max, math.Abs(c))
					}
				}
			}
		}
	}
	tol := 1e-5 * max
	mm := x.matMap(want)
	if m := want.sameMaterials(got, x, mm); m != "" {
		return m
	}
	byObj := !want.one && !x.pmx
	wg := want.groups(x, byObj, func(i int) int {
		if k, ok := mm[i]; ok {
			return k
		}
		return i
	}, func(o *qObj, f *qFace) bool { return x.keep(want, o, f) && (!want.one || !o.target) })
	gg := got.groups(x, byObj, func(i int) int { return i }, func(o *qObj, f *qFace) bool { return !want.one || !o.target })
	for _, k := range gkeys(gg) {
		if wg[k] == nil {
			return fmt.Sprintf("%s has %d faces; there should be none", k, len(gg[k].polys))
		}
	}
	if dup(want.bones) && st != nil {
		st.skip("two bones of one name: bones and weights not compared")
	}
	for _, k := range gkeys(wg) {
		g := gg[k]
		if g == nil {
			return fmt.Sprintf("%s is missing (%d faces)", k, len(wg[k].polys))
		}
		if m := wg[k].same(g, x, tol, dup(want.bones) || want.noW); m != "" {
			return k + ": " + m
		}
	}
	if x.mqo && !want.one {
		var a, b []string
		for _, o := range want.objs {
			a = append(a, fmt.Sprintf("%q depth %d hidden %v", fbxPlain(o.name), o.depth, o.hidden))
		}
		for _, o := range got.objs {
			b = append(b, fmt.Sprintf("%q depth %d hidden %v", fbxPlain(o.name), o.depth, o.hidden))
		}
		if s, t := strings.Join(a, "\n"), strings.Join(b, "\n"); s != t {
			return "objects: " + Diff(s, t)
		}
	}
	if !dup(want.bones) {
		if m := want.sameBones(got, x, tol); m != "" {
			return m
		}
	}
	return ""
}

func dup(bs []qBone) bool {
	m := map[string]bool{}
	for _, b := range bs {
		if m[b.name] {
			return true
		}
		m[b.name] = true
	}
	return false
}

func (want *qDoc) sameMaterials(got *qDoc, x qOut, mm map[int]int) string {
	if len(got.mats) != len(mm) {
		return fmt.Sprintf("%d materials, should be %d", len(got.mats), len(mm))
	}
	for i, w := range want.mats {
		k, ok := mm[i]
		if !ok {
			continue
		}
		g := got.mats[k]
		if fbxPlain(g.name) != fbxPlain(w.name) {
			return fmt.Sprintf("material %d is %q, should be %q", k, g.name, w.name)
		}
		for c := range w.col {
			if math.Abs(g.col[c]-w.col[c]) > 0.00051 {
				return fmt.Sprintf("material %q has the color %v, should have %v", w.name, g.col, w.col)
			}
		}
		if w.gone {
			continue
		}
		if x.gl {
			if g.tex != w.tex || w.data != nil && string(w.data) != string(g.data) {
				return fmt.Sprintf("material %q has the texture %q (%d bytes), should have %q (%d bytes)", w.name, g.tex, len(g.data), w.tex, len(w.data))
			}
		} else if slash(g.tex) != slash(w.tex) {
			return fmt.Sprintf("material %q has the texture %q, should have %q", w.name, g.tex, w.tex)
		}
	}
	return ""
}

func (want *qDoc) sameBones(got *qDoc, x qOut, tol float64) string {
	n := 0
	for _, w := range want.bones {
		ok, why := false, "is missing"
		for _, g := range got.bones {
			if fbxPlain(g.name) != fbxPlain(w.name) {
				continue
			}
			n++
			switch {
			case fbxPlain(g.parent) != fbxPlain(w.parent):
				why = fmt.Sprintf("has the parent %q, should have %q", g.parent, w.parent)
			case !g.pos.near(w.pos, 2*tol):
				why = fmt.Sprintf("is at %v, should be at %v", g.pos, w.pos)
			default:
				ok = true
			}
		}
		if !ok {
			return fmt.Sprintf("bone %q %s", w.name, why)
		}
	}
	if !x.gl && n != len(got.bones) {
		return fmt.Sprintf("%d bones, should be %d", len(got.bones), len(want.bones))
	}
	return ""
}

// clusters groups points that are closer than tol (also through others).
func clusters(n int, near func(i, j int) bool, axis func(i int) float64, tol float64) []int {
	up := make([]int, n)
	order := make([]int, n)
	for i := range up {
		up[i], order[i] = i, i
	}
	find := func(i int) int {
		for up[i] != i {
			up[i] = up[up[i]]
			i = up[i]
		}
		return i
	}
	sort.Slice(order, func(a, b int) bool { return axis(order[a]) < axis(order[b]) })
	for a := range order {
		for b := a + 1; b < n && axis(order[b])-axis(order[a]) <= tol; b++ {
			i, j := find(order[a]), find(order[b])
			if i != j && near(order[a], order[b]) {
				up[i] = j
			}
		}
	}
	r := make([]int, n)
	for i := range r {
		r[i] = find(i)
	}
	return r
}

func (w *qGroup) same(g *qGroup, x qOut, tol float64, noW bool) string {
	nw := len(w.corners)
	all := append(append([]qCorner{}, w.corners...), g.corners...)
	place := clusters(len(all), func(i, j int) bool { return all[i].pos.near(all[j].pos, tol) }, func(i int) float64 { return all[i].pos[0] }, tol)
	// UVs that matter
	ignore := map[int]bool{}
	has := map[int]bool{}
	for i := range all[:nw] {
		has[place[i]] = true
		if !all[i].hasUV {
			ignore[place[i]] = true
		}
	}
	for i := nw; i < len(all); i++ {
		if !has[place[i]] {
			return fmt.Sprintf("there is a vertex at %v", all[i].pos)
		}
		if !ignore[place[i]] && !all[i].hasUV {
			return fmt.Sprintf("the corner at %v has no UV", all[i].pos)
		}
	}
	uvNear := func(i, j int, t float64) bool {
		a, b := all[i].uv, all[j].uv
		t *= 1 + math.Max(math.Abs(a[0]), math.Abs(a[1]))
		return math.Abs(a[0]-b[0]) <= t && math.Abs(a[1]-b[1]) <= t
	}
	utol := 1e-5
	if x.gl {
		utol = 0.0106 // near ones are merged
	}
	at := map[int][]int{}
	for i := range all {
		at[place[i]] = append(at[place[i]], i)
	}
	node := make([]int, len(all))
	var places []int
	for p := range at {
		places = append(places, p)
	}
	sort.Ints(places)
	for _, p := range places {
		is := at[p]
		if ignore[p] {
			for _, i := range is {
				node[i] = p
			}
			continue
		}
		sub := clusters(len(is), func(a, b int) bool {
			if x.gl {
				return math.Abs(all[is[a]].uv[0]-all[is[b]].uv[0]) <= utol && math.Abs(all[is[a]].uv[1]-all[is[b]].uv[1]) <= utol
			}
			return uvNear(is[a], is[b], utol)
		}, func(a int) float64 { return all[is[a]].uv[0] }, 1e9)
		for k, i := range is {
			node[i] = is[sub[k]]
		}
		for _, i := range is {
			if i < nw {
				continue
			}
			ok := false
			for _, j := range is {
				if j < nw && uvNear(j, i, utol) {
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("the vertex at %v has the UV %v", all[i].pos, all[i].uv)
			}
		}
	}
	// the surface: its outline and the triangles
	chain := map[[2]int]int{}
	edge := func(a, b, n int) {
		if a > b {
			a, b, n = b, a, -n
		}
		if a != b {
			chain[[2]int{a, b}] += n
		}
	}
	tri := func(a, b, c int) [3]int {
		for a > b || a > c {
			a, b, c = b, c, a
		}
		return [3]int{a, b, c}
	}
	have := map[[3]int]int{}
	for _, p := range g.polys {
		for k := range p.c {
			edge(node[nw+p.c[k]], node[nw+p.c[(k+1)%len(p.c)]], -1)
		}
		if len(p.c) == 3 {
			have[tri(node[nw+p.c[0]], node[nw+p.c[1]], node[nw+p.c[2]])]++
		}
	}
	for _, p := range w.polys {
		for k := range p.c {
			edge(node[p.c[k]], node[p.c[(k+1)%len(p.c)]], 1)
		}
	}
	if w.tris != g.tris {
		return fmt.Sprintf("%d triangles, should be %d", g.tris, w.tris)
	}
	for e, n := range chain {
		if n != 0 {
			return fmt.Sprintf("the surface differs at the edge from %v to %v (%d)", all[e[0]].pos, all[e[1]].pos, n)
		}
	}
	for _, p := range w.polys {
		if len(p.c) != 3 {
			continue
		}
		t := tri(node[p.c[0]], node[p.c[1]], node[p.c[2]])
		if t[0] == t[1] || t[1] == t[2] || t[2] == t[0] {
			continue
		}
		if have[t] == 0 {
			return fmt.Sprintf("the triangle at %v, %v, %v is missing", all[p.c[0]].pos, all[p.c[1]].pos, all[p.c[2]].pos)
		}
		have[t]--
	}
	if x.mqo && len(w.polys) != len(g.polys) {
		return fmt.Sprintf("%d faces, should be %d", len(g.polys), len(w.polys))
	}
	// what the vertexes carry
	for _, p := range places {
		is := at[p]
		for _, i := range is {
			okM, okW := false, noW
			for _, j := range is {
				if (i < nw) == (j < nw) {
					continue
				}
				a, b := all[i], all[j]
				if i >= nw {
					a, b = b, a
				}
				okM = okM || sameMorphs(a.m, b.m, 3*tol)
				okW = okW || sameWeights(a.w, b.w, x)
			}
			side := "should have, but has not,"
			if i >= nw {
				side = "has"
			}
			if !okM {
				return fmt.Sprintf("the vertex at %v %s the morphs %v", all[i].pos, side, all[i].m)
			}
			if !okW {
				return fmt.Sprintf("the vertex at %v %s the weights %v", all[i].pos, side, all[i].w)
			}
		}
	}
	return ""
}

func sameMorphs(a, b map[string]q3, tol float64) bool {
	for n, d := range a {
		if !d.near(b[n], tol) {
			return false
		}
	}
	for n, d := range b {
		if !d.near(a[n], tol) {
			return false
		}
	}
	return true
}

func sameWeights(want, got map[string]float64, x qOut) bool {
	sum := 0.0
	for _, w := range want {
		sum += w
	}
	if x.pmx && sum < 1e-3 || len(want) > 4 || math.Abs(sum-1) > 0.01 && sum > 1e-3 {
		return true // nothing is said
	}
	g, w := map[string]float64{}, map[string]float64{}
	for n, v := range got {
		g[fbxPlain(n)] += v
	}
	for n, v := range want {
		w[fbxPlain(n)] += v
	}
	for n, v := range w {
		if math.Abs(v-g[n]) > 0.003 {
			return false
		}
	}
	for n, v := range g {
		if math.Abs(v-w[n]) > 0.003 {
			return false
		}
	}
	return true
}
