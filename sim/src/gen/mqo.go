//go:build go1.22

package gen

import (
	"archive/zip"
	"bytes"
	"fmt"
	"hash/crc32"
	"sort"
	"strconv"
	"strings"

	"github.com/binzume/modelconv/mqo"
)

// dec is a number that has at most d decimals and survives printing.
func (r *R) dec(d int) float32 {
	n := 1
	for i := 0; i < d; i++ {
		n *= 10
	}
	v, _ := strconv.ParseFloat(fmt.Sprintf("%.*f", d, float64(r.In(-3*n, 3*n))/float64(n)), 32)
	return float32(v)
}

func (r *R) dec3() mqo.Vector3 { return mqo.Vector3{X: r.dec(3), Y: r.dec(3), Z: r.dec(3)} }

// MQO makes a document as the parser returns it.
// plugins: with bones, morphs and physics. textures: names of texture files.
func MQO(r *R, size int, textures []string, plugins bool) *mqo.Document {
	d := &mqo.Document{}
	if r.P(70) {
		s := &mqo.Scene{CameraPos: r.v3(), CameraLookAt: r.v3(), CameraRot: mqo.Vector3{X: r.dec(3), Y: r.dec(3), Z: r.dec(3)}, Zoom2: r.dec(3), Ortho: r.P(50)}
		if r.P(50) {
			v := r.c3()
			s.AmbientLight = &v
		}
		if r.P(30) {
			s.FrontClip, s.BackClip = r.U()+0.5, float32(r.In(100, 9000))
		}
		d.Scene = s
	}
	nm := r.In(0, 2+size)
	bigDim := -1
	if r.Big > 0 {
		bigDim = r.N(4)
	}
	if bigDim == 0 {
		r.near(&nm, false)
	}
	for i := 0; i < nm; i++ {
		m := &mqo.Material{Name: r.Name(i), Color: r.c4(), Diffuse: r.U(), Ambient: r.U(), Emission: r.U(), Specular: r.U(), Power: float32(r.N(50)), DoubleSided: r.P(30), Shader: r.N(5)}
		if r.P(20) {
			m.Name = r.Pick("$MORPH:smile:mat0", "face$IGNORE", "m$2", "eye") + fmt.Sprint(i)
		}
		if r.P(40) {
			m.UID = i + 1
		}
		if len(textures) > 0 && r.P(75) {
			m.Texture = r.Pick(textures...)
			if r.P(15) {
				m.AlphaTexture = r.Pick(textures...)
			}
			if r.P(15) {
				m.BumpTexture = r.Pick(textures...)
			}
		}
		if r.P(20) {
			v := r.c3()
			if r.P(30) {
				v = mqo.Vector3{X: r.U() * 2, Y: r.U() * 2, Z: r.U() * 2}
			}
			m.EmissionColor = &v
		}
		if r.P(35) {
			m.Ex2 = mqo.NewMaterialEx2(r.Pick("glTF", "glTF", "pmd", "MToon"))
			m.Ex2.ShaderType = "hlsl"
			n := r.N(5)
			for k := 0; k < n; k++ {
				switch r.N(9) {
				case 0:
					m.Ex2.ShaderParams["Metallic"] = r.dec(3)
					if r.P(30) {
						m.Ex2.ShaderParams["Metallic"] = r.U()
						m.Ex2.ShaderParams["Roughness"] = float32(r.N(2))
					}
				case 1:
					m.Ex2.ShaderParams["Roughness"] = r.dec(3)
				case 2:
					m.Ex2.ShaderParams["AlphaMode"] = r.In(1, 3)
				case 3:
					m.Ex2.ShaderParams["Unlit"] = r.P(50)
				case 4:
					m.Ex2.ShaderParams["DoubleSided"] = r.P(50)
				case 5:
					m.Ex2.ShaderParams["Emissive"] = []float32{r.U(), r.U(), r.U(), 1}
				case 6:
					m.Ex2.ShaderParams["AlphaCutOff"] = r.U()
				case 7:
					m.Ex2.ShaderParams["label"] = r.Name(k)
				case 8:
					m.Ex2.ShaderParams["shift"] = -r.N(9)
				}
			}
			if m.Ex2.ShaderName == "glTF" && r.P(60) {
				exParams(r, m.Ex2, textures)
			}
		}
		d.Materials = append(d.Materials, m)
	}
	no := r.In(1, 2+size)
	if bigDim == 1 {
		r.near(&no, false)
	}
	uid := r.P(70)
	depth := 0
	morphBase := -1
	for i := 0; i < no; i++ {
		o := mqo.NewObject(r.Name(i))
		if uid {
			o.UID = i + 1
		}
		o.Depth = depth
		depth = r.In(0, depth+1)
		o.Visible = r.P(85)
		o.Locked = r.P(20)
		o.Folding = r.P(20)
		o.Shading = r.N(2)
		if r.P(30) {
			t, s := r.v3(), mqo.Vector3{X: r.U() + 0.5, Y: 1, Z: r.U() + 0.5}
			o.Translation, o.Scale = &t, &s
			rot := r.dec3()
			o.Rotation = &rot
		}
		if r.P(20) {
			o.Mirror, o.MirrorDis = r.In(1, 2), float32(r.N(4))
		}
		if r.P(20) {
			o.Patch, o.PatchSegment = r.In(1, 4), r.In(1, 16)
		}
		if r.P(40) {
			c := r.c3()
			o.Color = &c
		}
		nv := r.In(0, 4+size*6)
		if size >= 3 && r.P(8) {
			nv = r.In(900, 1300) // several buffers of text
		}
		if bigDim == 2 && i == 0 {
			r.near(&nv, true)
		}
		if morphBase >= 0 && r.P(60) {
			nv = len(d.Objects[morphBase].Vertexes)
		}
		for k := 0; k < nv; k++ {
			v := r.v3()
			o.Vertexes = append(o.Vertexes, &v)
		}
		if r.P(25) && nv > 0 {
			for k := 0; k < nv; k++ {
				o.VertexByUID[k+1+r.N(2)*1000] = k
			}
			if len(o.VertexByUID) != nv {
				o.VertexByUID = map[int]int{}
			}
		}
		nf := r.In(0, 3+size*4)
		for k := 0; k < nf && nv >= 3; k++ {
			n := r.PickN(3, 3, 3, 4, 4, 5, 2)
			if n > nv {
				n = nv
			}
			f := &mqo.Face{Material: r.In(-1, nm-1)}
			st := r.N(nv)
			for j := 0; j < n; j++ {
				f.Verts = append(f.Verts, (st+j)%nv)
			}
			if r.P(30) {
				f.UID = k + 1
			}
			if r.P(70) {
				for j := 0; j < n; j++ {
					f.UVs = append(f.UVs, r.v2())
				}
			}
			if r.P(25) {
				for j := 0; j < n; j++ {
					if r.P(60) {
						v := r.v3()
						f.Normals = append(f.Normals, &v)
					} else {
						f.Normals = append(f.Normals, nil)
					}
				}
			}
			o.Faces = append(o.Faces, f)
		}
		d.Objects = append(d.Objects, o)
		if nv > 0 && r.P(50) {
			morphBase = i
		}
	}
	if !plugins {
		return d
	}
	if r.P(80) {
		bp := &mqo.BonePlugin{Name: "Bone"}
		nb := r.In(1, 3+size*3)
		if bigDim == 3 {
			r.near(&nb, false)
		}
		if size >= 2 && r.P(30) {
			nb = len(MMDBoneNames)
		}
		used := map[int]bool{}
		for i := 0; i < nb; i++ {
			b := &mqo.Bone{ID: i + 1, Name: r.BoneName(i), Parent: r.N(i + 1), Group: r.N(3), Movable: r.N(2), Hide: r.N(2), Dummy: r.PickN(0, 0, 0, 1)}
			if nb == len(MMDBoneNames) || r.P(30) {
				b.Name = MMDBoneNames[i%len(MMDBoneNames)]
				if i >= len(MMDBoneNames) {
					b.Name += fmt.Sprint(i)
				}
			}
			b.Pos.Vector3 = r.v3()
			if r.P(20) {
				b.Color = "#ff0000"
			}
			if r.P(20) {
				b.UpVector = &mqo.Vector3Attr{Vector3: r.v3()}
			}
			if r.P(20) {
				b.Rotate = &mqo.Vector3Attr{Vector3: r.v3()}
			}
			if r.P(20) {
				b.IK = &mqo.BoneIK{ChainCount: r.N(4), Name: r.Name(i), TipName: r.Name(i + 1)}
			}
			for oi, o := range d.Objects {
				if len(o.Vertexes) == 0 || r.P(50) {
					continue
				}
				id := o.UID
				if id == 0 {
					id = oi + 1
				}
				used[id] = true
				w := &mqo.BoneWeight2{ObjectID: id}
				ids := map[int]int{}
				for u, k := range o.VertexByUID {
					ids[k] = u
				}
				for k := range o.Vertexes {
					if r.P(50) {
						u := k + 1
						if len(ids) > 0 {
							u = ids[k]
						}
						w.Vertexes = append(w.Vertexes, &mqo.VertexWeight{VertexID: u, Weight: float32(r.In(1, 100))})
					}
				}
				b.Weights = append(b.Weights, w)
			}
			bp.BoneSet2.Bones = append(bp.BoneSet2.Bones, b)
		}
		if r.P(40) {
			bp.BoneSet2.Limit = 4
		}
		for i, o := range d.Objects {
			id := o.UID
			if id == 0 {
				id = i + 1
			}
			if used[id] {
				bp.Obj = append(bp.Obj, mqo.BoneObj{ID: id})
			}
		}
		if r.P(20) {
			for i := 0; i < 2; i++ {
				bp.PoseSet.BonePoses = append(bp.PoseSet.BonePoses, &mqo.BonePose{ID: i + 1, Name: r.Name(i), MvX: r.F(), MvY: r.F(), RotB: r.F(), RotH: r.F(), RotP: r.F(), ScB: 1, ScH: r.U(), ScP: 1})
			}
		}
		d.Plugins = append(d.Plugins, bp)
	}
	if morphBase >= 0 && r.P(70) {
		mp := &mqo.MorphPlugin{Name: "Morph"}
		base := d.Objects[morphBase]
		t := &mqo.MorphTargetList{Base: base.Name}
		for i, o := range d.Objects {
			if i != morphBase && len(o.Vertexes) == len(base.Vertexes) {
				t.Target = append(t.Target, &mqo.MorphTarget{Name: o.Name, Param: r.N(100)})
			}
		}
		mp.MorphSet.Targets = append(mp.MorphSet.Targets, t)
		d.Plugins = append(d.Plugins, mp)
	}
	if r.P(30) {
		pp := &mqo.PhysicsPlugin{Name: "Physics Plugin"}
		nb := r.In(1, 1+size)
		for i := 0; i < nb; i++ {
			b := &mqo.PhysicsBody{Mass: r.U(), Kinematic: r.P(50), CollisionGroup: r.N(16), CollisionMask: r.N(65536), Restitution: r.U(), Friction: r.U(), LinearDamping: r.U(), AngularDamping: r.U(), Name: r.Name(i), TargetBoneID: r.N(2), TargetObjID: 0}
			for k := r.In(1, 2); k > 0; k-- {
				b.Shapes = append(b.Shapes, &mqo.PhysicsShape{Type: r.Pick("BOX", "SPHERE", "CAPSULE"), Size: mqo.Vector3XmlAttr(r.c3()), Position: mqo.Vector3XmlAttr(r.v3()), Rotation: mqo.Vector3XmlAttr(r.v3())})
			}
			pp.Bodies = append(pp.Bodies, b)
		}
		for i := r.N(2); i > 0; i-- {
			pp.Constraints = append(pp.Constraints, &mqo.PhysicsJointConstraint{Type: "SPRING", Body1: r.N(nb), Body2: r.N(nb), Name: r.Name(i), Position: mqo.Vector3XmlAttr(r.v3()), Rotation: mqo.Vector3XmlAttr(r.v3()), LinerSpring: mqo.Vector3XmlAttr(r.v3()), AngulerSpring: mqo.Vector3XmlAttr(r.v3())})
		}
		d.Plugins = append(d.Plugins, pp)
	}
	if r.Neat {
		neatMQO(d)
	}
	if r.Cyclic {
		for _, o := range d.Objects {
			if r.P(40) {
				o.Depth = r.N(6)
			}
		}
		for _, p := range d.Plugins {
			if bp, ok := p.(*mqo.BonePlugin); ok {
				bs := bp.BoneSet2.Bones
				for k := r.In(1, 3); k > 0 && len(bs) > 0; k-- {
					bs[r.N(len(bs))].Parent = bs[r.N(len(bs))].ID
				}
			}
			if mp, ok := p.(*mqo.MorphPlugin); ok {
				for _, t := range mp.MorphSet.Targets {
					t.Target = append(t.Target, &mqo.MorphTarget{Name: t.Base, Param: 50})
				}
			}
		}
	}
	return d
}

func fl(v float32) string { return strconv.FormatFloat(float64(v), 'g', -1, 32) }
func fl3(v *mqo.Vector3) string {
	return fl(v.X) + " " + fl(v.Y) + " " + fl(v.Z)
}
func b01(b bool) int {
	if b {
		return 1
	}
	return 0
}

var exExt = [][]string{{"Unlit"}, {"SpecularExt", "SpecularFactor", "SpecularColorFactor"}, {"Clearcoat", "ClearcoatFactor", "ClearcoatRoughnessFactor"},
	{"Sheen", "SheenColorFactor", "SheenRoughnessFactor"}, {"IorExt", "Ior"}, {"Volume", "ThicknessFactor", "AttenuationDistance", "AttenuationColor"},
	{"Transmission", "TransmissionFactor"}}

var exMaps = []string{"Specular", "SpecularColor", "Clearcoat", "ClearcoatRoughness", "ClearcoatNormal", "SheenColor", "SheenRoughness", "Thickness", "Transmission", "BaseColor"}

// exParams adds extensions and textures of a shader.
func exParams(r *R, x *mqo.MaterialEx2, textures []string) {
	for i := r.In(1, 2); i > 0; i-- {
		e := exExt[r.N(len(exExt))]
		x.ShaderParams["Extensions."+e[0]] = !r.P(15)
		for _, n := range e[1:] {
			switch {
			case r.P(25):
			case strings.Contains(n, "Color"):
				x.ShaderParams["Extensions."+n] = []float32{r.U(), r.U(), r.U(), 1}
			case r.P(15):
				x.ShaderParams["Extensions."+n] = float32(0)
			default:
				x.ShaderParams["Extensions."+n] = r.dec(3)
			}
		}
	}
	for i := r.N(4); i > 0 && len(textures) > 0; i-- {
		n := exMaps[r.N(len(exMaps))]
		x.ShaderMapping[n] = r.Pick(textures...)
		if r.P(40) {
			x.ShaderMappingParams[n] = map[string]interface{}{"Scale": r.dec(3), "Repeat": r.P(50), "Set": r.N(3)}
		}
	}
}

// EncodeMQO writes d as text. mqx: name of the companion ("": none).
func EncodeMQO(r *R, d *mqo.Document, mqx string, sj bool) []byte {
	var b bytes.Buffer
	p := func(f string, a ...interface{}) { fmt.Fprintf(&b, f+"\n", a...) }
	path := func(s string) string {
		if sj {
			return strings.ReplaceAll(s, "/", "\\")
		}
		return s
	}
	p("Metasequoia Document")
	p("Format Text Ver 1.1")
	if !sj {
		p("CodePage utf8")
	}
	p("")
	if mqx != "" {
		p("IncludeXml \"%s\"", mqx)
	}
	if r.P(30) {
		p("Thumbnail 2 2 24 rgb raw {\n\t00ff00ff00ff\n\t12345678\n}")
	}
	if s := d.Scene; s != nil {
		p("Scene {")
		p("\tpos %s", fl3(&s.CameraPos))
		p("\tlookat %s", fl3(&s.CameraLookAt))
		p("\thead %s", fl(s.CameraRot.Y))
		p("\tpich %s", fl(s.CameraRot.X))
		p("\tbank %s", fl(s.CameraRot.Z))
		p("\tortho %d", b01(s.Ortho))
		p("\tzoom2 %s", fl(s.Zoom2))
		if s.AmbientLight != nil {
			p("\tamb %s", fl3(s.AmbientLight))
		}
		if s.FrontClip > 0 {
			p("\tfrontclip %s", fl(s.FrontClip))
		}
		if s.BackClip > 0 {
			p("\tbackclip %s", fl(s.BackClip))
		}
		if r.P(40) {
			p("\tdirlights 1 {\n\t\tlight {\n\t\t\tdir 0.408 0.408 0.816\n\t\t}\n\t}")
		}
		p("}")
	}
	p("Material %d {", len(d.Materials))
	ex := 0
	for _, m := range d.Materials {
		if m.Ex2 != nil {
			ex++
		}
		s := fmt.Sprintf("\t\"%s\" shader(%d)", m.Name, m.Shader)
		if r.P(30) {
			s += " vcol(1)"
		}
		if m.DoubleSided {
			s += " dbls(1)"
		}
		if m.UID > 0 {
			s += fmt.Sprintf(" uid(%d)", m.UID)
		}
		s += fmt.Sprintf(" col(%s %s %s %s) dif(%s) amb(%s) emi(%s) spc(%s) power(%s)", fl(m.Color.X), fl(m.Color.Y), fl(m.Color.Z), fl(m.Color.W), fl(m.Diffuse), fl(m.Ambient), fl(m.Emission), fl(m.Specular), fl(m.Power))
		if m.EmissionColor != nil {
			s += " emi_col(" + fl3(m.EmissionColor) + ")"
		}
		if m.Texture != "" {
			s += " tex(\"" + path(m.Texture) + "\")"
		}
		if m.AlphaTexture != "" {
			s += " aplane(\"" + path(m.AlphaTexture) + "\")"
		}
		if m.BumpTexture != "" {
			s += " bump(\"" + path(m.BumpTexture) + "\")"
		}
		p("%s", s)
	}
	p("}")
	if ex > 0 {
		p("MaterialEx2 %d {", ex)
		for i, m := range d.Materials {
			if m.Ex2 == nil {
				continue
			}
			p("\tmaterial %d {", i)
			p("\t\tshadertype \"%s\"", m.Ex2.ShaderType)
			p("\t\tshadername \"%s\"", m.Ex2.ShaderName)
			params := func(ps map[string]interface{}) {
				for _, k := range exKeys(ps) {
					q := "\"" + k + "\""
					if strings.HasPrefix(k, "Ext") || r.P(30) {
						q = k
					}
					switch v := ps[k].(type) {
					case float32:
						p("\t\t\t%s float %s", q, fl(v))
					case int:
						p("\t\t\t%s int %d", q, v)
					case bool:
						p("\t\t\t%s bool %v", q, r.Pick(map[bool][]string{true: {"1", "true"}, false: {"0", "false"}}[v]...))
					case string:
						p("\t\t\t%s string \"%s\"", q, v)
					case []float32:
						p("\t\t\t%s color %s %s %s %s", q, fl(v[0]), fl(v[1]), fl(v[2]), fl(v[3]))
					}
				}
				p("\t\t}")
			}
			p("\t\tshaderparam %d {", len(m.Ex2.ShaderParams))
			params(m.Ex2.ShaderParams)
			if len(m.Ex2.ShaderMapping) > 0 {
				p("\t\tshadermapping %d {", len(m.Ex2.ShaderMapping))
				for _, k := range exMaps {
					if t, ok := m.Ex2.ShaderMapping[k]; ok {
						p("\t\t\t\"%s\" \"%s\"", k, path(t))
					}
				}
				p("\t\t}")
			}
			for _, k := range exMaps {
				if ps, ok := m.Ex2.ShaderMappingParams[k]; ok {
					p("\t\tshadermappingparam \"%s\" %d {", k, len(ps))
					params(ps)
				}
			}
			p("\t}")
		}
		p("}")
	}
	for _, o := range d.Objects {
		p("Object \"%s\" {", o.Name)
		if o.UID > 0 {
			p("\tuid %d", o.UID)
		}
		p("\tdepth %d", o.Depth)
		p("\tfolding %d", b01(o.Folding))
		p("\tscale %s", fl3(o.Scale))
		p("\trotation %s %s %s", fl(o.Rotation.Y), fl(o.Rotation.X), fl(o.Rotation.Z))
		p("\ttranslation %s", fl3(o.Translation))
		if !o.Visible {
			p("\tvisible 0")
		} else {
			p("\tvisible 15")
		}
		p("\tlocking %d", b01(o.Locked))
		p("\tshading %d", o.Shading)
		p("\tfacet %s", fl(o.Facet))
		if o.Mirror != 0 {
			p("\tmirror %d\n\tmirror_axis 1\n\tmirror_dis %s", o.Mirror, fl(o.MirrorDis))
		}
		if o.Patch > 0 {
			p("\tpatch %d\n\tsegment %d", o.Patch, o.PatchSegment)
		}
		if o.Color != nil {
			p("\tcolor %s", fl3(o.Color))
		}
		p("\tvertex %d {", len(o.Vertexes))
		for _, v := range o.Vertexes {
			p("\t\t%s", fl3(v))
		}
		p("\t}")
		if len(o.VertexByUID) > 0 {
			p("\tvertexattr {\n\t\tuid {")
			ids := make([]int, len(o.Vertexes))
			for u, i := range o.VertexByUID {
				ids[i] = u
			}
			for _, u := range ids {
				p("\t\t\t%d", u)
			}
			p("\t\t}\n\t}")
		}
		p("\tface %d {", len(o.Faces))
		for _, f := range o.Faces {
			s := fmt.Sprintf("\t\t%d V(%s) M(%d)", len(f.Verts), strings.Trim(fmt.Sprint(f.Verts), "[]"), f.Material)
			if f.UID > 0 {
				s += fmt.Sprintf(" UID(%d)", f.UID)
			}
			if len(f.UVs) > 0 {
				var u []string
				for _, v := range f.UVs {
					u = append(u, fl(v.X), fl(v.Y))
				}
				s += " UV(" + strings.Join(u, " ") + ")"
			}
			if len(f.Normals) > 0 {
				var u []string
				for _, v := range f.Normals {
					u = append(u, fmt.Sprint(b01(v != nil)*2))
				}
				for _, v := range f.Normals {
					if v != nil {
						u = append(u, fl3(v))
					}
				}
				s += " N(" + strings.Join(u, " ") + ")"
			}
			p("%s", s)
		}
		p("\t}")
		p("}")
	}
	p("Eof")
	out := b.Bytes()
	if sj {
		out = sjis(strings.ReplaceAll(string(out), "\n", "\r\n"))
	}
	return out
}

func xmlEsc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", "\"", "&quot;").Replace(s)
}

// EncodeMQX writes the plugins of d.
func EncodeMQX(d *mqo.Document, name string) []byte {
	var b bytes.Buffer
	p := func(f string, a ...interface{}) { fmt.Fprintf(&b, f+"\n", a...) }
	p("<?xml version=\"1.0\" encoding=\"UTF-8\"?>")
	p("<MetasequoiaDocument>")
	p("  <IncludedBy>%s</IncludedBy>", name)
	v3 := func(v *mqo.Vector3Attr) string { return fl(v.X) + "," + fl(v.Y) + "," + fl(v.Z) }
	x3 := func(tag string, v mqo.Vector3XmlAttr) {
		p("<%s x=\"%s\" y=\"%s\" z=\"%s\"/>", tag, fl(v.X), fl(v.Y), fl(v.Z))
	}
	for _, pl := range d.Plugins {
		switch t := pl.(type) {
		case *mqo.BonePlugin:
			p("  <Plugin.56A31D20.71F282AB name=\"Bone\">")
			p("    <BoneSet2 limit=\"%d\">", t.BoneSet2.Limit)
			for _, bn := range t.BoneSet2.Bones {
				fmt.Fprintf(&b, "      <Bone id=\"%d\" name=\"%s\" group=\"%d\" pos=\"%s\"", bn.ID, xmlEsc(bn.Name), bn.Group, v3(&bn.Pos))
				if bn.Parent > 0 {
					fmt.Fprintf(&b, " parent=\"%d\"", bn.Parent)
				}
				fmt.Fprintf(&b, " movable=\"%d\" hide=\"%d\" dummy=\"%d\"", bn.Movable, bn.Hide, bn.Dummy)
				if bn.Color != "" {
					fmt.Fprintf(&b, " color=\"%s\"", bn.Color)
				}
				if bn.UpVector != nil {
					fmt.Fprintf(&b, " upVector=\"%s\"", v3(bn.UpVector))
				}
				if bn.Rotate != nil {
					fmt.Fprintf(&b, " rotate=\"%s\"", v3(bn.Rotate))
				}
				p(">")
				if bn.IK != nil {
					p("        <IK chain=\"%d\" name=\"%s\" tipName=\"%s\"/>", bn.IK.ChainCount, xmlEsc(bn.IK.Name), xmlEsc(bn.IK.TipName))
				}
				for _, w := range bn.Weights {
					p("        <W obj=\"%d\">", w.ObjectID)
					for _, v := range w.Vertexes {
						p("          <V v=\"%d\" w=\"%s\"/>", v.VertexID, fl(v.Weight))
					}
					p("        </W>")
				}
				p("      </Bone>")
			}
			p("    </BoneSet2>")
			p("    <Poses>")
			for _, q := range t.PoseSet.BonePoses {
				p("<Pose id=\"%d\" name=\"%s\" mvX=\"%s\" mvY=\"%s\" mvZ=\"%s\" rotB=\"%s\" rotH=\"%s\" rotP=\"%s\" scB=\"%s\" scH=\"%s\" scP=\"%s\"/>", q.ID, xmlEsc(q.Name), fl(q.MvX), fl(q.MvY), fl(q.MvZ), fl(q.RotB), fl(q.RotH), fl(q.RotP), fl(q.ScB), fl(q.ScH), fl(q.ScP))
			}
			p("    </Poses>")
			for _, o := range t.Obj {
				p("    <Obj id=\"%d\"/>", o.ID)
			}
			p("  </Plugin.56A31D20.71F282AB>")
		case *mqo.MorphPlugin:
			p("  <Plugin.56A31D20.C452C6DB name=\"Morph\">\n    <MorphSet>")
			for _, l := range t.MorphSet.Targets {
				p("      <TargetList base=\"%s\">", xmlEsc(l.Base))
				for _, m := range l.Target {
					p("        <Target name=\"%s\" param=\"%d\"/>", xmlEsc(m.Name), m.Param)
				}
				p("      </TargetList>")
			}
			p("    </MorphSet>\n  </Plugin.56A31D20.C452C6DB>")
		case *mqo.PhysicsPlugin:
			p("  <Plugin.7A6E6962.43594850 name=\"%s\">\n<Bodies>", t.Name)
			for _, q := range t.Bodies {
				p("<Body mass=\"%s\" kinematic=\"%v\" name=\"%s\" targetBone=\"%d\">", fl(q.Mass), q.Kinematic, xmlEsc(q.Name), q.TargetBoneID)
				p("<Shapes>")
				for _, s := range q.Shapes {
					p("<Shape type=\"%s\">", s.Type)
					x3("Size", s.Size)
					x3("Position", s.Position)
					x3("Rotation", s.Rotation)
					p("</Shape>")
				}
				p("</Shapes>")
				p("<CollisionGroup>%d</CollisionGroup><CollisionMask>%d</CollisionMask><Restitution>%s</Restitution><Friction>%s</Friction><LinearDamping>%s</LinearDamping><AngularDamping>%s</AngularDamping>", q.CollisionGroup, q.CollisionMask, fl(q.Restitution), fl(q.Friction), fl(q.LinearDamping), fl(q.AngularDamping))
				p("</Body>")
			}
			p("</Bodies>\n<Constraints>")
			for _, q := range t.Constraints {
				p("<Joint type=\"%s\" body1=\"%d\" body2=\"%d\" name=\"%s\">", q.Type, q.Body1, q.Body2, xmlEsc(q.Name))
				x3("Position", q.Position)
				x3("Rotation", q.Rotation)
				x3("LinerSpring", q.LinerSpring)
				x3("AngulerSpring", q.AngulerSpring)
				p("</Joint>")
			}
			p("</Constraints>\n  </Plugin.7A6E6962.43594850>")
		}
	}
	p("</MetasequoiaDocument>")
	return b.Bytes()
}

// Zip makes an archive; method 0 (stored) or 8 (deflate).
func Zip(names []string, files [][]byte, stored bool) []byte {
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	for i, n := range names {
		if stored {
			h := &zip.FileHeader{Name: n, Method: zip.Store, CRC32: crc32.ChecksumIEEE(files[i]), CompressedSize64: uint64(len(files[i])), UncompressedSize64: uint64(len(files[i]))}
			w, _ := z.CreateRaw(h)
			w.Write(files[i])
		} else {
			w, _ := z.Create(n)
			w.Write(files[i])
		}
	}
	z.Close()
	return b.Bytes()
}

// neatMQO makes the weights of every vertex add up to 100.
func neatMQO(d *mqo.Document) {
	type key struct{ o, v int }
	sum := map[key]float32{}
	n := map[key]int{}
	for _, p := range d.Plugins {
		bp, ok := p.(*mqo.BonePlugin)
		if !ok {
			continue
		}
		for _, b := range bp.BoneSet2.Bones {
			for _, w := range b.Weights {
				var keep []*mqo.VertexWeight
				for _, v := range w.Vertexes {
					k := key{w.ObjectID, v.VertexID}
					if n[k]++; n[k] <= 4 {
						sum[k] += v.Weight
						keep = append(keep, v)
					}
				}
				w.Vertexes = keep
			}
		}
		for _, b := range bp.BoneSet2.Bones {
			for _, w := range b.Weights {
				for _, v := range w.Vertexes {
					v.Weight = v.Weight * 100 / sum[key{w.ObjectID, v.VertexID}]
				}
			}
		}
	}
}

func exKeys(m map[string]interface{}) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
