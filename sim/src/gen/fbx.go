//go:build go1.22

package gen

import (
	"bytes"
	"compress/zlib"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"strconv"
	"strings"

	"github.com/binzume/modelconv/fbx"
)

func nd(name string, attrs []interface{}, ch ...*fbx.Node) *fbx.Node {
	n := fbx.NewNode(name, attrs...)
	n.Children = ch
	return n
}

func at(v ...interface{}) []interface{} { return v }

func (r *R) f64s(n int) []float64 {
	var a []float64
	for i := 0; i < n; i++ {
		a = append(a, float64(r.F()))
	}
	return a
}

func pr(name, typ, label, flag string, v ...interface{}) *fbx.Node {
	return nd("P", append(at(name, typ, label, flag), v...))
}

// FBX makes the node tree of a document. textures: names of textures.
func FBX(r *R, size int, textures []string) *fbx.Node {
	root := &fbx.Node{Name: "_FBX_ROOT"}
	version := r.PickN(7400, 7500)
	root.AddChild(nd("FBXHeaderExtension", nil,
		nd("FBXHeaderVersion", at(int32(1003))), nd("FBXVersion", at(int32(version))), nd("Creator", at("gen "+r.Name(0)))))
	if r.P(60) {
		id := make([]byte, 16)
		for i := range id {
			id[i] = byte(r.N(256))
		}
		root.AddChild(nd("FileId", at(id)))
	}
	root.AddChild(nd("CreationTime", at("2020-01-01 10:00:00:000")))
	root.AddChild(nd("Creator", at("gen")))
	axis := []int{0, 1, 2}
	if r.P(30) {
		axis = []int{0, 2, 1}
	}
	gs := nd("Properties70", nil,
		pr("UpAxis", "int", "Integer", "", int32(axis[1])), pr("UpAxisSign", "int", "Integer", "", int32(1)),
		pr("FrontAxis", "int", "Integer", "", int32(axis[2])), pr("FrontAxisSign", "int", "Integer", "", int32(r.PickN(1, -1))),
		pr("CoordAxis", "int", "Integer", "", int32(axis[0])), pr("CoordAxisSign", "int", "Integer", "", int32(1)),
		pr("UnitScaleFactor", "double", "Number", "", float64(1)))
	root.AddChild(nd("GlobalSettings", nil, nd("Version", at(int32(1000))), gs))
	root.AddChild(nd("Definitions", nil, nd("Version", at(int32(100))), nd("Count", at(int32(4))),
		nd("ObjectType", at("GlobalSettings"), nd("Count", at(int32(1)))),
		nd("ObjectType", at("Material"), nd("Count", at(int32(1))), nd("PropertyTemplate", at("FbxSurfacePhong"),
			nd("Properties70", nil, pr("DiffuseColor", "Color", "", "A", 0.5, 0.25, float64(r.U())), pr("DiffuseFactor", "Number", "", "A", 0.5))))))
	objs := &fbx.Node{Name: "Objects"}
	conns := &fbx.Node{Name: "Connections"}
	id := int64(1000 + r.N(1000))
	if r.P(30) {
		id += 1 << 33
	}
	newID := func() int64 { id += int64(r.In(1, 9)); return id }
	connect := func(kind string, child, parent int64, extra ...interface{}) {
		conns.AddChild(nd("C", append(at(kind, child, parent), extra...)))
	}
	// materials
	var mats []int64
	for i := r.In(0, 1+size); i > 0; i-- {
		m := newID()
		mats = append(mats, m)
		props := nd("Properties70", nil, pr("DiffuseColor", "Color", "", "A", float64(r.U()), float64(r.U()), float64(r.U())), pr("Opacity", "double", "Number", "", float64(r.opacity())))
		if r.P(50) {
			props.AddChild(pr("SpecularFactor", "Number", "", "A", float64(r.U())))
			props.AddChild(pr("SpecularColor", "Color", "", "A", float64(r.U()), 0.0, 1.0))
		}
		if r.P(30) {
			props.AddChild(pr("EmissiveFactor", "Number", "", "A", float64(r.U())))
			props.AddChild(pr("EmissiveColor", "Color", "", "A", float64(r.U()), 0.0, 1.0))
		}
		objs.AddChild(nd("Material", at(m, r.Name(i)+"\x00\x01Material", ""), nd("Version", at(int32(102))), nd("ShadingModel", at("phong")), props))
		if len(textures) > 0 && r.P(70) {
			t := newID()
			f := r.Pick(textures...)
			objs.AddChild(nd("Texture", at(t, r.Name(i)+"\x00\x01Texture", ""), nd("Type", at("TextureVideoClip")), nd("FileName", at("C:/tmp/"+f)), nd("RelativeFilename", at(f))))
			connect("OP", t, m, "DiffuseColor")
		}
		if r.P(20) {
			v := newID()
			raw := make([]byte, r.N(40))
			for k := range raw {
				raw[k] = byte(r.N(256))
			}
			objs.AddChild(nd("Video", at(v, "v\x00\x01Video", "Clip"), nd("Content", at(raw))))
		}
	}
	// place puts a model below another one.
	place := func(m int64, parents []int64) {
		if r.P(5) { // and below no other
			connect("OO", m, parents[r.N(len(parents))])
		}
		connect("OO", m, parents[r.N(len(parents))])
		if p := parents[r.N(len(parents))]; p != 0 && r.P(5) {
			connect("OP", p, m, "LookAtProperty")
		}
	}
	// bones
	var bones []int64
	parents := []int64{0}
	if r.P(60) {
		for i := r.In(1, 2+size*2); i > 0; i-- {
			b := newID()
			name := r.BoneName(i)
			if !r.Human && r.P(30) {
				name = MMDBoneNames[i%len(MMDBoneNames)]
			}
			objs.AddChild(nd("Model", at(b, name+"\x00\x01Model", "LimbNode"), nd("Version", at(int32(232))), nd("Properties70", nil,
				pr("Lcl Translation", "Lcl Translation", "", "A+", float64(r.F()), float64(r.F()), float64(r.F())))))
			place(b, parents)
			bones = append(bones, b)
			parents = append(parents, b)
		}
	}
	meshParents := []int64{0}
	for i := r.In(1, 1+size); i > 0; i-- {
		m := newID()
		props := nd("Properties70", nil, pr("Lcl Translation", "Lcl Translation", "", "A+", float64(r.F()), float64(r.F()), float64(r.F())),
			pr("Lcl Rotation", "Lcl Rotation", "", "A+", float64(r.N(180)), 0.0, float64(r.N(90))),
			pr("Lcl Scaling", "Lcl Scaling", "", "A+", 1.0, float64(r.U())+0.5, 2.0))
		kind := "Mesh"
		if r.P(20) {
			kind = "Null"
		}
		objs.AddChild(nd("Model", at(m, r.Name(i)+"\x00\x01Model", kind), nd("Version", at(int32(232))), nd("Shading", at(byte(1+r.N(120)))), props))
		place(m, meshParents)
		meshParents = append(meshParents, m)
		if kind == "Null" {
			continue
		}
		for _, x := range mats {
			if r.P(70) {
				connect("OO", x, m)
			}
		}
		g := newID()
		nv := r.In(3, 6+size*6)
		if size >= 3 && r.P(15) {
			nv = r.In(800, 1600)
		}
		var idx []int32
		npoly := 0
		for k := r.In(1, 2+size*4); k > 0; k-- {
			n := r.PickN(3, 4, 4, 5)
			st := r.N(nv)
			if n > nv {
				n = nv
			}
			for j := 0; j < n; j++ {
				v := int32((st + j) % nv)
				if j == n-1 {
					v = ^v
				}
				idx = append(idx, v)
			}
			npoly++
		}
		geo := nd("Geometry", at(g, r.Name(i)+"\x00\x01Geometry", "Mesh"), nd("GeometryVersion", at(int32(124))),
			nd("Vertices", at(r.f64s(nv*3))), nd("PolygonVertexIndex", at(idx)))
		if r.P(60) {
			map1 := r.Pick("ByPolygonVertex", "ByControlPoint")
			n := len(idx)
			if map1 == "ByControlPoint" {
				n = nv
			}
			geo.AddChild(nd("LayerElementNormal", at(int32(0)), nd("Version", at(int32(101))), nd("Name", at("")), nd("MappingInformationType", at(map1)), nd("ReferenceInformationType", at("Direct")), nd("Normals", at(r.f64s(n*3)))))
		}
		if r.P(60) {
			if r.P(50) {
				nuv := r.In(1, 6)
				var ui []int32
				for range idx {
					ui = append(ui, int32(r.N(nuv)))
				}
				geo.AddChild(nd("LayerElementUV", at(int32(0)), nd("MappingInformationType", at("ByPolygonVertex")), nd("ReferenceInformationType", at("IndexToDirect")), nd("UV", at(r.f64s(nuv*2))), nd("UVIndex", at(ui))))
			} else {
				geo.AddChild(nd("LayerElementUV", at(int32(0)), nd("MappingInformationType", at("ByPolygonVertex")), nd("ReferenceInformationType", at("Direct")), nd("UV", at(r.f64s(len(idx)*2)))))
			}
		}
		if len(mats) > 0 && r.P(70) {
			if r.P(50) {
				geo.AddChild(nd("LayerElementMaterial", at(int32(0)), nd("MappingInformationType", at("AllSame")), nd("ReferenceInformationType", at("IndexToDirect")), nd("Materials", at([]int32{0}))))
			} else {
				var mi []int32
				for k := 0; k < npoly; k++ {
					mi = append(mi, int32(r.N(len(mats))))
				}
				geo.AddChild(nd("LayerElementMaterial", at(int32(0)), nd("MappingInformationType", at("ByPolygon")), nd("ReferenceInformationType", at("IndexToDirect")), nd("Materials", at(mi))))
			}
		}
		objs.AddChild(geo)
		connect("OO", g, m)
		if len(bones) > 0 && r.P(70) {
			skin := newID()
			objs.AddChild(nd("Deformer", at(skin, "\x00\x01Deformer", "Skin"), nd("Version", at(int32(101)))))
			connect("OO", skin, g)
			for _, b := range bones {
				if r.P(40) {
					continue
				}
				c := newID()
				var vi []int32
				var w []float64
				for k := 0; k < nv && k < 40; k++ {
					if r.P(50) {
						vi = append(vi, int32(k))
						w = append(w, float64(r.U()))
					}
				}
				t := []float64{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, float64(r.F()), float64(r.F()), 0, 1}
				cl := nd("Deformer", at(c, "\x00\x01SubDeformer", "Cluster"), nd("Version", at(int32(100))))
				if len(vi) > 0 {
					cl.AddChild(nd("Indexes", at(vi)))
					cl.AddChild(nd("Weights", at(w)))
				}
				cl.AddChild(nd("Transform", at(append([]float64{}, t...))))
				cl.AddChild(nd("TransformLink", at(t)))
				objs.AddChild(cl)
				connect("OO", c, skin)
				connect("OO", b, c)
			}
		}
		if r.P(40) {
			bs, ch := newID(), newID()
			objs.AddChild(nd("Deformer", at(bs, "\x00\x01Deformer", "BlendShape"), nd("Version", at(int32(100)))))
			objs.AddChild(nd("Deformer", at(ch, r.Name(i)+"\x00\x01SubDeformer", "BlendShapeChannel"), nd("Version", at(int32(100))), nd("DeformPercent", at(0.0)), nd("FullWeights", at([]float64{100}))))
			connect("OO", bs, g)
			connect("OO", ch, bs)
			for s := r.In(1, 2); s > 0; s-- {
				sh := newID()
				var vi []int32
				for k := 0; k < nv; k += r.In(1, 3) {
					vi = append(vi, int32(k))
				}
				objs.AddChild(nd("Geometry", at(sh, fmt.Sprintf("shape%d_%d\x00\x01Geometry", i, s), "Shape"), nd("Version", at(int32(100))), nd("Indexes", at(vi)), nd("Vertices", at(r.f64s(len(vi)*3))), nd("Normals", at(r.f64s(len(vi)*3)))))
				connect("OO", sh, ch)
			}
		}
	}
	if r.P(50) {
		c := newID()
		var t []int64
		for k := r.In(1, 5); k > 0; k-- {
			t = append(t, int64(k)*46186158000+int64(r.N(1000)))
		}
		objs.AddChild(nd("AnimationCurve", at(c, "\x00\x01AnimCurve", ""), nd("Default", at(float64(r.F()))), nd("KeyVer", at(int32(4009))), nd("KeyTime", at(t)),
			nd("KeyValueFloat", at([]float32{r.F(), r.F()})), nd("KeyAttrFlags", at([]int32{24836})), nd("KeyAttrRefCount", at([]int32{int32(len(t))}))))
	}
	if r.P(30) {
		u := nd("UserData", at(int16(r.In(-9, 9)), float32(r.F()), "say \"hi\"", int64(r.U64()>>8)), nd("Flags", at([]int8{1, -1, 0})), nd("Name", at("")))
		if r.P(30) {
			u.AddChild(nd("Empty", nil))
		}
		objs.AddChild(nd("NodeAttribute", at(newID(), "\x00\x01NodeAttribute", "LimbNode"), u))
	}
	if r.Neat {
		neatFBX(objs, conns)
	}
	if r.Cyclic && len(objs.Children) > 0 {
		pick := func() int64 {
			id, _ := objs.Children[r.N(len(objs.Children))].Attributes[0].Value.(int64)
			return id
		}
		all := append(append([]int64{}, bones...), meshParents...)
		for k := r.In(1, 4); k > 0; k-- {
			if r.P(60) {
				connect("OO", all[r.N(len(all))], all[r.N(len(all))])
			} else {
				connect("OO", pick(), pick())
			}
		}
	}
	root.AddChild(objs)
	root.AddChild(conns)
	if r.P(50) {
		root.AddChild(nd("Takes", nil, nd("Current", at(""))))
	}
	return root
}

// FBXVersion returns the file version in the header of the tree.
func FBXVersion(root *fbx.Node) int {
	if v, ok := root.FindChild("FBXHeaderExtension").FindChild("FBXVersion").Attributes[0].Value.(int32); ok {
		return int(v)
	}
	return 7400
}

// EncodeFBX writes the tree as a binary file.
func EncodeFBX(r *R, root *fbx.Node) []byte {
	version := FBXVersion(root)
	var out bytes.Buffer
	out.WriteString("Kaydara FBX Binary  \x00\x1a\x00")
	le := binary.LittleEndian
	binary.Write(&out, le, uint32(version))
	hdr := 13
	if version >= 7500 {
		hdr = 25
	}
	zip := r.N(3) // 0 never, 1 large arrays, 2 always
	var enc func(n *fbx.Node, off int) []byte
	enc = func(n *fbx.Node, off int) []byte {
		var p bytes.Buffer
		for _, a := range n.Attributes {
			arr := func(typ byte, count int, v interface{}) {
				var raw bytes.Buffer
				binary.Write(&raw, le, v)
				p.WriteByte(typ)
				binary.Write(&p, le, uint32(count))
				if zip == 2 || (zip == 1 && raw.Len() > 128) {
					var z bytes.Buffer
					w := zlib.NewWriter(&z)
					w.Write(raw.Bytes())
					w.Close()
					binary.Write(&p, le, uint32(1))
					binary.Write(&p, le, uint32(z.Len()))
					p.Write(z.Bytes())
				} else {
					binary.Write(&p, le, uint32(0))
					binary.Write(&p, le, uint32(raw.Len()))
					p.Write(raw.Bytes())
				}
			}
			one := func(typ byte, v interface{}) {
				p.WriteByte(typ)
				binary.Write(&p, le, v)
			}
			switch v := a.Value.(type) {
			case int8:
				one('B', v)
			case byte:
				one('C', v)
			case int16:
				one('Y', v)
			case int32:
				one('I', v)
			case int64:
				one('L', v)
			case float32:
				one('F', v)
			case float64:
				one('D', v)
			case string:
				one('S', uint32(len(v)))
				p.WriteString(v)
			case []byte:
				one('R', uint32(len(v)))
				p.Write(v)
			case []int8:
				arr('b', len(v), v)
			case []int16:
				arr('y', len(v), v)
			case []int32:
				arr('i', len(v), v)
			case []int64:
				arr('l', len(v), v)
			case []float32:
				arr('f', len(v), v)
			case []float64:
				arr('d', len(v), v)
			default:
				panic(fmt.Sprintf("gen: fbx attribute %T", v))
			}
		}
		pos := off + hdr + len(n.Name) + p.Len()
		var ch bytes.Buffer
		if len(n.Children) > 0 || len(n.Attributes) == 0 {
			for _, c := range n.Children {
				ch.Write(enc(c, pos+ch.Len()))
			}
			ch.Write(make([]byte, hdr))
		}
		var b bytes.Buffer
		end := pos + ch.Len()
		if hdr == 25 {
			binary.Write(&b, le, []uint64{uint64(end), uint64(len(n.Attributes)), uint64(p.Len())})
		} else {
			binary.Write(&b, le, []uint32{uint32(end), uint32(len(n.Attributes)), uint32(p.Len())})
		}
		b.WriteByte(byte(len(n.Name)))
		b.WriteString(n.Name)
		b.Write(p.Bytes())
		b.Write(ch.Bytes())
		return b.Bytes()
	}
	for _, c := range root.Children {
		out.Write(enc(c, out.Len()))
	}
	out.Write(make([]byte, hdr))
	return out.Bytes()
}

// FBXFooter is what follows the node list of a binary file; it has no content.
func FBXFooter(size, version int) []byte {
	f := []byte{0xfa, 0xbc, 0xab, 0x09, 0xd0, 0xc8, 0xd4, 0x66, 0xb1, 0x76, 0xfb, 0x83, 0x1c, 0xf7, 0x26, 0x7e}
	for (size+len(f))%16 != 0 {
		f = append(f, 0)
	}
	f = append(f, 0, 0, 0, 0, byte(version), byte(version>>8), 0, 0)
	f = append(f, make([]byte, 120)...)
	return append(f, 0xf8, 0x5a, 0x8c, 0x6a, 0xde, 0xf5, 0xd9, 0x7e, 0xec, 0xe9, 0x0c, 0xe3, 0x75, 0x8f, 0x29, 0x0b)
}

// EncodeFBXText writes the tree as an ASCII file.
func EncodeFBXText(r *R, root *fbx.Node) []byte {
	var b bytes.Buffer
	nl := r.Pick("\n", "\n", "\r\n")
	b.WriteString("; FBX 7.4.0 project file" + nl + "; generated" + nl + nl)
	num := func(f float64, bits int) string { return strconv.FormatFloat(f, 'g', -1, bits) }
	var w func(n *fbx.Node, d int)
	w = func(n *fbx.Node, d int) {
		ind := strings.Repeat("\t", d)
		b.WriteString(ind + n.Name + ": ")
		for i, a := range n.Attributes {
			if i > 0 {
				b.WriteString(r.Pick(",", ", "))
			}
			var items []string
			switch v := a.Value.(type) {
			case string:
				if s := strings.SplitN(v, "\x00\x01", 2); len(s) == 2 {
					v = s[1] + "::" + s[0]
				}
				b.WriteString("\"" + strings.ReplaceAll(v, "\"", "&quot;") + "\"")
			case []byte:
				b.WriteString("\"" + base64.StdEncoding.EncodeToString(v) + "\"")
			case float32:
				b.WriteString(num(float64(v), 32))
			case float64:
				b.WriteString(num(v, 64))
			case []float64:
				for _, x := range v {
					items = append(items, num(x, 64))
				}
			case []float32:
				for _, x := range v {
					items = append(items, num(float64(x), 32))
				}
			case []int32:
				for _, x := range v {
					items = append(items, fmt.Sprint(x))
				}
			case []int64:
				for _, x := range v {
					items = append(items, fmt.Sprint(x))
				}
			case []int8:
				for _, x := range v {
					items = append(items, fmt.Sprint(x))
				}
			default:
				b.WriteString(fmt.Sprint(v))
			}
			if len(items) > 0 {
				fmt.Fprintf(&b, "*%d {%s%s\ta: ", len(items), nl, ind)
				for k, s := range items {
					if k > 0 {
						b.WriteString(",")
						if k%10 == 0 {
							b.WriteString(nl)
						}
					}
					b.WriteString(s)
				}
				b.WriteString(nl + ind + "}")
			}
		}
		if len(n.Children) > 0 || len(n.Attributes) == 0 {
			b.WriteString(" {" + nl)
			for _, c := range n.Children {
				w(c, d+1)
			}
			b.WriteString(ind + "}")
		}
		b.WriteString(nl)
	}
	for _, c := range root.Children {
		if c.Name == "FileId" {
			continue
		}
		w(c, 0)
		if r.P(30) {
			b.WriteString("; ----" + nl)
		}
	}
	return b.Bytes()
}

// fbxModelNames lists the names of the models.
func fbxModelNames(root *fbx.Node) []string {
	var r []string
	for _, c := range root.Children {
		if c.Name == "Objects" {
			for _, o := range c.Children {
				if o.Name == "Model" {
					if s, ok := o.Attributes[1].Value.(string); ok {
						r = append(r, strings.SplitN(s, "\x00", 2)[0])
					}
				}
			}
		}
	}
	return r
}

// neatFBX makes the weights of every vertex add up to 1 and gives each bone one
// position.
func neatFBX(objs, conns *fbx.Node) {
	up, bone := map[int64]int64{}, map[int64]int64{}
	byID := map[int64]*fbx.Node{}
	for _, n := range objs.Children {
		byID[n.Attributes[0].Value.(int64)] = n
	}
	for _, c := range conns.Children {
		a, b := c.Attributes[1].Value.(int64), c.Attributes[2].Value.(int64)
		up[a] = b
		if n := byID[b]; n != nil && n.Name == "Deformer" && n.Attributes[2].Value == "Cluster" {
			bone[b] = a
		}
	}
	type key struct {
		skin int64
		v    int32
	}
	sum := map[key]float64{}
	num := map[key]int{}
	link := map[int64][]float64{}
	each := func(fn func(k key, i int, w []float64) bool) {
		for _, n := range objs.Children {
			if n.Name != "Deformer" || n.Attributes[2].Value != "Cluster" {
				continue
			}
			id := n.Attributes[0].Value.(int64)
			if t := n.FindChild("TransformLink"); link[bone[id]] == nil {
				link[bone[id]] = t.Attributes[0].Value.([]float64)
			} else {
				t.Attributes[0].Value = append([]float64{}, link[bone[id]]...)
			}
			ix, ws := n.FindChild("Indexes"), n.FindChild("Weights")
			if ix == nil {
				continue
			}
			a, w := ix.Attributes[0].Value.([]int32), ws.Attributes[0].Value.([]float64)
			var b []int32
			var x []float64
			for i, v := range a {
				if fn(key{up[id], v}, i, w) {
					b, x = append(b, v), append(x, w[i])
				}
			}
			if b == nil {
				b, x = []int32{}, []float64{}
			}
			ix.Attributes[0].Value, ws.Attributes[0].Value = b, x
		}
	}
	each(func(k key, i int, w []float64) bool {
		w[i] += 0.001
		if num[k]++; num[k] > 4 {
			return false
		}
		sum[k] += w[i]
		return true
	})
	each(func(k key, i int, w []float64) bool {
		w[i] /= sum[k]
		return true
	})
}
