//go:build go1.22

package gen

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
)

type obj = map[string]interface{}
type arr = []interface{}

// GLTFOpt says how a glTF document is stored.
type GLTFOpt struct {
	Form     string // gltf, glb
	Bin      string // external buffer name; "": data URI (gltf) or chunk (glb)
	Textures []string
	VRM      bool
	SVG      bool
}

type gltfB struct {
	r     *R
	buf   bytes.Buffer
	views arr
	accs  arr

	more  bool // a second buffer
	buf2  bytes.Buffer
	joins *enc // the joints of several primitives in one view
}

func (b *gltfB) view(data []byte) int {
	buf, n := &b.buf, 0
	if b.more && b.buf.Len() > 0 && b.r.P(40) {
		buf, n = &b.buf2, 1
	}
	for buf.Len()%4 != 0 {
		buf.WriteByte(0)
	}
	off := buf.Len()
	buf.Write(data)
	v := obj{"buffer": n, "byteOffset": off, "byteLength": len(data)}
	if off == 0 {
		delete(v, "byteOffset")
	}
	b.views = append(b.views, v)
	return len(b.views) - 1
}

func (b *gltfB) acc(typ string, comp int, n, view int, extra obj) int {
	a := obj{"bufferView": view, "componentType": comp, "count": n, "type": typ}
	for k, v := range extra {
		a[k] = v
	}
	b.accs = append(b.accs, a)
	return len(b.accs) - 1
}

func (b *gltfB) floats(typ string, dim int, v []float32, bounds bool) int {
	var e enc
	e.le(v)
	extra := obj{}
	if bounds {
		mn, mx := make([]float32, dim), make([]float32, dim)
		for i := range mn {
			mn[i], mx[i] = math.MaxFloat32, -math.MaxFloat32
		}
		for i, x := range v {
			if x < mn[i%dim] {
				mn[i%dim] = x
			}
			if x > mx[i%dim] {
				mx[i%dim] = x
			}
		}
		extra["min"], extra["max"] = mn, mx
	}
	return b.acc(typ, 5126, len(v)/dim, b.view(e.Bytes()), extra)
}

var vrmBones = []string{"hips", "spine", "chest", "neck", "head", "leftUpperArm", "leftLowerArm", "leftHand", "rightUpperArm", "rightLowerArm", "rightHand", "leftUpperLeg", "leftLowerLeg", "leftFoot", "rightUpperLeg", "rightLowerLeg", "rightFoot"}

// turn is a rotation.
func turn(r *R) []float32 {
	h := float32(math.Sqrt(0.5))
	switch r.N(5) {
	case 0:
		return []float32{h, 0, 0, h}
	case 1:
		return []float32{0, -h, 0, h}
	case 2:
		return []float32{0.5, 0.5, -0.5, 0.5}
	case 3:
		return []float32{0, 0, 0.6, 0.8}
	}
	a := float64(r.U()) * 3
	return []float32{0, float32(math.Sin(a / 2)), 0, float32(math.Cos(a / 2))}
}

// unplace is the inverse of the place of a bone, in column order.
func unplace(nodes arr, parents []int, i int) []float32 {
	rot := [9]float64{1, 0, 0, 0, 1, 0, 0, 0, 1} // rows
	var pos [3]float64
	for {
		n := nodes[i].(obj)
		q := []float32{0, 0, 0, 1}
		if v, ok := n["rotation"].([]float32); ok {
			q = v
		}
		x, y, z, w := float64(q[0]), float64(q[1]), float64(q[2]), float64(q[3])
		m := [9]float64{1 - 2*(y*y+z*z), 2 * (x*y - z*w), 2 * (x*z + y*w), 2 * (x*y + z*w), 1 - 2*(x*x+z*z), 2 * (y*z - x*w), 2 * (x*z - y*w), 2 * (y*z + x*w), 1 - 2*(x*x+y*y)}
		t := n["translation"].([]float32)
		var p2 [3]float64
		var r2 [9]float64
		for a := 0; a < 3; a++ {
			p2[a] = float64(t[a])
			for b := 0; b < 3; b++ {
				p2[a] += m[a*3+b] * pos[b]
				for c := 0; c < 3; c++ {
					r2[a*3+b] += m[a*3+c] * rot[c*3+b]
				}
			}
		}
		pos, rot = p2, r2
		if i == 0 {
			break
		}
		i = parents[i]
	}
	out := make([]float32, 16)
	out[15] = 1
	for a := 0; a < 3; a++ { // transposed
		for b := 0; b < 3; b++ {
			out[a*4+b] = float32(rot[a*3+b])
			out[12+a] -= float32(rot[b*3+a] * pos[b])
		}
	}
	return out
}

// reorder changes the order of the nodes.
func reorder(r *R, doc obj) {
	nodes := doc["nodes"].(arr)
	to := make([]int, len(nodes))
	for i := range to {
		to[i] = len(to) - 1 - i // children first
	}
	if r.P(40) {
		for i := len(to) - 1; i > 0; i-- {
			j := r.N(i + 1)
			to[i], to[j] = to[j], to[i]
		}
	}
	list := func(m obj, k string) {
		if a, ok := m[k].(arr); ok {
			c := arr{}
			for _, v := range a {
				c = append(c, to[v.(int)])
			}
			m[k] = c
		}
	}
	one := func(m obj, k string) {
		if v, ok := m[k].(int); ok {
			m[k] = to[v]
		}
	}
	sorted := make(arr, len(nodes))
	for i, n := range nodes {
		list(n.(obj), "children")
		sorted[to[i]] = n
	}
	doc["nodes"] = sorted
	each := func(v interface{}, f func(m obj)) {
		a, _ := v.(arr)
		for _, x := range a {
			f(x.(obj))
		}
	}
	each(doc["scenes"], func(m obj) { list(m, "nodes") })
	each(doc["skins"], func(m obj) {
		m["joints"] = append(arr{}, m["joints"].(arr)...)
		list(m, "joints")
		one(m, "skeleton")
	})
	each(doc["animations"], func(m obj) {
		each(m["channels"], func(c obj) { one(c["target"].(obj), "node") })
	})
	ext, _ := doc["extensions"].(obj)
	if v, ok := ext["VRM"].(obj); ok {
		each(v["humanoid"].(obj)["humanBones"], func(m obj) { one(m, "node") })
		sa := v["secondaryAnimation"].(obj)
		each(sa["boneGroups"], func(m obj) { list(m, "bones") })
		each(sa["colliderGroups"], func(m obj) { one(m, "node") })
		if f, ok := v["firstPerson"].(obj); ok {
			one(f, "firstPersonBone")
		}
	}
}

// GLTF makes a document and returns the model file and, with an external
// buffer, that buffer.
func GLTF(r *R, size int, o GLTFOpt) (model, bin []byte) {
	b := &gltfB{r: r, more: r.P(15)}
	doc := obj{"asset": obj{"version": "2.0", "generator": "verif"}}
	var meshes, nodes, mats, texs, imgs, skins, anims arr

	for i, t := range o.Textures {
		img := obj{"name": fmt.Sprint("img", i)}
		if o.Form == "glb" && r.P(60) {
			img["bufferView"] = b.view(Texture(r, "x.png"))
			img["mimeType"] = "image/png"
		} else {
			img["uri"] = t
		}
		imgs = append(imgs, img)
		tx := obj{"source": i}
		if r.P(50) {
			doc["samplers"] = arr{obj{"magFilter": 9729, "wrapS": 10497}}
			tx["sampler"] = 0
		}
		texs = append(texs, tx)
	}
	nmat := r.In(1, 1+size/2)
	bigDim := -1
	if r.Big > 0 {
		bigDim = r.N(3)
	}
	if bigDim == 0 {
		r.near(&nmat, false)
	}
	for i := 0; i < nmat; i++ {
		pbr := obj{"baseColorFactor": []float32{r.U(), r.U(), r.U(), r.opacity()}}
		if len(texs) > 0 && r.P(70) {
			pbr["baseColorTexture"] = obj{"index": r.N(len(texs))}
		}
		if r.P(50) {
			pbr["metallicFactor"] = r.U()
			pbr["roughnessFactor"] = r.U()
		}
		m := obj{"name": r.Name(i), "pbrMetallicRoughness": pbr}
		if r.P(30) {
			m["alphaMode"] = r.Pick("OPAQUE", "MASK", "BLEND")
			if m["alphaMode"] == "MASK" && r.P(60) {
				m["alphaCutoff"] = r.U()
			}
		}
		if r.P(30) {
			m["emissiveFactor"] = []float32{r.U(), r.U(), r.U()}
		}
		if r.P(10) {
			delete(m, "pbrMetallicRoughness")
		}
		if r.P(30) {
			m["doubleSided"] = true
		}
		if r.P(20) {
			m["extensions"] = obj{"KHR_materials_unlit": obj{}}
			doc["extensionsUsed"] = arr{"KHR_materials_unlit"}
		}
		mats = append(mats, m)
	}

	// skeleton
	nb := 0
	var boneNames []string
	if o.VRM {
		boneNames = vrmBones
		nb = len(vrmBones)
	} else if r.P(60) {
		nb = r.In(1, 2+size)
	}
	if bigDim == 2 && !o.VRM {
		r.near(&nb, false)
	}
	deep := nb > 0 && nb < 100 && r.P(20)
	if deep && !o.VRM && r.P(50) {
		nb += 12
	}
	children := make([]arr, nb)
	parents := make([]int, nb)
	for i := 1; i < nb; i++ {
		p := r.N(i)
		if deep {
			p = i - 1
		}
		parents[i] = p
		children[p] = append(children[p], i)
	}
	turned := r.P(25) || deep && r.P(40)
	for i := 0; i < nb; i++ {
		n := obj{"translation": []float32{r.F(), r.F(), r.F()}}
		if boneNames != nil {
			n["name"] = boneNames[i]
		} else {
			n["name"] = fmt.Sprintf("bone%d", i)
			if r.Human {
				n["name"] = r.BoneName(i)
			}
		}
		if len(children[i]) > 0 {
			n["children"] = children[i]
		}
		if turned && r.P(50) {
			n["rotation"] = turn(r)
		} else if r.P(20) {
			n["rotation"] = []float32{0, 0, 0, 1}
		}
		nodes = append(nodes, n)
	}
	if nb > 0 {
		var m []float32
		var joints arr
		if r.P(20) { // what comes before the matrices in the view
			m = append(m, make([]float32, 16)...)
		}
		skip := len(m)
		for i := 0; i < nb; i++ {
			if r.Neat {
				m = append(m, unplace(nodes, parents, i)...)
			} else {
				m = append(m, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, r.F(), r.F(), r.F(), 1)
			}
			joints = append(joints, i)
		}
		var e enc
		e.le(m)
		extra := obj{}
		if skip > 0 {
			extra["byteOffset"] = skip * 4
		}
		ibm := b.acc("MAT4", 5126, nb, b.view(e.Bytes()), extra)
		skins = append(skins, obj{"joints": joints, "skeleton": 0, "inverseBindMatrices": ibm})
		if r.P(20) {
			skins = append(skins, obj{"joints": joints, "skeleton": 0, "inverseBindMatrices": ibm})
		}
	}

	bytes8 := nb > 0 && nb <= 256 && r.P(30)
	if bytes8 && r.P(50) {
		b.joins = &enc{}
	}
	nmesh := r.In(1, 1+size/2)
	morphs := 0
	for i := 0; i < nmesh; i++ {
		var prims arr
		nt := 0
		if r.P(40) {
			nt = r.In(1, 2)
		}
		for j := r.In(1, 2); j > 0; j-- {
			nv := r.In(3, 4+size*2)
			if bigDim == 1 {
				r.near(&nv, true)
				bigDim = 0
			}
			pos := make([]float32, nv*3)
			for k := range pos {
				pos[k] = r.F()
			}
			at := obj{"POSITION": b.floats("VEC3", 3, pos, true)}
			if r.P(70) {
				nrm := make([]float32, nv*3)
				for k := 0; k < nv; k++ {
					nrm[k*3+r.N(3)] = 1
				}
				at["NORMAL"] = b.floats("VEC3", 3, nrm, false)
			}
			if r.P(80) {
				uv := make([]float32, nv*2)
				for k := range uv {
					uv[k] = r.U()
				}
				at["TEXCOORD_0"] = b.floats("VEC2", 2, uv, false)
			}
			if nb > 0 {
				var e enc
				w := make([]float32, nv*4)
				for k := 0; k < nv; k++ {
					for q := 0; q < 4; q++ {
						if bytes8 {
							e.u8(r.N(nb))
						} else {
							e.u16(r.N(nb))
						}
					}
					w[k*4] = 1
					if r.P(30) {
						w[k*4], w[k*4+2] = 0.25, 0.75
					}
				}
				switch {
				case !bytes8:
					at["JOINTS_0"] = b.acc("VEC4", 5123, nv, b.view(e.Bytes()), nil)
				case b.joins == nil:
					at["JOINTS_0"] = b.acc("VEC4", 5121, nv, b.view(e.Bytes()), nil)
				default: // the view is made at the end
					at["JOINTS_0"] = b.acc("VEC4", 5121, nv, -1, obj{"byteOffset": b.joins.Len()})
					b.joins.Write(e.Bytes())
				}
				at["WEIGHTS_0"] = b.floats("VEC4", 4, w, false)
			}
			var e enc
			ni := r.In(1, 2+size) * 3
			comp := r.PickN(5121, 5123, 5125)
			if comp == 5121 && nv > 256 || comp == 5123 && nv > 65536 {
				comp = 5125
			}
			for k := 0; k < ni; k++ {
				switch comp {
				case 5121:
					e.u8(r.N(nv))
				case 5123:
					e.u16(r.N(nv))
				default:
					e.u32(r.N(nv))
				}
			}
			p := obj{"attributes": at, "indices": b.acc("SCALAR", comp, ni, b.view(e.Bytes()), nil)}
			if r.P(85) {
				p["material"] = r.N(nmat)
			}
			var targets arr
			for k := 0; k < nt; k++ {
				t := make([]float32, nv*3)
				for q := range t {
					t[q] = r.F()
				}
				targets = append(targets, obj{"POSITION": b.floats("VEC3", 3, t, true)})
			}
			if nt > 0 {
				p["targets"] = targets
			}
			prims = append(prims, p)
		}
		m := obj{"name": r.Name(i), "primitives": prims}
		if nt > 0 {
			var names arr
			for k := 0; k < nt; k++ {
				if r.Human && r.P(60) {
					names = append(names, r.MorphName(k))
					continue
				}
				names = append(names, fmt.Sprint("morph", k))
			}
			m["extras"] = obj{"targetNames": names}
			if i == 0 {
				morphs = nt
			}
		}
		meshes = append(meshes, m)
		n := obj{"name": r.Name(100 + i), "mesh": i}
		if nb > 0 {
			n["skin"] = r.N(len(skins))
		} else {
			n["translation"] = []float32{r.F(), r.F(), r.F()}
			if r.P(30) {
				n["rotation"] = turn(r)
			}
			if r.P(20) {
				n["scale"] = []float32{2, 0.5, 1}
			}
			if r.P(10) {
				n = obj{"name": n["name"], "mesh": i, "matrix": []float32{0, 0, 2, 0, 0, 1, 0, 0, -2, 0, 0, 0, r.F(), r.F(), r.F(), 1}}
			}
		}
		nodes = append(nodes, n)
	}
	if b.joins != nil && b.joins.Len() > 0 {
		v := b.view(b.joins.Bytes())
		for _, a := range b.accs {
			if m := a.(obj); m["bufferView"] == -1 {
				m["bufferView"] = v
			}
		}
	}
	// groups of mesh nodes
	grouped := map[int]bool{}
	if r.P(25) {
		g := obj{"name": r.Name(200), "translation": []float32{r.F(), r.F(), r.F()}, "rotation": turn(r)}
		var ch arr
		for i := nb; i < len(nodes); i++ {
			if r.P(70) {
				ch = append(ch, i)
				grouped[i] = true
			}
		}
		if ch != nil {
			g["children"] = ch
			nodes = append(nodes, g)
		}
	}
	if r.P(30) {
		times := b.floats("SCALAR", 1, []float32{0, 1, 2}, true)
		tr := b.floats("VEC3", 3, []float32{0, 0, 0, r.F(), r.F(), r.F(), 1, 1, 1}, false)
		anims = append(anims, obj{"name": "anim0",
			"channels": arr{obj{"sampler": 0, "target": obj{"node": r.N(len(nodes)), "path": "translation"}}},
			"samplers": arr{obj{"input": times, "output": tr, "interpolation": "LINEAR"}}})
	}
	var roots arr
	if nb > 0 {
		roots = append(roots, 0)
	}
	for i := nb; i < len(nodes); i++ {
		if !grouped[i] {
			roots = append(roots, i)
		}
	}
	doc["scene"] = 0
	doc["scenes"] = arr{obj{"name": "s", "nodes": roots}}
	if r.Cyclic && len(nodes) > 0 {
		for k := r.In(1, 3); k > 0; k-- {
			n := nodes[r.N(len(nodes))].(obj)
			ch, _ := n["children"].(arr)
			n["children"] = append(ch, r.N(len(nodes)))
		}
	}
	doc["nodes"] = nodes
	doc["meshes"] = meshes
	doc["materials"] = mats
	if len(texs) > 0 {
		doc["textures"], doc["images"] = texs, imgs
	}
	if len(skins) > 0 {
		doc["skins"] = skins
	}
	if len(anims) > 0 {
		doc["animations"] = anims
	}
	if o.VRM {
		var hb, groups, mp arr
		for i, n := range vrmBones {
			h := obj{"bone": n, "node": i, "useDefaultValues": true}
			if r.P(20) {
				h["min"] = []float32{0, 1, 2}
			}
			hb = append(hb, h)
		}
		for i := 0; i < morphs; i++ {
			groups = append(groups, obj{"name": fmt.Sprint("B", i), "presetName": r.Pick("joy", "a", "unknown"),
				"binds": arr{obj{"mesh": 0, "index": i, "weight": 100}}})
		}
		for i := range mats {
			m := obj{"name": fmt.Sprint("m", i), "shader": r.Pick("VRM/MToon", "VRM_USE_GLTFSHADER"), "renderQueue": 2000 + r.N(5),
				"floatProperties": obj{"_Cutoff": 0.5, "_BumpScale": 1}, "vectorProperties": obj{"_Color": []float64{1, 1, 1, 1}},
				"textureProperties": obj{}, "keywordMap": obj{"_NORMALMAP": true}, "tagMap": obj{"RenderType": "Opaque"}}
			if len(texs) > 0 {
				m["textureProperties"] = obj{"_MainTex": r.N(len(texs))}
			}
			mp = append(mp, m)
		}
		if groups == nil {
			groups = arr{}
		}
		ext := obj{"meta": obj{"title": r.Name(0), "author": r.Name(1), "version": "1", "contactInformation": "", "licenseName": "CC0", "otherLicenseUrl": ""},
			"humanoid": obj{"humanBones": hb}, "blendShapeMaster": obj{"blendShapeGroups": groups},
			"materialProperties": mp, "exporterVersion": "verif",
			"secondaryAnimation": obj{"boneGroups": arr{obj{"comment": "c", "stiffiness": 0.5, "gravityPower": 0, "gravityDir": obj{"x": 0, "y": -1, "z": 0}, "dragForce": 0.5, "hitRadius": 0.25, "center": -1, "bones": arr{4}, "colliderGroups": arr{0}}},
				"colliderGroups": arr{obj{"node": 4, "colliders": arr{obj{"radius": 0.5, "offset": obj{"x": 0, "y": 0, "z": 0.5}}}}}}}
		if r.P(50) {
			ext["firstPerson"] = obj{"firstPersonBone": 4, "firstPersonBoneOffset": obj{"x": 0, "y": 0.5, "z": 0}, "lookAtTypeName": "Bone"}
		}
		doc["extensions"] = obj{"VRM": ext}
		used, _ := doc["extensionsUsed"].(arr)
		doc["extensionsUsed"] = append(used, "VRM")
	}
	doc["accessors"] = b.accs
	doc["bufferViews"] = b.views
	for b.buf.Len()%4 != 0 {
		b.buf.WriteByte(0)
	}
	if r.P(25) || deep && r.P(40) {
		reorder(r, doc)
	}
	data := b.buf.Bytes()
	buf := obj{"byteLength": len(data)}
	if o.Bin != "" {
		buf["uri"] = o.Bin
	} else if o.Form != "glb" {
		buf["uri"] = "data:application/octet-stream;base64," + base64.StdEncoding.EncodeToString(data)
	}
	doc["buffers"] = arr{buf}
	if b.buf2.Len() > 0 {
		d := b.buf2.Bytes()
		doc["buffers"] = arr{buf, obj{"byteLength": len(d), "uri": "data:application/octet-stream;base64," + base64.StdEncoding.EncodeToString(d)}}
	}
	var js []byte
	if o.Form != "glb" && r.P(30) {
		js, _ = json.MarshalIndent(doc, "", "  ")
	} else {
		js, _ = json.Marshal(doc)
	}
	if o.Form != "glb" {
		return js, data
	}
	for len(js)%4 != 0 {
		js = append(js, ' ')
	}
	var e enc
	e.WriteString("glTF")
	e.u32(2)
	total := 12 + 8 + len(js)
	if o.Bin == "" {
		total += 8 + len(data)
	}
	e.u32(total)
	e.u32(len(js))
	e.WriteString("JSON")
	e.Write(js)
	if o.Bin == "" {
		e.u32(len(data))
		e.WriteString("BIN\x00")
		e.Write(data)
	}
	return e.Bytes(), data
}

// CheckGLB reports what is wrong with the structure of a GLB file, and returns
// its JSON and binary chunks.
func CheckGLB(b []byte) (doc obj, bin []byte, err error) {
	if len(b) < 20 || string(b[:4]) != "glTF" || binary.LittleEndian.Uint32(b[4:]) != 2 {
		return nil, nil, fmt.Errorf("not a GLB (%d bytes)", len(b))
	}
	if int(binary.LittleEndian.Uint32(b[8:])) != len(b) {
		return nil, nil, fmt.Errorf("length in the header %d, file %d", binary.LittleEndian.Uint32(b[8:]), len(b))
	}
	p := 12
	var js []byte
	for i := 0; p < len(b); i++ {
		if p+8 > len(b) {
			return nil, nil, fmt.Errorf("chunk header cut off")
		}
		l := int(binary.LittleEndian.Uint32(b[p:]))
		typ := string(b[p+4 : p+8])
		if p+8+l > len(b) {
			return nil, nil, fmt.Errorf("chunk %d exceeds the file", i)
		}
		c := b[p+8 : p+8+l]
		switch {
		case i == 0 && typ == "JSON":
			js = c
		case i == 1 && typ == "BIN\x00":
			bin = c
		default:
			return nil, nil, fmt.Errorf("unexpected chunk %q", typ)
		}
		p += 8 + l
	}
	if err := json.Unmarshal(js, &doc); err != nil {
		return nil, nil, err
	}
	return doc, bin, nil
}
