//go:build go1.22

package chk

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"path"
	"sort"
	"strings"
)

// A reader of glTF files that owes nothing to the libraries of the repository:
// it checks the structure and resolves what indexes stand for.

type jmap = map[string]interface{}

type glb struct {
	j    jmap
	bufs [][]byte
	file string
}

type glErr struct{ s string }

func (e *glErr) Error() string { return e.s }

func glf(f string, a ...interface{}) { panic(&glErr{fmt.Sprintf(f, a...)}) }

// readGLTF reads and validates an output. get returns the content of a file.
func readGLTF(file string, get func(p string) ([]byte, bool)) (g *glb, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(*glErr); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	data, ok := get(file)
	if !ok {
		return nil, &glErr{"no such file"}
	}
	g = &glb{file: file}
	var bin []byte
	hasBin := false
	js := data
	if !strings.HasSuffix(strings.ToLower(file), ".gltf") {
		if len(data) < 20 || string(data[:4]) != "glTF" {
			glf("no glb header")
		}
		if v := binary.LittleEndian.Uint32(data[4:]); v != 2 {
			glf("version %d", v)
		}
		if n := binary.LittleEndian.Uint32(data[8:]); int(n) != len(data) {
			glf("the header says %d bytes, the file has %d", n, len(data))
		}
		p := 12
		for k := 0; p < len(data); k++ {
			if p+8 > len(data) {
				glf("chunk header at %d is cut", p)
			}
			n := int(binary.LittleEndian.Uint32(data[p:]))
			typ := binary.LittleEndian.Uint32(data[p+4:])
			if n%4 != 0 {
				glf("chunk %d has %d bytes, not a multiple of 4", k, n)
			}
			if n > len(data)-p-8 {
				glf("chunk %d of %d bytes goes beyond the end", k, n)
			}
			c := data[p+8 : p+8+n]
			switch {
			case k == 0 && typ != 0x4E4F534A:
				glf("first chunk is not JSON")
			case k == 0:
				js = c
			case k == 1 && typ == 0x004E4942:
				bin, hasBin = c, true
			}
			p += 8 + n
		}
	}
	dec := json.NewDecoder(bytes.NewReader(js))
	dec.UseNumber()
	if err := dec.Decode(&g.j); err != nil {
		glf("JSON: %v", err)
	}
	if rest := bytes.TrimLeft(js[dec.InputOffset():], " \t\r\n\x00"); len(rest) > 0 {
		glf("%d bytes after the JSON", len(rest))
	}
	if a := g.obj(g.j["asset"]); a["version"] != "2.0" {
		glf("asset.version is %v", a["version"])
	}
	for i, b := range g.list("buffers") {
		m := g.obj(b)
		n := g.num(m, "byteLength", -1)
		if n < 0 {
			glf("buffer %d has no byteLength", i)
		}
		uri, _ := m["uri"].(string)
		var d []byte
		switch {
		case uri == "" && i == 0 && hasBin:
			d = bin
			if len(bin) > n+3 {
				glf("the binary chunk has %d bytes, the buffer %d", len(bin), n)
			}
		case uri == "":
			glf("buffer %d has no data", i)
		case strings.HasPrefix(uri, "data:"):
			k := strings.IndexByte(uri, ',')
			var err error
			if d, err = base64.StdEncoding.DecodeString(uri[k+1:]); err != nil {
				glf("buffer %d: %v", i, err)
			}
		default:
			d = g.extern(uri, get)
			if d == nil {
				glf("buffer %d: %s does not exist", i, uri)
			}
		}
		if len(d) < n {
			glf("buffer %d has %d bytes, should have %d", i, len(d), n)
		}
		g.bufs = append(g.bufs, d[:n])
	}
	g.validate()
	return g, nil
}

func (g *glb) extern(uri string, get func(p string) ([]byte, bool)) []byte {
	dir := path.Dir(g.file) + "/"
	if d, ok := get(dir + uri); ok {
		return append([]byte{}, d...)
	}
	if u, err := url.PathUnescape(uri); err == nil {
		if d, ok := get(dir + u); ok {
			return append([]byte{}, d...)
		}
	}
	if d, ok := get(dir + (&url.URL{Path: uri}).EscapedPath()); ok {
		return append([]byte{}, d...)
	}
	return nil
}

func (g *glb) obj(v interface{}) jmap {
	if v == nil {
		return jmap{}
	}
	m, ok := v.(jmap)
	if !ok {
		glf("an object was expected: %v", v)
	}
	return m
}

func (g *glb) list(name string) []interface{} { return g.arr(g.j, name) }

func (g *glb) arr(m jmap, name string) []interface{} {
	if m[name] == nil {
		return nil
	}
	a, ok := m[name].([]interface{})
	if !ok {
		glf("%s is not a list", name)
	}
	return a
}

func (g *glb) toInt(v interface{}) int {
	n, ok := v.(json.Number)
	if !ok {
		glf("a number was expected: %v", v)
	}
	f, err := n.Float64()
	if err != nil || f != math.Trunc(f) || math.Abs(f) > 1e15 {
		glf("an integer was expected: %v", v)
	}
	return int(f)
}

func (g *glb) num(m jmap, name string, def int) int {
	if m[name] == nil {
		return def
	}
	return g.toInt(m[name])
}

// index checks that m[name], if it is there, is an index of list.
func (g *glb) index(m jmap, name, list, where string) int {
	if m[name] == nil {
		return -1
	}
	i := g.toInt(m[name])
	if n := len(g.list(list)); i < 0 || i >= n {
		glf("%s: %s %d, but there are %d %s", where, name, i, n, list)
	}
	return i
}

func (g *glb) view(i int) []byte {
	m := g.obj(g.list("bufferViews")[i])
	off, n := g.num(m, "byteOffset", 0), g.num(m, "byteLength", 0)
	return g.bufs[g.num(m, "buffer", 0)][off : off+n]
}

var compSize = map[int]int{5120: 1, 5121: 1, 5122: 2, 5123: 2, 5125: 4, 5126: 4}
var typeCount = map[string]int{"SCALAR": 1, "VEC2": 2, "VEC3": 3, "VEC4": 4, "MAT2": 4, "MAT3": 9, "MAT4": 16}

// values returns an accessor's numbers.
func (g *glb) values(i int) (vals []float64, per int) {
	m := g.obj(g.list("accessors")[i])
	ct, typ := g.num(m, "componentType", 0), fmt.Sprint(m["type"])
	per = typeCount[typ]
	n := g.num(m, "count", 0)
	vals = make([]float64, n*per)
	if m["bufferView"] != nil {
		v := g.obj(g.list("bufferViews")[g.num(m, "bufferView", 0)])
		data := g.view(g.num(m, "bufferView", 0))
		stride := g.num(v, "byteStride", 0)
		if stride == 0 {
			stride = per * compSize[ct]
		}
		off := g.num(m, "byteOffset", 0)
		for k := 0; k < n; k++ {
			for c := 0; c < per; c++ {
				vals[k*per+c] = component(data[off+k*stride+c*compSize[ct]:], ct)
			}
		}
	}
	return
}

func component(b []byte, ct int) float64 {
	switch ct {
	case 5120:
		return float64(int8(b[0]))
	case 5121:
		return float64(b[0])
	case 5122:
		return float64(int16(binary.LittleEndian.Uint16(b)))
	case 5123:
		return float64(binary.LittleEndian.Uint16(b))
	case 5125:
		return float64(binary.LittleEndian.Uint32(b))
	}
	return float64(math.Float32frombits(binary.LittleEndian.Uint32(b)))
}

func (g *glb) count(acc int) int { return g.num(g.obj(g.list("accessors")[acc]), "count", 0) }
func (g *glb) typ(acc int) string {
	m := g.obj(g.list("accessors")[acc])
	return fmt.Sprint(m["type"], m["componentType"])
}

func (g *glb) validate() {
	for i, v := range g.list("bufferViews") {
		m := g.obj(v)
		b := g.index(m, "buffer", "buffers", fmt.Sprint("bufferView ", i))
		if b < 0 {
			glf("bufferView %d has no buffer", i)
		}
		off, n := g.num(m, "byteOffset", 0), g.num(m, "byteLength", 0)
		if off < 0 || n < 0 || off+n > len(g.bufs[b]) {
			glf("bufferView %d: bytes %d to %d of a buffer of %d", i, off, off+n, len(g.bufs[b]))
		}
	}
	for i, v := range g.list("accessors") {
		m := g.obj(v)
		where := fmt.Sprint("accessor ", i)
		bv := g.index(m, "bufferView", "bufferViews", where)
		ct, typ := g.num(m, "componentType", 0), fmt.Sprint(m["type"])
		size := compSize[ct] * typeCount[typ]
		if size == 0 {
			glf("%s: type %v of %d", where, typ, ct)
		}
		n := g.num(m, "count", -1)
		if n < 0 {
			glf("%s: count %d", where, n)
		}
		if bv >= 0 && n > 0 {
			vm := g.obj(g.list("bufferViews")[bv])
			stride := g.num(vm, "byteStride", 0)
			if stride == 0 {
				stride = size
			}
			if stride < size {
				glf("%s: stride %d for elements of %d bytes", where, stride, size)
			}
			off := g.num(m, "byteOffset", 0)
			if end := off + stride*(n-1) + size; off < 0 || end > len(g.view(bv)) {
				glf("%s: needs bytes up to %d of a view of %d", where, end, len(g.view(bv)))
			}
			if (off+g.num(vm, "byteOffset", 0))%compSize[ct] != 0 {
				glf("%s: not aligned", where)
			}
		}
	}
	for i, v := range g.list("images") {
		m := g.obj(v)
		bv := g.index(m, "bufferView", "bufferViews", fmt.Sprint("image ", i))
		uri, _ := m["uri"].(string)
		if (bv < 0) == (uri == "") {
			glf("image %d: needs either data or a uri", i)
		}
		if bv >= 0 {
			if mt, _ := m["mimeType"].(string); mt == "" {
				glf("image %d: no mimeType", i)
			}
		}
	}
	for i, v := range g.list("textures") {
		m := g.obj(v)
		g.index(m, "source", "images", fmt.Sprint("texture ", i))
		g.index(m, "sampler", "samplers", fmt.Sprint("texture ", i))
	}
	for i, v := range g.list("materials") {
		g.texRefs(v, fmt.Sprint("material ", i))
	}
	for i, v := range g.list("meshes") {
		ps := g.arr(g.obj(v), "primitives")
		if len(ps) == 0 {
			glf("mesh %d has no primitives", i)
		}
		for k, p := range ps {
			m := g.obj(p)
			where := fmt.Sprintf("mesh %d primitive %d", i, k)
			g.index(m, "material", "materials", where)
			n := -1
			attrs := func(am jmap, where string) {
				for _, a := range sortedKeys(am) {
					x := g.index(am, a, "accessors", where+" "+a)
					if n >= 0 && g.count(x) != n {
						glf("%s: %s has %d elements, others %d", where, a, g.count(x), n)
					}
					n = g.count(x)
				}
			}
			attrs(g.obj(m["attributes"]), where)
			for _, t := range g.arr(m, "targets") {
				attrs(g.obj(t), where+" target")
			}
			if x := g.index(m, "indices", "accessors", where); x >= 0 {
				if t := g.typ(x); t != "SCALAR5121" && t != "SCALAR5123" && t != "SCALAR5125" {
					glf("%s: indices are %s", where, t)
				}
				vals, _ := g.values(x)
				for _, f := range vals {
					if int(f) >= n {
						glf("%s: index %v of %d vertexes", where, f, n)
					}
				}
			}
		}
	}
	parent := map[int]int{}
	nodes := g.list("nodes")
	for i, v := range nodes {
		m := g.obj(v)
		where := fmt.Sprint("node ", i)
		mesh := g.index(m, "mesh", "meshes", where)
		skin := g.index(m, "skin", "skins", where)
		g.index(m, "camera", "cameras", where)
		for _, c := range g.arr(m, "children") {
			k := g.toInt(c)
			if k < 0 || k >= len(nodes) {
				glf("%s: child %d of %d nodes", where, k, len(nodes))
			}
			if p, ok := parent[k]; ok {
				glf("node %d has two parents, %d and %d", k, p, i)
			}
			parent[k] = i
		}
		if skin >= 0 && mesh >= 0 {
			joints := len(g.arr(g.obj(g.list("skins")[skin]), "joints"))
			for k, p := range g.arr(g.obj(g.list("meshes")[mesh]), "primitives") {
				am := g.obj(g.obj(p)["attributes"])
				if am["JOINTS_0"] == nil {
					continue
				}
				vals, _ := g.values(g.num(am, "JOINTS_0", 0))
				for _, f := range vals {
					if int(f) >= joints {
						glf("mesh %d primitive %d: joint %v of %d", mesh, k, f, joints)
					}
				}
			}
		}
	}
	for i := range nodes {
		n := 0
		for k, ok := i, true; ok; k, ok = parent[k] {
			if n++; n > len(nodes)+1 {
				glf("node %d is below itself", i)
			}
			if _, has := parent[k]; !has {
				break
			}
		}
	}
	g.index(g.j, "scene", "scenes", "default scene")
	for i, v := range g.list("scenes") {
		for _, c := range g.arr(g.obj(v), "nodes") {
			if k := g.toInt(c); k < 0 || k >= len(nodes) {
				glf("scene %d: node %d of %d", i, k, len(nodes))
			}
		}
	}
	for i, v := range g.list("skins") {
		m := g.obj(v)
		where := fmt.Sprint("skin ", i)
		g.index(m, "skeleton", "nodes", where)
		js := g.arr(m, "joints")
		for _, c := range js {
			if k := g.toInt(c); k < 0 || k >= len(nodes) {
				glf("%s: joint %d of %d nodes", where, k, len(nodes))
			}
		}
		if x := g.index(m, "inverseBindMatrices", "accessors", where); x >= 0 {
			if g.count(x) < len(js) || g.typ(x) != "MAT45126" {
				glf("%s: %d matrices of type %s for %d joints", where, g.count(x), g.typ(x), len(js))
			}
		}
	}
	for i, v := range g.list("animations") {
		m := g.obj(v)
		ss := g.arr(m, "samplers")
		for k, s := range ss {
			sm := g.obj(s)
			where := fmt.Sprintf("animation %d sampler %d", i, k)
			in, out := g.index(sm, "input", "accessors", where), g.index(sm, "output", "accessors", where)
			if in < 0 || out < 0 {
				glf("%s: incomplete", where)
			}
			if g.count(in) > 0 && g.count(out)%g.count(in) != 0 {
				glf("%s: %d times, %d values", where, g.count(in), g.count(out))
			}
			vals, _ := g.values(in)
			for q := 1; q < len(vals); q++ {
				if vals[q] < vals[q-1] {
					glf("%s: times go back (%v after %v)", where, vals[q], vals[q-1])
				}
			}
		}
		for k, c := range g.arr(m, "channels") {
			cm := g.obj(c)
			if s := g.num(cm, "sampler", -1); s < 0 || s >= len(ss) {
				glf("animation %d channel %d: sampler %d of %d", i, k, s, len(ss))
			}
			g.index(g.obj(cm["target"]), "node", "nodes", fmt.Sprintf("animation %d channel %d", i, k))
		}
	}
	if v := g.obj(g.obj(g.j["extensions"])["VRM"]); len(v) > 0 {
		g.validateVRM(v)
	}
}

func (g *glb) validateVRM(v jmap) {
	for _, b := range g.arr(g.obj(v["humanoid"]), "humanBones") {
		g.index(g.obj(b), "node", "nodes", fmt.Sprint("humanoid ", g.obj(b)["bone"]))
	}
	for _, b := range g.arr(g.obj(v["blendShapeMaster"]), "blendShapeGroups") {
		for _, x := range g.arr(g.obj(b), "binds") {
			m := g.obj(x)
			where := fmt.Sprint("blend shape ", g.obj(b)["name"])
			mesh := g.index(m, "mesh", "meshes", where)
			if mesh < 0 {
				continue
			}
			prim := g.obj(g.arr(g.obj(g.list("meshes")[mesh]), "primitives")[0])
			if k, n := g.num(m, "index", 0), len(g.arr(prim, "targets")); k < 0 || k >= n {
				glf("%s: target %d of %d", where, k, n)
			}
		}
	}
	sec := g.obj(v["secondaryAnimation"])
	cg := g.arr(sec, "colliderGroups")
	for i, b := range cg {
		g.index(g.obj(b), "node", "nodes", fmt.Sprint("collider group ", i))
	}
	for i, b := range g.arr(sec, "boneGroups") {
		for _, n := range g.arr(g.obj(b), "bones") {
			if k := g.toInt(n); k < 0 || k >= len(g.list("nodes")) {
				glf("bone group %d: node %d", i, k)
			}
		}
		for _, n := range g.arr(g.obj(b), "colliderGroups") {
			if k := g.toInt(n); k < 0 || k >= len(cg) {
				glf("bone group %d: collider group %d of %d", i, k, len(cg))
			}
		}
	}
	for i, b := range g.arr(v, "materialProperties") {
		m := g.obj(g.obj(b)["textureProperties"])
		for _, k := range sortedKeys(m) {
			g.index(m, k, "textures", fmt.Sprint("material property ", i))
		}
	}
}

// texRefs checks the textures that a material (or an extension of it) refers to.
func (g *glb) texRefs(v interface{}, where string) {
	switch x := v.(type) {
	case jmap:
		for _, k := range sortedKeys(x) {
			if strings.HasSuffix(k, "Texture") {
				g.index(g.obj(x[k]), "index", "textures", where+" "+k)
			}
			g.texRefs(x[k], where)
		}
	case []interface{}:
		for _, e := range x {
			g.texRefs(e, where)
		}
	}
}

func sortedKeys(m jmap) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// image returns the name and the content of the image behind a texture.
func (g *glb) image(tex int) (name string, data []byte) {
	src := g.num(g.obj(g.list("textures")[tex]), "source", -1)
	if src < 0 {
		return "", nil
	}
	return g.imageData(src)
}

func (g *glb) imageData(i int) (name string, data []byte) {
	m := g.obj(g.list("images")[i])
	name, _ = m["name"].(string)
	if uri, _ := m["uri"].(string); uri != "" {
		return path.Base(uri), []byte("uri " + uri)
	}
	return name, g.view(g.num(m, "bufferView", 0))
}

// shape is everything but materials, textures and images, with all indexes into
// buffers replaced by the data.
func (g *glb) shape() string {
	var b strings.Builder
	for _, k := range []string{"asset", "nodes", "scenes", "scene", "cameras", "extensionsUsed", "extensionsRequired"} {
		fmt.Fprintf(&b, "%s %s\n", k, canon(g.j[k]))
	}
	acc := func(i int) string {
		v, per := g.values(i)
		m := g.obj(g.list("accessors")[i])
		return fmt.Sprintf("%s %d %v %s%s", g.typ(i), per, v, canon(m["min"]), canon(m["max"]))
	}
	accs := func(m jmap) {
		for _, k := range sortedKeys(m) {
			fmt.Fprintf(&b, " %s=%s", k, acc(g.toInt(m[k])))
		}
	}
	for i, v := range g.list("meshes") {
		m := g.obj(v)
		fmt.Fprintf(&b, "mesh %d %v %s\n", i, m["name"], canon(m["extras"]))
		for _, p := range g.arr(m, "primitives") {
			pm := g.obj(p)
			fmt.Fprintf(&b, " material %v mode %v", pm["material"], pm["mode"])
			accs(g.obj(pm["attributes"]))
			if pm["indices"] != nil {
				b.WriteString(" indices " + acc(g.toInt(pm["indices"])))
			}
			for _, t := range g.arr(pm, "targets") {
				b.WriteString(" target")
				accs(g.obj(t))
			}
			b.WriteByte('\n')
		}
	}
	for i, v := range g.list("skins") {
		m := g.obj(v)
		fmt.Fprintf(&b, "skin %d %s", i, canon(m["joints"]))
		if m["inverseBindMatrices"] != nil {
			b.WriteString(acc(g.toInt(m["inverseBindMatrices"])))
		}
		b.WriteByte('\n')
	}
	for i, v := range g.list("animations") {
		m := g.obj(v)
		fmt.Fprintf(&b, "animation %d %s\n", i, canon(m["channels"]))
		for _, s := range g.arr(m, "samplers") {
			sm := g.obj(s)
			fmt.Fprintf(&b, " %v %s %s\n", sm["interpolation"], acc(g.toInt(sm["input"])), acc(g.toInt(sm["output"])))
		}
	}
	ext := jmap{}
	for k, v := range g.obj(g.j["extensions"]) {
		if k == "VRM" {
			c := jmap{}
			for f, x := range g.obj(v) {
				if f != "materialProperties" && f != "meta" {
					c[f] = x
				}
			}
			v = c
		}
		ext[k] = v
	}
	b.WriteString(canon(ext))
	return b.String()
}

// material describes a material; textures whose image skip accepts are left out,
// and alpha: so is the alpha mode.
func (g *glb) material(v interface{}, skip func(name string) bool, alpha bool) string {
	var b strings.Builder
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch x := v.(type) {
		case jmap:
			b.WriteByte('{')
			for _, k := range sortedKeys(x) {
				if alpha && (k == "alphaMode" || k == "alphaCutoff") {
					continue
				}
				if strings.HasSuffix(k, "Texture") {
					m := g.obj(x[k])
					name, data := g.image(g.num(m, "index", 0))
					if skip(name) {
						continue
					}
					c := jmap{}
					for f, y := range m {
						if f != "index" {
							c[f] = y
						}
					}
					fmt.Fprintf(&b, "%s: image %s %x %s,", k, name, h64(string(data)), canon(c))
					continue
				}
				b.WriteString(k + ":")
				walk(x[k])
				b.WriteByte(',')
			}
			b.WriteByte('}')
		case []interface{}:
			b.WriteByte('[')
			for _, e := range x {
				walk(e)
				b.WriteByte(',')
			}
			b.WriteByte(']')
		default:
			b.WriteString(canon(v))
		}
	}
	walk(v)
	return b.String()
}

func canon(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}
