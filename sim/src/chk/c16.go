//go:build go1.22

package chk

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"path"
	"reflect"
	"strings"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/unity"
	"github.com/binzume/modelconv/vrm"
	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/binzume/modelconv/zzverif/simk"
	"github.com/qmuntal/gltf"
	"golang.org/x/text/encoding/japanese"
)

// C16: a well-formed file loads, and the document is what the file says.

// bin reads little endian values of a file.
type bin struct {
	b []byte
}

func (r *bin) take(n int) []byte { b := r.b[:n]; r.b = r.b[n:]; return b }
func (r *bin) u8() int           { return int(r.take(1)[0]) }
func (r *bin) u16() int          { return int(binary.LittleEndian.Uint16(r.take(2))) }
func (r *bin) i16() int          { return int(int16(binary.LittleEndian.Uint16(r.take(2)))) }
func (r *bin) u32() int          { return int(binary.LittleEndian.Uint32(r.take(4))) }
func (r *bin) f() float32 {
	return math.Float32frombits(binary.LittleEndian.Uint32(r.take(4)))
}
func (r *bin) v2() geom.Vector2 { return geom.Vector2{X: r.f(), Y: r.f()} }
func (r *bin) v3() geom.Vector3 { return geom.Vector3{X: r.f(), Y: r.f(), Z: r.f()} }
func (r *bin) v4() geom.Vector4 { return geom.Vector4{X: r.f(), Y: r.f(), Z: r.f(), W: r.f()} }
func (r *bin) sjis(n int) string {
	b := r.take(n)
	if i := bytes.IndexByte(b, 0); i >= 0 {
		b = b[:i]
	}
	s, _ := japanese.ShiftJIS.NewDecoder().Bytes(b)
	return string(s)
}

// decodePMD reads a .pmd independently of the repository's parser.
func decodePMD(data []byte) *mmd.Document {
	r := &bin{data}
	d := &mmd.Document{}
	r.take(3)
	r.f()
	d.Name, d.Comment = r.sjis(20), r.sjis(256)
	for n := r.u32(); n > 0; n-- {
		v := &mmd.Vertex{Pos: r.v3(), Normal: r.v3(), UV: r.v2()}
		v.Bones = []int{r.u16(), r.u16()}
		w := float32(r.u8()) / 100
		v.BoneWeights = []float32{w, 1 - w}
		v.EdgeScale = float32(r.u8())
		d.Vertexes = append(d.Vertexes, v)
	}
	for n := r.u32() / 3; n > 0; n-- {
		d.Faces = append(d.Faces, &mmd.Face{Verts: [3]int{r.u16(), r.u16(), r.u16()}})
	}
	for i, n := 0, r.u32(); i < n; i++ {
		m := &mmd.Material{Name: fmt.Sprint("mat", i+1), Color: r.v4(), Specularity: r.f(), Specular: r.v3(), AColor: r.v3(), Toon: r.u8(), EdgeScale: float32(r.u8()), Count: r.u32(), TextureID: -1}
		if t := r.sjis(20); t != "" {
			m.TextureID = len(d.Textures)
			d.Textures = append(d.Textures, strings.SplitN(t, "*", 2)...)
		}
		if m.Color.W < 1 {
			m.Flags = 1
		}
		d.Materials = append(d.Materials, m)
	}
	for n := r.u16(); n > 0; n-- {
		b := &mmd.Bone{Name: r.sjis(20), ParentID: r.i16(), TailID: r.i16()}
		if b.TailID == 0 {
			b.TailID = -1
		}
		r.take(3)
		b.Pos = r.v3()
		d.Bones = append(d.Bones, b)
	}
	for n := r.u16(); n > 0; n-- {
		b := d.Bones[r.u16()]
		b.IK.TargetID = r.u16()
		k := r.u8()
		b.IK.Loop = r.u16()
		r.f()
		for ; k > 0; k-- {
			b.IK.Links = append(b.IK.Links, &mmd.Link{TargetID: r.u16()})
		}
	}
	var base []int
	for i, n := 0, r.u16(); i < n; i++ {
		m := &mmd.Morph{Name: r.sjis(20)}
		k := r.u32()
		m.PanelType = byte(r.u8())
		for ; k > 0; k-- {
			t, o := r.u32(), r.v3()
			if i == 0 {
				base = append(base, t)
			} else {
				m.Vertex = append(m.Vertex, &mmd.MorphVertex{Target: base[t], Offset: o})
			}
		}
		if i > 0 {
			d.Morphs = append(d.Morphs, m)
		}
	}
	return d
}

// decodeVMD reads a .vmd independently of the repository's parser.
func decodeVMD(data []byte) *mmd.Animation {
	r := &bin{data}
	a := &mmd.Animation{}
	r.take(30)
	a.Name = r.sjis(20)
	for n := r.u32(); n > 0; n-- {
		s := &mmd.AnimationBoneSample{Target: r.sjis(15), Frame: r.u32(), Position: r.v3(), Rotation: r.v4()}
		copy(s.Params[:], r.take(64))
		a.Bone = append(a.Bone, s)
	}
	for n := r.u32(); n > 0; n-- {
		a.Morph = append(a.Morph, &mmd.AnimationMorphSample{Target: r.sjis(15), Frame: r.u32(), Value: r.f()})
	}
	return a
}

// unzeroed leaves out what stands for nothing in a glTF document.
func subset(at string, want, got interface{}) string {
	switch w := want.(type) {
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok {
			if len(w) == 0 {
				return ""
			}
			return fmt.Sprintf("%s is %v", at, got)
		}
		for _, k := range sortedKeys(w) {
			if g[k] == nil && isDefault(k, w[k]) {
				continue
			}
			if m := subset(at+"."+k, w[k], g[k]); m != "" {
				return m
			}
		}
		return ""
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok && len(w) == 0 {
			return ""
		}
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s: %d elements, want %d", at, len(g), len(w))
		}
		for i := range w {
			if m := subset(fmt.Sprintf("%s[%d]", at, i), w[i], g[i]); m != "" {
				return m
			}
		}
		return ""
	case float64:
		if g, ok := got.(float64); !ok || math.Abs(g-w) > 1e-6*math.Max(1, math.Abs(w)) {
			return fmt.Sprintf("%s is %v, want %v", at, got, want)
		}
		return ""
	}
	if !reflect.DeepEqual(want, got) {
		return fmt.Sprintf("%s is %v, want %v", at, got, want)
	}
	return ""
}

// isDefault tells whether a value may be left out of a glTF file.
func isDefault(k string, v interface{}) bool {
	switch x := v.(type) {
	case float64:
		switch k {
		case "metallicFactor", "roughnessFactor":
			return x == 1
		case "alphaCutoff":
			return x == 0.5
		case "wrapS", "wrapT":
			return x == 10497
		}
		return x == 0 && k != "alphaCutoff" && k != "mesh" && k != "skin" && k != "material" && k != "bufferView"
	case bool:
		return !x
	case string:
		return x == "" || x == "OPAQUE" || x == "LINEAR"
	case []interface{}:
		if len(x) == 0 {
			return true
		}
		for i, e := range x {
			f, ok := e.(float64)
			if !ok {
				return false
			}
			def := 0.0
			if k == "scale" || k == "baseColorFactor" || k == "rotation" && i == 3 {
				def = 1
			}
			if f != def {
				return false
			}
		}
		return true
	case map[string]interface{}:
		return len(x) == 0
	}
	return false
}

// gltfSays compares a loaded document with the file.
func gltfSays(doc *gltf.Document, w *gen.World, file string) string {
	g, err := readGLTF(file, func(p string) ([]byte, bool) { b, ok := w.Files[p]; return b, ok })
	if err != nil {
		return "" // not a file that we understand
	}
	if len(doc.Buffers) != len(g.bufs) {
		return fmt.Sprintf("%d buffers, want %d", len(doc.Buffers), len(g.bufs))
	}
	for i, b := range doc.Buffers {
		if len(b.Data) < len(g.bufs[i]) || !bytes.Equal(b.Data[:len(g.bufs[i])], g.bufs[i]) {
			return fmt.Sprintf("buffer %d is not what the file holds (%d bytes, want %d)", i, len(b.Data), len(g.bufs[i]))
		}
	}
	var want, got map[string]interface{}
	js, _ := json.Marshal(g.j)
	json.Unmarshal(js, &want)
	delete(want, "buffers")
	js, err = json.Marshal(doc)
	if err != nil {
		return "the loaded document cannot be encoded: " + err.Error()
	}
	json.Unmarshal(js, &got)
	return subset("document", want, got)
}

// unitySays compares a loaded scene with its description.
func unitySays(s *unity.Scene, w *gen.World) string {
	byGUID := map[string]*gen.UAsset{}
	for _, a := range w.Assets {
		byGUID[a.GUID] = a
	}
	if m := sceneSays(s, w.Assets[0].Scene, byGUID, nil, 0); m != "" {
		return m
	}
	return ""
}

func sceneSays(s *unity.Scene, ir *gen.UScene, byGUID map[string]*gen.UAsset, mod *gen.UPrefab, depth int) string {
	if depth > 8 {
		return ""
	}
	roots := 0
	if mod != nil {
		ir = ir.With(mod.Mods)
	}
	for i, o := range ir.Objs {
		name, pos, rot, sc := o.Name, o.Pos, o.Rot, o.Scale
		g, ok := s.Elements[o.GO].(*unity.GameObject)
		if !ok {
			return fmt.Sprintf("object %d (%s) is missing", o.GO, name)
		}
		if g.Name != name || (g.IsActive != 0) != o.Active {
			return fmt.Sprintf("object %d is %q active %d, want %q active %v", o.GO, g.Name, g.IsActive, name, o.Active)
		}
		if len(g.Components) != len(o.Comps)+1 {
			return fmt.Sprintf("object %d has %d components, want %d", o.GO, len(g.Components), len(o.Comps)+1)
		}
		t, ok := s.Elements[o.TR].(*unity.Transform)
		if !ok || g.GetTransform() != t || t.GetGameObject() != g {
			return fmt.Sprintf("object %d (%s) has not its transform", o.GO, name)
		}
		if t.LocalPosition != (geom.Vector3{X: pos[0], Y: pos[1], Z: pos[2]}) || t.LocalRotation != (geom.Vector4{X: rot[0], Y: rot[1], Z: rot[2], W: rot[3]}) || t.LocalScale != (geom.Vector3{X: sc[0], Y: sc[1], Z: sc[2]}) {
			return fmt.Sprintf("the transform of %s is %v %v %v, want %v %v %v", name, t.LocalPosition, t.LocalRotation, t.LocalScale, pos, rot, sc)
		}
		if o.Father < 0 {
			if mod == nil || i > 0 {
				roots++
			} else if mod.Parent == 0 {
				roots++
			}
		} else if t.GetParent() != s.Elements[ir.Objs[o.Father].TR] {
			return fmt.Sprintf("%s has another parent", name)
		}
		kids := t.GetChildren()
		var added []gen.UPrefab
		for _, p := range ir.Prefabs {
			if p.Parent == o.TR {
				added = append(added, p)
			}
		}
		if len(kids) != len(o.Children)+len(added) {
			return fmt.Sprintf("%s has %d children, want %d", name, len(kids), len(o.Children)+len(added))
		}
		for k, c := range o.Children {
			if kids[k] != s.Elements[ir.Objs[c].TR] {
				return fmt.Sprintf("child %d of %s is another object", k, name)
			}
		}
		for k, p := range added {
			pi, _ := s.Elements[p.ID].(*unity.PrefabInstance)
			if pi == nil || pi.PrefabScene == nil || kids[len(o.Children)+k] != pi.PrefabScene.Elements[120] {
				return fmt.Sprintf("prefab instance %d below %s is missing", p.ID, name)
			}
		}
		for _, c := range o.Comps {
			if m := compSays(s, g, c); m != "" {
				return fmt.Sprintf("%s: component %d: %s", name, c.ID, m)
			}
		}
	}
	for _, p := range ir.Prefabs {
		pi, _ := s.Elements[p.ID].(*unity.PrefabInstance)
		if pi == nil || pi.PrefabScene == nil {
			return fmt.Sprintf("prefab instance %d is missing", p.ID)
		}
		p := p
		if m := sceneSays(pi.PrefabScene, byGUID[p.GUID].Scene, byGUID, &p, depth+1); m != "" {
			return fmt.Sprintf("prefab instance %d: %s", p.ID, m)
		}
		if p.Parent == 0 {
			roots++
		}
	}
	if mod == nil && len(s.Objects) != roots {
		return fmt.Sprintf("%d root objects, want %d", len(s.Objects), roots)
	}
	return ""
}

func compSays(s *unity.Scene, g *unity.GameObject, c gen.UComp) string {
	el := s.Elements[c.ID]
	switch c.Type {
	case 33:
		m, ok := el.(*unity.MeshFilter)
		if !ok || m.Mesh == nil || m.Mesh.FileID != c.MeshID || m.Mesh.GUID != c.Mesh {
			return fmt.Sprintf("is %T, want a mesh filter of %d %s", el, c.MeshID, c.Mesh)
		}
	case 23:
		m, ok := el.(*unity.MeshRenderer)
		if !ok || len(m.Materials) != len(c.Mats) || (m.Enabled != 0) != c.Enabled {
			return fmt.Sprintf("is %T %v, want a mesh renderer with %d materials, enabled %v", el, el, len(c.Mats), c.Enabled)
		}
		for i, r := range m.Materials {
			if r == nil || r.GUID != c.Mats[i] {
				return fmt.Sprintf("material %d is %v, want %s", i, r, c.Mats[i])
			}
		}
	case 108:
		l, ok := el.(*unity.Light)
		if w := c.Light; !ok || *w != (gen.ULight{Type: l.Type, Color: l.Color.Array(), Intensity: l.Intensity, Range: l.Range, Angle: l.SpotAngle, Inner: l.InnerSpotAngle}) {
			return fmt.Sprintf("is %T %v, want the light %v", el, el, *c.Light)
		}
	case 65:
		b, ok := el.(*unity.BoxCollider)
		if !ok || b.Size != (geom.Vector3{X: 1, Y: 2, Z: 1}) || b.Center != (geom.Vector3{Y: 0.5}) {
			return fmt.Sprintf("is %T, want a box collider", el)
		}
	case 135:
		b, ok := el.(*unity.SphereCollider)
		if !ok || b.Radius != 0.5 {
			return fmt.Sprintf("is %T, want a sphere collider", el)
		}
	case 136:
		b, ok := el.(*unity.CapsuleCollider)
		if !ok || b.Radius != 0.5 || b.Height != 3 || b.Direction != 1 {
			return fmt.Sprintf("is %T, want a capsule collider", el)
		}
	case 64:
		b, ok := el.(*unity.MeshCollider)
		if !ok || b.Mesh == nil || b.Mesh.FileID != 10202 {
			return fmt.Sprintf("is %T, want a mesh collider", el)
		}
	case 54:
		b, ok := el.(*unity.Rigidbody)
		if !ok || b.Mass != 2 || b.Drag != 0.5 || b.AngularDrag != 0.05 || b.IsKinematic != 0 || b.UseGravity != 1 {
			return fmt.Sprintf("is %T, want a rigid body", el)
		}
	case 114:
		if b, ok := el.(*unity.MonoBehaviour); !ok || b.Enabled != 1 || b.Script == nil || b.Script.FileID != 11500000 {
			return fmt.Sprintf("is %T, want a behaviour", el)
		}
	}
	if c, ok := el.(unity.Component); ok && c.GetGameObject() != g {
		return "belongs to another object"
	}
	return ""
}

func matSays(as unity.Assets, w *gen.World) string {
	for _, a := range w.Assets {
		if x := as.GetAsset(a.GUID); x == nil || x.Path != a.Path {
			return fmt.Sprintf("asset %s (%s) is missing", a.GUID, a.Path)
		}
		if x := as.GetAssetByPath(a.Path); x == nil || x.GUID != a.GUID {
			return fmt.Sprintf("asset %s is not found by its path", a.Path)
		}
		if a.Mat == nil {
			continue
		}
		m, err := unity.LoadMaterial(as, a.GUID)
		if err != nil || m == nil {
			return fmt.Sprintf("material %s: %v", a.Path, err)
		}
		tex := func(name, want string) string {
			t := m.GetTextureProperty(name)
			if t == nil || t.Texture == nil || t.Texture.GUID != want || name == "_MainTex" && (t.Scale.X != a.Mat.UV[0] || t.Scale.Y != a.Mat.UV[1]) {
				return fmt.Sprintf("material %s: %s is %v, want %q", a.Path, name, t, want)
			}
			return ""
		}
		if s := tex("_MainTex", a.Mat.Main) + tex("_BumpMap", a.Mat.Bump); s != "" {
			return s
		}
		c, e := m.GetColorProperty("_Color"), m.GetColorProperty("_EmissionColor")
		if m.Name != a.Mat.Name || c == nil || c.Array() != a.Mat.Color || e == nil || *e != (unity.Color{R: a.Mat.Emission[0], G: a.Mat.Emission[1], B: a.Mat.Emission[2], A: 1}) {
			return fmt.Sprintf("material %s: %q %v %v", a.Path, m.Name, c, e)
		}
		if f, ok := m.GetFloatProperty("_Cutoff"); !ok || f != 0.5 {
			return fmt.Sprintf("material %s: _Cutoff %v", a.Path, f)
		}
	}
	return ""
}

// says compares a document with what its file says; empty if they agree.
func says(doc interface{}, w *gen.World, kind, file string) string {
	diff := func(want, got string) string {
		if want == got {
			return ""
		}
		return Diff(want, got)
	}
	switch d := doc.(type) {
	case *mmd.Document:
		if kind == "pmd" {
			want := decodePMD(w.Files[file])
			c := *d
			c.Header = nil
			return diff(Dump(want, false), Dump(&c, false))
		}
		return diff(content(w.PMX), content(d))
	case *mmd.Animation:
		return diff(Dump(decodeVMD(w.Files[file]), false), Dump(d, false))
	case *mqo.Document:
		if kind == "mqx" {
			return diff(Dump(w.MQO.Plugins, false), Dump(d.Plugins, false))
		}
		return diff(content(w.MQO), content(d))
	case *mqo.MQXDoc:
		return diff(Dump(w.MQO.Plugins, false), Dump(d.Plugins, false))
	case *fbx.Document:
		var a, b strings.Builder
		for _, n := range w.FBX.Children {
			if n.Name != "FileId" {
				fbxContent(&a, n, 0)
			}
		}
		for _, n := range d.RawNode.Children {
			if n.Name != "FileId" {
				fbxContent(&b, n, 0)
			}
		}
		return diff(a.String(), b.String())
	case *gltf.Document:
		return gltfSays(d, w, file)
	case *vrm.Document:
		if d.Extensions["VRM"] == nil {
			return "no VRM data"
		}
		return gltfSays((*gltf.Document)(d), w, file)
	case *unity.Scene:
		return unitySays(d, w)
	}
	return fmt.Sprintf("a document of type %T", doc)
}

func setup16(s *Spec, st *Stats) interface{} {
	w, kind, file, scene := libWorld(s)
	return &libEnv{w: w, kind: kind, file: file, scene: scene, disk: newDisk(w)}
}

func lib16(name string, weight int, kinds []string) *Scenario {
	return &Scenario{Prop: "C16", Name: name, Weight: weight, Kinds: kinds, Real: "library loaders",
		Setup: setup16,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			ts := []*Trial{{}}
			if s.Scen == "big" {
				return append(ts, &Trial{Chunk: &simk.Chunking{Mode: "rand", Max: 4096, Seed: r.U64()}, MapSeed: r.U64()})
			}
			for i := 0; i < n/6; i++ {
				ts = append(ts, &Trial{Chunk: chunking(r), MapSeed: r.U64(), DirSeed: r.U64(), NameSeed: r.U64()})
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*libEnv)
			d := e.disk
			if e.kind == "pkg" {
				d = d.Clone()
			}
			p := newProc(d)
			t.apply(p)
			var doc interface{}
			msg := ""
			err := inProc(p, func() error {
				var err error
				doc, err = loadFn(e.kind, e.file, e.scene)
				if err == nil && doc != nil {
					msg = says(doc, e.w, e.kind, e.file)
				}
				return err
			})
			st.proc(p)
			st.state(fmt.Sprint(e.w.Files[e.file]), fmt.Sprint(p.NOps))
			if err != nil || doc == nil {
				return fmt.Sprintf("%s: a well-formed file does not load: %v", path.Base(e.file), err)
			}
			if msg != "" {
				return fmt.Sprintf("%s: the document is not what the file says: %s", path.Base(e.file), msg)
			}
			st.out("the document is what the file says")
			return ""
		}}
}

func init() {
	register(lib16("lib", 6, libKinds))
	register(lib16("big", 1, []string{"pmx", "pmd", "mqo", "gltfe", "pmx", "pmd", "mqox", "glb", "pmx", "gltf", "mqoz"}))
	register(&Scenario{Prop: "C16", Name: "assets", Weight: 2, Kinds: []string{"unity", "pkg"}, Real: "package unity",
		Setup: setup16,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			ts := []*Trial{{}}
			for i := 0; i < n/6; i++ {
				ts = append(ts, &Trial{Chunk: chunking(r), MapSeed: r.U64(), DirSeed: r.U64(), NameSeed: r.U64()})
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*libEnv)
			p := newProc(e.disk.Clone())
			t.apply(p)
			msg := ""
			err := inProc(p, func() error {
				var as unity.Assets
				var err error
				if e.kind == "pkg" {
					as, err = unity.OpenPackage(e.file)
				} else {
					as, err = unity.OpenAssets(e.file)
				}
				if err != nil {
					return err
				}
				defer as.Close()
				if msg = matSays(as, e.w); msg == "" {
					for _, a := range e.w.Assets {
						if a.Dir {
							continue
						}
						f, err := as.Open(a.Path)
						if err != nil {
							return err
						}
						var b bytes.Buffer
						_, err = b.ReadFrom(f)
						f.Close()
						if err != nil {
							return err
						}
						if !bytes.Equal(b.Bytes(), a.Data) {
							msg = fmt.Sprintf("%s has other content (%d bytes, want %d)", a.Path, b.Len(), len(a.Data))
						}
					}
				}
				return nil
			})
			st.proc(p)
			st.state(fmt.Sprint(len(e.w.Assets)), fmt.Sprint(p.NOps))
			if err != nil {
				return fmt.Sprintf("%s: a well-formed project or package does not load: %v", path.Base(e.file), err)
			}
			if msg != "" {
				return fmt.Sprintf("%s: %s", path.Base(e.file), msg)
			}
			st.out("the assets are what the files say")
			return ""
		}})
	register(&Scenario{Prop: "C16", Name: "reader", Weight: 2, Kinds: readerKinds, Real: "parsers of all formats, given a reader",
		Setup: setup16,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			var ts []*Trial
			for i := 0; i < 1+n/6; i++ {
				ts = append(ts, &Trial{N: []int64{int64(r.In(0, 4)), int64(r.U64() >> 1), -1}})
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*libEnv)
			l := parseOdd(e, t, st)
			if l.Err != nil || l.Doc == nil {
				return fmt.Sprintf("%s: a well-formed file is not parsed: %v", path.Base(e.file), l.Err)
			}
			if msg := says(l.Doc, e.w, e.kind, e.file); msg != "" {
				return fmt.Sprintf("%s: the document is not what the file says: %s", path.Base(e.file), msg)
			}
			st.out("the document is what the file says")
			return ""
		}})
}
