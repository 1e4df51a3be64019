//go:build go1.22

package gen

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"fmt"
	"strings"

	"github.com/binzume/modelconv/fbx"
)

// UAsset is one asset of a Unity project.
type UAsset struct {
	GUID, Path string
	Data, Meta []byte
	Dir        bool
	Scene      *UScene // what a scene or prefab says
	Mat        *UMat   // what a material says
	FBX        *fbx.Node
	Recycle    map[int64]string // names of the models of FBX
}

// UMat is a material.
type UMat struct {
	Name     string
	Main     string // GUID of the texture, "": none
	Bump     string
	Color    [4]float32
	Emission [3]float32
	UV       [2]float32 // scale
}

// UComp is a component of an object.
type UComp struct {
	ID      int64
	Type    int
	MeshID  int64
	Mesh    string   // GUID
	Mats    []string // GUIDs
	Light   *ULight
	Enabled bool
}

// ULight is a light.
type ULight struct {
	Type                           int
	Color                          [4]float32
	Intensity, Range, Angle, Inner float32
}

// UObj is a game object.
type UObj struct {
	GO, TR   int64
	Name     string
	Active   bool
	Pos      [3]float32
	Rot      [4]float32
	Scale    [3]float32
	Father   int // -1: none
	Children []int
	Comps    []UComp
}

// UPrefab is an instance of a prefab.
type UPrefab struct {
	ID, Parent int64
	Stripped   int64 // its transform in the scene, 0: none
	GUID       string
	Mods       []UMod
}

// UMod is a change of an instance.
type UMod struct {
	Target int64
	Path   string
	N      float32
	S      string // a name, or the GUID of a material
}

// UScene is a scene or a prefab.
type UScene struct {
	Objs    []UObj
	Prefabs []UPrefab
}

// With is the scene with the changes of an instance.
func (s *UScene) With(mods []UMod) *UScene {
	r := *s
	r.Objs = append([]UObj{}, s.Objs...)
	axis := func(p string) int { return strings.Index("xyzw", p[len(p)-1:]) }
	for i := range r.Objs {
		o := &r.Objs[i]
		o.Comps = append([]UComp{}, o.Comps...)
		for _, m := range mods {
			switch {
			case m.Target == o.GO && m.Path == "m_Name":
				o.Name = m.S
			case m.Target == o.GO && m.Path == "m_IsActive":
				o.Active = m.N != 0
			case m.Target == o.TR && strings.HasPrefix(m.Path, "m_LocalPosition"):
				o.Pos[axis(m.Path)] = m.N
			case m.Target == o.TR && strings.HasPrefix(m.Path, "m_LocalRotation"):
				o.Rot[axis(m.Path)] = m.N
			case m.Target == o.TR && strings.HasPrefix(m.Path, "m_LocalScale"):
				o.Scale[axis(m.Path)] = m.N
			}
			for k := range o.Comps {
				c := &o.Comps[k]
				if m.Target != c.ID {
					continue
				}
				switch m.Path {
				case "m_Enabled":
					c.Enabled = m.N != 0
				case "m_Materials.Array.data[0]":
					c.Mats = append([]string{m.S}, c.Mats[1:]...)
				}
			}
		}
	}
	return &r
}

// UnityOpt selects what a project contains.
type UnityOpt struct {
	Scenes   int
	NoFBX    bool
	Cyclic   bool // prefabs and transforms that contain each other
	Textures int
}

func guid(r *R) string { return fmt.Sprintf("%016x%016x", r.U64(), r.U64()) }

const yamlHead = "%YAML 1.1\n%TAG !u! tag:unity3d.com,2011:\n"
const builtin = "0000000000000000e000000000000000"

func ref(id int64, g string) string {
	if g == "" {
		return fmt.Sprintf("{fileID: %d}", id)
	}
	return fmt.Sprintf("{fileID: %d, guid: %s, type: 3}", id, g)
}

func uname(r *R, i int) string {
	return r.Pick("Cube", "Sphere obj", "Root", "部屋", "Light", "it's #", "a: b") + fmt.Sprint(i)
}

// yamlStr is a string as Unity writes it.
func yamlStr(s string) string {
	if strings.ContainsAny(s, ":#'") {
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	return s
}

// urot makes a rotation.
func urot(r *R) [4]float32 {
	const h = 0.70710677
	return [][4]float32{{0, 0, 0, 1}, {0, 0, 0, 1}, {0, h, 0, h}, {0.5, 0.5, 0.5, 0.5}, {0.6, 0, 0, 0.8}, {0, 0, -0.6, 0.8}, {0, 1, 0, 0}, {-0.5, 0.5, -0.5, 0.5}, {0.48, -0.36, 0, 0.8}}[r.N(9)]
}

type uscene struct {
	strings.Builder
	next int64
}

func (s *uscene) id() int64 { s.next += 10; return s.next }

type uobj struct {
	go_, tr  int64
	father   int
	children []int
}

// unityScene writes a scene or a prefab.
func unityScene(r *R, size int, mats, fbxs, prefabs []string, recycle []int64, root bool, cyclic bool, byGUID func(string) *UScene) (string, *UScene) {
	s := &uscene{next: 100}
	ir := &UScene{}
	s.WriteString(yamlHead)
	n := r.In(1, 1+size)
	objs := make([]uobj, n)
	for i := range objs {
		objs[i].go_, objs[i].tr, objs[i].father = s.id(), s.id(), -1
		if i > 0 && (root || r.P(60)) {
			f := r.N(i)
			objs[i].father = f
			objs[f].children = append(objs[f].children, i)
		}
	}
	if cyclic && n > 1 && r.P(70) {
		// a transform below itself
		a, b := r.N(n), r.N(n)
		objs[a].children = append(objs[a].children, b)
	}
	below := map[int64][]int64{} // transform -> transforms of instances
	list := r.P(60)
	for k := r.N(3); k > 0 && len(prefabs) > 0; k-- {
		p := UPrefab{GUID: prefabs[r.N(len(prefabs))], ID: s.id()}
		if root || r.P(50) {
			p.Parent = objs[r.N(n)].tr
			if list {
				p.Stripped = s.id()
				below[p.Parent] = append(below[p.Parent], p.Stripped)
			}
		}
		if r.P(90) {
			p.Mods = append(p.Mods, UMod{Target: 110, Path: "m_Name", S: fmt.Sprintf("Renamed%d", k)}, UMod{Target: 120, Path: "m_LocalPosition.x", N: float32(r.N(9))})
		}
		src := byGUID(p.GUID)
		if src != nil {
			for i := r.N(3); i > 0; i-- {
				o := src.Objs[r.N(len(src.Objs))]
				m := UMod{Target: o.TR, N: r.dec(2)}
				switch r.N(6) {
				case 0:
					m.Path = "m_LocalPosition." + r.Pick("x", "y", "z")
				case 1:
					q := urot(r)
					for c := range q {
						p.Mods = append(p.Mods, UMod{Target: o.TR, Path: "m_LocalRotation." + "xyzw"[c:c+1], N: q[c]})
					}
					continue
				case 2:
					m.Path, m.N = "m_LocalScale."+r.Pick("x", "y", "z"), float32(r.In(1, 3))
				case 3:
					m = UMod{Target: o.GO, Path: "m_IsActive", N: float32(r.N(2))}
				case 4:
					m = UMod{Target: o.GO, Path: "m_Name", S: uname(r, 50+k)}
				case 5:
					m.Target = 0
					for _, c := range o.Comps {
						if c.Type != 23 {
							continue
						}
						m = UMod{Target: c.ID, Path: "m_Enabled", N: float32(r.N(2))}
						if len(mats) > 0 && r.P(60) {
							m = UMod{Target: c.ID, Path: "m_Materials.Array.data[0]", S: mats[r.N(len(mats))]}
						}
					}
				}
				if m.Target != 0 {
					p.Mods = append(p.Mods, m)
				}
			}
		}
		ir.Prefabs = append(ir.Prefabs, p)
	}
	for i, o := range objs {
		type comp struct {
			id  int64
			typ int
			txt string
		}
		var cs []comp
		io := UObj{GO: o.go_, TR: o.tr, Father: o.father, Children: o.children}
		add := func(typ int, name, body string) {
			id := s.id()
			io.Comps = append(io.Comps, UComp{ID: id, Type: typ})
			cs = append(cs, comp{id, typ, name + ":\n  m_ObjectHideFlags: 0\n  m_GameObject: " + ref(o.go_, "") + "\n" + body})
		}
		f := int64(0)
		if o.father >= 0 {
			f = objs[o.father].tr
		}
		ch := " []\n"
		if len(o.children)+len(below[o.tr]) > 0 {
			ch = "\n"
			for _, c := range o.children {
				ch += "  - " + ref(objs[c].tr, "") + "\n"
			}
			for _, c := range below[o.tr] {
				ch += "  - " + ref(c, "") + "\n"
			}
		}
		io.Rot = urot(r)
		io.Pos = [3]float32{r.dec(2), r.dec(2), r.dec(2)}
		io.Scale = [3]float32{1, float32(r.In(1, 3)), 1}
		if r.P(40) {
			io.Scale = [3]float32{float32(r.In(1, 3)), 0.5, float32(r.In(1, 4)) / 4}
		}
		cs = append(cs, comp{o.tr, 4, fmt.Sprintf("Transform:\n  m_ObjectHideFlags: 0\n  m_GameObject: %s\n  m_LocalRotation: {x: %v, y: %v, z: %v, w: %v}\n  m_LocalPosition: {x: %v, y: %v, z: %v}\n  m_LocalScale: {x: %v, y: %v, z: %v}\n  m_Children:%s  m_Father: %s\n  m_RootOrder: %d\n",
			ref(o.go_, ""), io.Rot[0], io.Rot[1], io.Rot[2], io.Rot[3], io.Pos[0], io.Pos[1], io.Pos[2], io.Scale[0], io.Scale[1], io.Scale[2], ch, ref(f, ""), i)})
		if r.P(70) {
			mid, mg := int64(r.PickN(10202, 10202, 10209, 10210, 10208, 10206, 10207)), builtin
			mesh := fmt.Sprintf("{fileID: %d, guid: %s, type: 0}", mid, builtin)
			if len(fbxs) > 0 && (r.P(40) || r.Neat && r.P(30)) {
				mid, mg = recycle[r.N(len(recycle))], fbxs[r.N(len(fbxs))]
				mesh = ref(mid, mg)
			}
			add(33, "MeshFilter", "  m_Mesh: "+mesh+"\n")
			io.Comps[len(io.Comps)-1].MeshID, io.Comps[len(io.Comps)-1].Mesh = mid, mg
			var mgs []string
			en := r.PickN(1, 1, 1, 1, 0)
			m := fmt.Sprintf("  m_Enabled: %d\n  m_Materials:\n", en)
			for k := r.In(1, 3); k > 0; k-- {
				g := "0000000000000000f000000000000000"
				if len(mats) > 0 && r.P(85) {
					g = mats[r.N(len(mats))]
				}
				m += "  - {fileID: 2100000, guid: " + g + ", type: 2}\n"
				mgs = append(mgs, g)
			}
			add(23, "MeshRenderer", m)
			io.Comps[len(io.Comps)-1].Mats, io.Comps[len(io.Comps)-1].Enabled = mgs, en == 1
		}
		if r.P(15) {
			l := &ULight{r.N(3), [4]float32{1, 0.5, float32(r.In(0, 4)) / 4, 1}, float32(r.In(1, 8)) / 2, float32(r.In(1, 20)), float32(r.In(20, 90)), float32(r.In(1, 19))}
			add(108, "Light", fmt.Sprintf("  m_Type: %d\n  m_Color: {r: %v, g: %v, b: %v, a: %v}\n  m_Intensity: %v\n  m_Range: %v\n  m_SpotAngle: %v\n  m_InnerSpotAngle: %v\n", l.Type, l.Color[0], l.Color[1], l.Color[2], l.Color[3], l.Intensity, l.Range, l.Angle, l.Inner))
			io.Comps[len(io.Comps)-1].Light = l
		}
		if r.P(15) {
			add(65, "BoxCollider", "  m_IsTrigger: 0\n  m_Size: {x: 1, y: 2, z: 1}\n  m_Center: {x: 0, y: 0.5, z: 0}\n")
		}
		if r.P(10) {
			add(135, "SphereCollider", "  m_Radius: 0.5\n  m_Center: {x: 0, y: 0, z: 0}\n")
		}
		if r.P(10) {
			add(136, "CapsuleCollider", "  m_Radius: 0.5\n  m_Height: 3\n  m_Direction: 1\n  m_Center: {x: 0, y: 0, z: 0}\n")
		}
		if r.P(8) {
			add(64, "MeshCollider", "  m_Enabled: 1\n  m_Mesh: {fileID: 10202, guid: "+builtin+", type: 0}\n")
		}
		if r.P(10) {
			add(54, "Rigidbody", "  m_Mass: 2\n  m_Drag: 0.5\n  m_AngularDrag: 0.05\n  m_UseGravity: 1\n  m_IsKinematic: 0\n")
		}
		if r.P(10) {
			add(114, "MonoBehaviour", "  m_Enabled: 1\n  m_Script: {fileID: 11500000, guid: 0123456789abcdef0123456789abcdef, type: 3}\n  someField: 3\n")
		}
		fmt.Fprintf(s, "--- !u!1 &%d\nGameObject:\n  m_ObjectHideFlags: 0\n  serializedVersion: 6\n  m_Component:\n", o.go_)
		for _, c := range cs {
			fmt.Fprintf(s, "  - component: %s\n", ref(c.id, ""))
		}
		active := 0
		io.Name = uname(r, i)
		active = r.PickN(1, 1, 1, 0)
		io.Active = active == 1
		fmt.Fprintf(s, "  m_Layer: 0\n  m_Name: %s\n  m_TagString: Untagged\n  m_IsActive: %d\n", yamlStr(io.Name), active)
		ir.Objs = append(ir.Objs, io)
		for _, c := range cs {
			fmt.Fprintf(s, "--- !u!%d &%d\n%s", c.typ, c.id, c.txt)
		}
	}
	for _, p := range ir.Prefabs {
		fmt.Fprintf(s, "--- !u!1001 &%d\nPrefabInstance:\n  m_ObjectHideFlags: 0\n  m_Modification:\n    m_TransformParent: %s\n    m_Modifications:", p.ID, ref(p.Parent, ""))
		if len(p.Mods) == 0 {
			s.WriteString(" []")
		}
		s.WriteString("\n")
		for _, m := range p.Mods {
			v, or := fmt.Sprint(m.N), "{fileID: 0}"
			if m.Path == "m_Name" {
				v = yamlStr(m.S)
			} else if m.S != "" {
				v, or = "", "{fileID: 2100000, guid: "+m.S+", type: 2}"
			}
			fmt.Fprintf(s, "    - target: %s\n      propertyPath: %s\n      value: %v\n      objectReference: %s\n", ref(m.Target, p.GUID), m.Path, v, or)
		}
		fmt.Fprintf(s, "    m_RemovedComponents: []\n  m_SourcePrefab: %s\n", ref(100100000, p.GUID))
		if p.Stripped != 0 {
			fmt.Fprintf(s, "--- !u!4 &%d stripped\nTransform:\n  m_CorrespondingSourceObject: %s\n  m_PrefabInstance: %s\n  m_PrefabAsset: {fileID: 0}\n", p.Stripped, ref(120, p.GUID), ref(p.ID, ""))
		}
	}
	if r.P(20) {
		fmt.Fprintf(s, "--- !u!104 &%d\nRenderSettings:\n  m_Fog: 0\n", s.id())
	}
	return s.String(), ir
}

func rgba(c ...float32) string {
	return fmt.Sprintf("{r: %v, g: %v, b: %v, a: %v}", c[0], c[1], c[2], c[3])
}

// flatModels lists the models at the top that have a mesh and nothing below.
func flatModels(root *fbx.Node) map[string]bool {
	kind := map[int64]string{}
	name := map[int64]string{}
	for _, n := range root.FindChild("Objects").Children {
		id := n.Attributes[0].Value.(int64)
		kind[id] = n.Name
		if s, ok := n.Attributes[1].Value.(string); ok {
			name[id] = strings.SplitN(s, "\x00", 2)[0]
		}
	}
	top, mesh, bad := map[int64]bool{}, map[int64]int64{}, map[int64]bool{}
	for _, c := range root.FindChild("Connections").Children {
		k, p := c.Attributes[1].Value.(int64), c.Attributes[2].Value.(int64)
		switch {
		case kind[k] == "Model" && p == 0:
			top[k] = true
		case kind[k] == "Model":
			bad[p], bad[k] = true, true
		case kind[k] == "Geometry":
			mesh[p] = k
		case kind[k] == "Deformer":
			bad[p] = true
		}
	}
	r := map[string]bool{}
	for m, g := range mesh {
		if top[m] && !bad[m] && !bad[g] {
			r[name[m]] = true
		}
	}
	return r
}

// Unity makes the assets of a project. The first asset is the main scene.
func Unity(r *R, size int, o UnityOpt) []*UAsset {
	var as []*UAsset
	meta := func(g, body string) []byte { return []byte("fileFormatVersion: 2\nguid: " + g + "\n" + body) }
	var mats, fbxs, prefabs, texs []string
	for i := 0; i < o.Textures; i++ {
		g := guid(r)
		name := "Assets/Tex/" + r.Pick("tex", "壁", "a b") + fmt.Sprint(i) + "." + r.Pick("png", "png", "jpg", "bmp", "tga")
		as = append(as, &UAsset{GUID: g, Path: name, Data: Texture(r, name), Meta: meta(g, "TextureImporter:\n  serializedVersion: 11\n")})
		texs = append(texs, g)
	}
	if len(texs) > 0 {
		g := guid(r)
		as = append(as, &UAsset{GUID: g, Path: "Assets/Tex", Dir: true, Meta: meta(g, "folderAsset: yes\n")})
	}
	for i := r.In(1, 1+size/2); i > 0; i-- {
		g := guid(r)
		um := &UMat{Name: fmt.Sprint("Mat", i)}
		t := "{fileID: 0}"
		if len(texs) > 0 && r.P(80) {
			um.Main = texs[r.N(len(texs))]
			t = "{fileID: 2800000, guid: " + um.Main + ", type: 3}"
		}
		b := "{fileID: 0}"
		if len(texs) > 0 && r.P(30) {
			um.Bump = texs[r.N(len(texs))]
			b = "{fileID: 2800000, guid: " + um.Bump + ", type: 3}"
		}
		um.Color = [4]float32{0.5, 1, float32(r.In(0, 4)) / 4, float32(r.PickN(1, 1, 2)) / 2}
		um.Emission = [3]float32{float32(r.N(2)) / 4, 0, float32(r.N(3))}
		if r.P(50) {
			um.Emission = [3]float32{}
		}
		um.UV = [2]float32{1, float32(r.In(1, 3))}
		if r.P(40) {
			um.UV = [2]float32{0.5, 1.5}
		}
		body := yamlHead + "--- !u!21 &2100000\nMaterial:\n  serializedVersion: 6\n  m_Name: Mat" + fmt.Sprint(i) + "\n  m_Shader: {fileID: 46, guid: 0000000000000000f000000000000000, type: 0}\n  stringTagMap: {}\n  m_SavedProperties:\n    serializedVersion: 3\n    m_TexEnvs:\n" +
			"    - _BumpMap:\n        m_Texture: " + b + "\n        m_Scale: {x: 1, y: 1}\n        m_Offset: {x: 0, y: 0}\n" +
			"    - _MainTex:\n        m_Texture: " + t + "\n        m_Scale: {x: " + fmt.Sprint(um.UV[0]) + ", y: " + fmt.Sprint(um.UV[1]) + "}\n        m_Offset: {x: 0, y: 0}\n" +
			"    m_Floats:\n    - _Cutoff: 0.5\n    m_Colors:\n    - _Color: " + rgba(um.Color[:]...) + "\n    - _EmissionColor: " + rgba(um.Emission[0], um.Emission[1], um.Emission[2], 1) + "\n"
		as = append(as, &UAsset{GUID: g, Path: fmt.Sprintf("Assets/Mat%d.mat", i), Data: []byte(body), Mat: um, Meta: meta(g, "NativeFormatImporter:\n  mainObjectFileID: 2100000\n")})
		mats = append(mats, g)
	}
	var recycle []int64
	if !o.NoFBX && (r.P(60) || r.Neat && r.P(60)) {
		g := guid(r)
		root := FBX(r, 1+size/2, nil)
		flat := flatModels(root)
		for k := 0; r.Neat && k < 6 && len(flat) == 0; k++ {
			root = FBX(r, 1+size/2, nil)
			flat = flatModels(root)
		}
		b := "ModelImporter:\n  serializedVersion: 19\n  fileIDToRecycleName:\n    4300000: //RootNode\n"
		if !r.Neat || len(flat) == 0 || r.P(15) {
			recycle = append(recycle, 4300000)
		}
		names := map[int64]string{4300000: "//RootNode"}
		// names of models are "name\x00\x01Model"
		for i, n := range fbxModelNames(root) {
			b += fmt.Sprintf("    %d: %s\n", 4300002+2*i, n)
			if !r.Neat || flat[n] || r.P(5) {
				recycle = append(recycle, int64(4300002+2*i))
			}
			names[int64(4300002+2*i)] = n
		}
		as = append(as, &UAsset{GUID: g, Path: "Assets/Models/m.fbx", Data: EncodeFBX(r, root), FBX: root, Recycle: names, Meta: meta(g, b)})
		fbxs = append(fbxs, g)
	}
	scene := func(g string) *UScene {
		for _, a := range as {
			if a.GUID == g {
				return a.Scene
			}
		}
		return nil
	}
	np := r.N(3)
	if o.Cyclic {
		np = r.In(1, 3)
	}
	var pguids []string
	for i := 0; i < np; i++ {
		pguids = append(pguids, guid(r))
	}
	for i := 0; i < np; i++ {
		use := prefabs
		if o.Cyclic {
			use = pguids
		}
		txt, ir := unityScene(r, 1+size/3, mats, fbxs, use, recycle, r.Neat, o.Cyclic, scene)
		as = append(as, &UAsset{GUID: pguids[i], Path: fmt.Sprintf("Assets/P%d.prefab", i), Data: []byte(txt), Scene: ir, Meta: meta(pguids[i], "PrefabImporter:\n  externalObjects: {}\n")})
		prefabs = append(prefabs, pguids[i])
	}
	ns := o.Scenes
	if ns == 0 {
		ns = 1
	}
	var scenes []*UAsset
	for i := 0; i < ns; i++ {
		g := guid(r)
		txt, ir := unityScene(r, size, mats, fbxs, prefabs, recycle, false, o.Cyclic, scene)
		scenes = append(scenes, &UAsset{GUID: g, Path: fmt.Sprintf("Assets/Scenes/s%d.unity", i), Data: []byte(txt), Scene: ir, Meta: meta(g, "DefaultImporter:\n  externalObjects: {}\n")})
	}
	return append(scenes, as...)
}

// UnityFiles stores the assets as a project below dir.
func UnityFiles(as []*UAsset, dir string) map[string][]byte {
	m := map[string][]byte{}
	for _, a := range as {
		if !a.Dir {
			m[dir+"/"+a.Path] = a.Data
		}
		m[dir+"/"+a.Path+".meta"] = a.Meta
	}
	return m
}

// TarEntry is an entry of a package.
type TarEntry struct {
	Name string
	Data []byte
	Dir  bool
	Type byte
	Link string
}

// PackageEntries lists the entries of a package with these assets.
func PackageEntries(r *R, as []*UAsset) []TarEntry {
	var es []TarEntry
	pre := r.Pick("", "./")
	if pre != "" && r.P(50) {
		es = append(es, TarEntry{Name: "./", Dir: true})
	}
	for _, a := range as {
		es = append(es, TarEntry{Name: pre + a.GUID + "/", Dir: true})
		files := []TarEntry{{Name: pre + a.GUID + "/asset.meta", Data: a.Meta}, {Name: pre + a.GUID + "/pathname", Data: []byte(a.Path)}}
		if !a.Dir {
			files = append(files, TarEntry{Name: pre + a.GUID + "/asset", Data: a.Data})
		}
		for i := range files {
			j := r.N(i + 1)
			files[i], files[j] = files[j], files[i]
		}
		es = append(es, files...)
	}
	return es
}

// Package encodes entries as a .unitypackage.
func Package(r *R, es []TarEntry) []byte {
	var b bytes.Buffer
	gz := gzip.NewWriter(&b)
	if r.P(30) {
		gz, _ = gzip.NewWriterLevel(&b, gzip.NoCompression)
	}
	tw := tar.NewWriter(gz)
	for _, e := range es {
		h := &tar.Header{Name: e.Name, Mode: 0644, Size: int64(len(e.Data)), Typeflag: tar.TypeReg}
		if e.Dir {
			h.Typeflag, h.Mode, h.Size = tar.TypeDir, 0755, 0
		}
		if e.Type != 0 {
			h.Typeflag, h.Linkname = e.Type, e.Link
			if e.Type != tar.TypeReg {
				h.Size = 0
			}
		}
		if err := tw.WriteHeader(h); err != nil {
			continue
		}
		if h.Size > 0 {
			tw.Write(e.Data)
		}
	}
	tw.Close()
	gz.Close()
	return b.Bytes()
}
