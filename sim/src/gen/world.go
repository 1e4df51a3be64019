//go:build go1.22

package gen

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
)

// Kinds of worlds.
var Kinds = []string{"pmx", "pmd", "mqo", "mqox", "mqos", "mqoz", "fbxb", "fbxt", "gltf", "gltfe", "glb", "vrm", "unity", "pkg"}

// World is a set of input files and the model among them that is converted.
type World struct {
	Kind     string
	Files    map[string][]byte
	Role     map[string]string // model, mqx, buffer, motion, scene, meta, package, texture, asset, config
	Model    string            // path of the model file
	Input    string            // argument of the command
	Motions  []string
	Textures []string
	Dir      string // directory of the model

	PMX     *mmd.Document // the document that the model file holds
	MQO     *mqo.Document
	FBX     *fbx.Node
	Assets  []*UAsset
	Entries []TarEntry

	BoneNames, MatNames, ObjNames, MorphNames []string
}

func (w *World) add(p, role string, data []byte) {
	w.Files[p] = data
	w.Role[p] = role
}

// Primary lists the files whose content the conversion cannot do without.
func (w *World) Primary() []string {
	var r []string
	for p, role := range w.Role {
		switch role {
		case "model", "mqx", "buffer", "motion", "package", "scene":
			r = append(r, p)
		}
	}
	sort.Strings(r)
	return r
}

// Paths lists all files in order.
func (w *World) Paths() []string {
	var r []string
	for p := range w.Files {
		r = append(r, p)
	}
	sort.Strings(r)
	return r
}

// NewWorld makes a world of a kind below /work.
func NewWorld(r *R, kind string, size int) *World {
	w := &World{Kind: kind, Files: map[string][]byte{}, Role: map[string]string{}}
	w.Dir = "/work/" + r.Pick("in", "in", "モデル", "my model")
	var tex []string
	if kind != "unity" && kind != "pkg" {
		tex = TexNames(r, r.N(2+size/2), r.Pick("", "tex"))
		seen := map[string]bool{}
		var uniq []string
		for _, t := range tex {
			if !seen[t] {
				seen[t] = true
				uniq = append(uniq, t)
			}
		}
		tex = uniq
		for _, t := range tex {
			p := w.Dir + "/" + t
			w.add(p, "texture", Texture(r, t))
			w.Textures = append(w.Textures, p)
		}
	}
	base := w.Dir + "/" + r.Pick("model", "モデル", "a b", "x.y")
	texW := tex
	if (kind == "pmx" || kind == "pmd" || kind == "fbxb") && r.P(30) {
		texW = nil
		for _, t := range tex {
			texW = append(texW, strings.ReplaceAll(t, "/", "\\"))
		}
	}
	if kind != "glb" && kind != "gltf" && kind != "gltfe" && kind != "vrm" && r.P(15) {
		texW = append([]string{}, texW...)
		for i, t := range texW {
			if r.P(50) && !strings.Contains(t, "\\") {
				texW[i] = w.Dir + "/" + t
			}
		}
	}
	switch kind {
	case "pmx":
		w.PMX = PMX(r, size, texW)
		w.Model = base + ".pmx"
		w.add(w.Model, "model", EncodePMX(r, w.PMX))
		for _, b := range w.PMX.Bones {
			w.BoneNames = append(w.BoneNames, b.Name)
		}
		for _, m := range w.PMX.Materials {
			w.MatNames = append(w.MatNames, m.Name)
		}
		for _, m := range w.PMX.Morphs {
			w.MorphNames = append(w.MorphNames, m.Name)
		}
	case "pmd":
		w.Model = base + ".pmd"
		w.add(w.Model, "model", PMD(r, size, texW))
		w.BoneNames = MMDBoneNames
	case "mqo", "mqox", "mqos", "mqoz":
		plug := kind == "mqox" || kind == "mqoz" && r.P(70)
		d := MQO(r, size, texW, plug)
		w.MQO = d
		for _, m := range d.Materials {
			w.MatNames = append(w.MatNames, m.Name)
		}
		for _, o := range d.Objects {
			w.ObjNames = append(w.ObjNames, o.Name)
		}
		if plug {
			for _, p := range d.Plugins { // mqo.GetBonePlugin would add one
				if bp, ok := p.(*mqo.BonePlugin); ok {
					for _, b := range bp.Bones() {
						w.BoneNames = append(w.BoneNames, b.Name)
					}
				}
			}
		}
		name := path.Base(base)
		mqx := ""
		if plug {
			mqx = name + ".mqx"
		}
		b := EncodeMQO(r, d, mqx, kind == "mqos")
		if kind == "mqoz" {
			w.Model = base + ".mqoz"
			names, files := []string{name + ".mqo"}, [][]byte{b}
			if plug {
				names, files = append(names, name+".mqx"), append(files, EncodeMQX(d, name+".mqo"))
			}
			if len(names) == 2 && r.P(30) {
				names[0], names[1] = names[1], names[0]
				files[0], files[1] = files[1], files[0]
			}
			w.add(w.Model, "model", Zip(names, files, r.P(40)))
		} else {
			w.Model = base + ".mqo"
			w.add(w.Model, "model", b)
			if plug {
				w.add(base+".mqx", "mqx", EncodeMQX(d, name+".mqo"))
			}
		}
	case "fbxb", "fbxt":
		w.FBX = FBX(r, size, texW)
		w.Model = base + ".fbx"
		if kind == "fbxb" {
			w.add(w.Model, "model", EncodeFBX(r, w.FBX))
		} else {
			w.add(w.Model, "model", EncodeFBXText(r, w.FBX))
		}
	case "gltf", "gltfe", "glb", "vrm":
		o := GLTFOpt{Form: "gltf", Textures: tex, VRM: kind == "vrm"}
		w.Model = base + "." + kind
		if kind == "gltf" {
			o.Bin = path.Base(base) + r.Pick(".bin", "_data.bin", "0.bin")
			if strings.ContainsAny(o.Bin, " ") || o.Bin[0] > 127 {
				o.Bin = "buf.bin"
			}
		}
		if kind == "gltfe" {
			w.Model = base + ".gltf"
		}
		if kind == "glb" || kind == "vrm" {
			o.Form = "glb"
		}
		m, bin := GLTF(r, size, o)
		w.add(w.Model, "model", m)
		if o.Bin != "" {
			w.add(w.Dir+"/"+o.Bin, "buffer", bin)
		}
	case "unity", "pkg":
		w.Assets = Unity(r, size, UnityOpt{Textures: r.N(3 + size/3), Cyclic: r.Cyclic})
		if kind == "unity" {
			w.Dir = "/work/" + r.Pick("proj", "my proj")
			for p, b := range UnityFiles(w.Assets, w.Dir) {
				w.add(p, "asset", b)
			}
			w.Model = w.Dir + "/" + w.Assets[0].Path
			w.Role[w.Model] = "scene"
			w.Input = w.Model
			if r.P(40) {
				w.Input = w.Dir + "/Assets#" + w.Assets[0].Path
			}
		} else {
			w.Entries = PackageEntries(r, w.Assets)
			w.Model = base + ".unitypackage"
			w.add(w.Model, "package", Package(r, w.Entries))
			w.Input = w.Model
			if r.P(50) {
				w.Input += "#" + w.Assets[0].Path
			}
		}
	}
	if w.Input == "" {
		w.Input = w.Model
	}
	return w
}

// AddMotion adds a motion file that moves the bones of the world.
func (w *World) AddMotion(r *R, size int) {
	bones := w.BoneNames
	if len(bones) == 0 {
		bones = MMDBoneNames
	}
	p := fmt.Sprintf("%s/motion%d.vmd", w.Dir, len(w.Motions))
	w.add(p, "motion", VMD(r, size, bones, w.MorphNames))
	w.Motions = append(w.Motions, p)
}

// VRMConfig makes a configuration file.
func (w *World) VRMConfig(r *R) []byte {
	pick := func() string {
		if len(w.BoneNames) > 0 {
			return w.BoneNames[r.N(len(w.BoneNames))]
		}
		return "bone" + fmt.Sprint(r.N(4))
	}
	var bm, mm, bg, cg arr
	for _, b := range vrmBones {
		if r.P(60) {
			bm = append(bm, obj{"bone": b, "nodeNames": arr{pick(), pick()}})
		}
	}
	for i := r.N(3); i > 0; i-- {
		mm = append(mm, obj{"name": r.Pick("joy", "a", "blink"), "targetName": r.Pick("smile", "morph0", "morph1")})
	}
	for i := r.N(3); i > 0; i-- {
		bg = append(bg, obj{"comment": "g", "stiffiness": 0.5, "bones": arr{}, "nodeNames": arr{r.Pick(pick(), "*", "b*", "*1")}, "colliderGroups": arr{}})
		cg = append(cg, obj{"nodeName": pick(), "colliders": arr{obj{"radius": 0.25, "offset": obj{"x": 0, "y": 1, "z": 0}}}})
	}
	c := obj{"meta": obj{"title": r.Name(1), "author": "me", "version": "1", "contactInformation": "", "licenseName": "CC0", "otherLicenseUrl": ""},
		"boneMappings": bm, "morphMappings": mm, "animationBoneGroups": bg, "colliderGroups": cg,
		"materialSettings": obj{"*": obj{"forceUnlit": r.P(50), "alphaMode": r.Pick("", "blend", "mask")}},
		"exportAllMorph":   r.P(50)}
	if r.P(50) {
		c["preset"] = r.Pick("mmd", "mmd_en", "mmd_ja")
	}
	b, _ := json.Marshal(c)
	return b
}

// Case is one run of the command on a world.
type Case struct {
	*World
	Args   []string
	Flags  []string
	Out    string
	OutExt string
	Cwd    string
}

// OutExts are the possible outputs for a kind of input.
func OutExts(kind string) []string {
	o := []string{".mqo", ".mqoz", ".pmx", ".glb", ".gltf", ".vrm"}
	if strings.HasPrefix(kind, "fbx") {
		o = append(o, ".fbx")
	}
	return o
}

// NewCase makes a run of the command. ext: "" chooses an output.
func NewCase(r *R, kind, ext string, size int) *Case {
	w := NewWorld(r, kind, size)
	c := &Case{World: w, Cwd: "/work"}
	if ext == "" {
		o := OutExts(kind)
		ext = o[r.N(len(o))]
	}
	c.OutExt = ext
	gl := ext == ".glb" || ext == ".gltf" || ext == ".vrm"
	direct := gl && (kind == "glb" || kind == "gltf" || kind == "gltfe" || kind == "vrm")
	if gl && !direct && r.P(40) {
		for i := r.In(1, 2); i > 0; i-- {
			w.AddMotion(r, size)
		}
	}
	c.Out = r.Pick("/work/out/", "/work/out/", w.Dir+"/") + r.Pick("result", "out", "出力") + ext
	f := func(p int, s ...string) {
		if r.P(p) {
			c.Flags = append(c.Flags, s...)
		}
	}
	if r.P(50) {
		if kind != "unity" || w.Input == w.Model { // "dir/Assets#..." has no useful extension
			f(20, "-scale", r.Pick("0.5", "2", "10"))
		}
		f(20, "-rot180")
		f(10, "-scaleY", "1.5")
		if gl && !direct {
			f(25, "-texReCompress")
			f(25, "-texResolutionLimit", r.Pick("4", "16"))
			f(20, "-texBytesThreshold", r.Pick("1", "200"))
			f(20, "-texResizeScale", r.Pick("0.5", "0.25"))
			f(30, "-reuseGeometry")
			f(30, "-ignoreHierarchy")
			f(40, "-detectAlphaTexture")
			f(30, "-gltfExportLight")
		}
		f(30, "-physics")
		if ext == ".vrm" {
			f(40, "-vrmExportAllMorph")
		}
		if len(w.BoneNames) > 0 && !direct {
			f(20, "-autotpose", w.BoneNames[r.N(len(w.BoneNames))])
		}
		if len(w.MatNames) > 0 && !direct {
			f(15, "-hidemat", safe(w.MatNames[r.N(len(w.MatNames))]))
			f(15, "-unlit", "*")
			f(15, "-alpha", safe(w.MatNames[r.N(len(w.MatNames))])+":"+r.Pick("blend", "opaque", "0.5", "mask"))
		}
		if len(w.ObjNames) > 0 && !direct {
			f(20, "-hide", safe(w.ObjNames[r.N(len(w.ObjNames))]))
		}
		if len(w.MorphNames) > 0 && !direct {
			f(20, "-morph", safe(w.MorphNames[r.N(len(w.MorphNames))])+":0.5")
		}
	}
	if ext == ".vrm" && r.P(40) {
		p := "/work/conf.json"
		if r.P(50) && kind != "unity" && !strings.Contains(w.Input, "#") {
			p = strings.TrimSuffix(w.Input, path.Ext(w.Input)) + ".vrmconfig.json"
		} else {
			c.Flags = append(c.Flags, "-vrmconfig", p)
		}
		w.add(p, "config", w.VRMConfig(r))
	}
	rel := func(p string) string {
		if r.P(30) && strings.HasPrefix(p, "/work/") {
			return p[6:]
		}
		return p
	}
	c.Args = append([]string{"modelconv"}, c.Flags...)
	c.Args = append(c.Args, rel(w.Input))
	for _, m := range w.Motions {
		c.Args = append(c.Args, rel(m))
	}
	c.Args = append(c.Args, rel(c.Out))
	return c
}

func safe(s string) string {
	if strings.ContainsAny(s, ",:[]\\*?-") {
		return "x"
	}
	return s
}
