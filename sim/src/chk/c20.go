//go:build go1.22

package chk

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	_ "image/gif"
	_ "image/jpeg"
	_ "image/png"
	"math"
	"path"
	"strings"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/binzume/modelconv/zzverif/simk"
)

// A material looks the same after a conversion to glTF, directly or by way of
// a file of Metasequoia.

// look is what a material looks like.
type look struct {
	name       string
	col        [4]float64
	spec       float64
	emis       [3]float64
	double     bool
	shader     string
	f          map[string]float64 // parameters of the shader
	c          map[string][]float64
	b          map[string]bool
	mode       int // of alpha, of the shader. 0: unknown
	tex, bump  string
	maps       map[string]string
	anyUnlit   bool // it is close to unlit
	anyTexture bool
}

func newLook(name string) *look {
	return &look{name: name, f: map[string]float64{}, c: map[string][]float64{}, b: map[string]bool{}, maps: map[string]string{}}
}

var shaders = map[int]string{0: "Classic", 1: "Constant", 2: "Lambert", 3: "Phong", 4: "Blinn"}

func looksMQO(d *mqo.Document) (ls []*look) {
	for _, m := range d.Materials {
		l := newLook(m.Name)
		l.col = [4]float64{float64(m.Color.X), float64(m.Color.Y), float64(m.Color.Z), float64(m.Color.W)}
		l.spec, l.double, l.shader, l.tex, l.bump = float64(m.Specular), m.DoubleSided, shaders[m.Shader], m.Texture, m.BumpTexture
		e := float64(m.Emission)
		if e < 0 {
			e = 0
		}
		l.emis = [3]float64{e, e, e}
		if c := m.EmissionColor; c != nil {
			l.emis = [3]float64{float64(c.X), float64(c.Y), float64(c.Z)}
		}
		if x := m.Ex2; x != nil {
			l.shader = x.ShaderName
			for k, v := range x.ShaderParams {
				switch p := v.(type) {
				case float32:
					l.f[k] = float64(p)
				case bool:
					l.b[k] = p
				case int:
					if k == "AlphaMode" {
						l.mode = p
					}
				case []float32:
					l.c[k] = []float64{float64(p[0]), float64(p[1]), float64(p[2])}
				}
			}
			for k, t := range x.ShaderMapping {
				l.maps[k] = t
			}
		}
		ls = append(ls, l)
	}
	return
}

func looksMMD(d *mmd.Document) (ls []*look) {
	for _, m := range d.Materials {
		l := newLook(m.Name)
		l.col = [4]float64{float64(m.Color.X), float64(m.Color.Y), float64(m.Color.Z), float64(m.Color.W)}
		l.double, l.shader = m.Flags&mmd.MaterialFlagDoubleSided != 0, "pmd"
		if m.TextureID >= 0 {
			l.tex = slash(d.Textures[m.TextureID])
		}
		ls = append(ls, l)
	}
	return
}

func looksFBX(root *fbx.Node) (ls []*look) {
	q := ofFBX(root)
	for _, n := range root.FindChild("Objects").Children {
		if n.Name != "Material" {
			continue
		}
		prop := func(name string, def ...float64) []float64 {
			for _, p := range n.FindChild("Properties70").GetChildren() {
				if p.Attributes[0].Value == name {
					for i := range def {
						def[i] = p.Attributes[4+i].Value.(float64)
					}
				}
			}
			return def
		}
		m := q.mats[len(ls)]
		l := newLook(m.name)
		l.col, l.tex, l.shader = m.col, m.tex, "Classic"
		l.spec = prop("SpecularColor", 0, 0, 0)[0] * prop("SpecularFactor", 0)[0]
		e := prop("EmissiveColor", 0, 0, 0)[0] * prop("EmissiveFactor", 0)[0] * 0.1
		l.emis = [3]float64{e, e, e}
		ls = append(ls, l)
	}
	return
}

func looksGL(g *glb) (ls []*look) {
	q := ofGLTF(g, 1, true)
	for i, v := range g.list("materials") {
		m := g.obj(v)
		l := newLook(q.mats[i].name)
		l.col, l.tex, l.shader = q.mats[i].col, q.mats[i].tex, "glTF"
		l.double, _ = m["doubleSided"].(bool)
		for k, e := range g.arr(m, "emissiveFactor") {
			l.emis[k] = g.float(e)
		}
		pbr := g.obj(m["pbrMetallicRoughness"])
		def := func(m jmap, k string, d float64) float64 {
			if m[k] == nil {
				return d
			}
			return g.float(m[k])
		}
		l.f["Metallic"], l.f["Roughness"] = def(pbr, "metallicFactor", 1), def(pbr, "roughnessFactor", 1)
		l.spec = l.f["Metallic"]
		l.f["AlphaCutOff"] = def(m, "alphaCutoff", 0.5)
		l.mode = 1
		switch m["alphaMode"] {
		case "MASK":
			l.mode = 2
		case "BLEND":
			l.mode = 3
		}
		if _, ok := g.obj(m["extensions"])["KHR_materials_unlit"]; ok {
			l.anyUnlit = true // .mqo output leaves it out
		}
		ls = append(ls, l)
	}
	return
}

// ofExt is an extension of glTF and where its values come from.
var lookExts = []struct {
	flag, ext string
	f, c, m   map[string]string
}{
	{"SpecularExt", "KHR_materials_specular", map[string]string{"specularFactor": "SpecularFactor"}, map[string]string{"specularColorFactor": "SpecularColorFactor"}, map[string]string{"specularTexture": "Specular", "specularColorTexture": "SpecularColor"}},
	{"Clearcoat", "KHR_materials_clearcoat", map[string]string{"clearcoatFactor": "ClearcoatFactor", "clearcoatRoughnessFactor": "ClearcoatRoughnessFactor"}, nil, map[string]string{"clearcoatTexture": "Clearcoat", "clearcoatRoughnessTexture": "ClearcoatRoughness", "clearcoatNormalTexture": "ClearcoatNormal"}},
	{"Sheen", "KHR_materials_sheen", map[string]string{"sheenRoughnessFactor": "SheenRoughnessFactor"}, map[string]string{"sheenColorFactor": "SheenColorFactor"}, map[string]string{"sheenColorTexture": "SheenColor", "sheenRoughnessTexture": "SheenRoughness"}},
	{"IorExt", "KHR_materials_ior", map[string]string{"ior": "Ior"}, nil, nil},
	{"Volume", "KHR_materials_volume", map[string]string{"thicknessFactor": "ThicknessFactor", "attenuationDistance": "AttenuationDistance"}, map[string]string{"attenuationColor": "AttenuationColor"}, map[string]string{"thicknessTexture": "Thickness"}},
	{"Transmission", "KHR_materials_transmission", map[string]string{"transmissionFactor": "TransmissionFactor"}, nil, map[string]string{"transmissionTexture": "Transmission"}},
}

// extDef is what a value of an extension is when the file has none.
func extDef(k string) float64 {
	switch k {
	case "specularFactor":
		return 1
	case "ior":
		return 1.5
	case "attenuationDistance":
		return math.Inf(1)
	}
	return 0
}

type lookStep struct {
	out   string
	flags []string
}

type lookEnv struct {
	chainEnv
	steps []lookStep
	ls    []*look
	q     *qDoc // nil: unknown
	re    bool
	bytes int64
	scale float64
	limit int
	alpha bool
	tol   float64
}

func (e *lookEnv) chosen(r *gen.R) (names []string) {
	for _, l := range e.ls {
		if plain(l.name) && !strings.HasPrefix(l.name, "-") && r.P(40) {
			names = append(names, l.name)
		}
	}
	if len(names) > 3 {
		names = names[:3]
	}
	return
}

func setupLook(s *Spec, st *Stats) interface{} {
	r := gen.NewR(s.GSeed)
	r.Neat = true
	e := &lookEnv{scale: 1, limit: 4096, tol: 1e-5}
	e.seed = s.GSeed
	e.w = gen.NewWorld(r, s.Kind, s.Size)
	e.disk = newDisk(e.w)
	gl := glExt(path.Ext(e.w.Model))
	switch w := e.w; {
	case w.PMX != nil:
		e.ls = looksMMD(w.PMX)
	case w.Kind == "pmd":
		e.ls = looksMMD(decodePMD(w.Files[w.Model]))
	case w.MQO != nil:
		e.ls = looksMQO(w.MQO)
	case w.FBX != nil:
		e.ls = looksFBX(w.FBX)
	default:
		g, err := readGLTF(w.Model, func(p string) ([]byte, bool) { b, ok := w.Files[p]; return b, ok })
		if err != nil {
			return e
		}
		e.ls = looksGL(g)
	}
	if !gl && e.w.FBX == nil {
		e.q = e.first()
	}
	via := 0
	if gl {
		via = 1
	}
	for r.P(35) && via < 2 {
		via++
	}
	if via > 0 {
		e.tol = 0.0011
	}
	for i := 0; i <= via; i++ {
		x := lookStep{out: fmt.Sprintf("%s/step%d%s", e.w.Dir, i, r.Pick(".mqo", ".mqoz"))}
		if i == via {
			x.out = fmt.Sprintf("%s/step%d%s", r.Pick(e.w.Dir, "/work/out"), i, s.Ext)
		}
		e.options(r, &x, i == via)
		e.steps = append(e.steps, x)
	}
	e.ops = nil
	tmp := NewStats()
	tmp.cur = s
	if m := e.run(&Trial{}, tmp, func(p *simk.Proc) {
		if e.ops == nil {
			e.ops = p.Ops
		}
	}); m != "" {
		e.ops = nil // the first trial will tell
	}
	return e
}

// options chooses options and applies them to the looks.
func (e *lookEnv) options(r *gen.R, x *lookStep, last bool) {
	add := func(s ...string) { x.flags = append(x.flags, s...) }
	has := func(l []string, n string) bool {
		for _, s := range l {
			if s == n {
				return true
			}
		}
		return false
	}
	if names := e.chosen(r); r.P(25) && len(names) > 0 {
		var arg []string
		for _, n := range names {
			how := r.Pick("blend", "mask", "opaque", "0.5", "0.995", "1")
			arg = append(arg, n+":"+how)
			for _, l := range e.ls {
				if l.name != n {
					continue
				}
				mode := map[string]int{"opaque": 1, "mask": 2, "blend": 3}[how]
				if mode == 0 {
					fmt.Sscan(how, &l.col[3])
					if l.shader == "glTF" {
						mode = 3
					}
				}
				if mode > 0 {
					if l.shader == "Constant" {
						l.anyUnlit = true
					}
					if l.shader != "glTF" {
						l.f, l.c, l.b, l.maps = map[string]float64{}, map[string][]float64{}, map[string]bool{}, map[string]string{}
					}
					l.shader, l.mode = "glTF", mode
				}
				if how == "opaque" {
					l.col[3] = 1
				}
			}
		}
		add("-alpha", strings.Join(arg, ","))
	}
	if names := e.chosen(r); r.P(25) && len(names) > 0 {
		add("-unlit", strings.Join(names, ","))
		for _, l := range e.ls {
			if has(names, l.name) {
				if l.shader == "glTF" {
					l.b["Extensions.Unlit"] = true
				} else {
					l.shader = "Constant"
				}
				l.anyUnlit = false
			}
		}
	}
	if !last {
		return
	}
	if r.P(20) {
		add("-texReCompress")
		e.re = true
	}
	if r.P(20) {
		n := r.PickN(1, 150, 400)
		add("-texBytesThreshold", fmt.Sprint(n))
		e.bytes = int64(n)
	}
	if r.P(20) {
		e.limit = r.PickN(1, 4, 16)
		add("-texResolutionLimit", fmt.Sprint(e.limit))
	}
	if r.P(15) {
		s := r.Pick("0.5", "0.25", "2")
		fmt.Sscan(s, &e.scale)
		add("-texResizeScale", s)
	}
	if r.P(30) {
		add("-detectAlphaTexture")
		e.alpha = true
	}
}

func (e *lookEnv) file(d *simk.Disk, t string) ([]byte, bool) {
	if t == "" {
		return nil, false
	}
	if !path.IsAbs(t) {
		t = path.Join(e.w.Dir, t)
	}
	return d.ReadFile(t)
}

// decode reads a picture as the generator writes it.
func decode(name string, b []byte) image.Image {
	switch strings.ToLower(path.Ext(name)) {
	case ".bmp":
		w, h := int(b[18]), int(b[22])
		m := image.NewNRGBA(image.Rect(0, 0, w, h))
		stride := (w*3 + 3) &^ 3
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				p := b[54+(h-1-y)*stride+x*3:]
				m.SetNRGBA(x, y, color.NRGBA{p[2], p[1], p[0], 255})
			}
		}
		return m
	case ".tga":
		w, h, n := int(b[12]), int(b[14]), int(b[16])/8
		m := image.NewNRGBA(image.Rect(0, 0, w, h))
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				p := b[18+(y*w+x)*n:]
				c := color.NRGBA{p[2], p[1], p[0], 255}
				if n == 4 {
					c.A = p[3]
				}
				m.SetNRGBA(x, y, c)
			}
		}
		return m
	}
	m, _, err := image.Decode(bytes.NewReader(b))
	if err != nil {
		return nil
	}
	return m
}

// texture compares a texture of the output (an index, or nil) with a file.
func (e *lookEnv) texture(g *glb, d *simk.Disk, ref interface{}, file string) string {
	data, ok := e.file(d, file)
	info := g.obj(ref)
	if !ok {
		if info["index"] != nil {
			return "is there, but has no file"
		}
		return ""
	}
	if info["index"] == nil {
		return fmt.Sprintf("is missing, should be %s", file)
	}
	name, got := g.image(g.num(info, "index", 0))
	if name != path.Base(file) {
		return fmt.Sprintf("is %q, should be %q", name, path.Base(file))
	}
	ext := strings.ToLower(path.Ext(file))
	jpg := ext == ".jpg" || ext == ".jpeg"
	if (jpg || ext == ".png") && !e.re && (e.bytes == 0 || int64(len(data)) <= e.bytes) {
		if !bytes.Equal(data, got) {
			return fmt.Sprintf("is not %s (%d bytes, should be %d)", file, len(got), len(data))
		}
		return ""
	}
	a := decode(file, data)
	if a == nil {
		return ""
	}
	b, form, err := image.Decode(bytes.NewReader(got))
	if err != nil {
		return "cannot be decoded: " + err.Error()
	}
	if jpg != (form == "jpeg") {
		return fmt.Sprintf("is a %s, %s should not be", form, file)
	}
	w, h := a.Bounds().Dx(), a.Bounds().Dy()
	s := e.scale
	if sz := float64(int(float64(w) * s)); sz > float64(e.limit) {
		s *= float64(e.limit) / sz
	}
	size := func(n int) float64 { return math.Max(1, float64(n)*s) }
	gw, gh := b.Bounds().Dx(), b.Bounds().Dy()
	if s == 1 {
		if gw != w || gh != h {
			return fmt.Sprintf("is %dx%d, should be %dx%d", gw, gh, w, h)
		}
		if !jpg {
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					p := color.NRGBAModel.Convert(a.At(x, y)).(color.NRGBA)
					q := color.NRGBAModel.Convert(b.At(x, y)).(color.NRGBA)
					if p != q && (p.A > 0 || q.A > 0) {
						return fmt.Sprintf("has %v at %d,%d, should have %v", q, x, y, p)
					}
				}
			}
		}
	} else if math.Abs(float64(gw)-size(w)) > 1.01 || math.Abs(float64(gh)-size(h)) > 1.01 {
		return fmt.Sprintf("is %dx%d, should be %.1fx%.1f", gw, gh, size(w), size(h))
	}
	return ""
}

// transparent tells whether faces show transparent parts of a texture: 1 yes, 0 no, -1 unknown.
func (e *lookEnv) transparent(d *simk.Disk, i int, file string) int {
	data, ok := e.file(d, file)
	if !ok || strings.HasSuffix(file, ".jpg") || strings.HasSuffix(file, ".bmp") {
		return 0
	}
	m := decode(file, data)
	if m == nil {
		return -1
	}
	b := m.Bounds()
	clear := func(x0, y0, x1, y1 int) bool {
		for y := y0; y < y1; y++ {
			for x := x0; x < x1; x++ {
				if _, _, _, a := m.At(x, y).RGBA(); a < 65535 {
					return true
				}
			}
		}
		return false
	}
	if !clear(0, 0, b.Dx(), b.Dy()) {
		return 0
	}
	if _, ok := m.(*image.NRGBA); !ok || e.q == nil {
		return -1
	}
	// a single face that shows it for certain
	seen := false
	uncut := true
	for _, o := range e.q.objs {
		if o.hidden || o.target {
			continue
		}
		for _, f := range o.f {
			if f.mat != i || len(f.v) != 3 || f.uv == nil {
				uncut = uncut && f.mat != i
				continue
			}
			seen = true
			x0, y0, x1, y1 := f.uv[0][0], f.uv[0][1], f.uv[0][0], f.uv[0][1]
			for _, u := range f.uv[1:3] {
				x0, x1 = math.Min(x0, u[0]), math.Max(x1, u[0])
				y0, y1 = math.Min(y0, u[1]), math.Max(y1, u[1])
			}
			in := func(lo, hi float64, n int) (int, int) {
				base := math.Floor(lo)
				if hi-base > 1 {
					return 0, n
				}
				return int(math.Ceil((lo-base)*float64(n) + 0.01)), int(math.Floor((hi-base)*float64(n) - 0.01))
			}
			a0, a1 := in(x0, x1, b.Dx())
			b0, b1 := in(y0, y1, b.Dy())
			if clear(a0, b0, a1, b1) {
				return 1
			}
		}
	}
	if !seen && uncut {
		return 1 // nothing says which part
	}
	return -1
}

func (e *lookEnv) check(g *glb, d *simk.Disk, st *Stats) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			ge, ok := r.(*glErr)
			if !ok {
				panic(r)
			}
			bad = ge.s
		}
	}()
	count := map[string]int{}
	for _, l := range e.ls {
		count[l.name]++
	}
	index := map[string]int{}
	for i, l := range e.ls {
		index[l.name] = i
	}
	outs := map[string]int{}
	for _, v := range g.list("materials") {
		n, _ := g.obj(v)["name"].(string)
		outs[n]++
	}
	used := map[string]bool{}
	for _, v := range g.arr(g.j, "extensionsUsed") {
		used[fmt.Sprint(v)] = true
	}
	for _, v := range g.list("materials") {
		m := g.obj(v)
		n, _ := m["name"].(string)
		if count[n] != 1 || outs[n] != 1 {
			st.skip("two materials of one name")
			continue
		}
		l := e.ls[index[n]]
		if b := e.material(g, d, m, l, index[n]); b != "" {
			return fmt.Sprintf("material %q: %s", n, b)
		}
		for k := range g.obj(m["extensions"]) {
			if !used[k] {
				return fmt.Sprintf("material %q: the extension %s is not declared", n, k)
			}
		}
		st.out("material: " + l.shader)
	}
	return ""
}

func (e *lookEnv) material(g *glb, d *simk.Disk, m jmap, l *look, i int) string {
	def := func(m jmap, k string, d float64) float64 {
		if m[k] == nil {
			return d
		}
		return g.float(m[k])
	}
	vec := func(m jmap, k string, d ...float64) []float64 {
		if a := g.arr(m, k); m[k] != nil {
			for i := range d {
				d[i] = g.float(a[i])
			}
		}
		return d
	}
	far := func(a, b float64) bool { return math.Abs(a-b) > e.tol }
	pbr := g.obj(m["pbrMetallicRoughness"])
	for k, c := range vec(pbr, "baseColorFactor", 1, 1, 1, 1) {
		if far(c, l.col[k]) {
			return fmt.Sprintf("color %v, should be %v", pbr["baseColorFactor"], l.col)
		}
	}
	shader := l.shader == "glTF"
	metal, rough := l.spec, 0.4
	if shader {
		if v, ok := l.f["Metallic"]; ok {
			metal = v
		}
		if v, ok := l.f["Roughness"]; ok {
			rough = v
		}
	}
	if v := def(pbr, "metallicFactor", 1); far(v, metal) {
		return fmt.Sprintf("metallic %v, should be %v", v, metal)
	}
	if v := def(pbr, "roughnessFactor", 1); far(v, rough) {
		return fmt.Sprintf("roughness %v, should be %v", v, rough)
	}
	s := math.Max(1, math.Max(l.emis[0], math.Max(l.emis[1], l.emis[2])))
	for k, c := range vec(m, "emissiveFactor", 0, 0, 0) {
		if far(c, l.emis[k]/s) {
			return fmt.Sprintf("emission %v, should be %v", m["emissiveFactor"], l.emis)
		}
	}
	if dbl, _ := m["doubleSided"].(bool); dbl != l.double {
		return fmt.Sprintf("double-sided %v, should be %v", dbl, l.double)
	}
	mode, _ := m["alphaMode"].(string)
	if mode == "" {
		mode = "OPAQUE"
	}
	want := []string{"OPAQUE"}
	switch {
	case shader:
		want = []string{[]string{"OPAQUE", "OPAQUE", "MASK", "BLEND"}[l.mode&3]}
	case math.Abs(l.col[3]-0.99) < 0.0011:
		want = nil
	case l.col[3] < 0.99:
		want[0] = "BLEND"
	case e.alpha:
		switch e.transparent(d, i, l.tex) {
		case 1:
			want[0] = "BLEND"
		case -1:
			want = nil
		}
	}
	if want != nil && mode != want[0] {
		return fmt.Sprintf("alpha mode %s, should be %s", mode, want[0])
	}
	if mode == "MASK" {
		cut, ok := l.f["AlphaCutOff"]
		if !ok {
			cut = 0.5
		}
		if v := def(m, "alphaCutoff", 0.5); far(v, cut) {
			return fmt.Sprintf("alpha cutoff %v, should be %v", v, cut)
		}
	}
	exts := g.obj(m["extensions"])
	_, unlit := exts["KHR_materials_unlit"]
	isUnlit := l.shader == "Constant" || shader && l.b["Extensions.Unlit"]
	maybe := l.anyUnlit || shader && math.Abs(metal) < 0.0011 && math.Abs(rough-1) < 0.0011
	if maybe && metal == 0 && rough == 1 && !l.anyUnlit {
		isUnlit, maybe = true, false
	}
	if unlit != isUnlit && !(maybe && !isUnlit) {
		return fmt.Sprintf("unlit %v, should be %v", unlit, isUnlit)
	}
	known := map[string]bool{"KHR_materials_unlit": true}
	for _, x := range lookExts {
		known[x.ext] = true
		y, ok := exts[x.ext]
		if on := shader && l.b["Extensions."+x.flag]; on != ok {
			return fmt.Sprintf("extension %s: %v, should be %v", x.ext, ok, on)
		}
		if !ok {
			continue
		}
		ex := g.obj(y)
		for k, p := range x.f {
			v, ok := l.f["Extensions."+p]
			if !ok || v == 0 && k == "attenuationDistance" {
				v = extDef(k)
			}
			if got := def(ex, k, extDef(k)); got != v && far(got, v) {
				return fmt.Sprintf("%s %s: %v, should be %v", x.ext, k, got, v)
			}
		}
		for k, p := range x.c {
			if v, ok := l.c["Extensions."+p]; ok {
				got := vec(ex, k, -1, -1, -1)
				for j := range got {
					if far(got[j], v[j]) {
						return fmt.Sprintf("%s %s: %v, should be %v", x.ext, k, ex[k], v)
					}
				}
			} else if ex[k] != nil {
				return fmt.Sprintf("%s %s: %v, should be none", x.ext, k, ex[k])
			}
		}
		for k, p := range x.m {
			if b := e.texture(g, d, ex[k], l.maps[p]); b != "" {
				return fmt.Sprintf("%s %s %s", x.ext, k, b)
			}
		}
	}
	for k := range exts {
		if !known[k] && !strings.HasPrefix(k, "VRM") {
			return "an extension " + k
		}
	}
	if b := e.texture(g, d, pbr["baseColorTexture"], l.tex); b != "" {
		return "texture " + b
	}
	if b := e.texture(g, d, m["normalTexture"], l.bump); b != "" {
		return "normal texture " + b
	}
	return ""
}

func (e *lookEnv) run(t *Trial, st *Stats, seen func(p *simk.Proc)) string {
	d := e.disk.Clone()
	if e.steps == nil {
		st.skip("no model")
		return ""
	}
	in, did := e.w.Model, ""
	for k, x := range e.steps {
		m := e.attempt(t, k, d, append(append([]string{"modelconv"}, x.flags...), in, x.out), x.out, st, seen)
		did += m
		if !strings.HasSuffix(m, ": ") {
			return did
		}
		in = x.out
	}
	g, err := readGLTF(in, d.ReadFile)
	if err != nil {
		return did + "the output cannot be read: " + err.Error()
	}
	if b := e.check(g, d, st); b != "" {
		return did + b
	}
	st.out(fmt.Sprintf("looks the same: %s, %d steps", e.w.Kind, len(e.steps)))
	st.state(d.Hash())
	return ""
}

func init() {
	register(&Scenario{Prop: "C20", Name: "look", Weight: 1, Kinds: []string{"mqo", "mqox", "mqos", "mqoz", "mqo", "pmx", "pmd", "fbxb", "fbxt", "gltf", "gltfe", "glb", "vrm"},
		Exts: []string{".glb", ".gltf", ".vrm"}, MaxSize: 5, Real: "the whole command, several times in a row",
		Setup: setupLook,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			return chainTrials(env.(*lookEnv).ops, r, n)
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			return env.(*lookEnv).run(t, st, nil)
		}})
}
