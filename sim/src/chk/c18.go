//go:build go1.22

package chk

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/binzume/modelconv/zzverif/simk"
)

// The VRM part of an output is what the configuration says.

type confEnv struct {
	chainEnv
	args    []string
	out     string
	base    *glb // the same conversion with an empty configuration
	conf    jmap // what is configured
	preset  jmap
	all     bool // every morph is exported
	phys    *glb // with -physics: the nodes with their bodies
	problem string
	bad     string
}

type vnode struct {
	name string
	mesh int
	kids []int
}

func rejson(v interface{}) jmap {
	var m jmap
	dec := json.NewDecoder(strings.NewReader(canon(v)))
	dec.UseNumber()
	if err := dec.Decode(&m); err != nil {
		panic(err)
	}
	return m
}

func (g *glb) vnodes() (ns []vnode, unique bool) {
	unique = true
	seen := map[string]bool{}
	for _, v := range g.list("nodes") {
		m := g.obj(v)
		n := vnode{mesh: -1}
		n.name, _ = m["name"].(string)
		if m["mesh"] != nil {
			n.mesh = g.num(m, "mesh", 0)
		}
		for _, c := range g.arr(m, "children") {
			n.kids = append(n.kids, g.toInt(c))
		}
		if seen[n.name] {
			unique = false
		}
		seen[n.name] = true
		ns = append(ns, n)
	}
	return
}

// targetsOf lists the names of the targets of a mesh.
func (g *glb) targetsOf(mesh int) (names []string) {
	e, _ := g.obj(g.list("meshes")[mesh])["extras"].(jmap)
	for _, v := range g.arr(e, "targetNames") {
		s, _ := v.(string)
		names = append(names, s)
	}
	return
}

func strs(v interface{}) (r []string) {
	l, _ := v.([]interface{})
	for _, x := range l {
		s, _ := x.(string)
		r = append(r, s)
	}
	return
}

func confList(c jmap, k string) (r []jmap) {
	l, _ := c[k].([]interface{})
	for _, x := range l {
		r = append(r, x.(jmap))
	}
	return
}

func str(m jmap, k string) string { s, _ := m[k].(string); return s }

func num(v interface{}) int {
	n, _ := v.(json.Number)
	i, _ := n.Int64()
	return int(i)
}

// without copies m but for some members.
func without(m jmap, ks ...string) jmap {
	c := jmap{}
	for k, v := range m {
		c[k] = v
	}
	for _, k := range ks {
		delete(c, k)
	}
	return c
}

func sorted(l []string) string {
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// makeConf makes a configuration for a model.
func makeConf(r *gen.R, g *glb, nodes []vnode, preset bool) jmap {
	name := func() string {
		if len(nodes) == 0 || r.P(12) {
			return "nobody"
		}
		return nodes[r.N(len(nodes))].name
	}
	var meshNodes []vnode
	var targets []string
	for _, n := range nodes {
		if n.mesh >= 0 {
			meshNodes = append(meshNodes, n)
			targets = append(targets, g.targetsOf(n.mesh)...)
		}
	}
	c := jmap{}
	var l []interface{}
	put := func(k string) {
		if l != nil || r.P(30) {
			if l == nil {
				l = []interface{}{}
			}
			c[k] = l
		}
		l = nil
	}
	f := func() float64 { return float64(r.In(-8, 8)) / 4 }
	v3 := func() []float64 { return []float64{f(), f(), f()} }
	bones := []string{"hips", "spine", "chest", "neck", "head", "leftUpperArm", "leftLowerArm", "leftHand", "rightUpperArm", "leftFoot", "jaw", "leftEye", "upperChest", "leftThumbProximal"}
	for n := r.N(10); n > 0; n-- {
		b := jmap{"bone": bones[r.N(len(bones))]}
		switch r.N(6) {
		case 0: // not mapped
			if r.P(50) {
				b["nodeNames"] = []string{}
			}
		case 1:
			b["nodeName"] = name()
		case 2:
			b["nodeName"] = name()
			b["nodeNames"] = []string{name()}
		default:
			var ns []string
			for k := r.In(1, 3); k > 0; k-- {
				ns = append(ns, name())
			}
			b["nodeNames"] = ns
		}
		if r.P(15) {
			b["min"], b["max"] = v3(), v3()
		}
		if r.P(10) {
			b["center"] = v3()
		}
		if r.P(10) {
			b["axisLength"] = 0.5
		}
		if r.P(10) {
			b["useDefaultValues"] = r.P(50)
		}
		l = append(l, b)
	}
	put("boneMappings")
	value := func() []interface{} {
		return []interface{}{jmap{"materialName": "m" + fmt.Sprint(r.N(3)), "propertyName": "_Color", "targetValue": []float64{f(), f(), f(), 1}}}
	}
	for n := r.N(6); n > 0; n-- {
		m := jmap{"name": r.Pick("Joy", "A", "Blink", "Fun", "custom", "笑")}
		if len(meshNodes) > 0 && r.P(25) {
			k := meshNodes[r.N(len(meshNodes))]
			m["nodeName"] = k.name
			if r.P(15) {
				m["nodeName"] = name()
			}
			if t := g.targetsOf(k.mesh); len(t) > 0 && m["nodeName"] == k.name {
				m["targetIndex"] = r.N(len(t))
			} else {
				for _, x := range meshNodes { // no index there to refer to
					if x.name == m["nodeName"] {
						m["nodeName"] = "nobody"
					}
				}
			}
		} else {
			m["targetName"] = "nothing"
			if len(targets) > 0 && r.P(85) {
				m["targetName"] = targets[r.N(len(targets))]
			}
			if r.P(25) {
				m["materialValues"] = value()
			}
		}
		if m["targetName"] != "" {
			l = append(l, m)
		}
	}
	put("morphMappings")
	for n := r.N(4); n > 0; n-- {
		var cs []interface{}
		for k := r.In(1, 2); k > 0; k-- {
			cs = append(cs, jmap{"radius": float64(r.In(1, 8)) / 8, "offset": jmap{"x": f(), "y": f(), "z": f()}})
		}
		l = append(l, jmap{"nodeName": name(), "colliders": cs})
	}
	nc := len(l)
	put("colliderGroups")
	for n := r.N(4); n > 0; n-- {
		var ns []string
		for k := r.In(1, 3); k > 0; k-- {
			s := name()
			if rs := []rune(s); r.P(40) && len(rs) > 0 && !strings.ContainsAny(s, "[]\\") {
				switch r.N(4) {
				case 0:
					s = "*"
				case 1:
					s = string(rs[0]) + "*"
				case 2:
					s = "*" + string(rs[len(rs)-1])
				case 3:
					s = strings.Repeat("?", len(rs))
				}
			}
			ns = append(ns, s)
		}
		b := jmap{"comment": "group " + fmt.Sprint(n), "stiffiness": f(), "gravityPower": f(), "dragForce": 0.5, "hitRadius": f(), "center": r.In(-1, 1), "nodeNames": ns}
		if r.P(50) {
			b["gravityDir"] = jmap{"x": f(), "y": -1, "z": 0}
		}
		if nc > 0 && r.P(70) {
			var ci []int
			for k := r.In(1, nc); k > 0; k-- {
				ci = append(ci, r.N(nc))
			}
			b["colliderGroups"] = ci
		}
		l = append(l, b)
	}
	put("animationBoneGroups")
	if r.P(60) {
		s := jmap{}
		setting := func() jmap {
			m := jmap{}
			if r.P(50) {
				m["forceUnlit"] = r.P(60)
			}
			if r.P(50) {
				m["alphaMode"] = r.Pick("blend", "mask", "opaque", "")
			}
			if r.P(50) {
				m["alpha"] = float64(r.N(5)) / 4
			}
			return m
		}
		for _, v := range g.list("materials") {
			if n := str(g.obj(v), "name"); n != "" && r.P(40) {
				s[n] = setting()
			}
		}
		if r.P(40) && !preset {
			s["*"] = setting()
		}
		c["materialSettings"] = s
	}
	if r.P(70) {
		m := jmap{"title": r.Name(1), "author": r.Name(2), "version": r.Pick("1", "2.0")}
		for _, k := range []string{"contactInformation", "allowedUserName", "violentUssageName", "sexualUssageName", "commercialUssageName", "otherPermissionUrl", "licenseName", "otherLicenseUrl"} {
			if r.P(30) {
				m[k] = r.Pick("Allow", "CC0", "http://example.com/?a=b&c", "誰か")
			}
		}
		c["meta"] = m
	}
	if r.P(30) {
		c["exportAllMorph"] = r.P(70)
	}
	return c
}

func setupConf(s *Spec, st *Stats) interface{} {
	r := gen.NewR(s.GSeed)
	r.Neat, r.Human = true, true
	e := &confEnv{}
	e.seed = s.GSeed
	e.w = gen.NewWorld(r, s.Kind, s.Size)
	e.disk = newDisk(e.w)
	w := e.w
	var flags []string
	f := func(p int, s ...string) {
		if r.P(p) {
			flags = append(flags, s...)
		}
	}
	mmd := s.Kind == "pmx" || s.Kind == "pmd"
	if mmd {
		flags = append(flags, "-autotpose", "none", "-mmdFixInheritParentThreshold", "2")
	}
	gl := glExt(path.Ext(w.Model))
	f(15, "-scale", "2")
	if !gl {
		f(15, "-reuseGeometry")
		f(15, "-ignoreHierarchy")
		f(10, "-unlit=*")
	}
	physics := !gl && r.P(30)
	run := func(out string, more ...string) *glb {
		d := e.disk.Clone()
		d.WriteFile("/work/base/empty.json", []byte("{}"))
		p := newProc(d)
		p.Cwd = "/work"
		args := append(append([]string{"modelconv"}, flags...), more...)
		runCLI(p, append(args, w.Model, out))
		if exitCode(p) != 0 {
			e.problem = "the conversion without configuration fails"
			return nil
		}
		g, err := readGLTF(out, d.ReadFile)
		if err != nil {
			e.problem = "the conversion without configuration cannot be read"
			return nil
		}
		return g
	}
	if e.base = run("/work/base/b.vrm", "-vrmconfig", "/work/base/empty.json"); e.base == nil {
		return e
	}
	nodes, unique := e.base.vnodes()
	if !unique {
		e.problem = "nodes with the same name"
		return e
	}
	if physics {
		more := []string{"-physics"}
		if mmd {
			more = append(more, "-rot180")
		}
		if e.phys = run("/work/base/p.glb", more...); e.phys == nil {
			return e
		}
		flags = append(flags, "-physics")
	}
	file := func(p string, c jmap) {
		b, err := json.MarshalIndent(c, "", "  ")
		if err != nil {
			panic(err)
		}
		if r.P(20) {
			b = append(b, '\n')
		}
		e.disk.WriteFile(p, b)
	}
	builtin := func() (string, jmap) {
		n := r.Pick("mmd", "mmd_en", "mmd_ja")
		return n, rejson(json.RawMessage(vrmPresets[n]))
	}
	own := func(n string, preset bool) (string, jmap) {
		c := makeConf(r, e.base, nodes, preset)
		file(path.Dir(simk.ExePath)+"/vrmconfig_presets/"+n+".json", c)
		return n, rejson(c)
	}
	beside := strings.TrimSuffix(w.Model, path.Ext(w.Model)) + ".vrmconfig.json"
	switch how := r.N(10); {
	case how < 6:
		c := makeConf(r, e.base, nodes, false)
		if r.P(40) {
			n := ""
			switch r.N(4) {
			case 0, 1:
				n, e.preset = builtin()
			case 2:
				n, e.preset = own("mine", true)
			case 3:
				p := makeConf(r, e.base, nodes, true)
				file("/work/preset.json", p)
				n, e.preset = r.Pick("/work/preset.json", "preset.json"), rejson(p)
			}
			c["preset"] = n
			if s, ok := c["materialSettings"].(jmap); ok {
				delete(s, "*")
			}
		}
		e.conf = rejson(c)
		if how < 3 {
			file(beside, c)
		} else {
			file("/work/conf/c.json", c)
			flags = append(flags, "-vrmconfig", r.Pick("/work/conf/c.json", "conf/c.json"))
			if r.P(30) {
				file(beside, jmap{"meta": jmap{"title": "the other one"}})
			}
		}
	case how == 6:
		n, c := builtin()
		e.conf = c
		flags = append(flags, "-vrmconfig", n)
	case how == 7:
		n, c := own(r.Pick("mine", "mmd"), false)
		e.conf = c
		flags = append(flags, "-vrmconfig", n)
	default:
		e.conf = jmap{}
		if mmd {
			e.conf = rejson(json.RawMessage(vrmPresets["mmd"]))
		}
	}
	e.all = e.conf["exportAllMorph"] == true
	if r.P(20) {
		flags = append(flags, "-vrmExportAllMorph")
		e.all = true
	}
	e.out = r.Pick("/work/out/result.vrm", w.Dir+"/out.vrm")
	e.args = append(append([]string{"modelconv"}, flags...), w.Model, e.out)
	p := newProc(e.disk.Clone())
	p.Cwd = "/work"
	runCLI(p, e.args)
	e.ops = p.Ops
	return e
}

func (e *confEnv) check(g *glb) string {
	base := e.base
	nodes, _ := base.vnodes()
	text := func(what string, want, got interface{}) string {
		if x, y := canon(want), canon(got); x != y {
			return fmt.Sprintf("%s: %s, should be %s", what, clip(y), clip(x))
		}
		return ""
	}
	// everything but what the configuration is about
	keys := map[string]bool{}
	for _, j := range []jmap{base.j, g.j} {
		for k := range j {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if k == "materials" || k == "extensions" || k == "extensionsUsed" {
			continue
		}
		if m := text(k, base.j[k], g.j[k]); m != "" {
			return m
		}
	}
	for i := range base.bufs {
		if i >= len(g.bufs) || !bytes.Equal(base.bufs[i], g.bufs[i]) {
			return "the binary part is not what it is without configuration"
		}
	}
	byName := map[string]int{}
	for i, n := range nodes {
		byName[n.name] = i
	}
	v := g.obj(g.obj(g.j["extensions"])["VRM"])
	if m := text("meta", drop0(e.conf["meta"]), drop0(v["meta"])); m != "" {
		return m
	}
	both := func(k string) []jmap { return append(confList(e.conf, k), confList(e.preset, k)...) }

	// bones
	want := map[string]string{}
	done := map[string]bool{}
	head := -1
	for _, m := range both("boneMappings") {
		b := str(m, "bone")
		names := strs(m["nodeNames"])
		if n := str(m, "nodeName"); n != "" {
			names = append(names, n)
		}
		if done[b] {
			continue
		}
		if len(names) == 0 {
			done[b] = true
			continue
		}
		for _, n := range names {
			if id, ok := byName[n]; ok && nodes[id].mesh < 0 {
				done[b] = true
				x := without(m, "nodeName", "nodeNames")
				x["node"] = id
				x["useDefaultValues"] = x["useDefaultValues"] == true || x["min"] == nil && x["max"] == nil && x["center"] == nil
				want[b] = canon(drop0(x))
				if b == "head" {
					head = id
				}
				break
			}
		}
	}
	named := -1
	for _, b := range []string{"hips", "spine", "chest", "neck", "head", "leftUpperArm", "leftLowerArm", "leftHand", "rightUpperArm", "rightLowerArm", "rightHand",
		"leftUpperLeg", "leftLowerLeg", "leftFoot", "rightUpperLeg", "rightLowerLeg", "rightFoot"} {
		if id, ok := byName[b]; ok && !done[b] {
			want[b] = canon(drop0(rejson(jmap{"bone": b, "node": id, "useDefaultValues": true})))
			if b == "head" {
				named = id
			}
		}
	}
	got := map[string]string{}
	for _, x := range g.arr(g.obj(v["humanoid"]), "humanBones") {
		m := g.obj(x)
		b := str(m, "bone")
		if got[b] != "" {
			return "two bones " + b
		}
		got[b] = canon(drop0(m))
	}
	if m := text("bones", want, got); m != "" {
		return m
	}
	if fp, ok := v["firstPerson"].(jmap); ok || head > 0 {
		n := g.num(fp, "firstPersonBone", 0)
		if n != head && n != -1 && n != named && !(n == 0 && fp["firstPersonBone"] == nil) || head > 0 && n != head {
			return fmt.Sprintf("firstPersonBone is %d, the head is %d", n, head)
		}
	}

	// blend shapes
	where := map[string][][2]int{}
	var order []string
	for i := range g.list("meshes") {
		for k, n := range base.targetsOf(i) {
			if where[n] == nil {
				order = append(order, n)
			}
			where[n] = append(where[n], [2]int{i, k})
		}
	}
	used := map[[2]int]bool{}
	group := func(name, preset string, binds [][2]int, values interface{}) string {
		var b []string
		for _, x := range binds {
			b = append(b, fmt.Sprint(x[0], ":", x[1], "=100"))
			used[x] = true
		}
		return fmt.Sprintf("%q %q %s %s", name, preset, strings.ReplaceAll(sorted(b), "\n", ","), canon(drop0(values)))
	}
	var ws, gs []string
	for _, m := range both("morphMappings") {
		n := str(m, "name")
		if t := str(m, "targetName"); t != "" {
			if len(where[t]) > 0 || drop0(m["materialValues"]) != nil {
				ws = append(ws, group(n, n, where[t], m["materialValues"]))
			}
		} else if id, ok := byName[str(m, "nodeName")]; ok && nodes[id].mesh >= 0 {
			ws = append(ws, group(n, n, [][2]int{{nodes[id].mesh, num(m["targetIndex"])}}, nil))
		}
	}
	if e.all {
		for _, n := range order {
			var rest [][2]int
			for _, b := range where[n] {
				if !used[b] {
					rest = append(rest, b)
				}
			}
			if len(rest) > 0 {
				ws = append(ws, group(n, "", rest, nil))
			}
		}
	}
	for _, x := range g.arr(g.obj(v["blendShapeMaster"]), "blendShapeGroups") {
		m := g.obj(x)
		var b []string
		for _, y := range g.arr(m, "binds") {
			z := g.obj(y)
			b = append(b, fmt.Sprint(g.num(z, "mesh", -1), ":", g.num(z, "index", -1), "=", z["weight"]))
		}
		gs = append(gs, fmt.Sprintf("%q %q %s %s", m["name"], m["presetName"], strings.ReplaceAll(sorted(b), "\n", ","), canon(drop0(m["materialValues"]))))
	}
	if m := text("blend shapes", sorted(ws), sorted(gs)); m != "" {
		return m
	}

	// springs and colliders
	sa := g.obj(v["secondaryAnimation"])
	ws, gs = nil, nil
	collider := func(x jmap, node int) string { return fmt.Sprint(node, " ", canon(drop0(x["colliders"]))) }
	ref := map[int]string{} // of the configuration
	n0 := 0
	for _, c := range []jmap{e.conf, e.preset} {
		l := confList(c, "colliderGroups")
		for i, x := range l {
			if id, ok := byName[str(x, "nodeName")]; ok {
				ref[n0+i] = collider(x, id)
				ws = append(ws, ref[n0+i])
			}
		}
		n0 += len(l)
	}
	ws = append(ws, e.bodies()...)
	var gc []string
	for _, x := range g.arr(sa, "colliderGroups") {
		gc = append(gc, collider(g.obj(x), g.num(g.obj(x), "node", 0)))
	}
	if m := text("collider groups", sorted(ws), sorted(append(gs, gc...))); m != "" {
		return m
	}
	var springs, wantS []string
	taken := map[int]bool{}
	var below func(n int, mark bool) bool
	below = func(n int, mark bool) bool {
		if taken[n] {
			return true
		}
		for _, k := range nodes[n].kids {
			if below(k, mark) && !mark {
				return true
			}
		}
		if mark {
			taken[n] = true
		}
		return false
	}
	spring := func(m jmap, names []string, off int) {
		var bones []string
		for _, p := range names {
			for i, n := range nodes {
				ok := n.name == p
				if strings.ContainsAny(p, "*?") {
					ok, _ = path.Match(p, n.name)
				}
				if ok && n.mesh < 0 && !below(i, false) {
					below(i, true)
					bones = append(bones, fmt.Sprint(i))
				}
			}
		}
		var cs []string
		l, _ := m["colliderGroups"].([]interface{})
		for _, c := range l {
			if s, ok := ref[off+num(c)]; ok {
				cs = append(cs, s)
			}
		}
		if len(bones) > 0 {
			wantS = append(wantS, canon([]interface{}{drop0(without(m, "nodeNames", "colliderGroups")), sorted(bones), sorted(cs)}))
		}
	}
	for _, m := range confList(e.conf, "animationBoneGroups") {
		spring(m, strs(m["nodeNames"]), 0)
	}
	if names := e.chains(); len(names) > 0 {
		spring(rejson(jmap{"comment": "auto generated", "stiffiness": 5, "dragForce": 0.9, "hitRadius": 0.02, "center": -1}), names, 0)
	}
	for _, m := range confList(e.preset, "animationBoneGroups") {
		spring(m, strs(m["nodeNames"]), len(confList(e.conf, "colliderGroups")))
	}
	for _, x := range g.arr(sa, "boneGroups") {
		m := g.obj(x)
		var bones, cs []string
		for _, b := range g.arr(m, "bones") {
			bones = append(bones, fmt.Sprint(g.toInt(b)))
		}
		for _, c := range g.arr(m, "colliderGroups") {
			if i := g.toInt(c); i >= 0 && i < len(gc) {
				cs = append(cs, gc[i])
			} else {
				return fmt.Sprintf("a spring group refers to collider group %d of %d", i, len(gc))
			}
		}
		springs = append(springs, canon([]interface{}{drop0(without(m, "bones", "colliderGroups")), sorted(bones), sorted(cs)}))
	}
	if m := text("spring groups", sorted(wantS), sorted(springs)); m != "" {
		return m
	}

	// materials
	settings := jmap{}
	for _, c := range []jmap{e.preset, e.conf} {
		l, _ := c["materialSettings"].(jmap)
		for n, s := range l {
			settings[n] = s
		}
	}
	unlit := false
	props := g.arr(v, "materialProperties")
	if len(props) != len(base.list("materials")) {
		return fmt.Sprintf("%d material properties, %d materials", len(props), len(base.list("materials")))
	}
	if x, y := len(g.list("materials")), len(base.list("materials")); x != y {
		return fmt.Sprintf("%d materials, should be %d", x, y)
	}
	for i, x := range base.list("materials") {
		m := without(base.obj(x))
		n := str(m, "name")
		if p := g.obj(props[i]); str(p, "name") != n || str(p, "shader") != "VRM_USE_GLTFSHADER" {
			return fmt.Sprintf("material property %d is %v", i, canon(p))
		}
		s, ok := settings[n].(jmap)
		if !ok {
			s, _ = settings["*"].(jmap)
		}
		if s["forceUnlit"] == true {
			m["extensions"] = jmap{"KHR_materials_unlit": jmap{}}
			unlit = true
		}
		if a := str(s, "alphaMode"); a != "" {
			m["alphaMode"] = strings.ToUpper(a)
		}
		if a, _ := s["alpha"].(json.Number); canon(drop0(s["alpha"])) != "null" && m["pbrMetallicRoughness"] != nil {
			p := without(m["pbrMetallicRoughness"].(jmap))
			c := []interface{}{1, 1, 1, a}
			if old, ok := p["baseColorFactor"].([]interface{}); ok {
				c = append(append([]interface{}{}, old[:3]...), a)
			}
			p["baseColorFactor"] = c
			m["pbrMetallicRoughness"] = p
		}
		y := base.obj(g.list("materials")[i])
		if t := text("extensions of material "+n, m["extensions"], y["extensions"]); t != "" {
			return t
		}
		if t := text("material "+n, drop0(plainMat(m)), drop0(plainMat(y))); t != "" {
			return t
		}
	}
	ext := func(g *glb, add bool) jmap {
		m := jmap{}
		for _, x := range g.list("extensionsUsed") {
			m[fmt.Sprint(x)] = true
		}
		if add {
			m["KHR_materials_unlit"] = true
		}
		delete(m, "BLENDER_physics")
		return m
	}
	return text("extensionsUsed", ext(base, unlit), ext(g, false))
}

// bodies are the colliders that -physics makes, chains the names of the nodes
// where springs start.
func (e *confEnv) bodies() (r []string) {
	if e.phys == nil {
		return nil
	}
	g := e.phys
	single := func(v interface{}) float64 { return float64(float32(g.float(v))) }
	for i, v := range g.list("nodes") {
		b, ok := g.obj(g.obj(v)["extensions"])["BLENDER_physics"].(jmap)
		if !ok || b["static"] != true {
			continue
		}
		var cs []interface{}
		for _, x := range g.arr(b, "collisionShapes") {
			s := g.obj(x)
			size := g.arr(s, "offsetScale")
			if t := str(s, "shapeType"); t != "SPHERE" && t != "CAPSULE" || len(size) != 3 || g.float(size[0]) == 0 {
				continue
			}
			off := jmap{}
			for k, p := range g.arr(s, "offsetTranslation") {
				off["xyz"[k:k+1]] = single(p)
			}
			cs = append(cs, jmap{"radius": single(size[0]), "offset": off})
		}
		if cs != nil {
			r = append(r, fmt.Sprint(i, " ", canon(drop0(rejson(jmap{"colliders": cs})["colliders"]))))
		}
	}
	return
}

func (e *confEnv) chains() (names []string) {
	if e.phys == nil {
		return nil
	}
	g := e.phys
	nodes, _ := g.vnodes()
	parent := make([]int, len(nodes))
	for i := range parent {
		parent[i] = -1
	}
	for i, n := range nodes {
		for _, k := range n.kids {
			parent[k] = i
		}
	}
	var free func(i int) (all, some bool) // it and what is below it moves freely
	free = func(i int) (bool, bool) {
		b, ok := g.obj(g.obj(g.list("nodes")[i])["extensions"])["BLENDER_physics"].(jmap)
		if !ok {
			return len(nodes[i].kids) == 0, false
		}
		if b["static"] == true {
			return false, false
		}
		for _, k := range nodes[i].kids {
			if a, _ := free(k); !a {
				return false, false
			}
		}
		return true, true
	}
	for i, n := range nodes {
		if _, ok := free(i); ok {
			if p := parent[i]; p >= 0 {
				if a, _ := free(p); a {
					continue
				}
			}
			names = append(names, n.name)
		}
	}
	return
}

func (e *confEnv) run(t *Trial, st *Stats) string {
	if e.problem != "" {
		st.skip(e.problem)
		return ""
	}
	d := e.disk.Clone()
	did := e.attempt(t, 0, d, e.args, e.out, st, nil)
	if !strings.HasSuffix(did, ": ") {
		return did
	}
	g, err := readGLTF(e.out, d.ReadFile)
	if err != nil {
		return did + "the output cannot be read: " + err.Error()
	}
	if m := e.check(g); m != "" {
		return did + m
	}
	st.out("configured: " + e.w.Kind)
	st.state(d.Hash())
	return ""
}

func init() {
	register(&Scenario{Prop: "C18", Name: "config", Weight: 1, Kinds: []string{"pmx", "pmd", "mqox", "mqo", "mqoz", "fbxb", "gltf", "gltfe", "glb"},
		Exts: []string{".vrm"}, MaxSize: 5, Real: "the whole command",
		Setup: setupConf,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			return chainTrials(env.(*confEnv).ops, r, n)
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			return env.(*confEnv).run(t, st)
		}})
}
