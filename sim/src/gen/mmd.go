//go:build go1.22

package gen

import (
	"encoding/binary"
	"fmt"
	"unicode/utf16"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mmd"
)

func (r *R) v2() geom.Vector2 { return geom.Vector2{X: r.F(), Y: r.F()} }
func (r *R) v3() geom.Vector3 { return geom.Vector3{X: r.F(), Y: r.F(), Z: r.F()} }
func (r *R) v4() geom.Vector4 { return geom.Vector4{X: r.F(), Y: r.F(), Z: r.F(), W: r.F()} }
func (r *R) c3() geom.Vector3 { return geom.Vector3{X: r.U(), Y: r.U(), Z: r.U()} }
func (r *R) c4() geom.Vector4 {
	return geom.Vector4{X: r.U(), Y: r.U(), Z: r.U(), W: r.opacity()}
}

func (r *R) opacity() float32 {
	if r.P(50) {
		return 1
	}
	return r.U()
}

func (r *R) q() geom.Vector4 {
	q := geom.Vector4{X: r.U(), Y: r.U(), Z: r.U(), W: r.U() + 0.1}
	return q
}

func szFor(r *R, n, max1, max2 int) byte {
	c := []byte{4}
	if n <= max2 {
		c = append(c, 2)
	}
	if n <= max1 {
		c = append(c, 1)
	}
	return c[r.N(len(c))]
}

// MMDBoneNames are names that humanoid mapping and T-pose adjustment know.
var MMDBoneNames = []string{"センター", "上半身", "上半身2", "首", "頭", "左腕", "左ひじ", "左手首", "右腕", "右ひじ", "右手首", "下半身", "左足", "左ひざ", "左足首", "右足", "右ひざ", "右足首", "左目", "右目", "左足ＩＫ", "両目", "操作中心"}

// PMX makes a document as the parser returns it. textures: names of its textures.
func PMX(r *R, size int, textures []string) *mmd.Document {
	d := &mmd.Document{}
	d.Name, d.NameEn, d.Comment, d.CommentEn = r.Text(), r.Text(), r.Text(), r.Text()
	nb := r.In(1, 3+size*3)
	if size >= 2 && r.P(30) {
		nb = r.In(20, 24)
	}
	if size >= 3 && r.P(10) {
		nb = r.In(120, 140) // around the limit of one-byte indexes
	}
	nv := r.In(3, 6+size*8)
	if size >= 3 && r.P(10) {
		nv = r.In(250, 262)
	}
	nm := r.In(1, 1+size)
	nbody := r.N(1 + size*2)
	nmorph := r.N(2 + size*2)
	d.Textures = append(d.Textures, textures...)
	if r.Big > 0 {
		nt := 0
		k := r.PickN(0, 1, 1, 1, 2, 3, 4, 5)
		r.near([]*int{&nb, &nv, &nm, &nbody, &nmorph, &nt}[k], k == 1 || r.Big > 2)
		for i := 0; i < nt; i++ {
			d.Textures = append(d.Textures, fmt.Sprintf("none/t%d.png", i))
		}
	}
	extuv := 0
	if r.P(30) {
		extuv = r.In(1, 4)
	}
	d.Header = &mmd.Header{Format: []byte("PMX "), Version: 2}
	if r.P(20) {
		d.Header.Version = 2.1
	}
	d.Header.Info = []byte{byte(r.N(2)), byte(extuv), szFor(r, nv, 1<<8, 1<<16), szFor(r, len(d.Textures)+1, 1<<7, 1<<15), szFor(r, nm, 1<<7, 1<<15), szFor(r, nb, 1<<7, 1<<15), szFor(r, nmorph, 1<<7, 1<<15), szFor(r, nbody, 1<<7, 1<<15)}

	for i := 0; i < nv; i++ {
		v := &mmd.Vertex{Pos: r.v3(), Normal: r.v3(), UV: r.v2(), EdgeScale: r.F()}
		for k := 0; k < extuv; k++ {
			v.ExtUVs = append(v.ExtUVs, r.v4())
		}
		w := r.U()
		switch r.N(4) {
		case 0:
			v.Bones, v.BoneWeights = []int{r.N(nb)}, []float32{1}
		case 1:
			v.Bones, v.BoneWeights = []int{r.N(nb), r.N(nb)}, []float32{w, 1 - w}
		case 2:
			v.Bones, v.BoneWeights = []int{r.N(nb), r.N(nb), r.N(nb), r.N(nb)}, []float32{0.25, w / 2, r.U() / 4, 0}
		case 3:
			ws := []float32{w, 1 - w}
			for k := 0; k < 9; k++ {
				ws = append(ws, r.F())
			}
			v.Bones, v.BoneWeights = []int{r.N(nb), r.N(nb)}, ws
		}
		if r.Neat && len(v.BoneWeights) == 4 {
			v.BoneWeights[3] = 1 - v.BoneWeights[0] - v.BoneWeights[1] - v.BoneWeights[2]
			if v.BoneWeights[3] < 0 {
				v.BoneWeights = []float32{0.25, 0.5, 0.25, 0}
			}
		}
		d.Vertexes = append(d.Vertexes, v)
	}
	for m := 0; m < nm; m++ {
		nf := r.In(0, 2+size*2)
		for k := 0; k < nf; k++ {
			a := r.N(nv)
			b := (a + 1 + r.N(nv-1)) % nv
			c := r.N(nv)
			if r.Big > 0 && r.P(50) {
				c = nv - 1
			}
			d.Faces = append(d.Faces, &mmd.Face{Verts: [3]int{a, b, c}})
		}
		mat := &mmd.Material{Name: r.Name(m), NameEn: r.Text(), Color: r.c4(), Specular: r.c3(), Specularity: float32(r.N(50)), AColor: r.c3(),
			Flags: byte(r.N(32)), EdgeColor: r.c4(), EdgeScale: r.U(), TextureID: -1, EnvID: -1, EnvMode: byte(r.N(4)), ToonType: byte(r.N(2)), Memo: r.Text(), Count: nf * 3}
		if len(d.Textures) > 0 {
			mat.TextureID = r.In(-1, len(d.Textures)-1)
			mat.EnvID = r.In(-1, len(d.Textures)-1)
		}
		if mat.ToonType == 0 {
			mat.Toon = -1
			if len(d.Textures) > 0 && r.P(30) {
				mat.Toon = r.N(len(d.Textures))
			}
		} else {
			mat.Toon = r.N(10)
		}
		d.Materials = append(d.Materials, mat)
	}
	for i := 0; i < nb; i++ {
		b := &mmd.Bone{Name: r.BoneName(i), NameEn: r.Text(), Pos: r.v3(), ParentID: r.In(-1, i-1), Layer: r.N(3), TailID: -1}
		if (nb >= 20 && i < len(MMDBoneNames)) || !r.Human && r.P(40) {
			b.Name = MMDBoneNames[i%len(MMDBoneNames)]
			if i >= len(MMDBoneNames) {
				b.Name += fmt.Sprint(i)
			}
		}
		for _, f := range []uint16{1, 2, 4, 8, 16, 32, 256, 512, 1024, 2048, 4096, 8192} {
			p := 40
			if f >= 1024 || f == 32 {
				p = 15
			}
			if r.P(p) {
				b.Flags |= f
			}
		}
		if b.Flags&1 != 0 {
			b.TailID = r.In(-1, nb-1)
		} else {
			b.TailPos = r.v3()
		}
		if b.Flags&(256|512) != 0 {
			b.InheritParentID, b.InheritParentInfluence = r.N(nb), r.U()
			if b.InheritParentID == i || b.InheritParentID > i {
				b.InheritParentID = b.ParentID
			}
		}
		if b.Flags&1024 != 0 {
			b.FixedAxis = r.v3()
		}
		if b.Flags&32 != 0 {
			b.IK.TargetID, b.IK.Loop, b.IK.LimitRad = r.N(nb), r.N(50), r.F()
			for k := r.N(3); k > 0; k-- {
				l := &mmd.Link{TargetID: r.N(nb), HasLimit: r.P(50)}
				if l.HasLimit {
					l.LimitMin, l.LimitMax = r.v3(), r.v3()
				}
				b.IK.Links = append(b.IK.Links, l)
			}
		}
		d.Bones = append(d.Bones, b)
	}
	for i := 0; i < nmorph; i++ {
		m := &mmd.Morph{Name: r.MorphName(i), NameEn: r.Text(), PanelType: byte(r.N(5)), MorphType: byte(r.PickN(0, 1, 1, 1, 3, 8))}
		n := r.N(3 + size)
		for k := 0; k < n; k++ {
			switch m.MorphType {
			case 0:
				m.Group = append(m.Group, &mmd.MorphGroup{Target: r.N(nmorph), Weight: r.U()})
			case 1:
				m.Vertex = append(m.Vertex, &mmd.MorphVertex{Target: r.N(nv), Offset: r.v3()})
			case 3:
				m.UV = append(m.UV, &mmd.MorphUV{Target: r.N(nv), Value: r.v4()})
			case 8:
				m.Material = append(m.Material, &mmd.MorphMaterial{Target: r.In(-1, nm-1), Flags: byte(r.N(2)), Diffuse: r.c4(), Specular: r.c3(), Specularity: r.U(),
					Ambient: r.c3(), EdgeColor: r.c4(), EdgeSize: r.U(), TextureTint: r.c4(), EnvironmentTint: r.c4(), ToonTint: r.c4()})
			}
		}
		d.Morphs = append(d.Morphs, m)
	}
	for i := 0; i < nbody; i++ {
		d.Bodies = append(d.Bodies, &mmd.RigidBody{Name: r.Name(i), NameEn: r.Text(), Bone: r.In(-1, nb-1), Group: r.N(16), GroupTarget: r.In(-32768, 32767), Shape: uint8(r.N(3)),
			Size: r.v3(), Position: r.v3(), Rotation: r.v3(), Mass: r.U(), LinearDamping: r.U(), AngularDamping: r.U(), Restitution: r.U(), Friction: r.U(), Mode: uint8(r.N(3))})
	}
	if nbody > 0 {
		for i := r.N(1 + size); i > 0; i-- {
			d.Joints = append(d.Joints, &mmd.Joint{Name: r.Name(i), NameEn: r.Text(), Type: 0, Body1: r.N(nbody), Body2: r.N(nbody), Position: r.v3(), Rotation: r.v3(),
				PositionMin: r.v3(), PositionMax: r.v3(), RotationMin: r.v3(), RotationMax: r.v3(), LinerSpring: r.v3(), AngulerSpring: r.v3()})
		}
	}
	if r.Cyclic && len(d.Bones) > 0 {
		n := len(d.Bones)
		for k := r.In(1, 3); k > 0; k-- {
			b := d.Bones[r.N(n)]
			switch r.N(4) {
			case 0, 1:
				b.ParentID = r.N(n)
			case 2:
				b.Flags |= mmd.BoneFlagInheritRotation
				b.InheritParentID, b.InheritParentInfluence = r.N(n), 1
			case 3:
				b.Flags |= mmd.BoneFlagEnableIK
				b.IK.TargetID = r.N(n)
				b.IK.Links = append(b.IK.Links, &mmd.Link{TargetID: r.N(n)}, &mmd.Link{TargetID: b.IK.TargetID})
			}
		}
		for _, m := range d.Morphs {
			for _, g := range m.Group {
				g.Target = r.N(len(d.Morphs))
			}
		}
	}
	return d
}

// EncodePMX writes d as a .pmx file.
func EncodePMX(r *R, d *mmd.Document) []byte {
	var e enc
	info := d.Header.Info
	text := func(s string) {
		if info[0] == 0 {
			u := utf16.Encode([]rune(s))
			e.u32(len(u) * 2)
			e.le(u)
		} else {
			e.u32(len(s))
			e.WriteString(s)
		}
	}
	vi, ti, mi, bi, oi, ri := info[2], info[3], info[4], info[5], info[6], info[7]
	e.WriteString("PMX ")
	e.le(d.Header.Version)
	e.u8(len(info))
	e.Write(info)
	text(d.Name)
	text(d.NameEn)
	text(d.Comment)
	text(d.CommentEn)
	e.u32(len(d.Vertexes))
	for _, v := range d.Vertexes {
		e.le(v.Pos)
		e.le(v.Normal)
		e.le(v.UV)
		e.le(v.ExtUVs)
		switch len(v.BoneWeights) {
		case 1:
			e.u8(0)
			e.idx(bi, v.Bones[0])
		case 2:
			e.u8(1)
			e.idx(bi, v.Bones[0])
			e.idx(bi, v.Bones[1])
			e.le(v.BoneWeights[0])
		case 4:
			e.u8(2)
			for _, b := range v.Bones {
				e.idx(bi, b)
			}
			e.le(v.BoneWeights)
		default:
			e.u8(3)
			e.idx(bi, v.Bones[0])
			e.idx(bi, v.Bones[1])
			e.le(v.BoneWeights[0])
			e.le(v.BoneWeights[2:])
		}
		e.le(v.EdgeScale)
	}
	e.u32(len(d.Faces) * 3)
	for _, f := range d.Faces {
		for _, v := range f.Verts {
			e.idx(vi, v)
		}
	}
	e.u32(len(d.Textures))
	for _, t := range d.Textures {
		text(t)
	}
	e.u32(len(d.Materials))
	for _, m := range d.Materials {
		text(m.Name)
		text(m.NameEn)
		e.le(m.Color)
		e.le(m.Specular)
		e.le(m.Specularity)
		e.le(m.AColor)
		e.le(m.Flags)
		e.le(m.EdgeColor)
		e.le(m.EdgeScale)
		e.idx(ti, m.TextureID)
		e.idx(ti, m.EnvID)
		e.le(m.EnvMode)
		e.le(m.ToonType)
		if m.ToonType == 0 {
			e.idx(ti, m.Toon)
		} else {
			e.u8(m.Toon)
		}
		text(m.Memo)
		e.u32(m.Count)
	}
	e.u32(len(d.Bones))
	for _, b := range d.Bones {
		text(b.Name)
		text(b.NameEn)
		e.le(b.Pos)
		e.idx(bi, b.ParentID)
		e.u32(b.Layer)
		e.le(b.Flags)
		if b.Flags&1 != 0 {
			e.idx(bi, b.TailID)
		} else {
			e.le(b.TailPos)
		}
		if b.Flags&(256|512) != 0 {
			e.idx(bi, b.InheritParentID)
			e.le(b.InheritParentInfluence)
		}
		if b.Flags&1024 != 0 {
			e.le(b.FixedAxis)
		}
		if b.Flags&2048 != 0 {
			e.le(r.v3())
			e.le(r.v3())
		}
		if b.Flags&8192 != 0 {
			e.idx(bi, 0)
		}
		if b.Flags&32 != 0 {
			e.idx(bi, b.IK.TargetID)
			e.u32(b.IK.Loop)
			e.le(b.IK.LimitRad)
			e.u32(len(b.IK.Links))
			for _, l := range b.IK.Links {
				e.idx(bi, l.TargetID)
				if l.HasLimit {
					e.u8(1)
					e.le(l.LimitMin)
					e.le(l.LimitMax)
				} else {
					e.u8(0)
				}
			}
		}
	}
	e.u32(len(d.Morphs))
	for _, m := range d.Morphs {
		text(m.Name)
		text(m.NameEn)
		e.le(m.PanelType)
		e.le(m.MorphType)
		e.u32(len(m.Group) + len(m.Vertex) + len(m.UV) + len(m.Material))
		for _, v := range m.Group {
			e.idx(oi, v.Target)
			e.le(v.Weight)
		}
		for _, v := range m.Vertex {
			e.idx(vi, v.Target)
			e.le(v.Offset)
		}
		for _, v := range m.UV {
			e.idx(vi, v.Target)
			e.le(v.Value)
		}
		for _, v := range m.Material {
			e.idx(mi, v.Target)
			e.le(v.Flags)
			e.le(v.Diffuse)
			e.le(v.Specular)
			e.le(v.Specularity)
			e.le(v.Ambient)
			e.le(v.EdgeColor)
			e.le(v.EdgeSize)
			e.le(v.TextureTint)
			e.le(v.EnvironmentTint)
			e.le(v.ToonTint)
		}
	}
	ng := r.N(3)
	e.u32(ng)
	for i := 0; i < ng; i++ {
		text(r.Name(i))
		text("")
		e.u8(r.N(2))
		n := r.N(3)
		e.u32(n)
		for k := 0; k < n; k++ {
			t := r.N(2)
			e.u8(t)
			if t == 0 {
				e.idx(bi, r.N(len(d.Bones)))
			} else {
				e.idx(oi, 0)
			}
		}
	}
	e.u32(len(d.Bodies))
	for _, b := range d.Bodies {
		text(b.Name)
		text(b.NameEn)
		e.idx(bi, b.Bone)
		e.u8(b.Group)
		e.u16(b.GroupTarget)
		e.le(b.Shape)
		e.le(b.Size)
		e.le(b.Position)
		e.le(b.Rotation)
		e.le([]float32{b.Mass, b.LinearDamping, b.AngularDamping, b.Restitution, b.Friction})
		e.le(b.Mode)
	}
	e.u32(len(d.Joints))
	for _, j := range d.Joints {
		text(j.Name)
		text(j.NameEn)
		e.le(j.Type)
		e.idx(ri, j.Body1)
		e.idx(ri, j.Body2)
		for _, v := range []geom.Vector3{j.Position, j.Rotation, j.PositionMin, j.PositionMax, j.RotationMin, j.RotationMax, j.LinerSpring, j.AngulerSpring} {
			e.le(v)
		}
	}
	return e.Bytes()
}

// PMD makes a .pmd file and the number of bytes of it that the document depends on.
func PMD(r *R, size int, textures []string) []byte {
	var e enc
	nv := r.In(3, 6+size*8)
	nb := r.In(1, 3+size*3)
	if size >= 2 && r.P(30) {
		nb = 22
	}
	nm := r.In(1, 1+size)
	if r.Big > 0 {
		switch r.N(3) {
		case 0:
			r.near(&nv, true)
			if nv > 65535 {
				nv = 65535
			}
		case 1:
			r.near(&nb, false)
			if nb > 65535 {
				nb = 32760
			}
		case 2:
			r.near(&nm, false)
		}
	}
	e.WriteString("Pmd")
	e.le(float32(1))
	e.Write(sjisFix(r.Name(0), 20))
	e.Write(sjisFix(r.Text(), 256))
	e.u32(nv)
	for i := 0; i < nv; i++ {
		e.le(r.v3())
		e.le(r.v3())
		e.le(r.v2())
		e.u16(r.N(nb))
		e.u16(r.N(nb))
		e.u8(r.N(101))
		e.u8(r.N(2))
	}
	var counts []int
	total := 0
	for i := 0; i < nm; i++ {
		n := r.In(0, 2+size*2)
		counts = append(counts, n*3)
		total += n * 3
	}
	e.u32(total)
	for i := 0; i < total/3; i++ {
		a := r.N(nv)
		e.u16(a)
		e.u16((a + 1) % nv)
		e.u16(r.N(nv))
	}
	e.u32(nm)
	for i := 0; i < nm; i++ {
		e.le(r.c4())
		e.le(r.U())
		e.le(r.c3())
		e.le(r.c3())
		e.u8(r.N(10))
		e.u8(r.N(2))
		e.u32(counts[i])
		t := ""
		if len(textures) > 0 && r.P(60) {
			t = textures[r.N(len(textures))]
			if r.P(30) {
				t += "*" + "x.sph"
			}
		}
		e.Write(sjisFix(t, 20))
	}
	e.u16(nb)
	for i := 0; i < nb; i++ {
		name := r.BoneName(i)
		if nb == 22 || !r.Human && r.P(40) {
			name = MMDBoneNames[i%len(MMDBoneNames)]
		}
		e.Write(sjisFix(name, 20))
		p := 0xffff
		if i > 0 && r.P(80) {
			p = r.N(i)
		}
		e.u16(p)
		e.u16(r.N(nb))
		e.u8(r.N(9))
		e.u16(0)
		e.le(r.v3())
	}
	nik := r.N(2 + size)
	e.u16(nik)
	for i := 0; i < nik; i++ {
		e.u16(r.N(nb))
		e.u16(r.N(nb))
		n := r.N(3)
		e.u8(n)
		e.u16(r.N(40))
		e.le(r.U())
		for k := 0; k < n; k++ {
			e.u16(r.N(nb))
		}
	}
	nmo := r.N(2 + size)
	if nmo == 0 {
		e.u16(0)
	} else {
		e.u16(nmo + 1)
		base := r.In(1, nv)
		e.Write(sjisFix("base", 20))
		e.u32(base)
		e.u8(0)
		for i := 0; i < base; i++ {
			e.u32(i)
			e.le(r.v3())
		}
		for k := 0; k < nmo; k++ {
			e.Write(sjisFix(r.MorphName(k), 20))
			n := r.N(base + 1)
			e.u32(n)
			e.u8(r.In(1, 4))
			for i := 0; i < n; i++ {
				e.u32(r.N(base))
				e.le(r.v3())
			}
		}
	}
	return e.Bytes()
}

// VMD makes a .vmd file for the given bone and morph names.
func VMD(r *R, size int, bones, morphs []string) []byte {
	var e enc
	e.Write(append([]byte("Vocaloid Motion Data 0002"), 0, 0, 0, 0, 0))
	e.Write(sjisFix(r.Name(0), 20))
	if len(bones) == 0 {
		bones = []string{"センター"}
	}
	if len(morphs) == 0 {
		morphs = []string{"あ"}
	}
	n := r.N(4 + size*6)
	e.u32(n)
	seen := map[string]bool{}
	grid := r.P(40) // key frames at the same places
	frame := func(b string) int {
		f := r.N(300)
		if grid {
			f = r.N(6) * 10
		}
		for seen[fmt.Sprint(b, " ", f)] {
			f++
			if grid {
				f += 9
			}
		}
		seen[fmt.Sprint(b, " ", f)] = true
		return f
	}
	still := map[string]int{}
	for _, b := range bones {
		still[b] = r.N(5) // 0: turned only, 1: moved only
	}
	for i := 0; i < n; i++ {
		b := bones[r.N(len(bones))]
		f := frame(b)
		e.Write(sjisFix(b, 15))
		e.u32(f)
		p, q := r.v3(), r.q()
		if still[b] == 0 {
			p = mmd.Vector3{}
		}
		if still[b] == 1 {
			q = mmd.Vector4{W: 1}
		}
		e.le(p)
		e.le(q)
		var c [64]byte
		binary.LittleEndian.PutUint64(c[:], r.U64())
		e.Write(c[:])
	}
	n = r.N(4 + size*4)
	e.u32(n)
	seen = map[string]bool{}
	for i := 0; i < n; i++ {
		b := morphs[r.N(len(morphs))]
		f := frame(b)
		e.Write(sjisFix(b, 15))
		e.u32(f)
		e.le(r.U())
	}
	return e.Bytes()
}
