From 1755e96bf16186b190e7523bfd3e1323dca7c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:09 +0000
Subject: [PATCH 01/76] fix: mmd: report read errors, truncation and bad counts
 instead of returning a partial model or exiting

Short reads of the signature broke the format detection, read errors were
overwritten or dropped, and counts taken from the file were allocated up front.
---
 mmd/base_parser.go | 48 ++++++++++++++++++------
 mmd/pmd_parser.go  | 54 ++++++++++++++++-----------
 mmd/pmx_parser.go  | 93 ++++++++++++++++++++++------------------------
 mmd/vmd_parser.go  | 12 ++++--
 4 files changed, 123 insertions(+), 84 deletions(-)

diff --git a/mmd/base_parser.go b/mmd/base_parser.go
index f2896a4..189b225 100644
--- a/mmd/base_parser.go
+++ b/mmd/base_parser.go
@@ -1,7 +1,9 @@
 package mmd
 
 import (
+	"bytes"
 	"encoding/binary"
+	"fmt"
 	"io"
 )
 
@@ -10,68 +12,92 @@ type baseParser struct {
 	err error
 }
 
+// read keeps the first error: after it nothing more is read.
 func (p *baseParser) read(v interface{}) error {
-	return binary.Read(p.r, binary.LittleEndian, v)
+	if p.err == nil {
+		p.err = binary.Read(p.r, binary.LittleEndian, v)
+		if p.err == io.EOF {
+			p.err = io.ErrUnexpectedEOF
+		}
+	}
+	return p.err
+}
+
+// readBytes reads n bytes. Memory grows with the data, not with n.
+func (p *baseParser) readBytes(n int) []byte {
+	var buf bytes.Buffer
+	if p.err == nil {
+		if _, p.err = io.CopyN(&buf, p.r, int64(n)); p.err == io.EOF {
+			p.err = io.ErrUnexpectedEOF
+		}
+	}
+	return buf.Bytes()
 }
 
 func (p *baseParser) readUint8() uint8 {
 	var v uint8
-	binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return v
 }
 
 func (p *baseParser) readUint16() uint16 {
 	var v uint16
-	p.err = binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return v
 }
 
 func (p *baseParser) readInt() int {
 	var v uint32
-	p.err = binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return int(v)
 }
 
 func (p *baseParser) readFloat() float32 {
 	var v float32
-	p.err = binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return v
 }
 
 func (p *baseParser) readVUInt(sz byte) int {
 	if sz == 1 {
 		var v uint8
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 2 {
 		var v uint16
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 4 {
 		var v uint32
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
+	if p.err == nil {
+		p.err = fmt.Errorf("Invalid index size: %d", sz)
+	}
 	return 0
 }
 
 func (p *baseParser) readVInt(sz byte) int {
 	if sz == 1 {
 		var v int8
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 2 {
 		var v int16
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 4 {
 		var v int32
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
+	if p.err == nil {
+		p.err = fmt.Errorf("Invalid index size: %d", sz)
+	}
 	return 0
 }
diff --git a/mmd/pmd_parser.go b/mmd/pmd_parser.go
index fa31023..da89552 100644
--- a/mmd/pmd_parser.go
+++ b/mmd/pmd_parser.go
@@ -39,8 +39,7 @@ func (p *PMDParser) readHeader() error {
 	if string(h.Format) != "Pmd" {
 		return fmt.Errorf("Unsupported format")
 	}
-	p.read(&h.Version)
-	return nil
+	return p.read(&h.Version)
 }
 
 func (p *PMDParser) readVertex() *Vertex {
@@ -100,7 +99,7 @@ func (p *PMDParser) readMorph() *Morph {
 	m.Name = p.readString(20)
 	vn := p.readInt()
 	p.read(&m.PanelType)
-	for i := 0; i < vn; i++ {
+	for i := 0; i < vn && p.err == nil; i++ {
 		var mv MorphVertex
 		mv.Target = p.readVInt(4)
 		p.read(&mv.Offset)
@@ -122,40 +121,43 @@ func (p *PMDParser) Parse() (*Document, error) {
 
 	// Vertexes
 	n := p.readInt()
-	model.Vertexes = make([]*Vertex, n)
-	for i := 0; i < n; i++ {
-		model.Vertexes[i] = p.readVertex()
+	for i := 0; i < n && p.err == nil; i++ {
+		model.Vertexes = append(model.Vertexes, p.readVertex())
 	}
 
 	// Faces
 	n = p.readInt()
-	model.Faces = make([]*Face, n/3)
-	for i := 0; i < n/3; i++ {
+	for i := 0; i < n/3 && p.err == nil; i++ {
 		var f Face
 		f.Verts[0] = int(p.readUint16())
 		f.Verts[1] = int(p.readUint16())
 		f.Verts[2] = int(p.readUint16())
-		model.Faces[i] = &f
+		model.Faces = append(model.Faces, &f)
 	}
 
 	// Materials
 	mn := p.readInt()
-	model.Materials = make([]*Material, mn)
-	for i := 0; i < mn; i++ {
-		model.Materials[i] = p.readMaterial(&model, i)
+	for i := 0; i < mn && p.err == nil; i++ {
+		model.Materials = append(model.Materials, p.readMaterial(&model, i))
 	}
 
 	// Bones
 	bn := int(p.readUint16())
-	model.Bones = make([]*Bone, bn)
-	for i := 0; i < bn; i++ {
-		model.Bones[i] = p.readBone()
+	for i := 0; i < bn && p.err == nil; i++ {
+		model.Bones = append(model.Bones, p.readBone())
 	}
 
 	// IK
 	n = int(p.readUint16())
-	for i := 0; i < n; i++ {
-		b := model.Bones[p.readUint16()]
+	for i := 0; i < n && p.err == nil; i++ {
+		bi := int(p.readUint16())
+		if p.err == nil && bi >= len(model.Bones) {
+			p.err = fmt.Errorf("Invalid bone index: %d", bi)
+		}
+		if p.err != nil {
+			break
+		}
+		b := model.Bones[bi]
 		b.IK.TargetID = p.readVInt(2)
 		ln := int(p.readUint8())
 		b.IK.Loop = int(p.readUint16())
@@ -169,14 +171,24 @@ func (p *PMDParser) Parse() (*Document, error) {
 	n = int(p.readUint16())
 	if n > 0 {
 		base := p.readMorph()
-		model.Morphs = make([]*Morph, n-1)
-		for i := 0; i < n-1; i++ {
-			model.Morphs[i] = p.readMorph()
-			for _, v := range model.Morphs[i].Vertex {
+		model.Morphs = make([]*Morph, 0, n-1)
+		for i := 0; i < n-1 && p.err == nil; i++ {
+			morph := p.readMorph()
+			model.Morphs = append(model.Morphs, morph)
+			for _, v := range morph.Vertex {
+				if v.Target < 0 || v.Target >= len(base.Vertex) {
+					if p.err == nil {
+						p.err = fmt.Errorf("Invalid morph vertex: %d", v.Target)
+					}
+					break
+				}
 				v.Target = base.Vertex[v.Target].Target
 			}
 		}
 	}
 
+	if p.err != nil {
+		return nil, p.err
+	}
 	return &model, nil
 }
diff --git a/mmd/pmx_parser.go b/mmd/pmx_parser.go
index fad066a..bbc080b 100644
--- a/mmd/pmx_parser.go
+++ b/mmd/pmx_parser.go
@@ -34,13 +34,14 @@ func (p *PMXParser) readText() string {
 	len := p.readInt()
 
 	if p.header.Info[AttrStringEncoding] == 0 {
-		utf16data := make([]uint16, len/2)
-		binary.Read(p.r, binary.LittleEndian, &utf16data)
+		data := p.readBytes(len / 2 * 2)
+		utf16data := make([]uint16, 0)
+		for i := 0; p.err == nil && i < len/2; i++ {
+			utf16data = append(utf16data, binary.LittleEndian.Uint16(data[i*2:]))
+		}
 		return string(utf16.Decode(utf16data))
 	}
-	data := make([]byte, len)
-	binary.Read(p.r, binary.LittleEndian, &data)
-	return string(data)
+	return string(p.readBytes(len))
 }
 
 func (p *PMXParser) readHeader() error {
@@ -57,24 +58,19 @@ func (p *PMXParser) readHeader() error {
 	p.read(&h.Version)
 	h.Info = make([]byte, p.readUint8())
 	p.read(&h.Info)
-	return nil
+	if p.err == nil && len(h.Info) <= AttrRBIndexSz {
+		p.err = fmt.Errorf("Invalid header: %d settings", len(h.Info))
+	}
+	return p.err
 }
 
 func (p *PMXParser) readVertex() *Vertex {
 	var v Vertex
-	if err := p.read(&v.Pos); err != nil {
-		log.Fatal(err)
-	}
-	if err := p.read(&v.Normal); err != nil {
-		log.Fatal(err)
-	}
-	if err := p.read(&v.UV); err != nil {
-		log.Fatal(err)
-	}
+	p.read(&v.Pos)
+	p.read(&v.Normal)
+	p.read(&v.UV)
 	v.ExtUVs = make([]Vector4, p.header.Info[AttrExtUV])
-	if err := p.read(&v.ExtUVs); err != nil {
-		log.Fatal(err)
-	}
+	p.read(&v.ExtUVs)
 	wehghtType := p.readUint8()
 	if wehghtType == 0 {
 		v.Bones = []int{p.readIndex(AttrBoneIndexSz)}
@@ -102,9 +98,8 @@ func (p *PMXParser) readVertex() *Vertex {
 		weights := [11]float32{w, 1 - w}
 		v.BoneWeights = weights[:]
 		p.read(weights[2:])
-	} else {
-		log.Println(v)
-		log.Fatal("unknown weight ", wehghtType)
+	} else if p.err == nil {
+		p.err = fmt.Errorf("unknown weight %v", wehghtType)
 	}
 	v.EdgeScale = p.readFloat()
 	return &v
@@ -190,7 +185,7 @@ func (p *PMXParser) readBone() *Bone {
 		b.IK.Loop = p.readInt()
 		b.IK.LimitRad = p.readFloat()
 		links := p.readInt()
-		for i := 0; i < links; i++ {
+		for i := 0; i < links && p.err == nil; i++ {
 			var l Link
 			l.TargetID = p.readIndex(AttrBoneIndexSz)
 			l.HasLimit = p.readUint8() != 0
@@ -213,7 +208,7 @@ func (p *PMXParser) readMorph() *Morph {
 	p.read(&m.MorphType)
 
 	n := p.readInt()
-	for i := 0; i < n; i++ {
+	for i := 0; i < n && p.err == nil; i++ {
 		switch m.MorphType {
 		case 0:
 			m.Group = append(m.Group, &MorphGroup{
@@ -254,8 +249,9 @@ func (p *PMXParser) readMorph() *Morph {
 			m.Material = append(m.Material, &v)
 			break
 		default:
-			log.Fatal("Unknown morph type ", m.MorphType)
-			break
+			if p.err == nil {
+				p.err = fmt.Errorf("Unknown morph type %v", m.MorphType)
+			}
 		}
 	}
 
@@ -278,7 +274,7 @@ func (p *PMXParser) readDisplayGroup() {
 	d.NameEn = p.readText()
 	d.Flags = p.readUint8()
 	n := p.readInt()
-	for i := 0; i < n; i++ {
+	for i := 0; i < n && p.err == nil; i++ {
 		t := DisplayTarget{Type: p.readUint8()}
 		if t.Type == 0 {
 			t.Target = p.readIndex(AttrBoneIndexSz)
@@ -350,56 +346,53 @@ func (p *PMXParser) Parse() (*Document, error) {
 	pmx.CommentEn = p.readText()
 
 	vn := p.readInt()
-	pmx.Vertexes = make([]*Vertex, vn)
-	for i := 0; i < vn; i++ {
-		pmx.Vertexes[i] = p.readVertex()
+	for i := 0; i < vn && p.err == nil; i++ {
+		pmx.Vertexes = append(pmx.Vertexes, p.readVertex())
 	}
 
 	fn := p.readInt() / 3
-	pmx.Faces = make([]*Face, fn)
-	for i := 0; i < fn; i++ {
-		pmx.Faces[i] = p.readFace()
+	for i := 0; i < fn && p.err == nil; i++ {
+		pmx.Faces = append(pmx.Faces, p.readFace())
 	}
 
 	tn := p.readInt()
-	pmx.Textures = make([]string, tn)
-	for i := 0; i < tn; i++ {
-		pmx.Textures[i] = p.readText()
+	for i := 0; i < tn && p.err == nil; i++ {
+		pmx.Textures = append(pmx.Textures, p.readText())
 	}
 
 	mn := p.readInt()
-	pmx.Materials = make([]*Material, mn)
-	for i := 0; i < mn; i++ {
-		pmx.Materials[i] = p.readMaterial()
+	for i := 0; i < mn && p.err == nil; i++ {
+		pmx.Materials = append(pmx.Materials, p.readMaterial())
 	}
 
 	bn := p.readInt()
-	pmx.Bones = make([]*Bone, bn)
-	for i := 0; i < bn; i++ {
-		pmx.Bones[i] = p.readBone()
+	for i := 0; i < bn && p.err == nil; i++ {
+		pmx.Bones = append(pmx.Bones, p.readBone())
 	}
 
 	pn := p.readInt()
-	pmx.Morphs = make([]*Morph, pn)
-	for i := 0; i < pn; i++ {
-		pmx.Morphs[i] = p.readMorph()
+	for i := 0; i < pn && p.err == nil; i++ {
+		pmx.Morphs = append(pmx.Morphs, p.readMorph())
 	}
 
 	gn := p.readInt()
-	for i := 0; i < gn; i++ {
+	for i := 0; i < gn && p.err == nil; i++ {
 		p.readDisplayGroup() // TODO
 	}
 
 	rb := p.readInt()
-	for i := 0; i < rb; i++ {
+	for i := 0; i < rb && p.err == nil; i++ {
 		pmx.Bodies = append(pmx.Bodies, p.readRigidBody())
 	}
 
 	jn := p.readInt()
-	for i := 0; i < jn; i++ {
+	for i := 0; i < jn && p.err == nil; i++ {
 		pmx.Joints = append(pmx.Joints, p.readJoint())
 	}
 
+	if p.err != nil {
+		return nil, p.err
+	}
 	return &pmx, nil
 }
 
@@ -407,7 +400,7 @@ func (p *PMXParser) Parse() (*Document, error) {
 func Parse(r io.Reader) (*Document, error) {
 	// check format
 	format := make([]byte, 4)
-	if _, err := r.Read(format[:3]); err != nil {
+	if _, err := io.ReadFull(r, format[:3]); err != nil {
 		return nil, err
 	}
 
@@ -416,7 +409,9 @@ func Parse(r io.Reader) (*Document, error) {
 		p.header = &Header{Format: format[:3]}
 		return p.Parse()
 	}
-	r.Read(format[3:])
+	if _, err := io.ReadFull(r, format[3:]); err != nil {
+		return nil, err
+	}
 	p := NewPMXParser(bufio.NewReader(r))
 	p.header = &Header{Format: format}
 	return p.Parse()
diff --git a/mmd/vmd_parser.go b/mmd/vmd_parser.go
index 8e0755e..6686f15 100644
--- a/mmd/vmd_parser.go
+++ b/mmd/vmd_parser.go
@@ -113,6 +113,9 @@ func (p *VMDParser) Parse() (*Animation, error) {
 	var supportedFormat = "Vocaloid Motion Data 0002"
 
 	formatName := p.readString(30)
+	if p.err != nil {
+		return nil, p.err
+	}
 	if formatName != supportedFormat {
 		return nil, fmt.Errorf("Format error: %v != %v", formatName, supportedFormat)
 	}
@@ -120,7 +123,7 @@ func (p *VMDParser) Parse() (*Animation, error) {
 	anim.Name = p.readString(20)
 
 	frames := p.readInt()
-	for i := 0; i < frames; i++ {
+	for i := 0; i < frames && p.err == nil; i++ {
 		sample := &AnimationBoneSample{}
 		sample.Target = p.readString(15)
 		sample.Frame = p.readInt()
@@ -131,7 +134,7 @@ func (p *VMDParser) Parse() (*Animation, error) {
 	}
 
 	frames = p.readInt()
-	for i := 0; i < frames; i++ {
+	for i := 0; i < frames && p.err == nil; i++ {
 		sample := &AnimationMorphSample{}
 		sample.Target = p.readString(15)
 		sample.Frame = p.readInt()
@@ -139,7 +142,10 @@ func (p *VMDParser) Parse() (*Animation, error) {
 		anim.Morph = append(anim.Morph, sample)
 	}
 
-	return &anim, p.err
+	if p.err != nil {
+		return nil, p.err
+	}
+	return &anim, nil
 }
 
 func (p *VMDParser) readString(len int) string {
-- 
2.43.0


From 410080a18d51a5b7a83252213240fcc36100cad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:09 +0000
Subject: [PATCH 02/76] fix: mmd: report write and close errors when saving a
 pmx, and close the file

---
 mmd/mmd.go        |  6 +++++-
 mmd/pmx_writer.go | 35 ++++++++++++++++++++---------------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/mmd/mmd.go b/mmd/mmd.go
index f893a12..75d6ef3 100644
--- a/mmd/mmd.go
+++ b/mmd/mmd.go
@@ -244,5 +244,9 @@ func Save(doc *Document, path string) error {
 	if err != nil {
 		return err
 	}
-	return WritePMX(doc, w)
+	err = WritePMX(doc, w)
+	if cerr := w.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index e7de800..46f228f 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -7,44 +7,49 @@ import (
 )
 
 type baseWriter struct {
-	w io.Writer
+	w   io.Writer
+	err error
 }
 
+// write keeps the first error: after it nothing more is written.
 func (p *baseWriter) write(v interface{}) error {
-	return binary.Write(p.w, binary.LittleEndian, v)
+	if p.err == nil {
+		p.err = binary.Write(p.w, binary.LittleEndian, v)
+	}
+	return p.err
 }
 
 func (p *baseWriter) writeUint8(v uint8) {
-	binary.Write(p.w, binary.LittleEndian, &v)
+	p.write(&v)
 }
 
 func (p *baseWriter) writeUint16(v uint16) {
-	binary.Write(p.w, binary.LittleEndian, &v)
+	p.write(&v)
 }
 
 func (p *baseWriter) writeInt(v int) {
 	vv := int32(v)
-	binary.Write(p.w, binary.LittleEndian, &vv)
+	p.write(&vv)
 }
 
 func (p *baseWriter) writeFloat(v float32) {
-	binary.Write(p.w, binary.LittleEndian, &v)
+	p.write(&v)
 }
 
 func (p *baseWriter) writeVUInt(sz byte, vv int) int {
 	if sz == 1 {
 		var v = uint8(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	if sz == 2 {
 		var v = uint16(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	if sz == 4 {
 		var v = uint32(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	return 0
@@ -53,17 +58,17 @@ func (p *baseWriter) writeVUInt(sz byte, vv int) int {
 func (p *baseWriter) writeVInt(sz byte, vv int) int {
 	if sz == 1 {
 		var v = int8(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	if sz == 2 {
 		var v = int16(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	if sz == 4 {
 		var v = int32(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	return 0
@@ -134,12 +139,12 @@ func (w *PMXWriter) Write(doc *Document) error {
 
 	w.writeInt(0)
 
-	return nil
+	return w.err
 }
 
 func (w *PMXWriter) writeText(v string) {
 	w.writeInt(len(v))
-	binary.Write(w.w, binary.LittleEndian, []byte(v))
+	w.write([]byte(v))
 }
 
 func (w *PMXWriter) writeIndex(attrTyp int, v int) {
@@ -386,5 +391,5 @@ func (w *PMXWriter) writeJoint(j *Joint) {
 
 // WritePMX writes .pmx data
 func WritePMX(doc *Document, w io.Writer) error {
-	return (&PMXWriter{baseWriter: baseWriter{w}}).Write(doc)
+	return (&PMXWriter{baseWriter: baseWriter{w: w}}).Write(doc)
 }
-- 
2.43.0


From 08bf50741224c96a3615e1e30a191dcd0e0117dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:09 +0000
Subject: [PATCH 03/76] fix: mmd: write joint bodies with the rigid body index
 size, as they are read

---
 mmd/pmx_writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index 46f228f..0ecf2bc 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -373,8 +373,8 @@ func (w *PMXWriter) writeJoint(j *Joint) {
 	w.writeText(j.NameEn)
 	w.writeUint8(j.Type)
 
-	w.writeIndex(AttrBoneIndexSz, j.Body1)
-	w.writeIndex(AttrBoneIndexSz, j.Body2)
+	w.writeIndex(AttrRBIndexSz, j.Body1)
+	w.writeIndex(AttrRBIndexSz, j.Body2)
 
 	w.write(&j.Position)
 	w.write(&j.Rotation)
-- 
2.43.0


From 12cdb63d7611ceb5c4737859fdffd4f3beb9652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:40 +0000
Subject: [PATCH 04/76] fix: mmd: write a pmx with index sizes that hold its
 indexes

Vertex, texture, material, bone, morph and rigid body indexes beyond the size
in the header were silently cut, and the header of the saved document was
modified (or indexed out of range for a document loaded from a pmd).
---
 mmd/pmx_writer.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index 0ecf2bc..d1145a4 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -82,7 +82,7 @@ type PMXWriter struct {
 
 func (w *PMXWriter) Write(doc *Document) error {
 	// header
-	w.writeHeader(doc.Header)
+	w.writeHeader(doc)
 	w.writeText(doc.Name)
 	w.writeText(doc.NameEn)
 	w.writeText(doc.Comment)
@@ -155,12 +155,32 @@ func (w *PMXWriter) writeUIndex(attrTyp int, v int) {
 	w.writeVUInt(w.header.Info[attrTyp], v)
 }
 
-func (w *PMXWriter) writeHeader(h *Header) {
+// indexSize returns sz, or the next size that can hold n indexes.
+func indexSize(sz byte, n, max1, max2 int) byte {
+	if n > max2 {
+		return 4
+	} else if n > max1 && sz < 2 {
+		return 2
+	}
+	return sz
+}
+
+func (w *PMXWriter) writeHeader(doc *Document) {
+	h := NewDocument().Header
+	if len(doc.Header.Info) >= len(h.Info) {
+		h.Version = doc.Header.Version
+		h.Info = append([]byte{}, doc.Header.Info...)
+	}
 	w.header = h
 
 	// TODO
-	h.Format = []byte("PMX ")
 	h.Info[AttrStringEncoding] = 1
+	h.Info[AttrVertIndexSz] = indexSize(h.Info[AttrVertIndexSz], len(doc.Vertexes), 1<<8, 1<<16)
+	h.Info[AttrTexIndexSz] = indexSize(h.Info[AttrTexIndexSz], len(doc.Textures), 1<<7, 1<<15)
+	h.Info[AttrMatIndexSz] = indexSize(h.Info[AttrMatIndexSz], len(doc.Materials), 1<<7, 1<<15)
+	h.Info[AttrBoneIndexSz] = indexSize(h.Info[AttrBoneIndexSz], len(doc.Bones), 1<<7, 1<<15)
+	h.Info[AttrMorphIndexSz] = indexSize(h.Info[AttrMorphIndexSz], len(doc.Morphs), 1<<7, 1<<15)
+	h.Info[AttrRBIndexSz] = indexSize(h.Info[AttrRBIndexSz], len(doc.Bodies), 1<<7, 1<<15)
 
 	w.write(&h.Format)
 	w.write(&h.Version)
-- 
2.43.0


From 0a5f38cbe42e7624f0a524ba9de8a10af34f8f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:03 +0000
Subject: [PATCH 05/76] fix: mmd: do not modify the vertexes of the document
 being saved

---
 mmd/pmx_writer.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index d1145a4..a2716cb 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -194,11 +194,13 @@ func (w *PMXWriter) writeVertex(v *Vertex) {
 	w.write(&v.UV)
 	w.write(&v.ExtUVs)
 
+	bones := append([]int{}, v.Bones...)
+	weights := append([]float32{}, v.BoneWeights...)
 	var wehghtType uint8
-	switch len(v.BoneWeights) {
+	switch len(weights) {
 	case 0:
-		v.BoneWeights = append(v.BoneWeights, 0)
-		v.Bones = append(v.Bones, -1)
+		weights = append(weights, 0)
+		bones = append(bones, -1)
 		fallthrough
 	case 1:
 		wehghtType = 0
@@ -207,8 +209,8 @@ func (w *PMXWriter) writeVertex(v *Vertex) {
 		wehghtType = 1
 		break
 	case 3:
-		v.BoneWeights = append(v.BoneWeights, 0)
-		v.Bones = append(v.Bones, -1)
+		weights = append(weights, 0)
+		bones = append(bones, -1)
 		fallthrough
 	case 4:
 		wehghtType = 2
@@ -217,24 +219,24 @@ func (w *PMXWriter) writeVertex(v *Vertex) {
 		wehghtType = 3
 		break
 	}
-	if len(v.BoneWeights) == 1 {
+	if len(weights) == 1 {
 		wehghtType = 0
-	} else if len(v.BoneWeights) == 2 {
+	} else if len(weights) == 2 {
 		wehghtType = 1
 	}
 
 	w.writeUint8(wehghtType)
-	for _, b := range v.Bones {
+	for _, b := range bones {
 		w.writeIndex(AttrBoneIndexSz, b)
 	}
 	if wehghtType == 0 {
 	} else if wehghtType == 1 {
-		w.writeFloat(v.BoneWeights[0])
+		w.writeFloat(weights[0])
 	} else if wehghtType == 3 {
-		w.writeFloat(v.BoneWeights[0])
-		w.write(v.BoneWeights[2:])
+		w.writeFloat(weights[0])
+		w.write(weights[2:])
 	} else {
-		w.write(v.BoneWeights)
+		w.write(weights)
 	}
 	w.write(&v.EdgeScale)
 }
-- 
2.43.0


From d92e5034055e2f821f4f11161db49591b3af83c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:59 +0000
Subject: [PATCH 06/76] fix: mqo: report read errors and truncation instead of
 returning a partial model

The code page was detected from whatever the first read returned, an input
that ended inside a chunk was filled up with zeros, read errors inside skipped
chunks were dropped, and so was every error of the .mqx. Element counts were
allocated before the elements were there.
---
 mqo/mqo_parser.go | 110 +++++++++++++++++++++++++++++++---------------
 1 file changed, 74 insertions(+), 36 deletions(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 8ea4f75..f0797ed 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -3,6 +3,7 @@ package mqo
 import (
 	"archive/zip"
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"log"
@@ -22,6 +23,7 @@ type Parser struct {
 	name string
 	r    io.Reader
 	s    scanner.Scanner
+	err  error
 	Open func(name string) (io.ReadCloser, error)
 }
 
@@ -40,6 +42,20 @@ func NewParser(r io.Reader, path string) *Parser {
 	return p
 }
 
+// errorReader remembers the read error, which scanner.Scanner does not return.
+type errorReader struct {
+	r   io.Reader
+	err error
+}
+
+func (r *errorReader) Read(b []byte) (int, error) {
+	n, err := r.r.Read(b)
+	if err != nil && err != io.EOF && r.err == nil {
+		r.err = err
+	}
+	return n, err
+}
+
 type basckSlashReplacer struct{}
 
 func (*basckSlashReplacer) Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
@@ -55,11 +71,20 @@ func (*basckSlashReplacer) Transform(dst, src []byte, atEOF bool) (nDst, nSrc in
 func (*basckSlashReplacer) Reset() {
 }
 
-func (p *Parser) readFloat() float32 {
+// scan reads a token inside a chunk, where the input must not end.
+func (p *Parser) scan() rune {
 	tok := p.s.Scan()
+	if tok == scanner.EOF && p.err == nil {
+		p.err = io.ErrUnexpectedEOF
+	}
+	return tok
+}
+
+func (p *Parser) readFloat() float32 {
+	tok := p.scan()
 	var s float32 = 1
 	if p.s.TokenText() == "-" {
-		tok = p.s.Scan()
+		tok = p.scan()
 		s = -1
 	}
 	if tok != scanner.Int && tok != scanner.Float {
@@ -70,7 +95,7 @@ func (p *Parser) readFloat() float32 {
 }
 
 func (p *Parser) readInt() int {
-	tok := p.s.Scan()
+	tok := p.scan()
 	if tok != scanner.Int {
 		log.Printf("  Invalid num  %s\n", p.s.TokenText())
 		return 0
@@ -80,23 +105,23 @@ func (p *Parser) readInt() int {
 }
 
 func (p *Parser) readStr() string {
-	p.s.Scan()
+	p.scan()
 	return strings.Trim(p.s.TokenText(), "\"")
 }
 
 func (p *Parser) readIdent() string {
-	p.s.Scan()
+	p.scan()
 	return p.s.TokenText()
 }
 
 func (p *Parser) skipN(n int) {
-	for i := 0; i < n; i++ {
-		p.s.Scan()
+	for i := 0; i < n && p.err == nil; i++ {
+		p.scan()
 	}
 }
 
 func (p *Parser) skip(t string) {
-	p.s.Scan()
+	p.scan()
 	if p.s.TokenText() != t {
 		log.Printf("  Invalid token  %s != %s\n", p.s.TokenText(), t)
 	}
@@ -104,7 +129,7 @@ func (p *Parser) skip(t string) {
 
 func (p *Parser) procAttrs(handlers map[string]func(), name string) {
 	line := p.s.Pos().Line
-	for tok := p.s.Scan(); line == p.s.Pos().Line && tok != scanner.EOF; tok = p.s.Scan() {
+	for tok := p.scan(); line == p.s.Pos().Line && tok != scanner.EOF; tok = p.scan() {
 		if handler, ok := handlers[p.s.TokenText()]; ok {
 			p.skip("(")
 			handler()
@@ -112,7 +137,7 @@ func (p *Parser) procAttrs(handlers map[string]func(), name string) {
 		} else {
 			log.Printf("  skip %s %s\n", name, p.s.TokenText())
 			p.skip("(")
-			for tok := p.s.Scan(); line == p.s.Pos().Line && tok != scanner.EOF; tok = p.s.Scan() {
+			for tok := p.scan(); line == p.s.Pos().Line && tok != scanner.EOF; tok = p.scan() {
 				if p.s.TokenText() == ")" {
 					break
 				}
@@ -129,7 +154,7 @@ func (p *Parser) skipBlock() {
 		s.ErrorCount--
 	}
 	defer func() { p.s.Error = nil }()
-	for tok := p.s.Scan(); tok != scanner.EOF; tok = p.s.Scan() {
+	for tok := p.scan(); tok != scanner.EOF; tok = p.scan() {
 		if p.s.TokenText() == "}" {
 			return
 		}
@@ -143,7 +168,7 @@ func (p *Parser) procArray(init, elem func(n int), name string) {
 	n := p.readInt()
 	p.skip("{")
 	init(n)
-	for i := 0; i < n; i++ {
+	for i := 0; i < n && p.err == nil; i++ {
 		elem(i)
 	}
 	p.skip("}")
@@ -151,7 +176,7 @@ func (p *Parser) procArray(init, elem func(n int), name string) {
 
 func (p *Parser) procObj(handlers map[string]func(), name string) {
 	p.skip("{")
-	for tok := p.s.Scan(); tok != scanner.EOF; tok = p.s.Scan() {
+	for tok := p.scan(); tok != scanner.EOF; tok = p.scan() {
 		if p.s.TokenText() == "}" {
 			break
 		}
@@ -265,46 +290,46 @@ func (p *Parser) readObject() *Object {
 		"color":       func() { o.Color = &Vector3{X: p.readFloat(), Y: p.readFloat(), Z: p.readFloat()} },
 		"vertex": func() {
 			p.procArray(func(n int) {
-				o.Vertexes = make([]*Vector3, n)
+				o.Vertexes = []*Vector3{}
 			}, func(i int) {
-				o.Vertexes[i] = &Vector3{X: p.readFloat(), Y: p.readFloat(), Z: p.readFloat()}
+				o.Vertexes = append(o.Vertexes, &Vector3{X: p.readFloat(), Y: p.readFloat(), Z: p.readFloat()})
 			}, "vertex")
 		},
 		"face": func() {
 			p.procArray(func(n int) {
-				o.Faces = make([]*Face, n)
+				o.Faces = []*Face{}
 			}, func(i int) {
 				var f Face
-				o.Faces[i] = &f
+				o.Faces = append(o.Faces, &f)
 				vn := p.readInt()
 				p.procAttrs(map[string]func(){
 					"V": func() {
-						f.Verts = make([]int, vn)
-						for i := 0; i < vn; i++ {
-							f.Verts[i] = p.readInt()
+						f.Verts = []int{}
+						for i := 0; i < vn && p.err == nil; i++ {
+							f.Verts = append(f.Verts, p.readInt())
 						}
 					},
 					"M": func() { f.Material = p.readInt() },
 					"UV": func() {
-						f.UVs = make([]Vector2, vn)
-						for i := 0; i < vn; i++ {
-							f.UVs[i] = Vector2{X: p.readFloat(), Y: p.readFloat()}
+						f.UVs = []Vector2{}
+						for i := 0; i < vn && p.err == nil; i++ {
+							f.UVs = append(f.UVs, Vector2{X: p.readFloat(), Y: p.readFloat()})
 						}
 					},
 					"N": func() {
-						flags := make([]int, vn)
-						f.Normals = make([]*Vector3, vn)
-						for i := 0; i < vn; i++ {
-							flags[i] = p.readInt()
+						var flags []int
+						for i := 0; i < vn && p.err == nil; i++ {
+							flags = append(flags, p.readInt())
 						}
-						for i := 0; i < vn; i++ {
+						f.Normals = make([]*Vector3, len(flags))
+						for i := range flags {
 							if flags[i]&2 != 0 {
 								f.Normals[i] = &Vector3{X: p.readFloat(), Y: p.readFloat(), Z: p.readFloat()}
 							}
 						}
 					},
 					"CRS": func() {
-						for i := 0; i < vn; i++ {
+						for i := 0; i < vn && p.err == nil; i++ {
 							p.readFloat()
 						}
 					},
@@ -329,7 +354,7 @@ func (p *Parser) readObject() *Object {
 
 func (p *Parser) detectCodePage() {
 	buf := make([]byte, 128)
-	n, _ := p.r.Read(buf)
+	n, _ := io.ReadFull(p.r, buf)
 	p.r = io.MultiReader(bytes.NewReader(buf[:n]), p.r)
 	if matched, _ := regexp.Match(`CodePage\s+utf8`, buf[:n]); !matched {
 		p.r = transform.NewReader(p.r, transform.Chain(japanese.ShiftJIS.NewDecoder(), &basckSlashReplacer{}))
@@ -337,6 +362,8 @@ func (p *Parser) detectCodePage() {
 }
 
 func (p *Parser) Parse() (*Document, error) {
+	er := &errorReader{r: p.r}
+	p.r = er
 	p.detectCodePage()
 	p.s.Init(p.r)
 
@@ -383,17 +410,28 @@ func (p *Parser) Parse() (*Document, error) {
 			// log.Println(" > ", p.s.TokenText())
 		}
 	}
+	if er.err != nil {
+		return &doc, er.err
+	}
+	if p.err != nil {
+		return &doc, p.err
+	}
 	if p.s.ErrorCount > 0 {
 		return &doc, fmt.Errorf("Parse error (count:%d)", p.s.ErrorCount)
 	}
 	if mqxFile != "" && p.Open != nil {
-		r, _ := p.Open(mqxFile)
-		if r != nil {
-			defer r.Close()
-			if mqx, err := ReadMQX(r); err == nil {
-				doc.Plugins = mqx.Plugins
-			}
+		r, err := p.Open(mqxFile)
+		if errors.Is(err, os.ErrNotExist) {
+			return &doc, nil
+		} else if err != nil {
+			return &doc, err
+		}
+		defer r.Close()
+		mqx, err := ReadMQX(r)
+		if err != nil {
+			return &doc, err
 		}
+		doc.Plugins = mqx.Plugins
 	}
 	return &doc, nil
 }
-- 
2.43.0


From 0fe6cab1ba1f2eedf322c37d16bc1f24ba52976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:59 +0000
Subject: [PATCH 07/76] fix: mqo: verify the checksums of a .mqoz

---
 mqo/mqo_parser.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index f0797ed..58f1599 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"path/filepath"
@@ -428,6 +429,10 @@ func (p *Parser) Parse() (*Document, error) {
 		}
 		defer r.Close()
 		mqx, err := ReadMQX(r)
+		if err == nil {
+			// read to the end: that is where the checksum of a .mqoz is
+			_, err = io.Copy(ioutil.Discard, r)
+		}
 		if err != nil {
 			return &doc, err
 		}
@@ -458,7 +463,11 @@ func LoadMQOZ(path string) (*Document, error) {
 				}
 				return nil, os.ErrNotExist
 			}
-			return parser.Parse()
+			doc, err := parser.Parse()
+			if err == nil {
+				_, err = io.Copy(ioutil.Discard, r)
+			}
+			return doc, err
 		}
 	}
 	return nil, os.ErrNotExist
-- 
2.43.0


From 6aeaabcd2b34e4e92b9fed1967782adbc3a6393b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 08/76] fix: mqo: read back negative integers, locking and
 physics, and list each bone object once

A face without material (M(-1)) lost its UVs when it was read back, locked
objects came back unlocked, the physics saved in the .mqx was never read, and
the object list of the bone plugin grew with every save.
---
 mqo/bone_plugin.go | 3 +++
 mqo/mqo_parser.go  | 8 +++++++-
 mqo/mqx_parser.go  | 8 ++++++--
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/mqo/bone_plugin.go b/mqo/bone_plugin.go
index 64c6d3e..ec7d5cf 100644
--- a/mqo/bone_plugin.go
+++ b/mqo/bone_plugin.go
@@ -222,6 +222,9 @@ func (p *BonePlugin) PreSerialize(mqo *Document) {
 		}
 	}
 
+	for _, o := range p.Obj {
+		delete(objs, o.ID)
+	}
 	for i, o := range mqo.Objects {
 		id := o.UID
 		if id <= 0 {
diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 58f1599..f603df9 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -97,12 +97,17 @@ func (p *Parser) readFloat() float32 {
 
 func (p *Parser) readInt() int {
 	tok := p.scan()
+	sign := 1
+	if p.s.TokenText() == "-" {
+		tok = p.scan()
+		sign = -1
+	}
 	if tok != scanner.Int {
 		log.Printf("  Invalid num  %s\n", p.s.TokenText())
 		return 0
 	}
 	n, _ := strconv.Atoi(p.s.TokenText())
-	return n
+	return n * sign
 }
 
 func (p *Parser) readStr() string {
@@ -279,6 +284,7 @@ func (p *Parser) readObject() *Object {
 		"depth":       func() { o.Depth = p.readInt() },
 		"folding":     func() { o.Folding = p.readInt() > 0 },
 		"visible":     func() { o.Visible = p.readInt() > 0 },
+		"locking":     func() { o.Locked = p.readInt() > 0 },
 		"shading":     func() { o.Shading = p.readInt() },
 		"facet":       func() { o.Facet = p.readFloat() },
 		"patch":       func() { o.Patch = p.readInt() },
diff --git a/mqo/mqx_parser.go b/mqo/mqx_parser.go
index 5b39d88..4de88cd 100644
--- a/mqo/mqx_parser.go
+++ b/mqo/mqx_parser.go
@@ -8,8 +8,9 @@ import (
 func ReadMQX(r io.Reader) (*MQXDoc, error) {
 	var data struct {
 		MQXDoc
-		BonePlugin  *BonePlugin
-		MorphPlugin *MorphPlugin
+		BonePlugin    *BonePlugin
+		MorphPlugin   *MorphPlugin
+		PhysicsPlugin *PhysicsPlugin
 	}
 	err := xml.NewDecoder(r).Decode(&data)
 	doc := data.MQXDoc
@@ -19,6 +20,9 @@ func ReadMQX(r io.Reader) (*MQXDoc, error) {
 	if data.MorphPlugin != nil {
 		doc.Plugins = append(doc.Plugins, data.MorphPlugin)
 	}
+	if data.PhysicsPlugin != nil {
+		doc.Plugins = append(doc.Plugins, data.PhysicsPlugin)
+	}
 	for _, p := range doc.Plugins {
 		p.PostDeserialize(nil)
 	}
-- 
2.43.0


From c5879194bd19b4494a53508a10666388a50dcc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 09/76] fix: mqo: report write and close errors when saving
 .mqo, .mqx and .mqoz

---
 mqo/mqo_writer.go | 38 +++++++++++++++++++++++++++++---------
 mqo/mqx_writer.go | 13 +++++++++----
 2 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 93c93c6..c0ff05b 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -232,29 +232,46 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 	}
 
 	w.WriteString("Eof\n")
-	w.Flush()
+	if err := w.Flush(); err != nil {
+		return err
+	}
 
 	if mqxFile != "" && writer.Create != nil {
-		w, _ := writer.Create(mqxFile)
-		defer w.Close()
-		WriteMQX(mqo, w, filepath.Base(writer.path))
+		w, err := writer.Create(mqxFile)
+		if err != nil {
+			return err
+		}
+		err = WriteMQX(mqo, w, filepath.Base(writer.path))
+		if cerr := w.Close(); err == nil {
+			err = cerr
+		}
+		return err
 	}
 
 	return nil
 }
 
-func SaveMQOZ(doc *Document, path string) error {
+func SaveMQOZ(doc *Document, path string) (err error) {
 	filename := filepath.Base(path)
 	name := filename[0 : len(filename)-len(filepath.Ext(filename))]
 	w, err := os.Create(path)
 	if err != nil {
 		return err
 	}
-	defer w.Close()
 	zw := zip.NewWriter(w)
-	defer zw.Close()
+	defer func() {
+		if cerr := zw.Close(); err == nil {
+			err = cerr
+		}
+		if cerr := w.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	mqow, err := zw.Create(name + ".mqo")
+	if err != nil {
+		return err
+	}
 	writer := NewWriter(path)
 	writer.Create = func(name string) (io.WriteCloser, error) {
 		w, err := zw.Create(name)
@@ -274,7 +291,10 @@ func Save(doc *Document, path string) error {
 	if err != nil {
 		return err
 	}
-	defer w.Close()
 	doc.FixNames()
-	return NewWriter(path).WriteMQO(doc, w)
+	err = NewWriter(path).WriteMQO(doc, w)
+	if cerr := w.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
diff --git a/mqo/mqx_writer.go b/mqo/mqx_writer.go
index 2ef14ed..4de21e6 100644
--- a/mqo/mqx_writer.go
+++ b/mqo/mqx_writer.go
@@ -18,8 +18,13 @@ func WriteMQX(mqo *Document, w io.Writer, mqoName string) error {
 		p.PreSerialize(mqo)
 	}
 
-	xmlBuf, _ := xml.MarshalIndent(mqx, "", "    ")
-	w.Write([]byte(xml.Header))
-	w.Write(xmlBuf)
-	return nil
+	xmlBuf, err := xml.MarshalIndent(mqx, "", "    ")
+	if err != nil {
+		return err
+	}
+	if _, err := w.Write([]byte(xml.Header)); err != nil {
+		return err
+	}
+	_, err = w.Write(xmlBuf)
+	return err
 }
-- 
2.43.0


From 62655ae1141d9775fa808c1c8fbb4fe8b247038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:27 +0000
Subject: [PATCH 10/76] fix: mqo: write shader parameters in a fixed order and
 with their own type, and the emission color

The order changed from run to run, colors and strings were written as int,
which no reader understands, and the emission color was lost.
---
 mqo/mqo_writer.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index c0ff05b..1a337a7 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 )
 
@@ -85,6 +86,9 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 		fmt.Fprintf(w, " col(%.3f %.3f %.3f %.3f) dif(%.3f) amb(%.3f) emi(%.3f) spc(%.3f) power(%.2f)",
 			mat.Color.X, mat.Color.Y, mat.Color.Z, mat.Color.W,
 			mat.Diffuse, mat.Ambient, mat.Emission, mat.Specular, mat.Power)
+		if mat.EmissionColor != nil {
+			fmt.Fprintf(w, " emi_col(%.3f %.3f %.3f)", mat.EmissionColor.X, mat.EmissionColor.Y, mat.EmissionColor.Z)
+		}
 		if mat.Texture != "" {
 			fmt.Fprintf(w, " tex(\"%v\")", strings.Replace(mat.Texture, "\\", "/", -1))
 		}
@@ -113,7 +117,13 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 			fmt.Fprintf(w, "\t\tshadertype \"%v\"\n", mat.Ex2.ShaderType)
 			fmt.Fprintf(w, "\t\tshadername \"%v\"\n", mat.Ex2.ShaderName)
 			fmt.Fprintf(w, "\t\tshaderparam %v {\n", len(mat.Ex2.ShaderParams))
-			for name, v := range mat.Ex2.ShaderParams {
+			var names []string
+			for name := range mat.Ex2.ShaderParams {
+				names = append(names, name)
+			}
+			sort.Strings(names)
+			for _, name := range names {
+				v := mat.Ex2.ShaderParams[name]
 				typ := "int"
 				if b, ok := v.(bool); ok {
 					typ = "bool"
@@ -122,6 +132,12 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 					typ = "float"
 				} else if _, ok := v.(float32); ok {
 					typ = "float"
+				} else if c, ok := v.([]float32); ok {
+					typ = "color"
+					v = strings.Trim(fmt.Sprint(c), "[]")
+				} else if s, ok := v.(string); ok {
+					typ = "string"
+					v = "\"" + s + "\""
 				}
 				fmt.Fprintf(w, "\t\t\t%v %v %v\n", name, typ, v)
 			}
-- 
2.43.0


From e0f883bbc28453d52587948b81e959a75ff06e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:54 +0000
Subject: [PATCH 11/76] fix: fbx: report truncated and unreadable binary files,
 and stop at the end of the node list

Any end of the input between two fields counted as success, errors were
overwritten by the following skip, skipping on a reader that cannot seek counted
the bytes twice, seeking ignored where the reader started, the footer was parsed
as nodes, and lengths taken from the file were allocated up front.
---
 fbx/binary_parser.go | 110 +++++++++++++++++++++++++++++--------------
 1 file changed, 75 insertions(+), 35 deletions(-)

diff --git a/fbx/binary_parser.go b/fbx/binary_parser.go
index 74774d1..a2c39f7 100644
--- a/fbx/binary_parser.go
+++ b/fbx/binary_parser.go
@@ -2,6 +2,7 @@ package fbx
 
 import (
 	"bufio"
+	"bytes"
 	"compress/zlib"
 	"encoding/binary"
 	"fmt"
@@ -26,9 +27,9 @@ func (r *positionReader) SkipTo(pos int64) error {
 	if offset < 0 {
 		return fmt.Errorf("cannot rewind")
 	}
-	r.position = pos
 	if s, ok := r.r.(io.Seeker); ok {
-		_, err := s.Seek(pos, 0)
+		_, err := s.Seek(offset, io.SeekCurrent)
+		r.position = pos
 		return err
 	}
 	_, err := io.CopyN(ioutil.Discard, r, offset)
@@ -39,15 +40,36 @@ type binaryParser struct {
 	r       *positionReader
 	version uint32
 	err     error
+
+	endOfList bool // the last record was the one that ends a list
+}
+
+func (p *binaryParser) setErr(err error) {
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	if p.err == nil {
+		p.err = err
+	}
 }
 
 func (p *binaryParser) read(v interface{}) interface{} {
 	if p.err == nil {
-		p.err = binary.Read(p.r, binary.LittleEndian, v)
+		p.setErr(binary.Read(p.r, binary.LittleEndian, v))
 	}
 	return v
 }
 
+// readBytes reads n bytes of r. Memory grows with the data, not with n.
+func (p *binaryParser) readBytes(r io.Reader, n int64) []byte {
+	var buf bytes.Buffer
+	if p.err == nil {
+		_, err := io.CopyN(&buf, r, n)
+		p.setErr(err)
+	}
+	return buf.Bytes()
+}
+
 func (p *binaryParser) readUint8() uint8 {
 	var v uint8
 	p.read(&v)
@@ -91,9 +113,7 @@ func (p *binaryParser) readFloat64() float64 {
 }
 
 func (p *binaryParser) readString(len uint) string {
-	bytes := make([]byte, len)
-	p.read(bytes)
-	return string(bytes)
+	return string(p.readBytes(p.r, int64(len)))
 }
 
 func (p *binaryParser) readName() string {
@@ -104,6 +124,36 @@ func (p *binaryParser) readPropArray(typ uint8) *Attribute {
 	count := uint(p.readUint32())
 	encoding := p.readUint32()
 	sz := p.readUint32()
+	elemSize, ok := map[uint8]int64{'b': 1, 'y': 2, 'i': 4, 'l': 8, 'f': 4, 'd': 8}[typ]
+	if !ok {
+		return nil
+	}
+	var data []byte
+	if encoding == 0 {
+		data = p.readBytes(p.r, int64(count)*elemSize)
+	} else if p.err == nil {
+		next := p.r.position + int64(sz)
+		r, err := zlib.NewReader(io.LimitReader(p.r, int64(sz)))
+		if err != nil {
+			p.setErr(err)
+			return &Attribute{}
+		}
+		defer r.Close()
+		data = p.readBytes(r, int64(count)*elemSize)
+		if p.err == nil {
+			// the checksum is at the end
+			_, err = r.Read(make([]byte, 1))
+			if err != io.EOF {
+				p.setErr(err)
+			}
+		}
+		if p.err == nil {
+			p.setErr(p.r.SkipTo(next))
+		}
+	}
+	if p.err != nil {
+		return &Attribute{}
+	}
 	var buf interface{}
 	switch typ {
 	case 'b':
@@ -118,25 +168,8 @@ func (p *binaryParser) readPropArray(typ uint8) *Attribute {
 		buf = make([]float32, count)
 	case 'd':
 		buf = make([]float64, count)
-	default:
-		return nil
-	}
-	if encoding == 0 {
-		p.read(buf)
-	} else {
-		next := p.r.position + int64(sz)
-		r, err := zlib.NewReader(io.LimitReader(p.r, int64(sz)))
-		if err != nil {
-			p.err = err
-			return &Attribute{buf}
-		}
-		defer r.Close()
-		err = binary.Read(r, binary.LittleEndian, buf)
-		if p.err == nil {
-			p.err = err
-		}
-		p.r.SkipTo(next)
 	}
+	p.setErr(binary.Read(bytes.NewReader(data), binary.LittleEndian, buf))
 	return &Attribute{buf}
 }
 
@@ -171,13 +204,11 @@ func (p *binaryParser) readProp() *Attribute {
 	case 'S':
 		return &Attribute{p.readString(uint(p.readUint32()))}
 	case 'R':
-		buf := make([]byte, p.readUint32())
-		p.read(buf)
-		return &Attribute{buf}
+		return &Attribute{p.readBytes(p.r, int64(p.readUint32()))}
 	case 'b', 'y', 'i', 'l', 'f', 'd':
 		return p.readPropArray(typ)
 	}
-	p.err = fmt.Errorf("unknown prop type: %v", typ)
+	p.setErr(fmt.Errorf("unknown prop type: %v", typ))
 	return nil
 }
 
@@ -196,14 +227,18 @@ func (p *binaryParser) readNode() *Node {
 		propsz = int64(p.readUint32())
 	}
 	n.Name = p.readName()
+	if p.err != nil {
+		return nil
+	}
 
 	if uint64(nprop)*2 > uint64(propsz) {
 		// invalid node?
-		p.err = p.r.SkipTo(int64(next))
+		p.setErr(p.r.SkipTo(int64(next)))
 		return nil
 	}
 
 	if next == 0 {
+		p.endOfList = true
 		return nil
 	}
 
@@ -214,7 +249,7 @@ func (p *binaryParser) readNode() *Node {
 
 		}
 	}
-	if p.err != nil && p.err != io.EOF {
+	if p.err != nil {
 		return nil
 	}
 
@@ -226,19 +261,23 @@ func (p *binaryParser) readNode() *Node {
 	}
 
 	if p.err == nil {
-		p.err = p.r.SkipTo(next)
+		p.setErr(p.r.SkipTo(next))
 	}
-	if p.err != nil && p.err != io.EOF {
+	if p.err != nil {
 		return nil
 	}
+	p.endOfList = false
 	return n
 }
 
 func (p *binaryParser) Parse() (*Node, error) {
 	magic := p.readString(21)
+	if len(magic) == 0 {
+		return nil, p.err
+	}
 	if magic != "Kaydara FBX Binary  \x00" {
 		// try parse texy. TODO
-		if magic[0] == ';' {
+		if magic[0] == ';' && (p.err == nil || p.err == io.ErrUnexpectedEOF) {
 			p2 := &textParser{r: bufio.NewReader(p.r.r), buf: []byte(magic)}
 			return p2.Parse()
 		}
@@ -248,13 +287,14 @@ func (p *binaryParser) Parse() (*Node, error) {
 	p.read(&p.version)
 	root := &Node{Name: "_FBX_ROOT"}
 
-	for p.err == nil {
+	// The list ends with an empty record. What follows it is not a node.
+	for p.err == nil && !p.endOfList {
 		node := p.readNode()
 		if node != nil {
 			root.AddChild(node)
 		}
 	}
-	if p.err != nil && p.err != io.EOF {
+	if p.err != nil {
 		return nil, p.err
 	}
 	return root, nil
-- 
2.43.0


From 891968777d79e00d187b348891d2a77a1dcea379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:54 +0000
Subject: [PATCH 12/76] fix: fbx: read back the numbers, strings and raw data
 that are written

Numbers with an exponent (1e-05), strings with a quote or a backslash and raw
data could be written but not be read back.
---
 fbx/fbx_node.go    | 7 ++++---
 fbx/text_parser.go | 8 ++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/fbx/fbx_node.go b/fbx/fbx_node.go
index 5880884..b9b2e70 100644
--- a/fbx/fbx_node.go
+++ b/fbx/fbx_node.go
@@ -1,6 +1,7 @@
 package fbx
 
 import (
+	"encoding/base64"
 	"fmt"
 	"io"
 	"reflect"
@@ -265,9 +266,9 @@ func (p *Attribute) String() string {
 		if len(segments) == 2 {
 			segments[0], segments[1] = segments[1], segments[0]
 		}
-		return fmt.Sprintf("%q", strings.Join(segments, "::"))
+		return "\"" + strings.ReplaceAll(strings.Join(segments, "::"), "\"", "&quot;") + "\""
 	case []byte:
-		return fmt.Sprintf("\"%v\"", v)
+		return "\"" + base64.StdEncoding.EncodeToString(v) + "\""
 	default:
 		return fmt.Sprint(v)
 	}
@@ -283,7 +284,7 @@ func (n *Node) Dump(w io.Writer, d int, full bool) {
 			continue
 		}
 		s := p.String()
-		if p.Len() > 0 {
+		if _, raw := p.Value.([]byte); p.Len() > 0 && !raw {
 			s = fmt.Sprint("*", p.Len(), " ", arrayReplacer.Replace(s))
 		}
 		if i == 0 {
diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index 375ee9e..08128b2 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -72,7 +72,7 @@ func (p *textParser) getToken() (tokenType, string) {
 		} else if c >= '0' && c <= '9' || c == '.' || c == '-' {
 			buf := []byte{c}
 			c = p.read()
-			for (c >= '0' && c <= '9' || c == '.' || c == 'e' || c == '-') && p.err == nil {
+			for (c >= '0' && c <= '9' || c == '.' || c == 'e' || c == 'E' || c == '-' || c == '+') && p.err == nil {
 				buf = append(buf, c)
 				c = p.read()
 			}
@@ -90,7 +90,7 @@ func (p *textParser) getToken() (tokenType, string) {
 				buf = append(buf, c)
 				c = p.read()
 			}
-			return String, string(buf)
+			return String, strings.ReplaceAll(string(buf), "&quot;", "\"")
 		} else if c >= 'A' && c <= 'z' {
 			buf := []byte{}
 			for (c >= 'A' && c <= 'z' || c >= '0' && c <= '9' || c == '-') && p.err == nil {
@@ -136,7 +136,7 @@ func (p *textParser) parseArrayProp() *Attribute {
 		} else if typ == Number {
 			v, _ := strconv.ParseFloat(s, 64)
 			dvalues = append(dvalues, v)
-			hasPoint = hasPoint || strings.Contains(s, ".")
+			hasPoint = hasPoint || strings.ContainsAny(s, ".eE")
 		} else {
 			p.errorf("Invalid token: %v", s)
 			break
@@ -179,7 +179,7 @@ func (p *textParser) parseNodeList() []*Node {
 					node.Children = p.parseNodeList()
 					break
 				} else if typ == Number {
-					if strings.Contains(s, ".") {
+					if strings.ContainsAny(s, ".eE") {
 						v, err := strconv.ParseFloat(s, 64)
 						if err != nil {
 							p.errorf("failed to parse float: '%v'", s)
-- 
2.43.0


From 01bd5f666b1d95d1b3a50d0c6a1c60aab052c422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:55 +0000
Subject: [PATCH 13/76] fix: fbx: report write and close errors

---
 fbx/fbx.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fbx/fbx.go b/fbx/fbx.go
index 122da9a..ff85d53 100644
--- a/fbx/fbx.go
+++ b/fbx/fbx.go
@@ -1,6 +1,7 @@
 package fbx
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"os"
@@ -29,12 +30,15 @@ func Save(doc *Document, path string) error {
 	if err != nil {
 		return err
 	}
-	defer w.Close()
-
-	return Write(w, doc)
+	err = Write(w, doc)
+	if cerr := w.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
 
-func Write(w io.Writer, doc *Document) error {
+func Write(out io.Writer, doc *Document) error {
+	w := bufio.NewWriter(out)
 	fmt.Fprintln(w, "; FBX 7.5.0 project file")
 	fmt.Fprintln(w, "; Generator: https://github.com/binzume/modelconv")
 	fmt.Fprintln(w, "; -----------------------------------------------")
@@ -44,5 +48,5 @@ func Write(w io.Writer, doc *Document) error {
 			n.Dump(w, 0, true)
 		}
 	}
-	return nil
+	return w.Flush()
 }
-- 
2.43.0


From 661a879244a6c9416829d7ea57347ad6ca71631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:57 +0000
Subject: [PATCH 14/76] fix: gltf: load independently of how the bytes arrive,
 and reject a truncated buffer

---
 cmd/modelconv/utils.go |  4 ++--
 gltfutil/gltf_utils.go | 30 +++++++++++++++++++++++++++++-
 vrm/vrm_parser.go      | 11 ++++-------
 3 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/cmd/modelconv/utils.go b/cmd/modelconv/utils.go
index 2c132f2..4d260eb 100644
--- a/cmd/modelconv/utils.go
+++ b/cmd/modelconv/utils.go
@@ -9,10 +9,10 @@ import (
 
 	"github.com/binzume/modelconv/converter"
 	"github.com/binzume/modelconv/fbx"
+	"github.com/binzume/modelconv/gltfutil"
 	"github.com/binzume/modelconv/mmd"
 	"github.com/binzume/modelconv/mqo"
 	"github.com/binzume/modelconv/unity"
-	"github.com/qmuntal/gltf"
 )
 
 func loadAnimation(input string) (*mmd.Animation, error) {
@@ -32,7 +32,7 @@ func loadDocument(input string) (*mqo.Document, error) {
 	case isMQO(ext):
 		return mqo.Load(input)
 	case isGltf(ext):
-		doc, err := gltf.Open(input)
+		doc, err := gltfutil.Load(input)
 		if err != nil {
 			return nil, err
 		}
diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index fc71355..6cd6ab1 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -1,6 +1,9 @@
 package gltfutil
 
 import (
+	"bytes"
+	"fmt"
+	"io"
 	"io/ioutil"
 	"log"
 	"math"
@@ -14,8 +17,33 @@ import (
 	"github.com/qmuntal/gltf/modeler"
 )
 
+// Load .gltf, .glb or .vrm file.
 func Load(path string) (*gltf.Document, error) {
-	return gltf.Open(path)
+	r, err := os.Open(path)
+	if err != nil {
+		return nil, err
+	}
+	defer r.Close()
+	return Parse(r, path)
+}
+
+// Parse glTF or GLB data. Relative URIs are resolved from the directory of path.
+func Parse(r io.Reader, path string) (*gltf.Document, error) {
+	// The decoder skips the padding of the JSON chunk only when it comes in the same read.
+	data, err := ioutil.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
+	doc := new(gltf.Document)
+	if err := gltf.NewDecoderFS(bytes.NewReader(data), os.DirFS(filepath.Dir(path))).Decode(doc); err != nil {
+		return nil, err
+	}
+	for _, b := range doc.Buffers {
+		if b.Data != nil && len(b.Data) < int(b.ByteLength) {
+			return nil, fmt.Errorf("gltf: buffer %q is truncated: %w", b.URI, io.ErrUnexpectedEOF)
+		}
+	}
+	return doc, nil
 }
 
 func RemoveExtension(doc *gltf.Document, extension string) {
diff --git a/vrm/vrm_parser.go b/vrm/vrm_parser.go
index 2824185..6cb694e 100644
--- a/vrm/vrm_parser.go
+++ b/vrm/vrm_parser.go
@@ -2,18 +2,15 @@ package vrm
 
 import (
 	"io"
-	"os"
-	"path/filepath"
 
-	"github.com/qmuntal/gltf"
+	"github.com/binzume/modelconv/gltfutil"
 )
 
 // Parse vrm data
 func Parse(r io.Reader, path string) (*Document, error) {
-	var doc gltf.Document
-	dec := gltf.NewDecoderFS(r, os.DirFS(filepath.Dir(path)))
-	if err := dec.Decode(&doc); err != nil {
+	doc, err := gltfutil.Parse(r, path)
+	if err != nil {
 		return nil, err
 	}
-	return (*Document)(&doc), nil
+	return (*Document)(doc), nil
 }
-- 
2.43.0


From 1287ade119698566ef183765b4666683fc274bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:20 +0000
Subject: [PATCH 15/76] fix: gltf: report every write error when saving a .glb
 or .vrm

---
 cmd/modelconv/main.go  |  8 +++----
 gltfutil/gltf_utils.go | 50 ++++++++++++++++++++++++++++++++++++++++++
 vrm/vrm_writer.go      | 20 ++---------------
 3 files changed, 56 insertions(+), 22 deletions(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index fd79fef..9af3b15 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -80,14 +80,14 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 		if err != nil {
 			return err
 		}
-		return gltf.SaveBinary(doc, output)
+		return gltfutil.Save(doc, output, true)
 	} else if ext == ".gltf" {
 		for i, b := range doc.Buffers {
 			if b.URI == "" {
 				b.URI = fmt.Sprintf("%s%d.bin", strings.TrimSuffix(filepath.Base(output), filepath.Ext(output)), i)
 			}
 		}
-		return gltf.Save(doc, output)
+		return gltfutil.Save(doc, output, false)
 	} else if ext == ".vrm" {
 		conf, err := converter.LoadVRMConfig(vrmConf)
 		if err != nil {
@@ -106,10 +106,10 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 			log.Print(err)
 		}
 		if err != nil {
-			gltf.SaveBinary(doc, output) // for debug
+			gltfutil.Save(doc, output, true) // for debug
 			return err
 		}
-		return gltf.SaveBinary(doc, output)
+		return gltfutil.Save(doc, output, true)
 	}
 	return fmt.Errorf("Unsuppored output type: %v", ext)
 }
diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 6cd6ab1..59a1c71 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"io/fs"
 	"io/ioutil"
 	"log"
 	"math"
@@ -46,6 +47,55 @@ func Parse(r io.Reader, path string) (*gltf.Document, error) {
 	return doc, nil
 }
 
+// Save the document as a glTF, or as a GLB if asBinary is true.
+func Save(doc *gltf.Document, path string, asBinary bool) error {
+	w, err := os.Create(path)
+	if err != nil {
+		return err
+	}
+	err = Write(doc, w, path, asBinary)
+	if err1 := w.Close(); err == nil {
+		err = err1
+	}
+	return err
+}
+
+// Write the document to w. External buffers are created in the directory of path.
+func Write(doc *gltf.Document, w io.Writer, path string, asBinary bool) error {
+	dir := filepath.Dir(path)
+	ew := &errWriter{w: w}
+	e := gltf.NewEncoderFS(ew, &createFS{os.DirFS(dir), dir})
+	e.AsBinary = asBinary
+	if err := e.Encode(doc); err != nil {
+		return err
+	}
+	return ew.err // The encoder does not check all the errors.
+}
+
+type createFS struct {
+	fs.FS
+	dir string
+}
+
+func (f *createFS) Create(name string) (io.WriteCloser, error) {
+	return os.Create(filepath.Join(f.dir, name))
+}
+
+// errWriter keeps the first error of w.
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (w *errWriter) Write(b []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	n, err := w.w.Write(b)
+	w.err = err
+	return n, err
+}
+
 func RemoveExtension(doc *gltf.Document, extension string) {
 	for _, n := range doc.Accessors {
 		delete(n.Extensions, extension)
diff --git a/vrm/vrm_writer.go b/vrm/vrm_writer.go
index 20f050e..aacd4a7 100644
--- a/vrm/vrm_writer.go
+++ b/vrm/vrm_writer.go
@@ -2,28 +2,12 @@ package vrm
 
 import (
 	"io"
-	"io/fs"
-	"os"
-	"path/filepath"
 
+	"github.com/binzume/modelconv/gltfutil"
 	"github.com/qmuntal/gltf"
 )
 
-type createfs struct {
-	fs.FS
-	dir string
-}
-
-func (f *createfs) Create(name string) (io.WriteCloser, error) {
-	return os.Create(f.dir + "/" + name)
-}
-
 // Write vrm file
 func Write(doc *Document, w io.Writer, path string) error {
-	e := gltf.NewEncoderFS(w, &createfs{os.DirFS(filepath.Dir(path)), path})
-	e.AsBinary = true
-	if err := e.Encode((*gltf.Document)(doc)); err != nil {
-		return err
-	}
-	return nil
+	return gltfutil.Write((*gltf.Document)(doc), w, path, true)
 }
-- 
2.43.0


From f3ebed5333d5741beaafd6ced10ce1574fe89f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:08 +0000
Subject: [PATCH 16/76] fix: converters and scene loading no longer depend on
 map iteration order

---
 converter/glbanim.go   | 41 ++++++++++++++++++++++++++++++++---------
 converter/mmd2mqo.go   | 16 ++++++++++++++--
 converter/mqo2gltf.go  |  2 ++
 converter/vrmconfig.go |  2 ++
 mqo/bone_plugin.go     |  4 +++-
 mqo/mqo_writer.go      |  4 +++-
 unity/unity_assets.go  |  2 ++
 unity/unity_scene.go   | 10 +++++++---
 8 files changed, 65 insertions(+), 16 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 00f9aaf..80658a2 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -3,6 +3,7 @@ package converter
 import (
 	"log"
 	"math"
+	"sort"
 
 	"github.com/binzume/modelconv/mmd"
 	"github.com/binzume/modelconv/mqo"
@@ -35,18 +36,22 @@ func isDefaultRotations(samples []*mmd.Vector4) bool {
 func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mqo.Bone, bb map[string]*mmd.BoneChannel) {
 	var scale float32 = 80 * 0.001
 
-	boneToNode := map[string]int{}
-	for n, b := range bones {
-		boneToNode[b.Name] = int(n)
+	var nodes []uint32
+	for n := range bones {
+		nodes = append(nodes, n)
 	}
+	sort.Slice(nodes, func(i, j int) bool { return nodes[i] < nodes[j] })
 
+	boneToNode := map[string]int{}
 	boneByID := map[int]*mqo.Bone{}
-	for _, b := range bones {
-		boneByID[b.ID] = b
+	for _, n := range nodes {
+		boneToNode[bones[n].Name] = int(n)
+		boneByID[bones[n].ID] = bones[n]
 	}
 
 	ikNodes := map[uint32]uint32{}
-	for ni, b := range bones {
+	for _, ni := range nodes {
+		b := bones[ni]
 		if b.IK != nil && boneToNode[b.IK.Name] > 0 {
 			ikNodes[uint32(boneToNode[b.IK.Name])] = ni
 		}
@@ -54,7 +59,13 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 
 	var prevCh *mmd.BoneChannel
 	var prevKeysAcc uint32
-	for _, channel := range bb {
+	var names []string
+	for name := range bb {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		channel := bb[name]
 		if n, ok := boneToNode[channel.Target]; ok {
 			var keysAcc uint32
 			if prevCh != nil && keysEquals(channel.Frames, prevCh.Frames) {
@@ -202,14 +213,26 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 	}
 
 	nodeChannels := map[int][]*mmd.MorphChannel{}
-	for _, m := range morphs {
+	var names []string
+	for name := range morphs {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		m := morphs[name]
 		if _, exits := targets[m.Target]; !exits {
 			continue
 		}
 		nodeChannels[targets[m.Target][0]] = append(nodeChannels[targets[m.Target][0]], m)
 	}
 
-	for ni, mm := range nodeChannels {
+	var nodes []int
+	for ni := range nodeChannels {
+		nodes = append(nodes, ni)
+	}
+	sort.Ints(nodes)
+	for _, ni := range nodes {
+		mm := nodeChannels[ni]
 		var keys []float32
 		for _, k := range mm[0].Frames {
 			keys = append(keys, float32(k)/30)
diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index d447620..389cce1 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -3,6 +3,7 @@ package converter
 import (
 	"fmt"
 	"log"
+	"sort"
 
 	"github.com/binzume/modelconv/geom"
 	"github.com/binzume/modelconv/mmd"
@@ -116,8 +117,18 @@ func (c *mmdToMQO) convertFaces(pmx *mmd.Document, faces []int, face2mat []int,
 	}
 }
 
+func sortedKeys(m map[int]int) []int {
+	keys := make([]int, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Ints(keys)
+	return keys
+}
+
 func (c *mmdToMQO) setWeight(pmx *mmd.Document, bones []*mqo.Bone, objid int, vmap map[int]int) {
-	for pmv, mqv := range vmap {
+	for _, pmv := range sortedKeys(vmap) {
+		mqv := vmap[pmv]
 		v := pmx.Vertexes[pmv]
 		c := map[int]*mqo.VertexWeight{}
 		for bi, b := range v.Bones {
@@ -282,7 +293,8 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 		morphTargets.Base = o.Name
 		vmap := map[int]int{}
 		c.convertFaces(pmx, faces, face2mat, o, vmap)
-		for pmv, mqv := range vmap {
+		for _, pmv := range sortedKeys(vmap) {
+			mqv := vmap[pmv]
 			v := pmx.Vertexes[pmv]
 			c := map[int]*mqo.VertexWeight{}
 			for bi, b := range v.Bones {
diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 89ffa8b..5e6f752 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -7,6 +7,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/binzume/modelconv/geom"
@@ -920,6 +921,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 	for ext := range m.extensions {
 		m.ExtensionsUsed = append(m.ExtensionsUsed, ext)
 	}
+	sort.Strings(m.ExtensionsUsed)
 
 	if len(m.Document.Textures) > 0 {
 		m.Document.Samplers = []*gltf.Sampler{{}}
diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index adc14b3..55430bc 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/binzume/modelconv/gltfutil"
@@ -114,6 +115,7 @@ func matchNodeName(pattern string, nodeMap map[string]int) []int {
 				result = append(result, id)
 			}
 		}
+		sort.Ints(result)
 	} else if id, ok := nodeMap[pattern]; ok {
 		result = append(result, id)
 	}
diff --git a/mqo/bone_plugin.go b/mqo/bone_plugin.go
index ec7d5cf..00f047c 100644
--- a/mqo/bone_plugin.go
+++ b/mqo/bone_plugin.go
@@ -248,6 +248,7 @@ func (p *BonePlugin) ApplyTransform(transform *Matrix4) {
 func (doc *Document) BoneTransform(baseBone *Bone, rot *geom.Quaternion, boneFn func(b *Bone)) {
 	bones := GetBonePlugin(doc).Bones()
 	targetBones := map[*Bone]bool{baseBone: true}
+	targetList := []*Bone{baseBone}
 	boneByID := map[int]*Bone{}
 	for _, b := range bones {
 		boneByID[b.ID] = b
@@ -259,6 +260,7 @@ func (doc *Document) BoneTransform(baseBone *Bone, rot *geom.Quaternion, boneFn
 		if b.Parent > 0 && targetBones[boneByID[b.Parent]] && !targetBones[b] {
 			boneFn(b)
 			targetBones[b] = true
+			targetList = append(targetList, b)
 		}
 	}
 
@@ -277,7 +279,7 @@ func (doc *Document) BoneTransform(baseBone *Bone, rot *geom.Quaternion, boneFn
 	}
 
 	verts := map[*Vector3]float32{}
-	for b := range targetBones {
+	for _, b := range targetList {
 		verts[&b.Pos.Vector3] = 1
 		for _, bw := range b.Weights {
 			objectIDs := append(morphObjs[bw.ObjectID], bw.ObjectID)
diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 1a337a7..6a24cee 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -193,7 +193,9 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 			w.WriteString("\t\tuid {\n")
 			uids := make([]int, len(obj.Vertexes))
 			for uid, v := range obj.VertexByUID {
-				uids[v] = uid
+				if uids[v] == 0 || uid < uids[v] {
+					uids[v] = uid
+				}
 			}
 			for i, uid := range uids {
 				if uid == 0 {
diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index 98e357e..a478039 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -9,6 +9,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"gopkg.in/yaml.v2"
@@ -94,6 +95,7 @@ func (a *assets) GetAllAssets() []*Asset {
 	for _, a := range a.Assets {
 		assets = append(assets, a)
 	}
+	sort.Slice(assets, func(i, j int) bool { return assets[i].Path < assets[j].Path })
 	return assets
 }
 
diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 1008096..287b42b 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -58,6 +58,7 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 	var objects []*GameObject
 
 	addedChildren := map[Ref][]*Transform{}
+	var addedParents []Ref
 
 	for _, doc := range ParseYamlDocuments(b) {
 		var element Element
@@ -106,6 +107,9 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 					tr.Father.GUID = scene.GUID
 					for _, c := range root.Components {
 						if _, ok := s.GetElement2(&c.Ref, root.PrefabInstance).(*Transform); ok {
+							if _, ok := addedChildren[tr.Father]; !ok {
+								addedParents = append(addedParents, tr.Father)
+							}
 							addedChildren[tr.Father] = append(addedChildren[tr.Father], tr)
 						}
 					}
@@ -212,12 +216,12 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 		}
 	}
 
-	for pref, children := range addedChildren {
-		parent := scene.GetTransform(&pref, nil)
+	for i := range addedParents {
+		parent := scene.GetTransform(&addedParents[i], nil)
 		if parent == nil {
 			continue
 		}
-		for _, child := range children {
+		for _, child := range addedChildren[addedParents[i]] {
 			parent.AddChild(child)
 		}
 	}
-- 
2.43.0


From 2c926575cb2b962c66c2aa8f7edfa81c54c58c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:14 +0000
Subject: [PATCH 17/76] fix: unity: remove the temporary directory when a
 package cannot be opened

---
 unity/unity_assets.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index a478039..e30348c 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -72,9 +72,15 @@ func OpenPackage(packagePath string) (Assets, error) {
 	}
 	err = extractPackage(packagePath, tmpDir)
 	if err != nil {
+		os.RemoveAll(tmpDir)
 		return nil, err
 	}
-	return scanPackage(tmpDir, true, packagePath)
+	pkg, err := scanPackage(tmpDir, true, packagePath)
+	if err != nil {
+		os.RemoveAll(tmpDir)
+		return nil, err
+	}
+	return pkg, nil
 }
 
 type assets struct {
-- 
2.43.0


From 0ad5c15b060dfd4a6dad2646980450efac6b971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:15 +0000
Subject: [PATCH 18/76] fix: unity: do not extract package entries outside of
 the temporary directory

---
 unity/unity_assets.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index e30348c..9f65fc3 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -3,6 +3,7 @@ package unity
 import (
 	"archive/tar"
 	"compress/gzip"
+	"fmt"
 	"io"
 	"io/fs"
 	"io/ioutil"
@@ -218,6 +219,9 @@ func extractPackage(pacakage, dst string) error {
 		}
 
 		name := filepath.Join(dst, header.Name)
+		if name != filepath.Clean(dst) && !strings.HasPrefix(name, filepath.Clean(dst)+string(filepath.Separator)) {
+			return fmt.Errorf("invalid path in the package: %s", header.Name)
+		}
 
 		switch header.Typeflag {
 		case tar.TypeDir:
-- 
2.43.0


From 9adebda91d1faf5ddd79faae9bc8fc98ed207ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:16 +0000
Subject: [PATCH 19/76] fix: unity: report damaged packages and failed
 extraction, and close pathname files

---
 unity/unity_assets.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index 9f65fc3..cbfb5a5 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -165,15 +165,10 @@ func scanPackage(packageDir string, tmp bool, originalPath string) (*packageFs,
 			continue
 		}
 		pathname := filepath.Join(packageDir, f.Name(), "pathname")
-		if _, err = os.Stat(pathname); err != nil {
+		b, err := ioutil.ReadFile(pathname)
+		if os.IsNotExist(err) {
 			continue
 		}
-		r, err := os.Open(pathname)
-		if err != nil {
-			return nil, err
-		}
-		defer r.Close()
-		b, err := ioutil.ReadAll(r)
 		if err != nil {
 			return nil, err
 		}
@@ -209,7 +204,9 @@ func extractPackage(pacakage, dst string) error {
 		switch {
 
 		case err == io.EOF:
-			return nil
+			// The rest has the checksum.
+			_, err := io.Copy(io.Discard, gzr)
+			return err
 
 		case err != nil:
 			return err
@@ -239,7 +236,9 @@ func extractPackage(pacakage, dst string) error {
 				f.Close()
 				return err
 			}
-			f.Close()
+			if err := f.Close(); err != nil {
+				return err
+			}
 		}
 	}
 }
-- 
2.43.0


From b7103b757895a192e98428441a3d4103548b0323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:25 +0000
Subject: [PATCH 20/76] fix: unity: do not crash or recurse forever on
 incomplete or cyclic scenes

---
 converter/unity2mqo.go | 10 ++++++++++
 unity/unity.go         |  7 +++++++
 unity/unity_scene.go   | 30 +++++++++++++++++++++++-------
 unity/unity_yaml.go    |  4 ++--
 4 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 622e4cf..2fb5fd1 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -34,6 +34,8 @@ type unityToMqoState struct {
 	}
 	matToGUID map[int]string
 
+	ancestors map[*unity.Transform]bool
+
 	// TODL: LRU cache
 	lastFbx   *fbx.Document
 	lastFbxID string
@@ -61,6 +63,7 @@ func (conv *UnityToMQOConverter) Convert(secne *unity.Scene) (*mqo.Document, err
 			uvScale *geom.Vector2
 		}{},
 		matToGUID: map[int]string{},
+		ancestors: map[*unity.Transform]bool{},
 	}
 
 	s := state.ConvertScale
@@ -93,6 +96,9 @@ func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransf
 	obj.Scale = &tr.LocalScale
 	obj.SetRotation(geom.NewQuaternion(-tr.LocalRotation.X, -tr.LocalRotation.Y, tr.LocalRotation.Z, tr.LocalRotation.W))
 
+	c.ancestors[tr] = true
+	defer delete(c.ancestors, tr)
+
 	transform := parentTransform.Mul(tr.GetMatrix())
 
 	var meshFilter *unity.MeshFilter
@@ -213,6 +219,10 @@ func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransf
 			log.Println("GameObject not found", child.GameObject, tr.CorrespondingSourceObject)
 			continue
 		}
+		if childTr := childObj.GetTransform(); childTr != nil && c.ancestors[childTr] {
+			log.Println("Recursive GameObject", childObj.Name)
+			continue
+		}
 		c.convertObject(childObj, d+1, transform, active)
 	}
 }
diff --git a/unity/unity.go b/unity/unity.go
index c205f46..b065d58 100644
--- a/unity/unity.go
+++ b/unity/unity.go
@@ -80,6 +80,13 @@ type GameObject struct {
 
 func (o *GameObject) init(scene *Scene) {
 	o.Scene = scene
+	components := o.Components[:0]
+	for _, c := range o.Components {
+		if c != nil {
+			components = append(components, c)
+		}
+	}
+	o.Components = components
 }
 
 func (o *GameObject) GetComponent(target interface{}) bool {
diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 287b42b..bf85d92 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -34,6 +34,16 @@ func LoadScene(assets Assets, scenePath string) (*Scene, error) {
 }
 
 func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
+	return loadSceneAsset(assets, sceneAsset, map[string]bool{})
+}
+
+func loadSceneAsset(assets Assets, sceneAsset *Asset, loading map[string]bool) (*Scene, error) {
+	if loading[sceneAsset.GUID] {
+		return nil, fmt.Errorf("Recursive prefab: %s", sceneAsset.Path)
+	}
+	loading[sceneAsset.GUID] = true
+	defer delete(loading, sceneAsset.GUID)
+
 	r, err := assets.Open(sceneAsset.Path)
 	if err != nil {
 		return nil, err
@@ -70,6 +80,10 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 				GameObject *GameObject `yaml:"GameObject" typeid:"unity3d.com,2011:1"`
 			}
 			err = doc.Decode(&d)
+			if d.GameObject == nil {
+				log.Println("invalid gameObject", err, scene.GUID, fileId)
+				continue
+			}
 			d.GameObject.init(scene)
 			element = d.GameObject
 			objects = append(objects, d.GameObject)
@@ -92,9 +106,9 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 				log.Println("prefab not found", prefab.SourcePrefab)
 				continue
 			}
-			s, err := LoadSceneAsset(assets, prefabAsset)
+			s, err := loadSceneAsset(assets, prefabAsset, loading)
 			if err != nil {
-				log.Println("failed to loadPrefab", prefab.SourcePrefab)
+				log.Println("failed to loadPrefab", prefab.SourcePrefab, err)
 				continue
 			}
 			prefab.PrefabScene = s
@@ -102,7 +116,7 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 			if len(s.Objects) > 0 {
 				root := s.Objects[0]
 				tr := root.GetTransform()
-				if tr != nil {
+				if tr != nil && prefab.Modification.TransformParent != nil {
 					tr.Father = *prefab.Modification.TransformParent
 					tr.Father.GUID = scene.GUID
 					for _, c := range root.Components {
@@ -132,17 +146,19 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 					flaotValue = float32(v)
 				}
 				prop := strings.Split(mod.PropertyPath, ".")
-				typ := reflect.TypeOf(target).Elem()
-				if typ.Kind() != reflect.Struct {
+				typ := reflect.TypeOf(target)
+				if typ.Kind() != reflect.Ptr || typ.Elem().Kind() != reflect.Struct {
 					continue
 				}
+				typ = typ.Elem()
 				for i := 0; i < typ.NumField(); i++ {
 					if y := typ.Field(i).Tag.Get("yaml"); y != "" {
 						if (strings.Split(y, ",")[0]) == prop[0] {
 							field := reflect.ValueOf(target).Elem().Field(i).Addr().Interface()
 							if len(prop) == 3 && prop[1] == "Array" && strings.HasPrefix(prop[2], "data[") {
-								if idx, err := strconv.ParseInt(prop[2][5:len(prop[2])-1], 10, 32); err == nil && int(idx) < reflect.ValueOf(target).Elem().Field(i).Len() {
-									field = reflect.ValueOf(target).Elem().Field(i).Index(int(idx)).Addr().Interface()
+								list := reflect.ValueOf(target).Elem().Field(i)
+								if idx, err := strconv.ParseUint(strings.Trim(prop[2][4:], "[]"), 10, 31); err == nil && list.Kind() == reflect.Slice && int(idx) < list.Len() {
+									field = list.Index(int(idx)).Addr().Interface()
 								}
 							}
 							if v, ok := field.(*float32); ok {
diff --git a/unity/unity_yaml.go b/unity/unity_yaml.go
index 5d14fd0..f3bb901 100644
--- a/unity/unity_yaml.go
+++ b/unity/unity_yaml.go
@@ -61,8 +61,8 @@ func (s *yamlSplitter) getTag() string {
 	tag := s.readToken()
 	if len(tag) > 0 && tag[0] == '!' {
 		t := strings.SplitN(tag[1:], "!", 2)
-		if v, ok := s.tags[t[0]]; ok {
-			tag = v + tag[len(t[0])+2:]
+		if v, ok := s.tags[t[0]]; ok && len(t) == 2 {
+			tag = v + t[1]
 		}
 	}
 	return tag
-- 
2.43.0


From 3b27e61a44edbd3229f4697397447e73eab7968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:26 +0000
Subject: [PATCH 21/76] fix: unity: never take a partly copied texture for a
 saved one

---
 converter/unity2mqo.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 2fb5fd1..68b0bef 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -314,8 +314,9 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 
 func (c *unityToMqoState) saveTexrure(assets unity.Assets, texAsset *unity.Asset) (string, error) {
 	texDir := filepath.Join(filepath.Dir(assets.GetSourcePath()), "saved_textures")
-	texPath := filepath.Join(texDir, texAsset.GUID+"_"+filepath.Base(texAsset.Path))
-	texName := "saved_textures/" + texAsset.GUID + "_" + filepath.Base(texAsset.Path)
+	texFile := filepath.Base(texAsset.GUID + "_" + filepath.Base(texAsset.Path))
+	texPath := filepath.Join(texDir, texFile)
+	texName := "saved_textures/" + texFile
 	_ = os.Mkdir(texDir, 0755)
 	if _, err := os.Stat(texPath); err == nil {
 		return texName, nil
@@ -325,13 +326,24 @@ func (c *unityToMqoState) saveTexrure(assets unity.Assets, texAsset *unity.Asset
 		return "", err
 	}
 	defer r.Close()
-	w, err := os.Create(texPath)
+	// A file with the final name is always complete: it is not copied again.
+	tmpPath := texPath + ".tmp"
+	w, err := os.Create(tmpPath)
 	if err != nil {
 		return "", err
 	}
-	defer w.Close()
 	_, err = io.Copy(w, r)
-	return texName, err
+	if err1 := w.Close(); err == nil {
+		err = err1
+	}
+	if err == nil {
+		err = os.Rename(tmpPath, texPath)
+	}
+	if err != nil {
+		os.Remove(tmpPath)
+		return "", err
+	}
+	return texName, nil
 }
 
 func (c *unityToMqoState) importMesh(mesh *unity.Ref, obj *mqo.Object, materials []int, transform *geom.Matrix4) error {
-- 
2.43.0


From 4ce5df9d36171106189762d75bf48b2154779b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:41 +0000
Subject: [PATCH 22/76] fix: gltf: embed external images from the directory of
 the model

---
 gltfutil/gltf_utils.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 59a1c71..e9a6052 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -130,14 +130,7 @@ func ToSingleFile(doc *gltf.Document, srcDir string) error {
 	}
 	for _, m := range doc.Images {
 		if m.BufferView == nil && m.URI != "" {
-			path, _ := filepath.Rel(srcDir, m.URI)
-			f, err := os.Open(path)
-			if err != nil {
-				log.Print(err)
-				continue
-			}
-			defer f.Close()
-			buf, err := ioutil.ReadAll(f)
+			buf, err := ioutil.ReadFile(filepath.Join(srcDir, filepath.FromSlash(m.URI)))
 			if err != nil {
 				log.Print(err)
 				continue
-- 
2.43.0


From e8b6f8c4447cbd0ac264ea4a067941a14201f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:41 +0000
Subject: [PATCH 23/76] fix: gltf: do not overwrite the buffers of the input
 when saving a .gltf

---
 cmd/modelconv/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 9af3b15..8e5f628 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -83,7 +83,8 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 		return gltfutil.Save(doc, output, true)
 	} else if ext == ".gltf" {
 		for i, b := range doc.Buffers {
-			if b.URI == "" {
+			// A buffer loaded from another file is not written back to it.
+			if b.URI == "" || len(b.Data) > 0 && !b.IsEmbeddedResource() {
 				b.URI = fmt.Sprintf("%s%d.bin", strings.TrimSuffix(filepath.Base(output), filepath.Ext(output)), i)
 			}
 		}
-- 
2.43.0


From 6808eed5c7b8659fa70f0058ca7452d467777a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:24 +0000
Subject: [PATCH 24/76] fix: fbx: do not crash or recurse forever on short
 properties, bad axes and cyclic models

---
 fbx/fbx_document.go | 24 ++++++++++++++++++------
 fbx/fbx_model.go    |  9 +++++++++
 fbx/fbx_object.go   |  3 +++
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/fbx/fbx_document.go b/fbx/fbx_document.go
index b65a76b..fd89aae 100644
--- a/fbx/fbx_document.go
+++ b/fbx/fbx_document.go
@@ -1,6 +1,10 @@
 package fbx
 
-import "github.com/binzume/modelconv/geom"
+import (
+	"fmt"
+
+	"github.com/binzume/modelconv/geom"
+)
 
 type Document struct {
 	FileId       []byte
@@ -125,14 +129,16 @@ func BuildDocument(root *Node) (*Document, error) {
 				to = objectByName[node.Attr(2).ToString()]
 			}
 			if to != nil && from != nil {
-				to.AddRef(from)
-
 				// build model tree
 				if toModel, ok := to.(*Model); ok {
 					if fromModel, ok := from.(*Model); ok {
+						if toModel.hasAncestor(fromModel) {
+							return nil, fmt.Errorf("fbx: model %d is its own ancestor", fromModel.ID())
+						}
 						fromModel.Parent = toModel
 					}
 				}
+				to.AddRef(from)
 			}
 		}
 	}
@@ -174,8 +180,14 @@ func (doc *Document) CoordMatrix() *geom.Matrix4 {
 		0, 0, 0, 0,
 		0, 0, 0, 1,
 	}
-	mat[gs.GetProperty("CoordAxis").ToInt(0)*4] = gs.GetProperty("CoordAxisSign").ToFloat32(1)
-	mat[gs.GetProperty("UpAxis").ToInt(1)*4+1] = gs.GetProperty("UpAxisSign").ToFloat32(1)
-	mat[gs.GetProperty("FrontAxis").ToInt(2)*4+2] = gs.GetProperty("FrontAxisSign").ToFloat32(1)
+	axis := func(name string, defvalue int) int {
+		if a := gs.GetProperty(name).ToInt(defvalue); a >= 0 && a < 3 {
+			return a
+		}
+		return defvalue
+	}
+	mat[axis("CoordAxis", 0)*4] = gs.GetProperty("CoordAxisSign").ToFloat32(1)
+	mat[axis("UpAxis", 1)*4+1] = gs.GetProperty("UpAxisSign").ToFloat32(1)
+	mat[axis("FrontAxis", 2)*4+2] = gs.GetProperty("FrontAxisSign").ToFloat32(1)
 	return &mat
 }
diff --git a/fbx/fbx_model.go b/fbx/fbx_model.go
index 4c65d49..4664804 100644
--- a/fbx/fbx_model.go
+++ b/fbx/fbx_model.go
@@ -78,6 +78,15 @@ func (m *Model) GetWorldMatrix() *geom.Matrix4 {
 	return m.Parent.GetWorldMatrix().Mul(m.GetMatrix())
 }
 
+func (m *Model) hasAncestor(ancestor *Model) bool {
+	for ; m != nil; m = m.Parent {
+		if m == ancestor {
+			return true
+		}
+	}
+	return false
+}
+
 func (m *Model) GetChildModels() []*Model {
 	var r []*Model
 	for _, o := range m.Refs {
diff --git a/fbx/fbx_object.go b/fbx/fbx_object.go
index c3285c0..270820e 100644
--- a/fbx/fbx_object.go
+++ b/fbx/fbx_object.go
@@ -59,6 +59,9 @@ func (o *Obj) GetProperty(name string) *Property {
 	if o.properties == nil {
 		o.properties = map[string]*Property{}
 		for _, node := range o.FindChild("Properties70").GetChildren() {
+			if len(node.Attributes) < 4 {
+				continue
+			}
 			o.properties[node.Attr(0).ToString()] = &Property{
 				AttributeList: node.Attributes[4:],
 				Type:          node.Attr(1).ToString(),
-- 
2.43.0


From 3addd161b33982732c2e65a2ea25c410f40a9d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:12 +0000
Subject: [PATCH 25/76] fix: mqo: a long Shift_JIS text made the loader loop
 forever

---
 mqo/mqo_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index f603df9..b4955bb 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -66,6 +66,9 @@ func (*basckSlashReplacer) Transform(dst, src []byte, atEOF bool) (nDst, nSrc in
 			dst[i] = '/'
 		}
 	}
+	if n < len(src) {
+		return n, n, transform.ErrShortDst
+	}
 	return n, n, nil
 }
 
-- 
2.43.0


From ef426be8ef4af0ecd4e03b291d78b048dd8d263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:45 +0000
Subject: [PATCH 26/76] fix: fbx: read back 64 bit integers of an array

---
 fbx/text_parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index 08128b2..e606557 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -126,7 +126,8 @@ func (p *textParser) parseArrayProp() *Attribute {
 		}
 	}
 	var dvalues []float64
-	var hasPoint bool
+	var ivalues []int64
+	var hasPoint, isLong bool
 	for i := 0; i < int(size) && p.err == nil; {
 		typ, s := p.getToken()
 		if typ == EOL || typ == Comma {
@@ -136,6 +137,9 @@ func (p *textParser) parseArrayProp() *Attribute {
 		} else if typ == Number {
 			v, _ := strconv.ParseFloat(s, 64)
 			dvalues = append(dvalues, v)
+			iv, _ := strconv.ParseInt(s, 10, 64)
+			ivalues = append(ivalues, iv)
+			isLong = isLong || iv != int64(int32(iv))
 			hasPoint = hasPoint || strings.ContainsAny(s, ".eE")
 		} else {
 			p.errorf("Invalid token: %v", s)
@@ -146,7 +150,9 @@ func (p *textParser) parseArrayProp() *Attribute {
 		p.errorf("read array:.size: %v != %v", size, len(dvalues))
 	}
 	var values interface{} = dvalues
-	if !hasPoint {
+	if !hasPoint && isLong {
+		values = ivalues
+	} else if !hasPoint {
 		var i32values []int32
 		for _, v := range dvalues {
 			i32values = append(i32values, int32(v))
-- 
2.43.0


From 96b690a2fcdc54dc3d2ab0810bda1e8b26e2e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:48 +0000
Subject: [PATCH 27/76] fix: mqo: do not crash on a face that has normals for
 some of its vertexes only

---
 mqo/utils.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/mqo/utils.go b/mqo/utils.go
index 1de0fd7..2ada4cd 100644
--- a/mqo/utils.go
+++ b/mqo/utils.go
@@ -65,17 +65,30 @@ func (obj *Object) GetSmoothNormals() []Vector3 {
 func (obj *Object) FixhNormals() {
 	var normals []Vector3
 	for _, f := range obj.Faces {
-		if len(f.Normals) == len(f.Verts) {
+		if len(f.Normals) == len(f.Verts) && !hasNil(f.Normals) {
 			continue
 		}
 		if normals == nil {
 			normals = obj.GetSmoothNormals()
 		}
-		f.Normals = make([]*Vector3, len(f.Verts))
+		if len(f.Normals) != len(f.Verts) {
+			f.Normals = make([]*Vector3, len(f.Verts))
+		}
 		for i, v := range f.Verts {
-			f.Normals[i] = &normals[v]
+			if f.Normals[i] == nil {
+				f.Normals[i] = &normals[v]
+			}
+		}
+	}
+}
+
+func hasNil(vectors []*Vector3) bool {
+	for _, v := range vectors {
+		if v == nil {
+			return true
 		}
 	}
+	return false
 }
 
 func (o *Object) Triangulate() {
-- 
2.43.0


From d75b64f02e903aed03012add0cd370100e3932c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:30 +0000
Subject: [PATCH 28/76] fix: mmd2mqo: do not crash on a bone without an inherit
 parent or IK target

---
 converter/mmd2mqo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 389cce1..4ea4800 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -63,7 +63,7 @@ func (c *mmdToMQO) convertBones(pmx *mmd.Document) []*mqo.Bone {
 		}
 		if pmBone.Flags&mmd.BoneFlagInheritRotation > 0 &&
 			pmBone.InheritParentInfluence > c.InheritParentThreshold &&
-			len(pmx.Bones) > pmBone.InheritParentID {
+			pmBone.InheritParentID >= 0 && pmBone.InheritParentID < len(pmx.Bones) {
 			for _, n := range c.KnownBoneNames {
 				if n == pmx.Bones[pmBone.InheritParentID].Name {
 					mqBone.Parent = pmBone.InheritParentID + 1
@@ -78,7 +78,7 @@ func (c *mmdToMQO) convertBones(pmx *mmd.Document) []*mqo.Bone {
 	}
 
 	for _, pmBone := range pmx.Bones {
-		if len(pmBone.IK.Links) > 0 {
+		if len(pmBone.IK.Links) > 0 && pmBone.IK.TargetID >= 0 && pmBone.IK.TargetID < len(bones) {
 			var tipName string
 			if pmBone.TailID > 0 && pmBone.TailID < len(pmx.Bones) {
 				tipName = pmx.Bones[pmBone.TailID].Name
-- 
2.43.0


From 2ce258e7ee9063fb7f11f6e9a6329b0724c6bf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:22 +0000
Subject: [PATCH 29/76] fix: unity: do not crash on a component without its
 content

---
 unity/unity_scene.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index bf85d92..9e90647 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -209,7 +209,8 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, loading map[string]bool) (
 			if fieldid, ok := componentTags[doc.Tag]; ok {
 				var components componentDesc
 				err = doc.Decode(&components)
-				if component, _ := reflect.ValueOf(components).Field(fieldid).Interface().(Component); component != nil {
+				field := reflect.ValueOf(components).Field(fieldid)
+				if component, ok := field.Interface().(Component); ok && !field.IsNil() {
 					component.init(scene)
 					element = component
 				}
-- 
2.43.0


From cae41f357cb218ebaf68603a59b147f1d47f3f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:35 +0000
Subject: [PATCH 30/76] fix: unity: let several conversions save the textures
 of one package at the same time

---
 converter/unity2mqo.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 68b0bef..e614fae 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -327,12 +327,15 @@ func (c *unityToMqoState) saveTexrure(assets unity.Assets, texAsset *unity.Asset
 	}
 	defer r.Close()
 	// A file with the final name is always complete: it is not copied again.
-	tmpPath := texPath + ".tmp"
-	w, err := os.Create(tmpPath)
+	w, err := os.CreateTemp(texDir, texFile+".*.tmp")
 	if err != nil {
 		return "", err
 	}
+	tmpPath := w.Name()
 	_, err = io.Copy(w, r)
+	if err1 := w.Chmod(0644); err == nil {
+		err = err1
+	}
 	if err1 := w.Close(); err == nil {
 		err = err1
 	}
-- 
2.43.0


From ae01a4247d55d4152b9a7a89df99fc4e57a2c433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:47 +0000
Subject: [PATCH 31/76] fix: converter: do not recurse forever on cyclic bones
 and nodes

---
 converter/gltf2mqo.go  | 10 +++++++---
 converter/vrmconfig.go | 26 +++++++++++++++++++-------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 837204d..39d5324 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -104,7 +104,11 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 	return obj
 }
 
-func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, bones []*mqo.Bone) []*mqo.Bone {
+func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, bones []*mqo.Bone, visited map[uint32]bool) []*mqo.Bone {
+	if visited[node] {
+		return bones
+	}
+	visited[node] = true
 	n := src.Nodes[node]
 	pos := geom.NewVector3FromArray(n.Translation)
 	if parent > 0 {
@@ -119,7 +123,7 @@ func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, bo
 	}
 	bones = append(bones, b)
 	for _, child := range n.Children {
-		bones = c.convertBones(src, child, b.ID, bones)
+		bones = c.convertBones(src, child, b.ID, bones, visited)
 	}
 	return bones
 }
@@ -143,7 +147,7 @@ func (c *gltfToMqo) Convert(src *gltf.Document) (*mqo.Document, error) {
 		if skin.Skeleton != nil {
 			if _, exist := bonemap[*skin.Skeleton]; !exist {
 				bonemap[*skin.Skeleton] = true
-				bones = c.convertBones(src, *skin.Skeleton, 0, bones)
+				bones = c.convertBones(src, *skin.Skeleton, 0, bones, map[uint32]bool{})
 			}
 		}
 	}
diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 55430bc..4e9f783 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -122,12 +122,16 @@ func matchNodeName(pattern string, nodeMap map[string]int) []int {
 	return result
 }
 
-func findReursive(doc *vrm.Document, target uint32, m map[uint32]string) (string, bool) {
+func findReursive(doc *vrm.Document, target uint32, m map[uint32]string, visited map[uint32]bool) (string, bool) {
 	if name, ok := m[target]; ok {
 		return name, ok
 	}
+	if visited[target] {
+		return "", false
+	}
+	visited[target] = true
 	for _, c := range doc.Nodes[target].Children {
-		if name, ok := findReursive(doc, c, m); ok {
+		if name, ok := findReursive(doc, c, m, visited); ok {
 			return name, ok
 		}
 	}
@@ -135,6 +139,9 @@ func findReursive(doc *vrm.Document, target uint32, m map[uint32]string) (string
 }
 
 func registerReursive(doc *vrm.Document, target uint32, m map[uint32]string, name string) {
+	if _, ok := m[target]; ok {
+		return
+	}
 	m[target] = name
 	for _, c := range doc.Nodes[target].Children {
 		registerReursive(doc, c, m, name)
@@ -216,7 +223,7 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 					log.Printf("ERROR: %v is not bone node!", nodeName)
 					continue
 				}
-				if name, ok := findReursive(doc, uint32(n), springBones); ok {
+				if name, ok := findReursive(doc, uint32(n), springBones, map[uint32]bool{}); ok {
 					log.Printf("ERROR: %s already added as %s", nodeName, name)
 					continue
 				}
@@ -391,7 +398,10 @@ func ToVRM(gltfDoc *gltf.Document, output, srcDir, confFile string) (*vrm.Docume
 	return doc, nil
 }
 
-func springLen(doc *gltf.Document, node *gltf.Node) int {
+func springLen(doc *gltf.Document, node *gltf.Node, ancestors map[*gltf.Node]bool) int {
+	if ancestors[node] {
+		return -1
+	}
 	p, ok := node.Extensions[BlenderPhysicsName].(*BlenderPhysicsBody)
 	if !ok {
 		if len(node.Children) == 0 {
@@ -402,9 +412,11 @@ func springLen(doc *gltf.Document, node *gltf.Node) int {
 	if p.Static {
 		return -1
 	}
+	ancestors[node] = true
+	defer delete(ancestors, node)
 	l := 1
 	for _, n := range node.Children {
-		d := springLen(doc, doc.Nodes[n])
+		d := springLen(doc, doc.Nodes[n], ancestors)
 		if d < 0 {
 			return -1
 		}
@@ -424,8 +436,8 @@ func DetectSpringBones(doc *gltf.Document, conf *Config) {
 	}
 	var nodeNames []string
 	for i, n := range doc.Nodes {
-		l := springLen(doc, n)
-		if l > 0 && springLen(doc, doc.Nodes[parents[i]]) < 0 {
+		l := springLen(doc, n, map[*gltf.Node]bool{})
+		if l > 0 && springLen(doc, doc.Nodes[parents[i]], map[*gltf.Node]bool{}) < 0 {
 			log.Println("Add SpringBone:", i, n.Name)
 			nodeNames = append(nodeNames, n.Name)
 		}
-- 
2.43.0


From 411681bba73925d1a293e6579fddcb222ecc8c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:59 +0000
Subject: [PATCH 32/76] fix: gltf: leave out a texture whose size or content
 the decoder cannot handle

---
 converter/mqo2gltf.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 5e6f752..853dd71 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -2,6 +2,7 @@ package converter
 
 import (
 	"bytes"
+	"fmt"
 	"io"
 	"log"
 	"math"
@@ -128,12 +129,39 @@ func (c *textureCache) getImage(name string) (image.Image, error) {
 	}
 	defer f.Close()
 
-	if strings.ToLower(filepath.Ext(t.name)) == ".tga" {
-		t.img, t.err = tga.Decode(f)
+	t.img, t.err = decodeImage(f, strings.ToLower(filepath.Ext(t.name)) == ".tga")
+	return t.img, t.err
+}
+
+// maxTexturePixels is far more than any usable texture has.
+const maxTexturePixels = 1 << 28
+
+func decodeImage(f io.ReadSeeker, isTga bool) (img image.Image, err error) {
+	defer func() {
+		if r := recover(); r != nil { // the decoder does not expect a broken file
+			img, err = nil, fmt.Errorf("invalid image: %v", r)
+		}
+	}()
+	var conf image.Config
+	if isTga {
+		conf, err = tga.DecodeConfig(f)
 	} else {
-		t.img, _, t.err = image.Decode(f)
+		conf, _, err = image.DecodeConfig(f)
 	}
-	return t.img, t.err
+	if err != nil {
+		return nil, err
+	}
+	if int64(conf.Width)*int64(conf.Height) > maxTexturePixels {
+		return nil, fmt.Errorf("invalid image size: %dx%d", conf.Width, conf.Height)
+	}
+	if _, err = f.Seek(0, io.SeekStart); err != nil {
+		return nil, err
+	}
+	if isTga {
+		return tga.Decode(f)
+	}
+	img, _, err = image.Decode(f)
+	return img, err
 }
 
 type geomCache struct {
-- 
2.43.0


From 4f17f7a3524f1c85e1cc1f793f7b186c0700dee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:13 +0000
Subject: [PATCH 33/76] fix: gltf: a morph of an object without normals
 referred to an unrelated accessor

---
 converter/mqo2gltf.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 853dd71..e315be6 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -732,10 +732,13 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 			v := morphObj.Vertexes[i]
 			mv = append(mv, [3]float32{v.X*scale - vertexes[i][0], v.Y*scale - vertexes[i][1], v.Z*scale - vertexes[i][2]})
 		}
-		targets = append(targets, map[string]uint32{
+		target := map[string]uint32{
 			"POSITION": modeler.WritePosition(m.Document, mv),
-			"NORMAL":   attributes["NORMAL"], // for UniVRM. TODO
-		})
+		}
+		if normal, ok := attributes["NORMAL"]; ok {
+			target["NORMAL"] = normal // for UniVRM. TODO
+		}
+		targets = append(targets, target)
 		targetNames = append(targetNames, morphObj.Name)
 	}
 
-- 
2.43.0


From 2bf2146021e550aef0b6c17c912feca9fc51ab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:51 +0000
Subject: [PATCH 34/76] fix: gltf: a small texture was scaled to an image
 without pixels

---
 converter/mqo2gltf.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index e315be6..22fbd81 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -372,7 +372,14 @@ func scaleTexture(texture string, mime string, textures *textureCache, scale flo
 	}
 
 	if scale != 1.0 {
-		dst := image.NewRGBA(image.Rect(0, 0, int(float32(rect.Dx())*scale), int(float32(rect.Dy())*scale)))
+		w, h := int(float32(rect.Dx())*scale), int(float32(rect.Dy())*scale)
+		if w < 1 {
+			w = 1
+		}
+		if h < 1 {
+			h = 1
+		}
+		dst := image.NewRGBA(image.Rect(0, 0, w, h))
 		draw.CatmullRom.Scale(dst, dst.Bounds(), img, rect, draw.Over, nil)
 		img = dst
 	}
-- 
2.43.0


From 5fe83f156bf4d478078083464a7ef40752dc8408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 35/76] fix: write the Z component of morph offsets to PMX

---
 converter/mqo2mmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index ec5a9ac..bfc3704 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -98,7 +98,7 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 										p := c.convertVec3(target.Vertexes[v])
 										morphTargets[t.Name].Vertex = append(morphTargets[t.Name].Vertex, &mmd.MorphVertex{
 											Target: verts[i],
-											Offset: mmd.Vector3{X: p.X - vert.Pos.X, Y: p.Y - vert.Pos.Y},
+											Offset: mmd.Vector3{X: p.X - vert.Pos.X, Y: p.Y - vert.Pos.Y, Z: p.Z - vert.Pos.Z},
 										})
 									}
 								}
-- 
2.43.0


From b80d073bc7a0129c3be74399dc30c9bbb56f1f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 36/76] fix: weights of a repeated bone are percentages in
 morph base objects too

---
 converter/mmd2mqo.go | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 4ea4800..50359b8 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -293,21 +293,7 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 		morphTargets.Base = o.Name
 		vmap := map[int]int{}
 		c.convertFaces(pmx, faces, face2mat, o, vmap)
-		for _, pmv := range sortedKeys(vmap) {
-			mqv := vmap[pmv]
-			v := pmx.Vertexes[pmv]
-			c := map[int]*mqo.VertexWeight{}
-			for bi, b := range v.Bones {
-				if v.BoneWeights[bi] > 0 {
-					if c[b] != nil {
-						c[b].Weight += v.BoneWeights[bi]
-						continue
-					}
-					c[b] = bones[b].SetVertexWeight(len(mq.Objects)+1, mqv+1, 100*v.BoneWeights[bi])
-				}
-			}
-		}
-
+		c.setWeight(pmx, bones, len(mq.Objects)+1, vmap)
 		mq.Objects = append(mq.Objects, o)
 		base := o
 
-- 
2.43.0


From d195e5a719c47bda88252289d986777ce8ed6a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 37/76] fix: a PMX vertex without a bone has no weights

---
 converter/mmd2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 50359b8..18452f3 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -132,7 +132,7 @@ func (c *mmdToMQO) setWeight(pmx *mmd.Document, bones []*mqo.Bone, objid int, vm
 		v := pmx.Vertexes[pmv]
 		c := map[int]*mqo.VertexWeight{}
 		for bi, b := range v.Bones {
-			if v.BoneWeights[bi] > 0 {
+			if v.BoneWeights[bi] > 0 && b >= 0 && b < len(bones) {
 				if c[b] != nil {
 					c[b].Weight += 100 * v.BoneWeights[bi]
 					continue
-- 
2.43.0


From 4c86ef96cf937ed31e0f1381fed136cfed9e2847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 38/76] fix: a morph of an unused vertex does not move vertex 0

---
 converter/mmd2mqo.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 18452f3..49b65eb 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -305,7 +305,11 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 			o.Visible = false
 			morphTargets.Target = append(morphTargets.Target, &mqo.MorphTarget{Name: o.Name})
 			for _, mv := range morph.Vertex {
-				v := o.Vertexes[vmap[mv.Target]]
+				mqv, ok := vmap[mv.Target]
+				if !ok {
+					continue // not used by any face
+				}
+				v := o.Vertexes[mqv]
 				v.X += mv.Offset.X
 				v.Y += mv.Offset.Y
 				v.Z += mv.Offset.Z * -1
@@ -318,10 +322,11 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 			}
 
 			for _, mu := range morph.UV {
-				if mu.Target < 0 {
+				mqv, ok := vmap[mu.Target]
+				if !ok {
 					continue
 				}
-				for _, fv := range vertToFV[vmap[mu.Target]] {
+				for _, fv := range vertToFV[mqv] {
 					uv := &o.Faces[fv[0]].UVs[fv[1]]
 					uv.X += mu.Value.X
 					uv.Y += mu.Value.Y
-- 
2.43.0


From e0d2e7a350e570c36cdfdc17f7bba23598c7caf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 39/76] fix: faces of a second glTF primitive refer to its own
 vertexes

---
 converter/gltf2mqo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 39d5324..5b9f40d 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -59,6 +59,7 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 		if p.Indices == nil {
 			continue
 		}
+		base := len(obj.Vertexes)
 		if a, ok := p.Attributes["POSITION"]; ok {
 			acr := src.Accessors[a]
 			pos, err := modeler.ReadPosition(src, acr, [][3]float32{})
@@ -91,7 +92,7 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 			mat = int(*p.Material)
 		}
 		for i := 0; i < len(indices)/3; i++ {
-			f := &mqo.Face{Material: mat, Verts: []int{int(indices[i*3]), int(indices[i*3+2]), int(indices[i*3+1])}}
+			f := &mqo.Face{Material: mat, Verts: []int{base + int(indices[i*3]), base + int(indices[i*3+2]), base + int(indices[i*3+1])}}
 			if len(texCoord) > int(indices[i*3]) {
 				f.UVs = []mqo.Vector2{
 					{X: texCoord[indices[i*3]][0], Y: texCoord[indices[i*3]][1]},
-- 
2.43.0


From 638a85afe7a46ea5dfcfca306c136e269b2caa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 40/76] fix: FBX weights become percentages in MQO

---
 converter/fbx2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 59add09..41174a5 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -319,7 +319,7 @@ func (c *fbxToMqoState) convertDeformer(sub *fbx.Deformer, objID int) {
 	indexes := sub.GetIndexes()
 	if len(weights) == len(indexes) {
 		for i := range indexes {
-			bone.SetVertexWeight(objID, int(indexes[i])+1, weights[i])
+			bone.SetVertexWeight(objID, int(indexes[i])+1, weights[i]*100)
 		}
 	} else {
 		log.Println("ERR: Deformer weights ", len(weights), len(indexes))
-- 
2.43.0


From 5a7255269d86158402a783ad64c61ca6d9ea9b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 41/76] fix: a material morph without its base material is
 ignored

---
 mqo/morph_plugin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqo/morph_plugin.go b/mqo/morph_plugin.go
index d601695..dece800 100644
--- a/mqo/morph_plugin.go
+++ b/mqo/morph_plugin.go
@@ -68,7 +68,7 @@ func (p *MorphPlugin) ApplyMaterialMorph(doc *Document, name string, value float
 	for _, m := range doc.Materials {
 		if strings.HasPrefix(m.Name, morphPrefix) {
 			t := matByID[m.Name[len(morphPrefix):]]
-			if m == nil {
+			if t == nil {
 				continue
 			}
 			t.Color = *t.Color.Scale(1 - value).Add(m.Color.Scale(value))
-- 
2.43.0


From 518a99ece951e103531f8e6b09ae8033ef6073cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:59 +0000
Subject: [PATCH 42/76] fix: texture names with backslashes in MMD and FBX
 files are paths

---
 converter/fbx2mqo.go | 2 +-
 converter/mmd2mqo.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 41174a5..9437522 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -100,7 +100,7 @@ func (c *fbxToMqoState) convertMaterial(m *fbx.Material) *mqo.Material {
 	mat.Power = m.GetFactor("ShininessExponent", 0)
 	texture := m.GetTexture("DiffuseColor")
 	if texture != nil {
-		mat.Texture = texture.FindChild("RelativeFilename").GetString()
+		mat.Texture = strings.ReplaceAll(texture.FindChild("RelativeFilename").GetString(), "\\", "/")
 	}
 	return mat
 }
diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 49b65eb..3124145 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"log"
 	"sort"
+	"strings"
 
 	"github.com/binzume/modelconv/geom"
 	"github.com/binzume/modelconv/mmd"
@@ -37,7 +38,7 @@ func (c *mmdToMQO) convertMaterial(mat *mmd.Material, model *mmd.Document) *mqo.
 	m.Power = mat.Specularity
 	m.DoubleSided = mat.Flags&mmd.MaterialFlagDoubleSided != 0
 	if mat.TextureID >= 0 {
-		m.Texture = model.Textures[mat.TextureID]
+		m.Texture = strings.ReplaceAll(model.Textures[mat.TextureID], "\\", "/")
 	}
 
 	m.Ex2 = &mqo.MaterialEx2{
-- 
2.43.0


From 7c7a3fdb2007c6f2eb1216b686d64ce383bd882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:56 +0000
Subject: [PATCH 43/76] fix: objects and bones of a glTF file keep their place
 in the scene

---
 converter/gltf2mqo.go | 52 +++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 5b9f40d..ed7a11e 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -53,7 +53,34 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 	return mat
 }
 
-func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
+// worldMatrices returns the transform of each node in the scene.
+func (c *gltfToMqo) worldMatrices(src *gltf.Document) []*geom.Matrix4 {
+	parents := map[uint32]uint32{}
+	locals := make([]*geom.Matrix4, len(src.Nodes))
+	for i, n := range src.Nodes {
+		for _, child := range n.Children {
+			parents[child] = uint32(i)
+		}
+		if mat := n.MatrixOrDefault(); mat != gltf.DefaultMatrix {
+			locals[i] = geom.NewMatrix4FromSlice(mat[:])
+		} else {
+			locals[i] = geom.NewTRSMatrix4(geom.NewVector3FromArray(n.Translation),
+				geom.NewQuaternionFromArray(n.RotationOrDefault()), geom.NewVector3FromArray(n.ScaleOrDefault()))
+		}
+	}
+	worlds := make([]*geom.Matrix4, len(src.Nodes))
+	for i := range src.Nodes {
+		worlds[i] = locals[i]
+		visited := map[uint32]bool{uint32(i): true}
+		for p, ok := parents[uint32(i)]; ok && !visited[p]; p, ok = parents[p] {
+			visited[p] = true
+			worlds[i] = locals[p].Mul(worlds[i])
+		}
+	}
+	return worlds
+}
+
+func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh, transform *geom.Matrix4) *mqo.Object {
 	obj := mqo.NewObject(m.Name)
 	for _, p := range m.Primitives {
 		if p.Indices == nil {
@@ -68,7 +95,7 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 				continue
 			}
 			for _, v := range pos {
-				obj.Vertexes = append(obj.Vertexes, &mqo.Vector3{X: v[0], Y: v[1], Z: v[2]})
+				obj.Vertexes = append(obj.Vertexes, transform.ApplyTo(geom.NewVector3FromArray(v)))
 			}
 		}
 		var texCoord [][2]float32
@@ -105,26 +132,22 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 	return obj
 }
 
-func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, bones []*mqo.Bone, visited map[uint32]bool) []*mqo.Bone {
+func (c *gltfToMqo) convertBones(src *gltf.Document, worlds []*geom.Matrix4, node uint32, parent int, bones []*mqo.Bone, visited map[uint32]bool) []*mqo.Bone {
 	if visited[node] {
 		return bones
 	}
 	visited[node] = true
 	n := src.Nodes[node]
-	pos := geom.NewVector3FromArray(n.Translation)
-	if parent > 0 {
-		pos = pos.Add(&bones[parent-1].Pos.Vector3)
-	}
 	b := &mqo.Bone{
 		ID:     len(bones) + 1,
 		Name:   n.Name,
 		Group:  0,
-		Pos:    mqo.Vector3Attr{Vector3: *pos},
+		Pos:    mqo.Vector3Attr{Vector3: *worlds[node].ApplyTo(&geom.Vector3{})},
 		Parent: parent,
 	}
 	bones = append(bones, b)
 	for _, child := range n.Children {
-		bones = c.convertBones(src, child, b.ID, bones, visited)
+		bones = c.convertBones(src, worlds, child, b.ID, bones, visited)
 	}
 	return bones
 }
@@ -136,9 +159,14 @@ func (c *gltfToMqo) Convert(src *gltf.Document) (*mqo.Document, error) {
 		mqdoc.Materials = append(mqdoc.Materials, c.convertMaterial(src, mat))
 	}
 
-	for _, node := range src.Nodes {
+	worlds := c.worldMatrices(src)
+	for i, node := range src.Nodes {
 		if node.Mesh != nil {
-			mqdoc.Objects = append(mqdoc.Objects, c.convertMesh(src, src.Meshes[*node.Mesh]))
+			transform := worlds[i]
+			if node.Skin != nil {
+				transform = geom.NewMatrix4() // placed by its joints
+			}
+			mqdoc.Objects = append(mqdoc.Objects, c.convertMesh(src, src.Meshes[*node.Mesh], transform))
 		}
 	}
 
@@ -148,7 +176,7 @@ func (c *gltfToMqo) Convert(src *gltf.Document) (*mqo.Document, error) {
 		if skin.Skeleton != nil {
 			if _, exist := bonemap[*skin.Skeleton]; !exist {
 				bonemap[*skin.Skeleton] = true
-				bones = c.convertBones(src, *skin.Skeleton, 0, bones, map[uint32]bool{})
+				bones = c.convertBones(src, worlds, *skin.Skeleton, 0, bones, map[uint32]bool{})
 			}
 		}
 	}
-- 
2.43.0


From 8bee53008b906a6659485ebfb11b50a5d6a3a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:54 +0000
Subject: [PATCH 44/76] fix: scaling a glTF file also scales morphs, nodes and
 joints

---
 gltfutil/gltf_utils.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index e9a6052..dca3bfa 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -153,7 +153,7 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	if transformMat == nil {
 		return
 	}
-	scaleMat := geom.NewMatrix4().Clone()
+	scaleMat := transformMat.Clone()
 	scaleMat[12], scaleMat[13], scaleMat[14] = 0, 0, 0 // remove translate
 
 	accs := map[uint32]bool{}
@@ -202,9 +202,12 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	}
 	for _, node := range doc.Nodes {
 		scaleMat.ApplyTo(geom.NewVector3FromArray(node.Translation)).ToArray(node.Translation[:])
+		scaleMat.ApplyTo(geom.NewVector3FromSlice(node.Matrix[12:15])).ToArray(node.Matrix[12:15])
 	}
+	skins := map[uint32]bool{}
 	for _, skin := range doc.Skins {
-		if skin.InverseBindMatrices != nil {
+		if skin.InverseBindMatrices != nil && !skins[*skin.InverseBindMatrices] {
+			skins[*skin.InverseBindMatrices] = true
 			accessor := doc.Accessors[*skin.InverseBindMatrices]
 			if accessor.BufferView != nil {
 				bufferView := doc.BufferViews[*accessor.BufferView]
@@ -214,17 +217,18 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 					continue
 				}
 				for i := range skin.Joints {
-					offset := bufferView.ByteOffset + uint32(i)*64
+					offset := bufferView.ByteOffset + accessor.ByteOffset + uint32(i)*64
 					mat := readMatrix(data[offset : offset+64])
-					// apply scale
-					scaleMat.Mul(geom.NewMatrix4FromSlice(mat[:])).ToArray(mat[:])
-					// normalize rotation
-					geom.NewVector3FromSlice(mat[0:3]).Normalize().ToArray(mat[0:3])
-					geom.NewVector3FromSlice(mat[4:7]).Normalize().ToArray(mat[4:7])
-					geom.NewVector3FromSlice(mat[8:11]).Normalize().ToArray(mat[8:11])
+					// The joints keep their rotation and scale.
+					scaleMat.ApplyTo(geom.NewVector3FromSlice(mat[12:15])).ToArray(mat[12:15])
 					writeMatrix(data[offset:offset+64], mat)
 				}
 			}
 		}
 	}
+	for _, buffer := range doc.Buffers {
+		if buffer.IsEmbeddedResource() {
+			buffer.EmbeddedResource() // encode the new data
+		}
+	}
 }
-- 
2.43.0


From 3d5d30235666d84441e9ede77902e75897b95605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:55 +0000
Subject: [PATCH 45/76] fix: a glTF file with several buffers becomes one
 binary chunk

---
 gltfutil/gltf_utils.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index dca3bfa..921424d 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -125,8 +125,27 @@ func RemoveExtension(doc *gltf.Document, extension string) {
 }
 
 func ToSingleFile(doc *gltf.Document, srcDir string) error {
-	for _, b := range doc.Buffers {
+	for i, b := range doc.Buffers {
 		b.URI = ""
+		if i == 0 {
+			continue
+		}
+		// There is only one binary chunk.
+		dst := doc.Buffers[0]
+		for len(dst.Data)%4 != 0 {
+			dst.Data = append(dst.Data, 0)
+		}
+		for _, v := range doc.BufferViews {
+			if v.Buffer == uint32(i) {
+				v.Buffer = 0
+				v.ByteOffset += uint32(len(dst.Data))
+			}
+		}
+		dst.Data = append(dst.Data, b.Data...)
+		dst.ByteLength = uint32(len(dst.Data))
+	}
+	if len(doc.Buffers) > 1 {
+		doc.Buffers = doc.Buffers[:1]
 	}
 	for _, m := range doc.Images {
 		if m.BufferView == nil && m.URI != "" {
-- 
2.43.0


From e8804f3d5aa5a5aea76676f0466eaf64bc1f80dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:55 +0000
Subject: [PATCH 46/76] fix: joint matrices start at the offset of their
 accessor

---
 gltfutil/gltf_joint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index 09258aa..cf0222c 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -38,7 +38,7 @@ func ResetJointMatrix(doc *gltf.Document) {
 				}
 				for i := range skin.Joints {
 					// fix inverseBindMatrix
-					offset := bufferView.ByteOffset + uint32(i)*64
+					offset := bufferView.ByteOffset + accessor.ByteOffset + uint32(i)*64
 					mat := readMatrix(data[offset : offset+64])
 
 					x := mat[0]*mat[12] + mat[1]*mat[13] + mat[2]*mat[14]
-- 
2.43.0


From 0057fa049bdf7c8a4041148a0182373cb96fd774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:20 +0000
Subject: [PATCH 47/76] fix: byte joints of a shared buffer view become 16 bit
 ones

---
 gltfutil/gltf_joint.go | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index cf0222c..6bae94f 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -2,10 +2,12 @@ package gltfutil
 
 import (
 	"encoding/binary"
+	"log"
 	"math"
 
 	"github.com/binzume/modelconv/geom"
 	"github.com/qmuntal/gltf"
+	"github.com/qmuntal/gltf/modeler"
 )
 
 type Quaternion = geom.Vector4
@@ -92,34 +94,24 @@ func ResetJointMatrix(doc *gltf.Document) {
 }
 
 func FixJointComponentType(doc *gltf.Document) {
-	fixedbuffer := map[uint32]bool{}
 	for _, mesh := range doc.Meshes {
 		for _, primitiv := range mesh.Primitives {
 			for k, attr := range primitiv.Attributes {
 				accessor := doc.Accessors[attr]
-				if k == "JOINTS_0" && doc.Accessors[attr].ComponentType == 2 { // byte
-					bufferView := doc.BufferViews[*accessor.BufferView]
-					buffer := doc.Buffers[bufferView.Buffer]
-
-					accessor.ComponentType = 4
-					if fixedbuffer[*accessor.BufferView] {
-						continue
-					}
-					fixedbuffer[*accessor.BufferView] = true
-
+				if k == "JOINTS_0" && accessor.ComponentType == gltf.ComponentUbyte {
 					// byte to uint16
-					src := buffer.Data[bufferView.ByteOffset : bufferView.ByteOffset+bufferView.ByteLength]
-					dst := make([]byte, bufferView.ByteLength*2)
-					for i, b := range src {
-						binary.LittleEndian.PutUint16(dst[i*2:i*2+2], uint16(b))
+					joints, err := modeler.ReadJoints(doc, accessor, nil)
+					if err != nil {
+						log.Print(err)
+						continue
 					}
-
-					bufferView.ByteLength *= 2
-					bufferView.ByteStride *= 2
-					bufferView.ByteOffset = uint32(len(buffer.Data))
-
-					buffer.Data = append(buffer.Data, dst...)
-					buffer.ByteLength += uint32(len(dst))
+					// The buffer view may be shared with other accessors.
+					fixed := modeler.WriteJoints(doc, joints)
+					accessor.BufferView = doc.Accessors[fixed].BufferView
+					accessor.ByteOffset = 0
+					accessor.ComponentType = gltf.ComponentUshort
+					accessor.Sparse = nil
+					doc.Accessors = doc.Accessors[:fixed]
 				}
 			}
 		}
-- 
2.43.0


From 607ae3b9b70540ceb293f9f8e5d6c0633079edcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:14 +0000
Subject: [PATCH 48/76] fix: joints lose their rotation at any depth

---
 gltfutil/gltf_joint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index 6bae94f..7a1750e 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -57,8 +57,8 @@ func ResetJointMatrix(doc *gltf.Document) {
 		}
 	}
 
-	// TODO: check node dependency
-	for i := 0; i < 10; i++ {
+	// A child may come before its parent.
+	for i := 0; i <= len(doc.Nodes); i++ {
 		fixed := 0
 		for _, node := range doc.Nodes {
 			if node.Rotation == [4]float32{0, 0, 0, 1} || node.Skin != nil {
-- 
2.43.0


From 924e0a6349d1b3c21b9bb2263f84e74fc1b7b2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:15 +0000
Subject: [PATCH 49/76] fix: a rotated mesh keeps its rotation in VRM

---
 gltfutil/gltf_joint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index 7a1750e..ea22a56 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -61,7 +61,7 @@ func ResetJointMatrix(doc *gltf.Document) {
 	for i := 0; i <= len(doc.Nodes); i++ {
 		fixed := 0
 		for _, node := range doc.Nodes {
-			if node.Rotation == [4]float32{0, 0, 0, 1} || node.Skin != nil {
+			if node.Rotation == [4]float32{0, 0, 0, 1} || node.Mesh != nil {
 				continue
 			}
 			fixed++
-- 
2.43.0


From 3bbd16721ac86c837a0ddaea9ac00ca87a560531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:33 +0000
Subject: [PATCH 50/76] fix: scaling a glTF file also scales its animations

---
 gltfutil/gltf_utils.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 921424d..90363f8 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -188,6 +188,15 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 			}
 		}
 	}
+	for _, anim := range doc.Animations {
+		for _, c := range anim.Channels {
+			if c.Target.Path == gltf.TRSTranslation && c.Sampler != nil {
+				if a := anim.Samplers[*c.Sampler].Output; a != nil {
+					accs[*a] = true
+				}
+			}
+		}
+	}
 	for a, diff := range accs {
 		acr := doc.Accessors[a]
 		pos, err := modeler.ReadPosition(doc, acr, [][3]float32{})
-- 
2.43.0


From b5ee29c4415062a8d886750b5ab37fc36a5dc6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:30 +0000
Subject: [PATCH 51/76] fix: a node with a matrix follows the rotation of its
 parent

---
 gltfutil/gltf_joint.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index ea22a56..51c3be0 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -69,6 +69,11 @@ func ResetJointMatrix(doc *gltf.Document) {
 			node.Rotation = [4]float32{0, 0, 0, 1}
 			for _, c := range node.Children {
 				child := doc.Nodes[c]
+				if mat := child.MatrixOrDefault(); mat != gltf.DefaultMatrix {
+					rot := geom.NewTRSMatrix4(&geom.Vector3{}, &a, &geom.Vector3{X: 1, Y: 1, Z: 1})
+					rot.Mul(geom.NewMatrix4FromSlice(mat[:])).ToArray(child.Matrix[:])
+					continue
+				}
 
 				pos := child.Translation
 				p := Quaternion{X: pos[0], Y: pos[1], Z: pos[2], W: 1}
-- 
2.43.0


From b4e116e9cad1e6f4235077da57cab460a1ecc4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:04 +0000
Subject: [PATCH 52/76] fix: a VRM config without material settings can have a
 preset

---
 converter/vrmconfig.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 4e9f783..2aabffe 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -96,6 +96,9 @@ func LoadVRMConfig(name string) (*Config, error) {
 }
 
 func (c *Config) MergePreset(preset *Config) {
+	if c.MaterialSettings == nil {
+		c.MaterialSettings = map[string]*MaterialSetting{}
+	}
 	for name, m := range preset.MaterialSettings {
 		if _, exist := c.MaterialSettings[name]; !exist {
 			c.MaterialSettings[name] = m
-- 
2.43.0


From 004fac38802f77daaf464be65f7dd1972478ebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:05 +0000
Subject: [PATCH 53/76] fix: blend shapes of a glTF file are found by name

---
 converter/vrmconfig.go | 52 ++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 2aabffe..b4e0609 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -151,6 +151,22 @@ func registerReursive(doc *vrm.Document, target uint32, m map[uint32]string, nam
 	}
 }
 
+func morphTargetNames(mesh *gltf.Mesh) []string {
+	extras, _ := mesh.Extras.(map[string]interface{})
+	switch names := extras["targetNames"].(type) {
+	case []string:
+		return names
+	case []interface{}: // loaded from a file
+		var result []string
+		for _, name := range names {
+			s, _ := name.(string)
+			result = append(result, s)
+		}
+		return result
+	}
+	return nil
+}
+
 func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]int, nodeMap map[string]int, blendShapeMap map[[2]int]string) {
 	ext := doc.VRM()
 	springBones := map[uint32]string{}
@@ -261,12 +277,8 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 
 	targets := map[string][2]int{}
 	for mi, mesh := range doc.Meshes {
-		if extras, ok := mesh.Extras.(map[string]interface{}); ok {
-			if names, ok := extras["targetNames"].([]string); ok {
-				for i, name := range names {
-					targets[name] = [2]int{mi, i}
-				}
-			}
+		for i, name := range morphTargetNames(mesh) {
+			targets[name] = [2]int{mi, i}
 		}
 	}
 	for _, mapping := range conf.MorphMappings {
@@ -343,23 +355,19 @@ func ApplyConfig(doc *vrm.Document, conf *Config) (*vrm.Document, error) {
 
 	if conf.ExportAllMorph {
 		for mi, mesh := range doc.Meshes {
-			if extras, ok := mesh.Extras.(map[string]interface{}); ok {
-				if names, ok := extras["targetNames"].([]string); ok {
-					for i, name := range names {
-						if _, used := blendShapeMap[[2]int{mi, i}]; used {
-							continue
-						}
-						m := &vrm.BlendShapeGroup{
-							Name: name,
-							Binds: []*vrm.BlendShapeBind{
-								{
-									Mesh: uint32(mi), Index: i, Weight: 100,
-								},
-							},
-						}
-						ext.BlendShapeMaster.BlendShapeGroups = append(ext.BlendShapeMaster.BlendShapeGroups, m)
-					}
+			for i, name := range morphTargetNames(mesh) {
+				if _, used := blendShapeMap[[2]int{mi, i}]; used {
+					continue
+				}
+				m := &vrm.BlendShapeGroup{
+					Name: name,
+					Binds: []*vrm.BlendShapeBind{
+						{
+							Mesh: uint32(mi), Index: i, Weight: 100,
+						},
+					},
 				}
+				ext.BlendShapeMaster.BlendShapeGroups = append(ext.BlendShapeMaster.BlendShapeGroups, m)
 			}
 		}
 	}
-- 
2.43.0


From 2e96841991521d6f04e7635952471d64664ca5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:05 +0000
Subject: [PATCH 54/76] fix: a blend shape moves every mesh that has the target

---
 converter/vrmconfig.go | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index b4e0609..fbb3b18 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -275,10 +275,10 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 		ext.SecondaryAnimation.ColliderGroups = append(ext.SecondaryAnimation.ColliderGroups, &b)
 	}
 
-	targets := map[string][2]int{}
+	targets := map[string][][2]int{}
 	for mi, mesh := range doc.Meshes {
 		for i, name := range morphTargetNames(mesh) {
-			targets[name] = [2]int{mi, i}
+			targets[name] = append(targets[name], [2]int{mi, i})
 		}
 	}
 	for _, mapping := range conf.MorphMappings {
@@ -288,13 +288,11 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 				PresetName:     mapping.Name,
 				MaterialValues: mapping.MaterialValues,
 			}
-			if t, ok := targets[mapping.TargetName]; ok {
+			for _, t := range targets[mapping.TargetName] {
 				blendShapeMap[t] = mapping.Name
-				m.Binds = []*vrm.BlendShapeBind{
-					{
-						Mesh: uint32(t[0]), Index: t[1], Weight: 100,
-					},
-				}
+				m.Binds = append(m.Binds, &vrm.BlendShapeBind{
+					Mesh: uint32(t[0]), Index: t[1], Weight: 100,
+				})
 			}
 			if len(m.Binds) > 0 || len(m.MaterialValues) > 0 {
 				ext.BlendShapeMaster.BlendShapeGroups = append(ext.BlendShapeMaster.BlendShapeGroups, m)
@@ -354,20 +352,21 @@ func ApplyConfig(doc *vrm.Document, conf *Config) (*vrm.Document, error) {
 	applyConfigInternal(doc, conf, foundBones, nodeMap, blendShapeMap)
 
 	if conf.ExportAllMorph {
+		groups := map[string]*vrm.BlendShapeGroup{}
 		for mi, mesh := range doc.Meshes {
 			for i, name := range morphTargetNames(mesh) {
 				if _, used := blendShapeMap[[2]int{mi, i}]; used {
 					continue
 				}
-				m := &vrm.BlendShapeGroup{
-					Name: name,
-					Binds: []*vrm.BlendShapeBind{
-						{
-							Mesh: uint32(mi), Index: i, Weight: 100,
-						},
-					},
+				m := groups[name]
+				if m == nil {
+					m = &vrm.BlendShapeGroup{Name: name}
+					groups[name] = m
+					ext.BlendShapeMaster.BlendShapeGroups = append(ext.BlendShapeMaster.BlendShapeGroups, m)
 				}
-				ext.BlendShapeMaster.BlendShapeGroups = append(ext.BlendShapeMaster.BlendShapeGroups, m)
+				m.Binds = append(m.Binds, &vrm.BlendShapeBind{
+					Mesh: uint32(mi), Index: i, Weight: 100,
+				})
 			}
 		}
 	}
-- 
2.43.0


From e1f608e1882dc0f96feb6bfa5a777b91ac64a951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:06 +0000
Subject: [PATCH 55/76] fix: a morph mapping may name a node without mesh

---
 converter/vrmconfig.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index fbb3b18..3fd1b1d 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -300,7 +300,9 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 			continue
 		}
 
-		if id, ok := nodeMap[mapping.NodeName]; ok {
+		if id, ok := nodeMap[mapping.NodeName]; ok && doc.Nodes[id].Mesh == nil {
+			log.Printf("ERROR: %v is not mesh node!", mapping.NodeName)
+		} else if ok {
 			blendShapeMap[[2]int{int(*doc.Nodes[id].Mesh), mapping.TargetIndex}] = mapping.Name
 			m := &vrm.BlendShapeGroup{
 				Name:       mapping.Name,
-- 
2.43.0


From 57939bf2ee214f5d6a184250e493d44c2dcc93e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:07 +0000
Subject: [PATCH 56/76] fix: spring bones refer to their collider groups

---
 converter/vrmconfig.go | 45 ++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 3fd1b1d..277a49a 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -106,7 +106,14 @@ func (c *Config) MergePreset(preset *Config) {
 	}
 	c.BoneMappings = append(c.BoneMappings, preset.BoneMappings...)
 	c.MorphMappings = append(c.MorphMappings, preset.MorphMappings...)
-	c.AnimationBoneGroups = append(c.AnimationBoneGroups, preset.AnimationBoneGroups...)
+	for _, g := range preset.AnimationBoneGroups {
+		b := *g
+		b.ColliderGroups = nil
+		for _, i := range g.ColliderGroups {
+			b.ColliderGroups = append(b.ColliderGroups, i+len(c.ColliderGroups))
+		}
+		c.AnimationBoneGroups = append(c.AnimationBoneGroups, &b)
+	}
 	c.ColliderGroups = append(c.ColliderGroups, preset.ColliderGroups...)
 }
 
@@ -233,8 +240,30 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 		}
 	}
 
+	colliderGroups := map[int]int{}
+	for i, colliderGroup := range conf.ColliderGroups {
+		var b = colliderGroup.SecondaryAnimationColliderGroup
+		if id, ok := nodeMap[colliderGroup.NodeName]; ok {
+			b.Node = uint32(id)
+		} else {
+			log.Println("Node not found:", colliderGroup.NodeName)
+			continue
+		}
+		if ext.SecondaryAnimation == nil {
+			ext.SecondaryAnimation = &vrm.SecondaryAnimation{}
+		}
+		colliderGroups[i] = len(ext.SecondaryAnimation.ColliderGroups)
+		ext.SecondaryAnimation.ColliderGroups = append(ext.SecondaryAnimation.ColliderGroups, &b)
+	}
+
 	for _, boneGroup := range conf.AnimationBoneGroups {
 		var b = boneGroup.SecondaryAnimationBoneGroup
+		b.ColliderGroups = nil
+		for _, i := range boneGroup.ColliderGroups {
+			if id, ok := colliderGroups[i]; ok {
+				b.ColliderGroups = append(b.ColliderGroups, id)
+			}
+		}
 		for _, nodeName := range boneGroup.NodeNames {
 			matched := matchNodeName(nodeName, nodeMap)
 			for _, n := range matched {
@@ -261,20 +290,6 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 		}
 	}
 
-	for _, colliderGroup := range conf.ColliderGroups {
-		var b = colliderGroup.SecondaryAnimationColliderGroup
-		if id, ok := nodeMap[colliderGroup.NodeName]; ok {
-			b.Node = uint32(id)
-		} else {
-			log.Println("Node not found:", colliderGroup.NodeName)
-			continue
-		}
-		if ext.SecondaryAnimation == nil {
-			ext.SecondaryAnimation = &vrm.SecondaryAnimation{}
-		}
-		ext.SecondaryAnimation.ColliderGroups = append(ext.SecondaryAnimation.ColliderGroups, &b)
-	}
-
 	targets := map[string][][2]int{}
 	for mi, mesh := range doc.Meshes {
 		for i, name := range morphTargetNames(mesh) {
-- 
2.43.0


From 3ea217192477d4c36d4d885e45f792b329f932d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:27 +0000
Subject: [PATCH 57/76] fix: a VRM file keeps its VRM data when no config is
 given

---
 cmd/modelconv/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 8e5f628..866c108 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -16,6 +16,7 @@ import (
 	"github.com/binzume/modelconv/geom"
 	"github.com/binzume/modelconv/gltfutil"
 	"github.com/binzume/modelconv/mqo"
+	"github.com/binzume/modelconv/vrm"
 	"github.com/qmuntal/gltf"
 )
 
@@ -90,6 +91,13 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 		}
 		return gltfutil.Save(doc, output, false)
 	} else if ext == ".vrm" {
+		if _, ok := doc.Extensions[vrm.ExtensionName].(*vrm.VRM); ok && vrmConf == "" {
+			// VRM to VRM
+			if _, err := converter.ToVRM(doc, output, srcDir, ""); err != nil {
+				return err
+			}
+			return gltfutil.Save(doc, output, true)
+		}
 		conf, err := converter.LoadVRMConfig(vrmConf)
 		if err != nil {
 			log.Println("vrmconfig error:", err)
-- 
2.43.0


From 64dea737bd1bfcdc832570930265127c71bae1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:41 +0000
Subject: [PATCH 58/76] fix: a root node can be a spring bone

---
 converter/vrmconfig.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 277a49a..21e8404 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -464,7 +464,8 @@ func DetectSpringBones(doc *gltf.Document, conf *Config) {
 	var nodeNames []string
 	for i, n := range doc.Nodes {
 		l := springLen(doc, n, map[*gltf.Node]bool{})
-		if l > 0 && springLen(doc, doc.Nodes[parents[i]], map[*gltf.Node]bool{}) < 0 {
+		parent, hasParent := parents[i]
+		if l > 0 && (!hasParent || springLen(doc, doc.Nodes[parent], map[*gltf.Node]bool{}) < 0) {
 			log.Println("Add SpringBone:", i, n.Name)
 			nodeNames = append(nodeNames, n.Name)
 		}
-- 
2.43.0


From a50cae2d7a2ff926dbd61f3e50e512da2fa9bba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:26 +0000
Subject: [PATCH 59/76] fix: a moved bone starts from its place below its
 parent

---
 converter/glbanim.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 80658a2..924f553 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -79,11 +79,10 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 			}
 
 			var rot mqo.Vector3
-			var pos mqo.Vector3
+			pos := doc.Nodes[n].Translation // relative to the parent node
 			qOffset := mqo.Vector4{X: 0, Y: 0, Z: 0, W: 1}
 			if b, ok := bones[uint32(n)]; ok {
 				rot = b.RotationOffset
-				pos = b.Pos.Vector3
 
 				if boneByID[b.Parent] != nil && b.RotationOffset.X != boneByID[b.Parent].RotationOffset.X {
 					// TODO rotation matrix
@@ -162,7 +161,7 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 				if *s != (mmd.Vector3{X: 0, Y: 0, Z: 0}) {
 					translate = true
 				}
-				translations = append(translations, [3]float32{pos.X*0.001 + r[0], pos.Y*0.001 + r[1], pos.Z*0.001 + r[2]})
+				translations = append(translations, [3]float32{pos[0] + r[0], pos[1] + r[1], pos[2] + r[2]})
 			}
 			if translate {
 				log.Println("Translate channel:", channel.Target)
-- 
2.43.0


From a6fb0e9de288b4a1567b208fcbc515bdaef3bf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:27 +0000
Subject: [PATCH 60/76] fix: morphs of a motion may have key frames of their
 own

---
 converter/glbanim.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 924f553..6df3db9 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -191,6 +191,19 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 	}
 }
 
+// morphWeight returns the weight at the frame, interpolated between the key frames.
+func morphWeight(m *mmd.MorphChannel, frame uint32) float32 {
+	i := sort.Search(len(m.Frames), func(i int) bool { return m.Frames[i] >= frame })
+	if i == len(m.Frames) {
+		return m.Weights[i-1]
+	}
+	if i == 0 || m.Frames[i] == frame {
+		return m.Weights[i]
+	}
+	t := float32(frame-m.Frames[i-1]) / float32(m.Frames[i]-m.Frames[i-1])
+	return m.Weights[i-1]*(1-t) + m.Weights[i]*t
+}
+
 func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*mmd.MorphChannel) {
 	targets := map[string][3]int{} // targetName => [node, targetIndex]
 	for i, n := range doc.Nodes {
@@ -232,22 +245,29 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 	sort.Ints(nodes)
 	for _, ni := range nodes {
 		mm := nodeChannels[ni]
+		used := map[uint32]bool{}
+		var frames []uint32
+		for _, m := range mm {
+			for _, k := range m.Frames {
+				if !used[k] {
+					used[k] = true
+					frames = append(frames, k)
+				}
+			}
+		}
+		sort.Slice(frames, func(i, j int) bool { return frames[i] < frames[j] })
 		var keys []float32
-		for _, k := range mm[0].Frames {
+		for _, k := range frames {
 			keys = append(keys, float32(k)/30)
 		}
 
-		sampleCount := len(keys)
 		sampleSize := targets[mm[0].Target][2]
-		weights := make([]uint8, sampleSize*sampleCount)
+		weights := make([]uint8, sampleSize*len(keys))
 
 		for _, m := range mm {
-			if len(m.Frames) != sampleCount {
-				log.Print("TODO: resample", m.Target, len(m.Frames), sampleCount)
-				continue
-			}
-			for f, v := range m.Weights {
-				weights[f*sampleSize+targets[m.Target][1]] = uint8(v * 255)
+			for f, k := range frames {
+				v := math.Max(0, math.Min(1, float64(morphWeight(m, k))))
+				weights[f*sampleSize+targets[m.Target][1]] = uint8(math.Round(v * 255))
 			}
 		}
 		log.Print(doc.Nodes[ni], weights)
-- 
2.43.0


From 16fd391ec00c1319b8f1708621ed07d08d6ec08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:27 +0000
Subject: [PATCH 61/76] fix: key times of an animation have bounds

---
 converter/glbanim.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 6df3db9..21ed8e7 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -33,6 +33,17 @@ func isDefaultRotations(samples []*mmd.Vector4) bool {
 	return true
 }
 
+func writeKeys(doc *gltf.Document, frames []uint32) uint32 {
+	var keys []float32
+	for _, k := range frames {
+		keys = append(keys, float32(k)/30)
+	}
+	acc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, keys)
+	doc.Accessors[acc].Min = []float32{keys[0]}
+	doc.Accessors[acc].Max = []float32{keys[len(keys)-1]}
+	return acc
+}
+
 func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mqo.Bone, bb map[string]*mmd.BoneChannel) {
 	var scale float32 = 80 * 0.001
 
@@ -71,11 +82,7 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 			if prevCh != nil && keysEquals(channel.Frames, prevCh.Frames) {
 				keysAcc = prevKeysAcc
 			} else {
-				var keys []float32
-				for _, k := range channel.Frames {
-					keys = append(keys, float32(k)/30)
-				}
-				keysAcc = modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, keys)
+				keysAcc = writeKeys(doc, channel.Frames)
 			}
 
 			var rot mqo.Vector3
@@ -256,13 +263,8 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 			}
 		}
 		sort.Slice(frames, func(i, j int) bool { return frames[i] < frames[j] })
-		var keys []float32
-		for _, k := range frames {
-			keys = append(keys, float32(k)/30)
-		}
-
 		sampleSize := targets[mm[0].Target][2]
-		weights := make([]uint8, sampleSize*len(keys))
+		weights := make([]uint8, sampleSize*len(frames))
 
 		for _, m := range mm {
 			for f, k := range frames {
@@ -272,7 +274,7 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 		}
 		log.Print(doc.Nodes[ni], weights)
 
-		keysAcc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, keys)
+		keysAcc := writeKeys(doc, frames)
 		weightsAcc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, weights)
 		doc.Accessors[weightsAcc].Normalized = true
 
-- 
2.43.0


From 2490d9d2ee49918c3a784c45fb03aabee309f0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:23 +0000
Subject: [PATCH 62/76] fix: saving an .mqo keeps the shader mappings of its
 materials

---
 mqo/mqo_writer.go | 64 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 6a24cee..2bbf5a7 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -33,6 +33,35 @@ func boolToInt(b bool) int {
 	return 0
 }
 
+func writeShaderParams(w *bufio.Writer, block string, params map[string]interface{}) {
+	fmt.Fprintf(w, "\t\t%v %v {\n", block, len(params))
+	var names []string
+	for name := range params {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		v := params[name]
+		typ := "int"
+		if b, ok := v.(bool); ok {
+			typ = "bool"
+			v = boolToInt(b)
+		} else if _, ok := v.(float64); ok {
+			typ = "float"
+		} else if _, ok := v.(float32); ok {
+			typ = "float"
+		} else if c, ok := v.([]float32); ok {
+			typ = "color"
+			v = strings.Trim(fmt.Sprint(c), "[]")
+		} else if s, ok := v.(string); ok {
+			typ = "string"
+			v = "\"" + s + "\""
+		}
+		fmt.Fprintf(w, "\t\t\t%v %v %v\n", name, typ, v)
+	}
+	w.WriteString("\t\t}\n")
+}
+
 func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 	w := bufio.NewWriter(ww)
 	w.WriteString("Metasequoia Document\n")
@@ -116,32 +145,27 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 			fmt.Fprintf(w, "\tmaterial %v {\n", mi)
 			fmt.Fprintf(w, "\t\tshadertype \"%v\"\n", mat.Ex2.ShaderType)
 			fmt.Fprintf(w, "\t\tshadername \"%v\"\n", mat.Ex2.ShaderName)
-			fmt.Fprintf(w, "\t\tshaderparam %v {\n", len(mat.Ex2.ShaderParams))
+			writeShaderParams(w, "shaderparam", mat.Ex2.ShaderParams)
+			if len(mat.Ex2.ShaderMapping) > 0 {
+				fmt.Fprintf(w, "\t\tshadermapping %v {\n", len(mat.Ex2.ShaderMapping))
+				var names []string
+				for name := range mat.Ex2.ShaderMapping {
+					names = append(names, name)
+				}
+				sort.Strings(names)
+				for _, name := range names {
+					fmt.Fprintf(w, "\t\t\t\"%v\" \"%v\"\n", name, strings.Replace(mat.Ex2.ShaderMapping[name], "\\", "/", -1))
+				}
+				w.WriteString("\t\t}\n")
+			}
 			var names []string
-			for name := range mat.Ex2.ShaderParams {
+			for name := range mat.Ex2.ShaderMappingParams {
 				names = append(names, name)
 			}
 			sort.Strings(names)
 			for _, name := range names {
-				v := mat.Ex2.ShaderParams[name]
-				typ := "int"
-				if b, ok := v.(bool); ok {
-					typ = "bool"
-					v = boolToInt(b)
-				} else if _, ok := v.(float64); ok {
-					typ = "float"
-				} else if _, ok := v.(float32); ok {
-					typ = "float"
-				} else if c, ok := v.([]float32); ok {
-					typ = "color"
-					v = strings.Trim(fmt.Sprint(c), "[]")
-				} else if s, ok := v.(string); ok {
-					typ = "string"
-					v = "\"" + s + "\""
-				}
-				fmt.Fprintf(w, "\t\t\t%v %v %v\n", name, typ, v)
+				writeShaderParams(w, fmt.Sprintf("shadermappingparam \"%v\"", name), mat.Ex2.ShaderMappingParams[name])
 			}
-			w.WriteString("\t\t}\n")
 			w.WriteString("\t}\n")
 		}
 		w.WriteString("}\n")
-- 
2.43.0


From d19dc18e64da4928dbeefdaa7518bea1d0d14d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:23 +0000
Subject: [PATCH 63/76] fix: the alpha mode of a glTF material is kept in an
 .mqo

---
 converter/gltf2mqo.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index ed7a11e..4437de8 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -35,10 +35,17 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 		ShaderType: "hlsl",
 		ShaderName: "glTF",
 		ShaderParams: map[string]interface{}{
-			"AlphaMode":   m.AlphaMode,
-			"AlphaCutoff": m.AlphaCutoffOrDefault(),
+			"AlphaCutOff": m.AlphaCutoffOrDefault(),
 		},
 	}
+	switch m.AlphaMode {
+	case gltf.AlphaMask:
+		mat.SetGltfAlphaMode(mqo.AlphaModeMask)
+	case gltf.AlphaBlend:
+		mat.SetGltfAlphaMode(mqo.AlphaModeBlend)
+	default:
+		mat.SetGltfAlphaMode(mqo.AlphaModeOpaque)
+	}
 	if m.PBRMetallicRoughness != nil {
 		col := m.PBRMetallicRoughness.BaseColorFactorOrDefault()
 		mat.Color = mqo.Vector4{X: col[0], Y: col[1], Z: col[2], W: col[3]}
-- 
2.43.0


From b56d995fe5bcdcda440702f512367ad30ade83c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:24 +0000
Subject: [PATCH 64/76] fix: a glTF material without pbrMetallicRoughness is
 white

---
 converter/gltf2mqo.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 4437de8..db6ea2b 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -46,16 +46,17 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 	default:
 		mat.SetGltfAlphaMode(mqo.AlphaModeOpaque)
 	}
-	if m.PBRMetallicRoughness != nil {
-		col := m.PBRMetallicRoughness.BaseColorFactorOrDefault()
-		mat.Color = mqo.Vector4{X: col[0], Y: col[1], Z: col[2], W: col[3]}
-		mat.Specular = m.PBRMetallicRoughness.MetallicFactorOrDefault()
-		mat.Ex2.ShaderParams["Metallic"] = m.PBRMetallicRoughness.MetallicFactorOrDefault()
-		mat.Ex2.ShaderParams["Roughness"] = m.PBRMetallicRoughness.RoughnessFactorOrDefault()
-		if m.PBRMetallicRoughness.BaseColorTexture != nil {
-			i := m.PBRMetallicRoughness.BaseColorTexture.Index
-			mat.Texture = src.Images[*src.Textures[i].Source].URI
-		}
+	pbr := m.PBRMetallicRoughness
+	if pbr == nil {
+		pbr = &gltf.PBRMetallicRoughness{} // everything has a default
+	}
+	col := pbr.BaseColorFactorOrDefault()
+	mat.Color = mqo.Vector4{X: col[0], Y: col[1], Z: col[2], W: col[3]}
+	mat.Specular = pbr.MetallicFactorOrDefault()
+	mat.Ex2.ShaderParams["Metallic"] = pbr.MetallicFactorOrDefault()
+	mat.Ex2.ShaderParams["Roughness"] = pbr.RoughnessFactorOrDefault()
+	if pbr.BaseColorTexture != nil {
+		mat.Texture = src.Images[*src.Textures[pbr.BaseColorTexture.Index].Source].URI
 	}
 	return mat
 }
-- 
2.43.0


From 7385e0f757cc6e4663387aa084e3f44bb2c5546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:24 +0000
Subject: [PATCH 65/76] fix: choosing the alpha mode of a material changes
 nothing else of it

---
 converter/mqo2gltf.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 22fbd81..ce6b8f5 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -502,22 +502,26 @@ func (m *mqoToGltf) convertMaterial(mat *mqo.Material, textures *textureCache, b
 		m.extensions[name] = true
 	}
 	if mat.GetShaderName() == "glTF" {
-		metallicFactor := float32(mat.Ex2.FloatParam("Metallic"))
-		mm.PBRMetallicRoughness.MetallicFactor = &metallicFactor
-		roughnessFactor := float32(mat.Ex2.FloatParam("Roughness"))
-		mm.PBRMetallicRoughness.RoughnessFactor = &roughnessFactor
+		if _, ok := mat.Ex2.ShaderParams["Metallic"]; ok {
+			mf = float32(mat.Ex2.FloatParam("Metallic"))
+		}
+		if _, ok := mat.Ex2.ShaderParams["Roughness"]; ok {
+			rf = float32(mat.Ex2.FloatParam("Roughness"))
+		}
 		switch mat.Ex2.IntParam("AlphaMode") {
 		case 1:
 			mm.AlphaMode = gltf.AlphaOpaque
 		case 2:
 			mm.AlphaMode = gltf.AlphaMask
-			cutoff := float32(mat.Ex2.FloatParam("AlphaCutOff"))
-			mm.AlphaCutoff = &cutoff
+			if _, ok := mat.Ex2.ShaderParams["AlphaCutOff"]; ok {
+				cutoff := float32(mat.Ex2.FloatParam("AlphaCutOff"))
+				mm.AlphaCutoff = &cutoff
+			}
 		case 3:
 			mm.AlphaMode = gltf.AlphaBlend
 		}
 
-		if mat.Ex2.BoolParam("Extensions.Unlit") || metallicFactor == 0 && roughnessFactor == 1 {
+		if mat.Ex2.BoolParam("Extensions.Unlit") || mf == 0 && rf == 1 {
 			addExt(unlitMaterialExt, map[string]string{})
 		}
 		if mat.Ex2.BoolParam("Extensions.SpecularExt") {
-- 
2.43.0


From 88016f85ffbfde26210b3f884d5afb0a22a47bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:24 +0000
Subject: [PATCH 66/76] fix: a texture with an absolute path can be encoded
 again

---
 converter/mqo2gltf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index ce6b8f5..e46ee69 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -122,7 +122,11 @@ func (c *textureCache) getImage(name string) (image.Image, error) {
 		return t.img, t.err
 	}
 
-	f, err := os.Open(filepath.Join(c.srcDir, t.name))
+	path := t.name
+	if !filepath.IsAbs(path) {
+		path = filepath.Join(c.srcDir, path)
+	}
+	f, err := os.Open(path)
 	if err != nil {
 		t.err = err
 		return nil, err
-- 
2.43.0


From 77bed7527fd8da583dbf742f33d1799d230f0c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:53 +0000
Subject: [PATCH 67/76] fix: an unlit material keeps its alpha mode

---
 cmd/modelconv/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 866c108..def2a74 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -383,7 +383,11 @@ func main() {
 		for _, mat := range doc.Materials {
 			if match(patterns, mat.Name) {
 				mat.Shader = 1 // Constant shader
-				mat.Ex2 = nil
+				if mat.GetShaderName() == mqo.ShaderNameGlTF {
+					mat.Ex2.ShaderParams["Extensions.Unlit"] = true
+				} else {
+					mat.Ex2 = nil
+				}
 			}
 		}
 	}
-- 
2.43.0


From e2de84b133ba55b5b675b620bbe770cfdcdbd888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:53 +0000
Subject: [PATCH 68/76] fix: a specular factor or index of refraction of 0 is
 written

---
 converter/mqo2gltf.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index e46ee69..879b6ab 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -530,8 +530,8 @@ func (m *mqoToGltf) convertMaterial(mat *mqo.Material, textures *textureCache, b
 		}
 		if mat.Ex2.BoolParam("Extensions.SpecularExt") {
 			ext := map[string]interface{}{}
-			if v := mat.Ex2.FloatParam("Extensions.SpecularFactor"); v != 0 {
-				ext["specularFactor"] = v
+			if _, ok := mat.Ex2.ShaderParams["Extensions.SpecularFactor"]; ok { // 0 is not the default
+				ext["specularFactor"] = mat.Ex2.FloatParam("Extensions.SpecularFactor")
 			}
 			if c := mat.Ex2.ColorParam("Extensions.SpecularColorFactor"); c != nil {
 				ext["specularColorFactor"] = c[0:3]
@@ -581,8 +581,8 @@ func (m *mqoToGltf) convertMaterial(mat *mqo.Material, textures *textureCache, b
 		}
 		if mat.Ex2.BoolParam("Extensions.IorExt") {
 			ext := map[string]interface{}{}
-			if v := mat.Ex2.FloatParam("Extensions.Ior"); v != 0 {
-				ext["ior"] = v
+			if _, ok := mat.Ex2.ShaderParams["Extensions.Ior"]; ok { // 0 is not the default
+				ext["ior"] = mat.Ex2.FloatParam("Extensions.Ior")
 			}
 			addExt("KHR_materials_ior", ext)
 		}
-- 
2.43.0


From 38b99e36b10b915a94e0a500e7ff2b23c7c366c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:42 +0000
Subject: [PATCH 69/76] fix: transparent textures are found on faces that show
 all of a texture

---
 converter/mqo2gltf.go | 51 +++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 879b6ab..56c112b 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -74,27 +74,31 @@ type uvrect struct {
 	top, bottom, left, right float32
 }
 
-func newUVRectFromPoint(p geom.Vector2) *uvrect {
-	x := p.X - float32(math.Floor(float64(p.X)))
-	y := p.Y - float32(math.Floor(float64(p.Y)))
-	return &uvrect{y, y, x, x}
+// newUVRect returns the part of a texture that a face shows.
+func newUVRect(uvs []geom.Vector2) *uvrect {
+	min, max := uvs[0], uvs[0]
+	for _, p := range uvs[1:] {
+		min.X, max.X = geom.Min(min.X, p.X), geom.Max(max.X, p.X)
+		min.Y, max.Y = geom.Min(min.Y, p.Y), geom.Max(max.Y, p.Y)
+	}
+	r := &uvrect{}
+	r.left, r.right = wrapUV(min.X, max.X)
+	r.top, r.bottom = wrapUV(min.Y, max.Y)
+	return r
 }
 
-func (b *uvrect) Add(p geom.Vector2) {
-	x := p.X - float32(math.Floor(float64(p.X)))
-	y := p.Y - float32(math.Floor(float64(p.Y)))
-	if x < b.left {
-		b.left = x
-	}
-	if x > b.right {
-		b.right = x
-	}
-	if y < b.top {
-		b.top = y
-	}
-	if y > b.bottom {
-		b.bottom = y
+// wrapUV moves a range into the texture.
+func wrapUV(min, max float32) (float32, float32) {
+	base := float32(math.Floor(float64(min)))
+	if max-base > 1 {
+		return 0, 1 // across the edge
 	}
+	return min - base, max - base
+}
+
+func (b *uvrect) Add(r *uvrect) {
+	b.left, b.right = geom.Min(b.left, r.left), geom.Max(b.right, r.right)
+	b.top, b.bottom = geom.Min(b.top, r.top), geom.Max(b.bottom, r.bottom)
 }
 
 const BlenderPhysicsName = "BLENDER_physics"
@@ -345,7 +349,7 @@ func (m *mqoToGltf) hasAlpha(texture string, textures *textureCache, rect *uvrec
 			b := img.Bounds()
 			r := image.Rectangle{
 				Min: image.Point{X: int(float32(b.Dx()) * rect.left), Y: int(float32(b.Dy()) * rect.top)},
-				Max: image.Point{X: int(float32(b.Dx()) * rect.right), Y: int(float32(b.Dy()) * rect.bottom)},
+				Max: image.Point{X: int(math.Ceil(float64(b.Dx()) * float64(rect.right))), Y: int(math.Ceil(float64(b.Dy()) * float64(rect.bottom)))},
 			}
 			img = s.SubImage(r)
 		}
@@ -660,11 +664,11 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 		copy(verts, f.Verts)
 		if len(f.UVs) > 0 {
 			useTexcood0 = true
-			bounds := uvBounds[f.Material]
-			if bounds == nil {
-				bounds = newUVRectFromPoint(f.UVs[0])
-				uvBounds[f.Material] = bounds
+			bounds := newUVRect(f.UVs)
+			if uvBounds[f.Material] != nil {
+				bounds.Add(uvBounds[f.Material])
 			}
+			uvBounds[f.Material] = bounds
 
 			for i, index := range verts {
 				assigned := indicesMap[index]
@@ -693,7 +697,6 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 				indicesMap[index] = append(indicesMap[index], verts[i])
 				texcood0[verts[i]] = [2]float32{f.UVs[i].X, f.UVs[i].Y}
 				normal.ToArray(normals[verts[i]][:])
-				bounds.Add(f.UVs[i])
 			}
 		} else {
 			for i, index := range verts {
-- 
2.43.0


From e1873ba1a6480ebf773069b1c30be817617ffd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:43 +0000
Subject: [PATCH 70/76] fix: a model in an FBX file has one parent

---
 fbx/fbx_document.go | 6 ++++++
 fbx/fbx_object.go   | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/fbx/fbx_document.go b/fbx/fbx_document.go
index fd89aae..75cf53f 100644
--- a/fbx/fbx_document.go
+++ b/fbx/fbx_document.go
@@ -132,9 +132,15 @@ func BuildDocument(root *Node) (*Document, error) {
 				// build model tree
 				if toModel, ok := to.(*Model); ok {
 					if fromModel, ok := from.(*Model); ok {
+						if ctype != "OO" {
+							continue // a property, such as what a camera looks at
+						}
 						if toModel.hasAncestor(fromModel) {
 							return nil, fmt.Errorf("fbx: model %d is its own ancestor", fromModel.ID())
 						}
+						if fromModel.Parent != nil {
+							fromModel.Parent.removeRef(fromModel)
+						}
 						fromModel.Parent = toModel
 					}
 				}
diff --git a/fbx/fbx_object.go b/fbx/fbx_object.go
index 270820e..710111b 100644
--- a/fbx/fbx_object.go
+++ b/fbx/fbx_object.go
@@ -127,6 +127,15 @@ func (o *Obj) AddRef(ref Object) {
 	o.Refs = append(o.Refs, ref)
 }
 
+func (o *Obj) removeRef(ref Object) {
+	for i, r := range o.Refs {
+		if r == ref {
+			o.Refs = append(o.Refs[:i], o.Refs[i+1:]...)
+			return
+		}
+	}
+}
+
 func (o *Obj) AddOrReplaceChild(node *Node) bool {
 	for i, c := range o.Children {
 		if c.Name == node.Name {
-- 
2.43.0


From 5d875b074994ff82105392c9e655713171394cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:53 +0000
Subject: [PATCH 71/76] fix: the caps of a Unity cylinder have their own
 texture coordinates

---
 unity/unity_builtin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unity/unity_builtin.go b/unity/unity_builtin.go
index cf14140..734a712 100644
--- a/unity/unity_builtin.go
+++ b/unity/unity_builtin.go
@@ -154,7 +154,7 @@ func Cylinder(s int) (vs []*geom.Vector3, faces [][]int, uvs [][]geom.Vector2) {
 		topuv = append(topuv, geom.Vector2{X: float32(i) / float32(s), Y: 1})
 	}
 	faces = append(faces, top, bottom)
-	uvs = append(uvs, topuv, topuv)
+	uvs = append(uvs, topuv, append([]geom.Vector2{}, topuv...))
 	return
 }
 
-- 
2.43.0


From 53e3a0f47e0e9bec715bfc0bcd6e4df804883781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:14 +0000
Subject: [PATCH 72/76] fix: a light does not move the mesh and the bodies of
 its object

---
 converter/mqo2gltf.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 56c112b..cb6bd5d 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -902,18 +902,20 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 			}
 			if m.ExportLights {
 				if lightParam, ok := obj.Extra["light"].(map[string]interface{}); ok {
-					if node.Extensions == nil {
-						node.Extensions = gltf.Extensions{}
+					// The node has no transform: vertexes, physics bodies and children are in global coordinates.
+					lightNode := &gltf.Node{Name: obj.Name}
+					lightNode.Extensions = gltf.Extensions{"KHR_lights_punctual": map[string]interface{}{"light": len(lights)}}
+					if obj.InternalTransform != nil {
+						geom.NewScaleMatrix4(m.Scale, m.Scale, m.Scale).Mul(obj.InternalTransform).ToArray(lightNode.Matrix[:])
 					}
-					node.Extensions["KHR_lights_punctual"] = map[string]interface{}{"light": len(lights)}
+					node.Children = append(node.Children, uint32(len(m.Nodes)))
+					m.Nodes = append(m.Nodes, lightNode)
 					lights = append(lights, lightParam)
 				}
 			}
-			if (m.ExportLights && obj.Extra["light"] != nil || shared != nil) && obj.InternalTransform != nil {
+			if shared != nil && obj.InternalTransform != nil {
 				m := obj.InternalTransform.TranslationScale(m.Scale)
-				if shared != nil {
-					m = m.Mul(shared.matrix)
-				}
+				m = m.Mul(shared.matrix)
 				m.ToArray(node.Matrix[:])
 				// workaround: avoid missing mesh issue in Windows 3D viewer?
 				node.Matrix[3] = 0
-- 
2.43.0


From 6fc60e2a5901176e11bae934f64866ebab1d4706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:16 +0000
Subject: [PATCH 73/76] fix: lights in glTF files have the parameters glTF
 defines

---
 converter/unity2mqo.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index e614fae..56f160b 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -198,14 +199,22 @@ func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransf
 			t = "point"
 		}
 		c := light.Color.Array()
-		obj.Extra["light"] = map[string]interface{}{
-			"type":           t,
-			"color":          c[0:3],
-			"intensity":      light.Intensity,
-			"range":          light.Range,
-			"outerConeAngle": light.SpotAngle,
-			"innerConeAngle": light.InnerSpotAngle,
+		param := map[string]interface{}{
+			"type":      t,
+			"color":     c[0:3],
+			"intensity": light.Intensity,
 		}
+		if t != "directional" {
+			param["range"] = light.Range
+		}
+		if t == "spot" {
+			// from the axis of the cone, in radians
+			param["spot"] = map[string]interface{}{
+				"outerConeAngle": light.SpotAngle * math.Pi / 360,
+				"innerConeAngle": light.InnerSpotAngle * math.Pi / 360,
+			}
+		}
+		obj.Extra["light"] = param
 		obj.InternalTransform = transform
 	}
 
-- 
2.43.0


From 51a2ebe8dbbd873c3687ba30da0fbd6b40258c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:13 +0000
Subject: [PATCH 74/76] fix: reused geometry is placed where it belongs

---
 converter/mqo2gltf.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index cb6bd5d..ca915b3 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -914,8 +914,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 				}
 			}
 			if shared != nil && obj.InternalTransform != nil {
-				m := obj.InternalTransform.TranslationScale(m.Scale)
-				m = m.Mul(shared.matrix)
+				m := obj.InternalTransform.Mul(shared.matrix).TranslationScale(m.Scale)
 				m.ToArray(node.Matrix[:])
 				// workaround: avoid missing mesh issue in Windows 3D viewer?
 				node.Matrix[3] = 0
-- 
2.43.0


From 3208a3e8a0c6117a28376d92921832488956f59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:41 +0000
Subject: [PATCH 75/76] fix: -ignoreHierarchy keeps lights

---
 converter/mqo2gltf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index ca915b3..b782249 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -813,7 +813,8 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 	var targetObjects []*mqo.Object
 	materialUsed := map[int]bool{}
 	for _, obj := range doc.Objects {
-		if (!m.IgnoreObjectHierarchy || obj.Visible && len(obj.Faces) > 0) && morphTargets[obj.Name] == nil {
+		hasContent := len(obj.Faces) > 0 || m.ExportLights && obj.Extra["light"] != nil
+		if (!m.IgnoreObjectHierarchy || obj.Visible && hasContent) && morphTargets[obj.Name] == nil {
 			targetObjects = append(targetObjects, obj)
 			if obj.Visible {
 				m.checkMaterials(obj, materialUsed)
-- 
2.43.0


From 7a58e3ca5b63fa87a72d134d60f1dd938d5ccf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:28 +0000
Subject: [PATCH 76/76] fix: geometry is reused with the same materials only

---
 converter/unity2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 56f160b..8c3a19d 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -398,7 +398,7 @@ func (c *unityToMqoState) importMesh(mesh *unity.Ref, obj *mqo.Object, materials
 		RootTransform:    transform.Mul(geom.NewScaleMatrix4(-scale, scale, -scale)),
 	}).ConvertTo(c.dst, doc)
 	if len(c.dst.Objects) == objectIdx+1 {
-		c.dst.Objects[objectIdx].Extra["sharedGeometryKey"] = mesh.GUID + fmt.Sprint(mesh.FileID)
+		c.dst.Objects[objectIdx].Extra["sharedGeometryKey"] = fmt.Sprint(mesh.GUID, mesh.FileID, materials) // materials scale texture coordinates
 		c.dst.Objects[objectIdx].InternalTransform = transform
 	}
 	return err
-- 
2.43.0

