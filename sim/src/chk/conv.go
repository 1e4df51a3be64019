//go:build go1.22

package chk

import (
	"fmt"
	"os"
	"path"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/unity"
	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/qmuntal/gltf"
)

// pipeOpt are the options of a conversion by the library.
type pipeOpt struct {
	Recompress, Reuse, Ignore, Physics, Alpha, Lights bool
	Limit                                             int
	TexScale                                          float32
	Scale                                             float32
	Conf                                              string
	Defaults                                          bool // no options at all
}

func randPipe(r *gen.R) *pipeOpt {
	o := &pipeOpt{TexScale: 1, Scale: 1}
	if r.P(50) {
		o.Recompress, o.Reuse, o.Ignore, o.Physics, o.Alpha, o.Lights = r.P(30), r.P(40), r.P(30), r.P(40), r.P(50), r.P(40)
		if r.P(30) {
			o.Limit = r.PickN(4, 16)
		}
		if r.P(20) {
			o.TexScale = 0.5
		}
		if r.P(40) {
			o.Scale = float32(r.PickN(2, 10))
		}
	}
	o.Conf = r.Pick("", "mmd")
	o.Defaults = r.P(15)
	return o
}

// toMQO loads the model of a world the way a program that uses the library does.
func toMQO(w *gen.World, o *pipeOpt) (doc *mqo.Document, err error) {
	kind, file, scene := target(w)
	switch kind {
	case "unity", "pkg":
		var as unity.Assets
		if kind == "pkg" {
			as, err = unity.OpenPackage(file)
		} else {
			as, err = unity.OpenAssets(file)
		}
		if err != nil {
			return nil, err
		}
		defer as.Close()
		s, err := unity.LoadScene(as, scene)
		if err != nil {
			return nil, err
		}
		if o.Defaults {
			return converter.NewUnityToMQOConverter(nil).Convert(s)
		}
		return converter.NewUnityToMQOConverter(&converter.UnityToMQOOption{ConvertPhysics: o.Physics, SaveTexrure: true}).Convert(s)
	}
	d, err := loadFn(kind, file, scene)
	if err != nil {
		return nil, err
	}
	switch d := d.(type) {
	case *mmd.Document:
		return converter.NewMMDToMQOConverter(&converter.MMDToMQOOption{}).Convert(d), nil
	case *mqo.Document:
		return d, nil
	case *fbx.Document:
		return converter.NewFBXToMQOConverter(nil).Convert(d)
	case *gltf.Document:
		return converter.NewGLTFToMQOConverter(nil).Convert(d)
	}
	if kind == "vrm" {
		g, err := gltfutil.Load(file)
		if err != nil {
			return nil, err
		}
		return converter.NewGLTFToMQOConverter(nil).Convert(g)
	}
	return nil, fmt.Errorf("no conversion for %T", d)
}

// pipeline loads, converts and saves with the library.
func pipeline(w *gen.World, out string, o *pipeOpt) error {
	doc, err := toMQO(w, o)
	if err != nil {
		return err
	}
	if o.Scale != 1 {
		doc.ApplyTransform(geom.NewScaleMatrix4(o.Scale, o.Scale, o.Scale))
	}
	src := path.Dir(w.Model)
	if w.Kind == "unity" {
		src = w.Dir
	}
	switch ext := path.Ext(out); ext {
	case ".mqo", ".mqoz":
		return mqo.Save(doc, out)
	case ".pmx":
		p, err := converter.NewMQOToMMDConverter(nil).Convert(doc)
		if err != nil {
			return err
		}
		return mmd.Save(p, out)
	case ".glb", ".gltf", ".vrm":
		conv := converter.NewMQOToGLTFConverter(&converter.MQOToGLTFOption{TextureReCompress: o.Recompress, TextureResolutionLimit: o.Limit, TextureScale: o.TexScale,
			ReuseGeometry: o.Reuse, IgnoreObjectHierarchy: o.Ignore, ConvertPhysics: o.Physics, DetectAlphaTexture: o.Alpha, ExportLights: o.Lights})
		if o.Defaults {
			conv = converter.NewMQOToGLTFConverter(nil)
		}
		g, err := conv.Convert(doc, src)
		if err != nil {
			return err
		}
		for _, m := range w.Motions {
			f, err := os.Open(m)
			if err != nil {
				return err
			}
			ani, err := mmd.NewVMDParser(f).Parse()
			f.Close()
			if err != nil {
				return err
			}
			converter.AddAnimationTpGlb(g, ani, conv.JointNodeToBone, true)
		}
		switch ext {
		case ".glb":
			if err := gltfutil.ToSingleFile(g, src); err != nil {
				return err
			}
			return gltfutil.Save(g, out, true)
		case ".vrm":
			if _, err := converter.ToVRM(g, out, src, o.Conf); err != nil {
				return err
			}
			return gltfutil.Save(g, out, true)
		}
		for i, b := range g.Buffers {
			b.URI = fmt.Sprintf("%s%d.bin", strings.TrimSuffix(path.Base(out), ext), i)
		}
		return gltfutil.Save(g, out, false)
	}
	return fmt.Errorf("no output %s", out)
}
