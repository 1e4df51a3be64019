//go:build go1.22

package chk

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/vrm"
	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/binzume/modelconv/zzverif/simk"
	"github.com/qmuntal/gltf"
)

var saveKinds = []string{"pmx", "mqo", "mqox", "mqoz", "fbx", "glb", "gltf", "vrm"}

func saveExt(kind string) string {
	if kind == "mqox" {
		return ".mqo"
	}
	return "." + kind
}

// makeDoc makes a document in memory, as a program that uses the library would.
func makeDoc(kind string, seed uint64, size int) (doc interface{}, err error) {
	r := gen.NewR(seed)
	tex := gen.TexNames(r, r.N(3), r.Pick("", "tex"))
	switch kind {
	case "pmx":
		return gen.PMX(r, size, tex), nil
	case "mqo":
		return gen.MQO(r, size, tex, false), nil
	case "mqox":
		return gen.MQO(r, size, tex, true), nil
	case "mqoz":
		return gen.MQO(r, size, tex, r.P(70)), nil
	case "fbx":
		return fbx.BuildDocument(gen.FBX(r, size, tex))
	case "glb", "vrm":
		m, _ := gen.GLTF(r, size, gen.GLTFOpt{Form: "glb", Textures: tex, VRM: kind == "vrm"})
		if kind == "vrm" {
			return vrm.Parse(bytes.NewReader(m), "x.vrm")
		}
		return gltfutil.Parse(bytes.NewReader(m), "x.glb")
	case "gltf":
		m, _ := gen.GLTF(r, size, gen.GLTFOpt{Form: "gltf", Textures: tex})
		return gltfutil.Parse(bytes.NewReader(m), "x.gltf")
	}
	return nil, fmt.Errorf("no document of kind %s", kind)
}

func saveDoc(doc interface{}, p string) error {
	switch d := doc.(type) {
	case *mmd.Document:
		return mmd.Save(d, p)
	case *mqo.Document:
		return mqo.Save(d, p)
	case *fbx.Document:
		return fbx.Save(d, p)
	case *gltf.Document:
		return gltfutil.Save(d, p, !strings.HasSuffix(p, ".gltf"))
	case *vrm.Document:
		w, err := os.Create(p)
		if err != nil {
			return err
		}
		err = vrm.Write(d, w, p)
		if cerr := w.Close(); err == nil {
			err = cerr
		}
		return err
	}
	return fmt.Errorf("cannot save %T", doc)
}

// writeDoc writes to a writer (no companions).
func writeDoc(doc interface{}, w io.Writer, what string) error {
	switch d := doc.(type) {
	case *mmd.Document:
		return mmd.WritePMX(d, w)
	case *mqo.Document:
		if what == "mqx" {
			return mqo.WriteMQX(d, w, "model.mqo")
		}
		m := mqo.NewWriter("model.mqo")
		m.Create = func(name string) (io.WriteCloser, error) {
			return nopCloser{w}, nil // companions go to the same place
		}
		return m.WriteMQO(d, w)
	case *fbx.Document:
		return fbx.Write(w, d)
	case *gltf.Document:
		return gltfutil.Write(d, w, "x."+what, what != "gltf")
	case *vrm.Document:
		return vrm.Write(d, w, "x.vrm")
	}
	return fmt.Errorf("cannot write %T", doc)
}

type nopCloser struct{ io.Writer }

func (nopCloser) Close() error { return nil }

func loadDoc(kind, p string) (interface{}, error) {
	switch kind {
	case "fbx":
		return loadFn("fbxb", p, "")
	case "mqox":
		return loadFn("mqo", p, "")
	}
	return loadFn(kind, p, "")
}

// content is what a document says, in a form that saving and loading keeps.
func content(doc interface{}) string {
	switch d := doc.(type) {
	case *mmd.Document:
		h := d.Header
		c := *d
		c.Header = nil
		s := Dump(&c, false)
		if h != nil && len(h.Info) > 1 {
			s += fmt.Sprintf(" version %v uvs %v", h.Version, h.Info[1]) // the text encoding is free
		}
		return s
	case *mqo.Document:
		return mqoContent(d)
	case *fbx.Document:
		var b strings.Builder
		for _, n := range d.RawNode.Children {
			if n.Name != "FileId" {
				fbxContent(&b, n, 0)
			}
		}
		return b.String()
	case *gltf.Document:
		return Dump(d, false)
	case *vrm.Document:
		return Dump((*gltf.Document)(d), false)
	}
	return Dump(doc, true)
}

func mqoContent(d *mqo.Document) string {
	c := *d
	c.Materials = nil
	for _, m := range d.Materials {
		n := *m
		if n.Ex2 != nil {
			e := *n.Ex2
			e.ShaderMapping = nil
			n.Ex2 = &e
		}
		c.Materials = append(c.Materials, &n)
	}
	return Dump(&c, false)
}

func fbxContent(b *strings.Builder, n *fbx.Node, depth int) {
	fmt.Fprintf(b, "%s%s:", strings.Repeat(" ", depth), n.Name)
	for _, a := range n.Attributes {
		fbxValue(b, a)
	}
	b.WriteByte('\n')
	for _, c := range n.Children {
		fbxContent(b, c, depth+1)
	}
}

func fbxNum(f float64) string {
	if f == math.Trunc(f) && math.Abs(f) < 1e15 {
		return strconv.FormatInt(int64(f), 10)
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

// short32 is the shortest decimal that stands for a single precision number:
// a text file has no types.
func short32(v float32) float64 {
	f, _ := strconv.ParseFloat(strconv.FormatFloat(float64(v), 'g', -1, 32), 64)
	return f
}

func fbxValue(b *strings.Builder, a *fbx.Attribute) {
	b.WriteByte(' ')
	list := func(n int, get func(i int) string) {
		if n == 0 {
			return
		}
		b.WriteByte('[')
		for i := 0; i < n; i++ {
			b.WriteString(get(i) + " ")
		}
		b.WriteByte(']')
	}
	switch v := a.Value.(type) {
	case nil:
	case string:
		b.WriteString(strconv.Quote(fbxName(v)))
	case []byte:
		b.WriteString(strconv.Quote(base64.StdEncoding.EncodeToString(v)))
	case bool:
		if v {
			b.WriteString("1")
		} else {
			b.WriteString("0")
		}
	case byte:
		b.WriteString(strconv.Itoa(int(v)))
	case int8:
		b.WriteString(strconv.Itoa(int(v)))
	case int16:
		b.WriteString(strconv.Itoa(int(v)))
	case int32:
		b.WriteString(strconv.Itoa(int(v)))
	case int:
		b.WriteString(strconv.Itoa(v))
	case int64:
		b.WriteString(strconv.FormatInt(v, 10))
	case float32:
		b.WriteString(fbxNum(short32(v)))
	case float64:
		b.WriteString(fbxNum(v))
	case []bool:
		list(len(v), func(i int) string {
			if v[i] {
				return "1"
			}
			return "0"
		})
	case []int8:
		list(len(v), func(i int) string { return strconv.Itoa(int(v[i])) })
	case []int32:
		list(len(v), func(i int) string { return strconv.Itoa(int(v[i])) })
	case []int64:
		list(len(v), func(i int) string { return strconv.FormatInt(v[i], 10) })
	case []float32:
		list(len(v), func(i int) string { return fbxNum(short32(v[i])) })
	case []float64:
		list(len(v), func(i int) string { return fbxNum(v[i]) })
	default:
		fmt.Fprintf(b, "%T %v", v, v)
	}
}

// fbxName: "name\0\1Class" of a binary file is "Class::name" in a text file.
func fbxName(s string) string {
	if i := strings.Index(s, "\x00\x01"); i >= 0 {
		return s[i+2:] + "::" + s[:i]
	}
	return s
}

// unique tells whether saving as .mqo has no names to change.
func uniqueNames(doc interface{}) bool {
	d, ok := doc.(*mqo.Document)
	if !ok {
		return true
	}
	seen := map[string]bool{}
	for _, o := range d.Objects {
		if seen["o"+o.Name] {
			return false
		}
		seen["o"+o.Name] = true
	}
	for _, m := range d.Materials {
		if seen["m"+m.Name] {
			return false
		}
		seen["m"+m.Name] = true
	}
	return true
}

// inProc runs fn as a process and tells how it ended.
func inProc(p *simk.Proc, fn func() error) error {
	var err error
	done := false
	p.Run(func() {
		err = fn()
		done = true
	})
	if !done {
		switch {
		case p.Crashed:
			return &crashErr{"killed"}
		case p.Panic != "":
			return &crashErr{"panic: " + p.Panic + " " + where(p.Stack)}
		case p.Overrun:
			return &crashErr{"endless: more than the allowed number of operations"}
		}
		return &crashErr{fmt.Sprintf("ended the process (status %d)", p.ExitCode)}
	}
	return err
}

var _ = sort.Strings
