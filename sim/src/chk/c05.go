//go:build go1.22

package chk

import (
	"bytes"
	"errors"
	"fmt"
	"path"
	"strings"

	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/binzume/modelconv/zzverif/simk"
)

func writeSide(o simk.Op) string {
	switch o.Kind {
	case "create", "write", "closew", "mkdir", "rename", "fsync", "truncate", "link":
		return o.Kind + " " + o.Path
	}
	return ""
}

// written is the number of bytes that a run wrote.
func written(ops []simk.Op) int {
	n := 0
	for _, o := range ops {
		if o.Kind == "write" && o.Ret > 0 {
			n += o.Ret
		}
	}
	return n
}

func failed(o simk.Op) bool { return o.Err != 0 && int(o.Err) != 4 || o.Fault != "" }

// inSaved: the path belongs to the copies of textures.
func inSaved(p string) bool { return strings.Contains(p+"/", "/saved_textures/") }

// judgeSuccess compares the output of a run that reported success.
func judgeSuccess(c *gen.Case, base, res *result) string {
	lost := false // copies of textures may be given up
	for _, o := range res.P.Ops {
		if inSaved(o.Path) && (o.Fault != "" || o.Err == 28) {
			lost = true
		}
	}
	for _, k := range keys(res.Out) {
		if inSaved(k) && !strings.HasSuffix(k, "/") {
			want, ok := base.Out[k]
			if !ok && lost {
				continue // a leftover under a temporary name
			}
			if !ok {
				return "unexpected " + k
			}
			if want != res.Out[k] {
				return fmt.Sprintf("saved texture %s is incomplete: %d bytes, want %d", k, len(res.Out[k]), len(want))
			}
		}
	}
	if lost {
		return ""
	}
	return diffOut(base.Out, res.Out)
}

// spare leaves out operations that make no difference to what is stored.
func init() {
	register(&Scenario{Prop: "C05", Name: "cli", Weight: 4, Kinds: gen.Kinds, Exts: allExts, Real: "the whole command",
		Setup: setupCase,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*caseEnv)
			ts := faultTrials(r, e.ops, n, writeSide)
			for _, t := range ts {
				t.N = []int64{int64(r.N(3))}
			}
			total := written(e.ops)
			for i := 0; i < n/3+1; i++ { // a disk that fills up
				ts = append(ts, &Trial{Cap: int64(1 + r.N(total+total/8+2)), N: []int64{int64(r.N(3))}})
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*caseEnv)
			d := e.disk.Clone()
			old := map[string]string{}
			if len(t.N) > 0 && t.N[0] != 0 { // an older output is in the way
				for k, v := range e.base.Out {
					if inSaved(k) || strings.HasSuffix(k, "/") {
						continue
					}
					o := strings.Repeat("older output\n", 1+len(v)/8)
					if t.N[0] == 2 {
						o = "x"
					}
					d.WriteFile(k, []byte(o))
					old[k] = o
				}
			}
			if t.Cap > 0 {
				d.Cap = d.Used() + t.Cap
			}
			res := runCase(e.c, d, t.apply)
			st.proc(res.P)
			st.state(fmt.Sprint(res.Code), d.Hash())
			if res.Code != 0 {
				st.out("failure reported")
				return ""
			}
			if diff := judgeSuccess(e.c, e.base, res); diff != "" {
				return fmt.Sprintf("%v: success is reported after %s, but the output is not what it should be: %s", e.c.Args, faultText2(res.P), diff)
			}
			st.out("complete output")
			return ""
		}})

	register(&Scenario{Prop: "C05", Name: "save", Weight: 3, Kinds: saveKinds, Real: "library savers",
		Setup: setupSave,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*saveEnv)
			ts := faultTrials(r, e.ops, n, writeSide)
			total := written(e.ops)
			for i := 0; i < n/3+1; i++ {
				ts = append(ts, &Trial{Cap: int64(1 + r.N(total+2))})
			}
			for i := 0; i < n/3+1; i++ { // short writes, then a failure
				t := chunkedWriteFault(r, e.ops)
				ts = append(ts, t)
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*saveEnv)
			d := e.disk.Clone()
			if t.Cap > 0 {
				d.Cap = d.Used() + t.Cap
			}
			doc, _ := makeDoc(e.kind, e.seed, e.size)
			p := newProc(d)
			t.apply(p)
			before := d.Snapshot()
			err := inProc(p, func() error { return saveDoc(doc, e.path) })
			st.proc(p)
			st.state(errKey(err), d.Hash())
			if c, ok := err.(*crashErr); ok {
				return fmt.Sprintf("saving %s: %v after %s", path.Base(e.path), c, faultText2(p))
			}
			if err != nil {
				st.out("error")
				return ""
			}
			out, _ := delta(before, d)
			if diff := diffOut(e.out, out); diff != "" {
				return fmt.Sprintf("saving %s reports success after %s, but: %s", path.Base(e.path), faultText2(p), diff)
			}
			st.out("complete file")
			return ""
		}})

	register(&Scenario{Prop: "C05", Name: "writer", Weight: 2, Kinds: []string{"pmx", "mqo", "mqox", "mqx", "fbx", "glb", "gltf", "vrm"}, Real: "encoders of all formats, given a writer",
		Setup: func(s *Spec, st *Stats) interface{} {
			kind, what := s.Kind, s.Kind
			if kind == "mqx" {
				kind = "mqox"
			}
			doc, err := makeDoc(kind, s.GSeed, s.Size)
			if err != nil {
				st.skip("document cannot be made: " + s.Kind + ": " + short(err.Error()))
				return nil
			}
			e := &writerEnv{kind: kind, what: what, seed: s.GSeed, size: s.Size}
			w := &oddWriter{limit: -1}
			if err := inProc(newProc(simk.NewDisk()), func() error { return writeDoc(doc, w, what) }); err != nil {
				st.skip("document cannot be written: " + s.Kind + ": " + short(err.Error()))
				return nil
			}
			e.want = w.buf.Bytes()
			return e
		},
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*writerEnv)
			var ts []*Trial
			for i := 0; i < n; i++ {
				at := r.N(len(e.want) + 1)
				switch r.N(5) {
				case 0:
					at = len(e.want) - 1 - r.N(min(len(e.want), 5000))
				case 1:
					at = r.N(min(len(e.want), 100))
				}
				ts = append(ts, &Trial{N: []int64{int64(max(at, 0)), int64(r.N(3))}})
			}
			return ts
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*writerEnv)
			doc, _ := makeDoc(e.kind, e.seed, e.size)
			w := &oddWriter{limit: int(t.N[0]), mode: int(t.N[1])}
			p := newProc(simk.NewDisk())
			err := inProc(p, func() error { return writeDoc(doc, w, e.what) })
			st.proc(p)
			if w.failed {
				st.Injected["writer/error"]++
			}
			st.state(errKey(err), fmt.Sprint(w.buf.Len()))
			if c, ok := err.(*crashErr); ok {
				return fmt.Sprintf("writing %s: %v when the writer fails at byte %d", e.what, c, t.N[0])
			}
			if err == nil && !bytes.Equal(w.buf.Bytes(), e.want) {
				return fmt.Sprintf("writing %s reports success although the writer failed at byte %d of %d", e.what, t.N[0], len(e.want))
			}
			if err == nil && w.failed {
				return fmt.Sprintf("writing %s reports success although the writer returned an error at byte %d of %d", e.what, t.N[0], len(e.want))
			}
			st.out(errClass(err))
			return ""
		}})
}

type writerEnv struct {
	kind, what string
	seed       uint64
	size       int
	want       []byte
}

// oddWriter fails once limit bytes have been written. Mode 0: for good, nothing
// of that call is written; 1: for good, after writing up to the limit; 2: once.
type oddWriter struct {
	buf    bytes.Buffer
	limit  int
	mode   int
	failed bool
}

var errWriter = errors.New("injected write failure")

func (w *oddWriter) Write(b []byte) (int, error) {
	if w.limit >= 0 && w.buf.Len()+len(b) > w.limit && !(w.mode == 2 && w.failed) {
		n := 0
		if w.mode != 0 {
			if n = w.limit - w.buf.Len(); n < 0 {
				n = 0
			}
			w.buf.Write(b[:n])
		}
		w.failed = true
		return n, errWriter
	}
	return w.buf.Write(b)
}

type saveEnv struct {
	kind, path string
	seed       uint64
	size       int
	disk       *simk.Disk
	ops        []simk.Op
	out        map[string]string
}

func setupSave(s *Spec, st *Stats) interface{} {
	doc, err := makeDoc(s.Kind, s.GSeed, s.Size)
	if err != nil {
		st.skip("document cannot be made: " + s.Kind + ": " + short(err.Error()))
		return nil
	}
	e := &saveEnv{kind: s.Kind, seed: s.GSeed, size: s.Size, disk: simk.NewDisk()}
	r := gen.NewR(s.GSeed ^ 5)
	e.path = "/work/" + r.Pick("model", "モデル", "a b", "x.y") + saveExt(s.Kind)
	if r.P(50) { // something is there already
		e.disk.WriteFile(e.path, bytes.Repeat([]byte("old "), r.PickN(1, 1000, 60000)))
		if saveExt(s.Kind) == ".mqo" {
			e.disk.WriteFile(strings.TrimSuffix(e.path, ".mqo")+".mqx", bytes.Repeat([]byte("old "), r.PickN(1, 10000)))
		}
	}
	d := e.disk.Clone()
	p := newProc(d)
	if err := inProc(p, func() error { return saveDoc(doc, e.path) }); err != nil {
		st.skip("document cannot be saved: " + s.Kind + ": " + short(err.Error()))
		return nil
	}
	e.ops = p.Ops
	e.out, _ = delta(e.disk.Snapshot(), d)
	return e
}

func chunkedWriteFault(r *gen.R, ops []simk.Op) *Trial {
	t := &Trial{Chunk: &simk.Chunking{Mode: "rand", Seed: r.U64(), Max: r.PickN(100, 1000, 4096), Write: true}}
	pk := newPicker(ops, func(o simk.Op) string {
		if o.Kind == "write" {
			return o.Path
		}
		return ""
	})
	if len(pk.names) == 0 || r.P(20) {
		return t
	}
	i := pk.pick(r)
	f := faultFor(r, i, ops[i], r.P(50))
	f.On, f.Op = ops[i].Kind+" "+ops[i].Path, r.N(r.PickN(2, 8, 60))
	t.Faults = []simk.Fault{f}
	return t
}

func faultText2(p *simk.Proc) string {
	for i, o := range p.Ops {
		if o.Fault != "" {
			return fmt.Sprintf("%s at operation %d: %s %s", o.Fault, i, o.Kind, o.Path)
		}
	}
	for i, o := range p.Ops {
		if o.Kind == "write" && (o.Err != 0 || o.Ret < o.Size) {
			return fmt.Sprintf("operation %d: write of %d bytes to %s stored %d", i, o.Size, o.Path, o.Ret)
		}
	}
	return "no fault"
}

// errKey is the error without what differs between similar cases.
func errKey(err error) string {
	if err == nil {
		return "no error"
	}
	var b strings.Builder
	for _, c := range err.Error() {
		if c < '0' || c > '9' {
			b.WriteRune(c)
		}
	}
	return short(b.String())
}
