//go:build go1.22

package chk

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"path"
	"runtime"
	"strings"

	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/binzume/modelconv/zzverif/simk"
)

var damageModes = []string{"flip", "flip", "zero", "stale", "garbage", "insert", "delete", "u32", "u32", "u16", "u8", "num", "num", "dropline", "dupline", "swap", "token"}

var badU32 = []uint64{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x40000000, 0x00ffffff, 0x3fffffff, 1000000, 100000000, 0xc0000000, 12, 65, 0x3f800000, 0x7fc00000, 0x7f800000}
var badNum = []string{"-1", "0", "1", "2147483647", "-2147483648", "4294967295", "99999999999999999999", "1e30", "-1e-30", "NaN", "Inf", "100000000", "65536", "-", ".", "", "0x10", "1.5", "999999", "\"x\"", "{", "}", "(", ")"}

func damage(data []byte, d *Damage) []byte {
	if len(data) == 0 {
		return data
	}
	pos := d.Pos % len(data)
	n := d.Len
	if n <= 0 {
		n = 1
	}
	b := append([]byte{}, data...)
	end := pos + n
	if end > len(b) {
		end = len(b)
	}
	put := func(v uint64, size int) {
		var t [8]byte
		binary.LittleEndian.PutUint64(t[:], v)
		copy(b[pos:], t[:size])
	}
	switch d.Mode {
	case "flip":
		b[pos] ^= 1 << (d.Val & 7)
	case "zero":
		for i := pos; i < end; i++ {
			b[i] = 0
		}
	case "stale": // a sector holds what another one should
		src := int(d.Val % uint64(len(b)))
		copy(b[pos:end], data[src:])
	case "garbage":
		r := gen.NewR(d.Val)
		for i := pos; i < end; i++ {
			b[i] = byte(r.U64())
		}
	case "insert":
		r := gen.NewR(d.Val)
		ins := make([]byte, n)
		for i := range ins {
			if d.Val&1 == 0 {
				ins[i] = byte(r.U64())
			} else {
				ins[i] = b[(pos+i)%len(b)]
			}
		}
		return append(b[:pos:pos], append(ins, data[pos:]...)...)
	case "delete":
		return append(b[:pos:pos], data[end:]...)
	case "u32":
		put(badU32[d.Val%uint64(len(badU32))], 4)
	case "u16":
		put(badU32[d.Val%uint64(len(badU32))], 2)
	case "u8":
		put(badU32[d.Val%uint64(len(badU32))], 1)
	case "num": // the next number in the text
		s := pos
		digit := func(c byte) bool {
			return c >= '0' && c <= '9' || c == '.' || c == '-'
		}
		for s < len(b) && !digit(b[s]) {
			s++
		}
		for s > 0 && s < len(b) && digit(b[s-1]) {
			s--
		}
		e := s
		for e < len(b) && digit(b[e]) {
			e++
		}
		if s >= len(b) {
			return b
		}
		return append(b[:s:s], append([]byte(badNum[d.Val%uint64(len(badNum))]), data[e:]...)...)
	case "dropline", "dupline":
		s, e := pos, pos
		for s > 0 && b[s-1] != '\n' {
			s--
		}
		for e < len(b) && b[e] != '\n' {
			e++
		}
		if e < len(b) {
			e++
		}
		if e-s > 4000 {
			e = s + 4000
		}
		if d.Mode == "dropline" {
			return append(b[:s:s], data[e:]...)
		}
		return append(b[:e:e], data[s:]...)
	case "token": // a structural character changes or goes
		set := "{}[]\":,<>/() \n\t\x00"
		s := pos
		for s < len(b) && strings.IndexByte(set, b[s]) < 0 {
			s++
		}
		if s >= len(b) {
			return b
		}
		if d.Val%3 == 0 {
			return append(b[:s:s], data[s+1:]...)
		}
		b[s] = set[int(d.Val>>8)%len(set)]
	case "swap":
		q := int(d.Val % uint64(len(b)))
		for i := 0; i < n && pos+i < len(b) && q+i < len(b); i++ {
			b[pos+i], b[q+i] = b[q+i], b[pos+i]
		}
	}
	return b
}

func randDamage(r *gen.R, nfiles int, size func(f int) int) Damage {
	f := r.N(nfiles)
	sz := size(f)
	if sz < 1 {
		sz = 1
	}
	d := Damage{File: f, Mode: damageModes[r.N(len(damageModes))], Pos: r.N(sz), Val: r.U64() >> 1}
	switch r.N(6) {
	case 0:
		d.Pos = r.N(min(sz, 64)) // the header
	case 1:
		d.Pos = max(0, sz-1-r.N(min(sz, 200))) // the trailer
	}
	switch d.Mode {
	case "zero", "stale", "garbage", "swap":
		d.Len = r.PickN(1, 2, 4, 8, 16, 64, 512, 4096)
		if d.Len >= 512 {
			d.Pos &^= 511
		}
	case "insert", "delete":
		d.Len = r.PickN(1, 1, 2, 4, 7, 100)
	}
	return d
}

func damageTrials(r *gen.R, n int, files []string, get func(string) []byte) []*Trial {
	var ts []*Trial
	for i := 0; i < n; i++ {
		t := &Trial{}
		k := 1
		if r.P(30) {
			k = r.In(2, 6)
		}
		for ; k > 0; k-- {
			t.Damage = append(t.Damage, randDamage(r, len(files), func(f int) int { return len(get(files[f])) }))
		}
		ts = append(ts, t)
	}
	return ts
}

// AllocWorst is the largest use of memory seen, relative to the allowance (percent).
func allocAllowance(size int) uint64 { return 48<<20 + uint64(size)*2500 }

func totalAlloc() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func isArchive(kind string) bool { return kind == "mqoz" || kind == "pkg" }

func init() {
	register(&Scenario{Prop: "C04", Name: "damage", Weight: 5, Kinds: libKinds, Real: "library loaders",
		Setup: setupLib,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*libEnv)
			return damageTrials(r, n*4, damageFiles(e), func(f string) []byte { return e.w.Files[f] })
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*libEnv)
			d := e.disk.Clone()
			files := damageFiles(e)
			size := 0
			same := true
			for i := range t.Damage {
				f := files[t.Damage[i].File%len(files)]
				cur, _ := d.ReadFile(f)
				nb := damage(cur, &t.Damage[i])
				if string(nb) != string(cur) {
					same = false
				}
				d.WriteFile(f, nb)
				st.Injected["damage/"+t.Damage[i].Mode]++
			}
			for _, f := range e.w.Paths() {
				b, _ := d.ReadFile(f)
				size += len(b)
			}
			p := newProc(d)
			// handing out the data twenty times over is plenty; a file that needs more is read in circles
			before := totalAlloc()
			l := load(p, e.kind, e.file, e.scene)
			used := totalAlloc() - before
			if l.Dump != "" { // written by the harness
				if lim := uint64(len(l.Dump)) * 12; used > lim {
					used -= lim
				} else {
					used = 0
				}
			}
			st.proc(p)
			st.state(l.Dump, errKey(l.Err))
			if q := used * 100 / allocAllowance(size); q >= 20 {
				st.out(fmt.Sprintf("memory at %d%% of the allowance", int(math.Min(float64(q/20*20), 100))))
			}
			if c, ok := l.Err.(*crashErr); ok {
				st.sig = "damage/" + e.kind + "/crash/" + where(p.Stack)
				return fmt.Sprintf("%s, damaged: %v %s", path.Base(e.file), c, where(p.Stack))
			}
			if used > allocAllowance(size) {
				st.sig = "damage/" + e.kind + "/memory"
				return fmt.Sprintf("%s, damaged (%d bytes of input): the loader allocates more than %d MB", path.Base(e.file), size, allocAllowance(size)>>20)
			}
			if l.Err == nil && l.Doc == nil {
				return fmt.Sprintf("%s, damaged: neither a document nor an error", path.Base(e.file))
			}
			if l.Err == nil && isArchive(e.kind) && l.Dump != e.dump && e.kind == "mqoz" && indexDamaged(e.w.Files[e.file], fileOf(d, e.file)) {
				st.out("damage in the index of a zip, which has no checksum")
				return ""
			}
			if l.Err == nil && isArchive(e.kind) && l.Dump != e.dump {
				return fmt.Sprintf("%s, damaged, loads without an error as a different document: %s", path.Base(e.file), Diff(e.dump, l.Dump))
			}
			if same && l.Dump != e.dump {
				return fmt.Sprintf("%s: loads differently the second time: %s", path.Base(e.file), Diff(e.dump, l.Dump))
			}
			switch {
			case l.Err != nil:
				st.out("error")
			case l.Dump == e.dump:
				st.out("same document")
			default:
				st.out("other document")
			}
			return ""
		}})

	register(&Scenario{Prop: "C04", Name: "archive", Weight: 1, Kinds: []string{"mqoz", "pkg"}, Exts: allExts, Real: "the whole command",
		Setup: setupCase,
		Trials: func(env interface{}, s *Spec, r *gen.R, n int) []*Trial {
			e := env.(*caseEnv)
			return damageTrials(r, n*2, []string{e.c.Model}, func(f string) []byte { return e.c.Files[f] })
		},
		Run: func(env interface{}, t *Trial, st *Stats) string {
			e := env.(*caseEnv)
			d := e.disk.Clone()
			for i := range t.Damage {
				b, _ := d.ReadFile(e.c.Model)
				d.WriteFile(e.c.Model, damage(b, &t.Damage[i]))
				st.Injected["damage/"+t.Damage[i].Mode]++
			}
			res := runCase(e.c, d, nil)
			st.proc(res.P)
			st.state(fmt.Sprint(res.Code), d.Hash())
			if res.Code != 0 {
				st.out("failure reported")
				return ""
			}
			if diff := diffOut(e.base.Out, res.Out); diff != "" {
				if e.c.Kind == "mqoz" && indexDamaged(e.c.Files[e.c.Model], fileOf(d, e.c.Model)) {
					st.out("damage in the index of a zip, which has no checksum")
					return ""
				}
				return fmt.Sprintf("%v: damaged archive converts with success to something else: %s", e.c.Args, diff)
			}
			st.out("same output")
			return ""
		}})
}

func damageFiles(e *libEnv) []string {
	if e.kind == "vmd" || e.kind == "mqx" {
		return []string{e.file}
	}
	var r []string
	for _, f := range e.w.Paths() {
		switch e.w.Role[f] {
		case "texture", "config", "motion":
		default:
			r = append(r, f)
		}
	}
	return r
}

func fileOf(d *simk.Disk, f string) []byte {
	b, _ := d.ReadFile(f)
	return b
}

// indexDamaged: the list of entries of a zip changed in a way that no checksum
// covers (names, or a checksum that is gone).
func indexDamaged(a, b []byte) bool {
	za, err := zip.NewReader(bytes.NewReader(a), int64(len(a)))
	if err != nil {
		return false
	}
	zb, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return false
	}
	if len(za.File) != len(zb.File) {
		return true
	}
	for i, f := range za.File {
		g := zb.File[i]
		if f.Name != g.Name || f.CRC32 != g.CRC32 && g.CRC32 == 0 {
			return true
		}
	}
	return false
}
