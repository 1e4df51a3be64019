//go:build go1.22

package chk

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"github.com/binzume/modelconv/zzverif/gen"
	"github.com/binzume/modelconv/zzverif/simk"
)

// Damage is one change of the bytes of a file.
type Damage struct {
	File int    `json:"file"` // index in the sorted list of the world's files
	Mode string `json:"mode"`
	Pos  int    `json:"pos"`
	Len  int    `json:"len,omitempty"`
	Val  uint64 `json:"val,omitempty"`
}

// Trial holds every decision of one simulated run: nothing else is random.
type Trial struct {
	Faults   []simk.Fault   `json:"faults,omitempty"`
	Faults2  []simk.Fault   `json:"faults2,omitempty"` // of the second process
	Chunk    *simk.Chunking `json:"chunk,omitempty"`
	Damage   []Damage       `json:"damage,omitempty"`
	MapSeed  uint64         `json:"map_seed,omitempty"`
	DirSeed  uint64         `json:"dir_seed,omitempty"`
	NameSeed uint64         `json:"name_seed,omitempty"`
	Skew     int64          `json:"clock_skew,omitempty"`
	Jump     uint64         `json:"clock_jump,omitempty"`
	Cap      int64          `json:"disk_free,omitempty"`
	Choices  []int          `json:"schedule,omitempty"` // who runs at each yield point
	SSeed    uint64         `json:"schedule_seed,omitempty"`
	Stay     int            `json:"stay,omitempty"`
	N        []int64        `json:"n,omitempty"` // further numbers, by scenario
}

func (t *Trial) clone() *Trial {
	c := *t
	c.Faults = append([]simk.Fault{}, t.Faults...)
	c.Faults2 = append([]simk.Fault{}, t.Faults2...)
	c.Damage = append([]Damage{}, t.Damage...)
	c.Choices = append([]int{}, t.Choices...)
	c.N = append([]int64{}, t.N...)
	if t.Chunk != nil {
		k := *t.Chunk
		c.Chunk = &k
	}
	return &c
}

// apply gives the decisions to a process.
func (t *Trial) apply(p *simk.Proc) {
	p.Faults = t.Faults
	p.Chunk = t.Chunk
	p.MapSeed, p.DirSeed = t.MapSeed, t.DirSeed
	if t.NameSeed != 0 {
		p.NameSeed = t.NameSeed
	}
	p.ClockSkew, p.ClockJump = t.Skew, t.Jump
}

// Spec identifies one simulated run.
type Spec struct {
	Prop  string `json:"property"`
	Scen  string `json:"scenario"`
	Kind  string `json:"kind"`
	Ext   string `json:"ext,omitempty"`
	GSeed uint64 `json:"seed"`
	Size  int    `json:"size"`
	Trial *Trial `json:"trial"`
}

// Stats counts what happened.
type Stats struct {
	Evals    int             `json:"evals"`
	Procs    int             `json:"procs"`
	Ops      int             `json:"ops"`
	Injected map[string]int  `json:"injected"`
	Skips    map[string]int  `json:"skips"`
	Scen     map[string]int  `json:"scen"`
	Outcome  map[string]int  `json:"outcome"`
	Steps    uint64          `json:"steps"`
	Switches int             `json:"switches"`
	Inter    map[uint64]bool `json:"-"`
	States   map[uint64]bool `json:"-"`
	Unsup    map[string]int  `json:"unsup"`
	Twice    int             `json:"twice"`
	Diverged int             `json:"diverged"`
	Draws    uint64          `json:"draws"`
	Samples  []*Sample       `json:"samples"`
	trace    uint64
	sig      string
	cur      *Spec
}

// Sample is a run written out.
type Sample struct {
	Spec     *Spec          `json:"spec"`
	Injected map[string]int `json:"injected_so_far_in_worker"`
	Held     bool           `json:"held"`
}

func NewStats() *Stats {
	return &Stats{Injected: map[string]int{}, Skips: map[string]int{}, Scen: map[string]int{}, Outcome: map[string]int{}, Unsup: map[string]int{}, Inter: map[uint64]bool{}, States: map[uint64]bool{}}
}

func h64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// proc accounts for a finished process.
func (s *Stats) proc(p *simk.Proc) {
	s.Procs++
	s.Ops += p.NOps
	s.Draws += p.Draws
	s.Steps += p.Steps
	for k, n := range p.Injected {
		s.Injected[k] += n
	}
	for k, n := range p.Unsupported {
		s.Unsup[k] += n
	}
	var b strings.Builder
	for _, o := range p.Ops {
		ret := o.Ret
		if o.Kind == "open" || o.Kind == "create" {
			ret = 0 // handle numbers are never reused
		}
		fmt.Fprintf(&b, "%s %s %d %d %d;", o.Kind, o.Path, o.Size, ret, o.Err)
	}
	fmt.Fprintf(&b, "%v %d %v %s", p.Exited, p.ExitCode, p.Crashed, p.Panic)
	s.trace = s.trace*1099511628211 ^ h64(b.String())
}

// state records a distinct outcome.
func (s *Stats) state(parts ...string) {
	h := h64(parts...)
	s.States[h64(s.cur.Scen, s.cur.Kind, s.cur.Ext)^h] = true
	s.trace = s.trace*1099511628211 ^ h
}

func (s *Stats) out(k string)  { s.Outcome[k]++ }
func (s *Stats) skip(k string) { s.Skips[k]++ }

// Scenario is one way in which a property is tried.
type Scenario struct {
	Prop, Name string
	Weight     int
	Kinds      []string
	Exts       []string // nil: none
	MaxSize    int
	Step       int    // length of one step in Trial.N (0: N has no steps)
	Real       string // components that run their real code
	// Setup builds the world and whatever the judgement needs. nil: not usable.
	Setup func(s *Spec, st *Stats) interface{}
	// Trials plans runs on it.
	Trials func(env interface{}, s *Spec, r *gen.R, n int) []*Trial
	// Run executes one; the result is empty if the property held.
	Run func(env interface{}, t *Trial, st *Stats) string
}

var scenarios []*Scenario

func register(s *Scenario) { scenarios = append(scenarios, s) }

// Scenarios of a property.
func Scenarios(prop string) []*Scenario {
	var r []*Scenario
	for _, s := range scenarios {
		if s.Prop == prop {
			r = append(r, s)
		}
	}
	return r
}

// Props lists the properties that have scenarios.
func Props() []string {
	m := map[string]bool{}
	var r []string
	for _, s := range scenarios {
		if !m[s.Prop] {
			m[s.Prop] = true
			r = append(r, s.Prop)
		}
	}
	sort.Strings(r)
	return r
}

func find(prop, name string) *Scenario {
	for _, s := range scenarios {
		if s.Prop == prop && s.Name == name {
			return s
		}
	}
	return nil
}

func mix(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 ^ b
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Batch returns the spec (without trial) of batch i.
func Batch(prop string, seed uint64, i int) *Spec {
	ss := Scenarios(prop)
	total := 0
	for _, s := range ss {
		total += s.Weight
	}
	k := i % total
	round := i / total
	var sc *Scenario
	for _, s := range ss {
		if k < s.Weight {
			sc = s
			break
		}
		k -= s.Weight
	}
	g := mix(mix(seed, h64(prop, sc.Name)), uint64(i))
	r := gen.NewR(g ^ 0xabcdef)
	sp := &Spec{Prop: prop, Scen: sc.Name, GSeed: g}
	// cycle through the kinds (and outputs), so that all occur early
	n := round*sc.Weight + k
	sp.Kind = sc.Kinds[n%len(sc.Kinds)]
	if len(sc.Exts) > 0 {
		sp.Ext = sc.Exts[(n/len(sc.Kinds)+n%len(sc.Kinds))%len(sc.Exts)]
	}
	max := sc.MaxSize
	if max == 0 {
		max = 5
	}
	sp.Size = r.N(max + 1)
	if r.P(40) {
		sp.Size = r.N(sp.Size + 1)
	}
	return sp
}

// Violation is a failed judgement.
type Violation struct {
	Spec *Spec  `json:"spec"`
	Msg  string `json:"message"`
	Sig  string `json:"signature"`
}

// RunSpec executes one complete spec.
func RunSpec(sp *Spec, st *Stats) *Violation {
	sc := find(sp.Prop, sp.Scen)
	if sc == nil {
		return nil
	}
	st.cur = sp
	env := sc.Setup(sp, st)
	if env == nil {
		return nil
	}
	return runTrial(sc, env, sp, st)
}

func runTrial(sc *Scenario, env interface{}, sp *Spec, st *Stats) *Violation {
	st.Evals++
	st.cur = sp
	st.sig = ""
	if msg := sc.Run(env, sp.Trial, st); msg != "" {
		sig := st.sig
		if sig == "" {
			sig = sp.Scen + "/" + sp.Kind + "/" + sp.Ext
		}
		return &Violation{Spec: sp, Msg: msg, Sig: sig}
	}
	return nil
}

// RunBatch explores batch i. note is told about each run before it starts.
func RunBatch(prop string, seed uint64, i, trials int, st *Stats, note func(phase string, sp *Spec), stop func() bool) *Violation {
	sp := Batch(prop, seed, i)
	sc := find(prop, sp.Scen)
	st.cur = sp
	note("setup", sp)
	env := sc.Setup(sp, st)
	if env == nil {
		return nil
	}
	st.Scen[sp.Scen+"/"+sp.Kind]++
	ts := sc.Trials(env, sp, gen.NewR(mix(sp.GSeed, 77)), trials)
	for k, t := range ts {
		s2 := *sp
		s2.Trial = t
		note("run", &s2)
		st.trace = 0
		v := runTrial(sc, env, &s2, st)
		if v != nil {
			return v
		}
		if k == len(ts)/2 && len(st.Samples) < 2 {
			inj := map[string]int{}
			for f, n := range st.Injected {
				inj[f] = n
			}
			st.Samples = append(st.Samples, &Sample{&s2, inj, true})
		}
		if k == 0 && mix(uint64(i), 5)%8 == 0 { // the same decisions give the same run
			tr := st.trace
			st.trace = 0
			v = runTrial(sc, env, &s2, st)
			st.Evals--
			st.Twice++
			if v != nil {
				return v
			}
			if st.trace != tr {
				st.Diverged++
			}
		}
		if stop() {
			break
		}
	}
	return nil
}

// Shrink makes a violation smaller while it stays one.
func Shrink(v *Violation, stop func() bool) *Violation {
	st := NewStats()
	sc := find(v.Spec.Prop, v.Spec.Scen)
	try := func(sp *Spec) bool {
		if stop() {
			return false
		}
		if n := RunSpec(sp, st); n != nil {
			v = n
			return true
		}
		return false
	}
	// a smaller world
	for size := 0; size < v.Spec.Size && !stop(); size++ {
		found := false
		for k := uint64(0); k < 6 && !found && !stop(); k++ {
			sp := *v.Spec
			sp.Size = size
			if k > 0 {
				sp.GSeed = mix(sp.GSeed, k)
			}
			st.cur = &sp
			env := sc.Setup(&sp, st)
			if env == nil {
				continue
			}
			for _, t := range sc.Trials(env, &sp, gen.NewR(mix(sp.GSeed, 77)), 40) {
				if stop() {
					break
				}
				s2 := sp
				s2.Trial = t
				if n := runTrial(sc, env, &s2, st); n != nil {
					// must fail on its own, too
					if try(n.Spec) {
						found = true
						break
					}
				}
			}
		}
		if found {
			break
		}
	}
	// fewer decisions
	with := func(f func(t *Trial)) bool {
		sp := *v.Spec
		sp.Trial = v.Spec.Trial.clone()
		f(sp.Trial)
		return try(&sp)
	}
	for again := true; again && !stop(); {
		again = false
		for i := len(v.Spec.Trial.Faults) - 1; i >= 0; i-- {
			if len(v.Spec.Trial.Faults) > i && with(func(t *Trial) { t.Faults = append(t.Faults[:i], t.Faults[i+1:]...) }) {
				again = true
			}
		}
		for i := len(v.Spec.Trial.Faults2) - 1; i >= 0; i-- {
			if len(v.Spec.Trial.Faults2) > i && with(func(t *Trial) { t.Faults2 = append(t.Faults2[:i], t.Faults2[i+1:]...) }) {
				again = true
			}
		}
		for i := len(v.Spec.Trial.Damage) - 1; i >= 0; i-- {
			if len(v.Spec.Trial.Damage) > i && with(func(t *Trial) { t.Damage = append(t.Damage[:i], t.Damage[i+1:]...) }) {
				again = true
			}
		}
	}
	for k := sc.Step; k > 0 && !stop(); k = 0 {
		for i := len(v.Spec.Trial.N)/k - 1; i >= 0; i-- {
			if len(v.Spec.Trial.N) >= (i+1)*k {
				with(func(t *Trial) { t.N = append(t.N[:i*k], t.N[(i+1)*k:]...) })
			}
		}
	}
	for i := range v.Spec.Trial.Faults {
		if v.Spec.Trial.Faults[i].Sticky {
			with(func(t *Trial) { t.Faults[i].Sticky = false })
		}
	}
	if v.Spec.Trial.Chunk != nil {
		with(func(t *Trial) { t.Chunk = nil })
	}
	if v.Spec.Trial.MapSeed != 0 {
		with(func(t *Trial) { t.MapSeed = 0 })
	}
	if v.Spec.Trial.DirSeed != 0 {
		with(func(t *Trial) { t.DirSeed = 0 })
	}
	if v.Spec.Trial.Skew != 0 || v.Spec.Trial.Jump != 0 {
		with(func(t *Trial) { t.Skew, t.Jump = 0, 0 })
	}
	if v.Spec.Trial.NameSeed != 0 {
		with(func(t *Trial) { t.NameSeed = 0 })
	}
	// a schedule with fewer switches: -1 lets the running task go on
	for n := (len(v.Spec.Trial.Choices) + 1) / 2; n > 0 && !stop(); n /= 2 {
		for at := 0; at < len(v.Spec.Trial.Choices) && !stop(); at += n {
			any := false
			for i := at; i < at+n && i < len(v.Spec.Trial.Choices); i++ {
				any = any || v.Spec.Trial.Choices[i] >= 0
			}
			if any {
				with(func(t *Trial) {
					for i := at; i < at+n && i < len(t.Choices); i++ {
						t.Choices[i] = -1
					}
				})
			}
		}
	}
	if c := v.Spec.Trial.Choices; len(c) > 0 && !stop() {
		n := len(c)
		for n > 1 && c[n-1] < 0 {
			n--
		}
		with(func(t *Trial) { t.Choices = t.Choices[:n] })
	}
	return v
}

// ---- choice of faults

const (
	eIO, eNOSPC, eACCES, eMFILE, eROFS, eDQUOT = 5, 28, 13, 24, 30, 122
	eNOENT, eSTALE, eNOMEM, eISDIR             = 2, 116, 12, 21
)

// faultFor chooses a fault that fits an operation.
func faultFor(r *gen.R, idx int, o simk.Op, sticky bool) simk.Fault {
	f := simk.Fault{Op: idx, Kind: "err", Arg: eIO}
	switch o.Kind {
	case "open":
		f.Arg = r.PickN(eIO, eACCES, eMFILE, eNOMEM, eSTALE)
	case "read", "readdir":
		f.Arg = r.PickN(eIO, eIO, eSTALE, eNOMEM)
	case "create":
		f.Arg = r.PickN(eNOSPC, eACCES, eMFILE, eROFS, eDQUOT, eIO)
	case "write":
		f.Arg = r.PickN(eNOSPC, eIO, eDQUOT)
		if r.P(25) {
			f.Kind, f.Arg = "short", r.N(o.Size+1)
		}
	case "closew":
		f.Arg = r.PickN(eIO, eNOSPC, eDQUOT)
		if r.P(40) {
			f.Kind, f.Arg = "lost", 1+r.N(5000)
		}
	case "mkdir":
		f.Arg = r.PickN(eNOSPC, eACCES, eROFS)
	case "rename", "link":
		f.Arg = r.PickN(eIO, eNOSPC, eACCES)
	case "unlink", "rmdir":
		f.Arg = r.PickN(eIO, eACCES)
	case "stat", "fstat":
		f.Arg = r.PickN(eIO, eACCES)
	}
	if f.Kind == "err" && sticky {
		f.Sticky = true
	}
	return f
}

// pickOps chooses operations, spread over kinds and files.
type opPicker struct {
	groups map[string][]int
	names  []string
}

func newPicker(ops []simk.Op, want func(o simk.Op) string) *opPicker {
	p := &opPicker{groups: map[string][]int{}}
	for i, o := range ops {
		if g := want(o); g != "" {
			if p.groups[g] == nil {
				p.names = append(p.names, g)
			}
			p.groups[g] = append(p.groups[g], i)
		}
	}
	return p
}

func (p *opPicker) total() int {
	n := 0
	for _, g := range p.groups {
		n += len(g)
	}
	return n
}

func (p *opPicker) pick(r *gen.R) int {
	g := p.groups[p.names[r.N(len(p.names))]]
	switch r.N(4) {
	case 0:
		return g[len(g)-1]
	case 1:
		return g[0]
	}
	return g[r.N(len(g))]
}

// faultTrials plans n runs with faults at the operations that want accepts.
func faultTrials(r *gen.R, ops []simk.Op, n int, want func(o simk.Op) string) []*Trial {
	ts := planFaults(r, ops, n, want)
	// name the operations by kind and file: their numbers shift once one has failed
	nth := make([]int, len(ops))
	seen := map[string]int{}
	for i, o := range ops {
		nth[i] = seen[o.Kind+" "+o.Path]
		seen[o.Kind+" "+o.Path]++
	}
	for _, t := range ts {
		for i := range t.Faults {
			f := &t.Faults[i]
			o := ops[f.Op]
			f.On, f.Op = o.Kind+" "+o.Path, nth[f.Op]
		}
	}
	return ts
}

func planFaults(r *gen.R, ops []simk.Op, n int, want func(o simk.Op) string) []*Trial {
	pk := newPicker(ops, want)
	var ts []*Trial
	if len(pk.names) == 0 {
		return nil
	}
	// every operation once when there are few
	if pk.total() <= n*2/3 {
		for i, o := range ops {
			if want(o) != "" {
				ts = append(ts, &Trial{Faults: []simk.Fault{faultFor(r, i, o, false)}})
			}
		}
	} else {
		// at least every group once
		for _, g := range pk.names {
			i := pk.groups[g][r.N(len(pk.groups[g]))]
			ts = append(ts, &Trial{Faults: []simk.Fault{faultFor(r, i, ops[i], false)}})
		}
		for i := len(ts) - 1; i > 0; i-- {
			j := r.N(i + 1)
			ts[i], ts[j] = ts[j], ts[i]
		}
		if len(ts) > n*2/3 {
			ts = ts[:n*2/3]
		}
	}
	for len(ts) < n {
		t := &Trial{}
		k := 1
		if r.P(40) {
			k = r.In(2, 4)
		}
		for ; k > 0; k-- {
			i := pk.pick(r)
			t.Faults = append(t.Faults, faultFor(r, i, ops[i], r.P(30)))
		}
		if r.P(20) {
			t.MapSeed, t.DirSeed = r.U64(), r.U64()
		}
		ts = append(ts, t)
	}
	return ts
}
