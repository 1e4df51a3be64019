//go:build go1.22

// Package drv drives the simulation: workers, confirmation, minimisation and
// the evidence.
package drv

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"mime"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/binzume/modelconv/zzverif/chk"
)

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func Main(cli func()) {
	chk.CLI = cli
	_ = time.Now().Format(time.RFC3339) // reads the time zone once, outside of all simulated runs
	mime.TypeByExtension(".png")
	chk.Solo = solo
	switch os.Getenv("VERIF_SIM") {
	case "drive":
		os.Exit(drive())
	case "worker":
		limits()
		worker()
	case "replay":
		limits()
		os.Exit(replay(os.Args[1]))
	case "shrink":
		limits()
		os.Exit(shrink(os.Args[1], os.Args[2]))
	case "solo":
		limits()
		in, _ := io.ReadAll(os.Stdin)
		wd := &watchdog{limit: 25 * time.Second, wall: 100 * time.Second}
		wd.gen = 1
		wd.start()
		fmt.Print("\x00" + chk.SoloMain(in))
		os.Exit(0)
	case "confirm":
		os.Exit(confirmFile(os.Args[1]))
	case "list":
		fmt.Println(strings.Join(chk.Props(), " "))
	}
}

func limits() {
	debug.SetMaxStack(64 << 20)
	debug.SetMemoryLimit(2 << 30)
	lim := &syscall.Rlimit{Cur: 10 << 30, Max: 10 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, lim)
	core := &syscall.Rlimit{}
	syscall.Setrlimit(syscall.RLIMIT_CORE, core)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(0, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog ends the process when one run takes too long.
type watchdog struct {
	gen   int64
	limit time.Duration
	wall  time.Duration
}

func (w *watchdog) start() {
	go func() {
		last, cpu, wall := int64(-1), cpuTime(), time.Now()
		for {
			time.Sleep(300 * time.Millisecond)
			g := atomic.LoadInt64(&w.gen)
			if g != last {
				last, cpu, wall = g, cpuTime(), time.Now()
				continue
			}
			if g&1 == 1 && (cpuTime()-cpu > w.limit || time.Since(wall) > w.wall) {
				fmt.Println(`{"t":"hang"}`)
				os.Exit(97)
			}
		}
	}()
}

type message struct {
	T      string         `json:"t"`
	V      *chk.Violation `json:"v,omitempty"`
	Stats  *chk.Stats     `json:"stats,omitempty"`
	States []uint64       `json:"states,omitempty"`
	Inter  []uint64       `json:"inter,omitempty"`
	Batch  int            `json:"batch"`
}

type current struct {
	Phase string    `json:"phase"`
	Batch int       `json:"batch"`
	Spec  *chk.Spec `json:"spec"`
}

func worker() {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	prop := os.Getenv("VERIF_PROP")
	seed := uint64(envInt("VERIF_SEED", 1))
	from, to, step := envInt("VERIF_FROM", 0), envInt("VERIF_TO", 0), envInt("VERIF_STEP", 1)
	trials := envInt("VERIF_TRIALS", 20)
	deadline := time.UnixMilli(int64(envInt("VERIF_DEADLINE", 0)))
	cur, err := os.OpenFile(os.Getenv("VERIF_CUR"), os.O_CREATE|os.O_WRONLY, 0600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(98)
	}
	st := chk.NewStats()
	sentS, sentI := map[uint64]bool{}, map[uint64]bool{}
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	send := func(m *message) {
		m.Stats = st
		for h := range st.States {
			if !sentS[h] {
				sentS[h] = true
				m.States = append(m.States, h)
			}
		}
		for h := range st.Inter {
			if !sentI[h] {
				sentI[h] = true
				m.Inter = append(m.Inter, h)
			}
		}
		enc.Encode(m)
		out.Flush()
	}
	wd := &watchdog{limit: 25 * time.Second, wall: 200 * time.Second}
	wd.start()
	last := time.Now()
	var buf bytes.Buffer
	for i := from; i < to; i += step {
		if time.Now().After(deadline) {
			break
		}
		note := func(phase string, sp *chk.Spec) {
			// the run is on record before it starts, should it take the process down
			atomic.StoreInt64(&wd.gen, (atomic.LoadInt64(&wd.gen)+2)|1)
			buf.Reset()
			json.NewEncoder(&buf).Encode(&current{phase, i, sp})
			b := buf.Bytes()
			hdr := []byte(fmt.Sprintf("%08d", len(b)))
			cur.WriteAt(append(hdr, b...), 0)
		}
		v := chk.RunBatch(prop, seed, i, trials, st, note, func() bool { return time.Now().After(deadline) })
		if v != nil {
			send(&message{T: "v", V: v, Batch: i})
			break
		}
		if time.Since(last) > time.Second {
			last = time.Now()
			send(&message{T: "stat", Batch: i})
		}
	}
	atomic.StoreInt64(&wd.gen, (atomic.LoadInt64(&wd.gen)+2)&^1)
	send(&message{T: "end", Batch: to})
}

type replayFile struct {
	Property  string         `json:"property"`
	Message   string         `json:"message"`
	Signature string         `json:"signature"`
	Spec      *chk.Spec      `json:"spec"`
	Crash     bool           `json:"crash,omitempty"` // the run takes the process down
	Seed      int            `json:"verif_seed"`
	Original  *chk.Spec      `json:"before_minimisation,omitempty"`
	Replay    string         `json:"replay"`
	Violation *chk.Violation `json:"-"`
}

func readReplay(path string) (*replayFile, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var f replayFile
	return &f, json.Unmarshal(b, &f)
}

// replay runs the spec of a file once. Exit status 1: violated, 0: held.
func replay(path string) int {
	f, err := readReplay(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 98
	}
	wd := &watchdog{limit: 60 * time.Second, wall: 300 * time.Second}
	wd.gen = 1
	wd.start()
	st := chk.NewStats()
	v := chk.RunSpec(f.Spec, st)
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Println("first:", v != nil, st.Ops, st.Switches, st.Steps)
		for i := 0; i < 3; i++ {
			st = chk.NewStats()
			v = chk.RunSpec(f.Spec, st)
			fmt.Println("again:", v != nil, st.Ops, st.Switches, st.Steps)
		}
	}
	b, _ := json.Marshal(v)
	fmt.Println(string(b))
	if v != nil {
		return 1
	}
	return 0
}

func shrink(path, out string) int {
	f, err := readReplay(path)
	if err != nil {
		return 98
	}
	end := time.Now().Add(time.Duration(envInt("VERIF_SHRINK_S", 40)) * time.Second)
	st := chk.NewStats()
	v := chk.RunSpec(f.Spec, st)
	if v == nil {
		return 0
	}
	v = chk.Shrink(v, func() bool { return time.Now().After(end) })
	f.Spec, f.Message, f.Signature = v.Spec, v.Msg, v.Sig
	writeJSON(out, f)
	return 1
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0644)
}

func child(mode string, timeout time.Duration, env []string, args ...string) (code int, out string) {
	cmd := exec.Command("/proc/self/exe", args...)
	cmd.Env = append(os.Environ(), "VERIF_SIM="+mode)
	cmd.Env = append(cmd.Env, env...)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Start(); err != nil {
		return 98, err.Error()
	}
	t := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	if err == nil {
		return 0, b.String()
	}
	return cmd.ProcessState.ExitCode(), b.String()
}

// solo runs one task of a spec in a fresh process.
func solo(sp *chk.Spec, k int) (string, error) {
	s := *sp
	s.Trial = nil
	q, _ := json.Marshal(map[string]interface{}{"Spec": &s, "K": k})
	cmd := exec.Command("/proc/self/exe")
	cmd.Env = append(os.Environ(), "VERIF_SIM=solo", "GOMAXPROCS=2")
	cmd.Stdin = bytes.NewReader(q)
	out, err := cmd.Output()
	if err != nil {
		return "", fmt.Errorf("the process ends with %v", err)
	}
	i := bytes.IndexByte(out, 0)
	if i < 0 {
		return "", fmt.Errorf("no answer")
	}
	return string(out[i+1:]), nil
}

// confirm replays a file in a fresh process. violated: also when the process
// dies in the way the file says.
func confirm(f *replayFile, path string) (bool, string) {
	code, out := child("replay", 400*time.Second, nil, path)
	switch {
	case code == 1:
		var v chk.Violation
		for _, l := range strings.Split(out, "\n") {
			if json.Unmarshal([]byte(l), &v) == nil && v.Msg != "" {
				return true, v.Msg
			}
		}
		return true, f.Message
	case code == 0 || code == 98:
		return false, ""
	default:
		return f.Crash, crashReason(code, out)
	}
}

func crashReason(code int, out string) string {
	if code == 97 {
		return "does not end (more than a minute of processor time on one run)"
	}
	for _, l := range strings.Split(out, "\n") {
		if strings.Contains(l, "fatal error:") || strings.Contains(l, "stack exceeds") || strings.Contains(l, "panic:") {
			return fmt.Sprintf("takes the process down: %s", strings.TrimSpace(l))
		}
	}
	return fmt.Sprintf("takes the process down (status %d)", code)
}

func confirmFile(path string) int {
	f, err := readReplay(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ok, msg := confirm(f, path)
	if !ok {
		fmt.Printf("replay of %s: property %s held\n", path, f.Property)
		return 0
	}
	fmt.Println(msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
	return 1
}

type candidate struct {
	v     *chk.Violation
	crash bool
	batch int
}

func drive() int {
	start := time.Now()
	prop := os.Getenv("VERIF_PROP")
	tier := os.Getenv("VERIF_TIER")
	seed := envInt("VERIF_SEED", 1)
	evid := os.Getenv("VERIF_EVIDENCE")
	scratch := os.Getenv("VERIF_SCRATCH")
	nw := envInt("VERIF_WORKERS", 8)
	batches := envInt("VERIF_BATCHES", 400)
	trials := envInt("VERIF_TRIALS", 20)
	secs := envInt("VERIF_SECONDS", 60)
	deadline := start.Add(time.Duration(secs) * time.Second)
	if len(chk.Scenarios(prop)) == 0 {
		fmt.Fprintln(os.Stderr, "no such property:", prop)
		return 2
	}

	var mu sync.Mutex
	var cands []candidate
	total := chk.NewStats()
	states, inter := map[uint64]bool{}, map[uint64]bool{}
	crashes, restarts, infra := 0, 0, 0
	doneBatches := 0
	var stopAll int32

	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			from := w
			for tries := 0; from < batches && tries < 40; tries++ {
				cur := filepath.Join(scratch, fmt.Sprintf("cur%d", w))
				os.Remove(cur)
				cmd := exec.Command("/proc/self/exe")
				cmd.Env = append(os.Environ(), "VERIF_SIM=worker", fmt.Sprint("VERIF_FROM=", from), fmt.Sprint("VERIF_TO=", batches), fmt.Sprint("VERIF_STEP=", nw),
					fmt.Sprint("VERIF_TRIALS=", trials), fmt.Sprint("VERIF_DEADLINE=", deadline.UnixMilli()), "VERIF_CUR="+cur)
				var stderr bytes.Buffer
				cmd.Stderr = &stderr
				pipe, err := cmd.StdoutPipe()
				if err == nil {
					err = cmd.Start()
				}
				if err != nil {
					mu.Lock()
					infra++
					mu.Unlock()
					return
				}
				kill := time.AfterFunc(time.Until(deadline)+240*time.Second, func() { cmd.Process.Kill() })
				var lastStats *chk.Stats
				ended, hang := false, false
				sc := bufio.NewScanner(pipe)
				sc.Buffer(make([]byte, 1<<20), 256<<20)
				for sc.Scan() {
					var m message
					if json.Unmarshal(sc.Bytes(), &m) != nil {
						continue
					}
					if m.Stats != nil {
						lastStats = m.Stats
					}
					mu.Lock()
					for _, h := range m.States {
						states[h] = true
					}
					for _, h := range m.Inter {
						inter[h] = true
					}
					mu.Unlock()
					switch m.T {
					case "v":
						mu.Lock()
						cands = append(cands, candidate{m.V, false, m.Batch})
						mu.Unlock()
						atomic.StoreInt32(&stopAll, 1)
					case "end":
						ended = true
					case "hang":
						hang = true
					}
					if m.T == "stat" && atomic.LoadInt32(&stopAll) != 0 {
						ended = true
						cmd.Process.Kill()
					}
				}
				cmd.Wait()
				kill.Stop()
				mu.Lock()
				if lastStats != nil {
					addStats(total, lastStats)
				}
				mu.Unlock()
				if ended {
					break
				}
				// the worker died: what was it doing?
				mu.Lock()
				restarts++
				mu.Unlock()
				c := readCur(cur)
				if c == nil {
					mu.Lock()
					infra++
					mu.Unlock()
					fmt.Fprintln(os.Stderr, "worker failed:", cmd.ProcessState, tail(stderr.String()))
					return
				}
				from = c.Batch + nw
				msg := crashReason(cmd.ProcessState.ExitCode(), stderr.String())
				if hang {
					msg = crashReason(97, "")
				}
				if c.Phase == "setup" {
					mu.Lock()
					total.Skips["the undisturbed run "+msg]++
					mu.Unlock()
				} else {
					mu.Lock()
					crashes++
					cands = append(cands, candidate{&chk.Violation{Spec: c.Spec, Msg: msg, Sig: c.Spec.Scen + "/" + c.Spec.Kind + "/crash"}, true, c.Batch})
					mu.Unlock()
					atomic.StoreInt32(&stopAll, 1)
					break
				}
			}
		}(w)
	}
	wg.Wait()
	_ = doneBatches

	sort.SliceStable(cands, func(i, j int) bool { return cands[i].batch < cands[j].batch })
	known := loadKnown(os.Getenv("VERIF_KNOWN"), prop)
	unconfirmed := 0
	exit := 0
	var violations []interface{}
	knownSeen := map[string]bool{}
	repDir := filepath.Join(evid, "replays")
	os.MkdirAll(repDir, 0755)
	for n, c := range cands {
		if exit == 1 {
			break
		}
		path := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", prop, n))
		f := &replayFile{Property: prop, Message: c.v.Msg, Signature: c.v.Sig, Spec: c.v.Spec, Crash: c.crash, Seed: seed,
			Replay: "bash /verif/run.sh replay " + path}
		writeJSON(path, f)
		ok, msg := confirm(f, path)
		if !ok {
			unconfirmed++
			if os.Getenv("VERIF_KEEP") == "" {
				os.Remove(path)
			}
			continue
		}
		f.Message = msg
		if k := known.match(f); k != "" {
			knownSeen[k] = true
			os.Remove(path)
			continue
		}
		if !c.crash {
			// minimise; keep the result only if it reproduces exactly
			small := path + ".small"
			f.Original = f.Spec
			writeJSON(path, f)
			if code, _ := child("shrink", 120*time.Second, nil, path, small); code == 1 {
				if g, err := readReplay(small); err == nil {
					if ok, msg := confirm(g, small); ok {
						g.Message, g.Original = msg, f.Spec
						writeJSON(path, g)
						f = g
					}
				}
			}
			os.Remove(small)
		}
		writeJSON(path, f)
		fmt.Printf("%s: %s\n", prop, f.Message)
		b, _ := json.Marshal(f.Spec)
		fmt.Printf("  run: %s\n", trunc(string(b), 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		violations = append(violations, f)
		exit = 1
	}
	for k := range knownSeen {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	wall := time.Since(start).Seconds()
	if violations == nil {
		violations = []interface{}{}
	}
	if infra > 0 || total.Evals == 0 {
		fmt.Fprintf(os.Stderr, "%s: infrastructure trouble: %d workers failed, %d runs\n", prop, infra, total.Evals)
		if exit == 0 {
			exit = 3
		}
	}
	writeEvidence(evid, prop, tier, seed, total, states, inter, wall, violations, unconfirmed, crashes, restarts)
	fmt.Printf("%s %s: %d runs (%d processes, %d operations, %d distinct states, %d interleavings) in %.1f s; %d skipped, %d unconfirmed, %d of %d repeated runs diverged\n",
		prop, tier, total.Evals, total.Procs, total.Ops, len(states), len(inter), wall, sum(total.Skips), unconfirmed, total.Diverged, total.Twice)
	return exit
}

func tail(s string) string {
	if len(s) > 600 {
		return s[len(s)-600:]
	}
	return s
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func readCur(path string) *current {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return nil
	}
	n, err := strconv.Atoi(string(b[:8]))
	if err != nil || n+8 > len(b) {
		return nil
	}
	var c current
	if json.Unmarshal(b[8:8+n], &c) != nil {
		return nil
	}
	return &c
}

func addMap(a, b map[string]int) {
	for k, v := range b {
		a[k] += v
	}
}

func addStats(t, s *chk.Stats) {
	t.Evals += s.Evals
	t.Procs += s.Procs
	t.Ops += s.Ops
	t.Switches += s.Switches
	t.Twice += s.Twice
	t.Diverged += s.Diverged
	t.Draws += s.Draws
	t.Steps += s.Steps
	t.Samples = append(t.Samples, s.Samples...)
	addMap(t.Injected, s.Injected)
	addMap(t.Skips, s.Skips)
	addMap(t.Scen, s.Scen)
	addMap(t.Outcome, s.Outcome)
	addMap(t.Unsup, s.Unsup)
}

// ---- known findings

type knownList []struct{ sig, text string }

func loadKnown(path, prop string) knownList {
	var k knownList
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C05 sig=<signature> <what fails>
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "sig=") {
			k = append(k, struct{ sig, text string }{f[2][4:], f[3]})
		}
	}
	return k
}

func (k knownList) match(f *replayFile) string {
	for _, e := range k {
		if e.sig == f.Signature {
			return e.text
		}
	}
	return ""
}
