#!/usr/bin/env python3
"""Writes the build overlay of the simulator.

usage: mkoverlay.py OUTDIR   -> writes OUTDIR/overlay.json and the patched files

The overlay (go build -overlay) does four things, none of which touches /repo
or GOROOT on disk:
  * the standard library's system-call gate (syscall.Syscall / Syscall6) offers
    every call to the simulated kernel first; os.Exit goes to the simulator;
  * the random choices of the runtime's map implementation (iteration start,
    hash seed) come from the simulator while it is driving a task;
  * every function and loop iteration of the repository's code passes a step of
    the simulator (simk.Y): it counts steps and lets other tasks run;
  * the simulator's own packages appear inside the module as
    github.com/binzume/modelconv/zzverif/... and in cmd/modelconv.
"""
import json, os, subprocess, sys

out = os.path.abspath(sys.argv[1])
here = os.path.dirname(os.path.abspath(__file__))
repo = os.environ.get("VERIF_REPO", "/repo")
goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
os.makedirs(out, exist_ok=True)
repl = {}

def patch(rel, edits):
    src = os.path.join(goroot, "src", rel)
    s = open(src).read()
    for a, b in edits:
        if s.count(a) != 1:
            sys.exit("mkoverlay: %s: %d matches for %r" % (rel, s.count(a), a))
        s = s.replace(a, b)
    dst = os.path.join(out, rel.replace("/", "__"))
    open(dst, "w").write(s)
    repl[src] = dst

patch("syscall/syscall_linux.go", [
("""//go:uintptrkeepalive
//go:nosplit
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
""", """// SimHook, when set, is offered every system call first.
var SimHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1 uintptr, err Errno, handled bool)

// SimExit, when set, receives os.Exit.
var SimExit func(code int)

//go:uintptrescapes
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	if h := SimHook; h != nil {
		if r, e, ok := h(trap, a1, a2, a3, 0, 0, 0); ok {
			return r, 0, e
		}
	}
	return simRealSyscall(trap, a1, a2, a3)
}

//go:uintptrescapes
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	if h := SimHook; h != nil {
		if r, e, ok := h(trap, a1, a2, a3, a4, a5, a6); ok {
			return r, 0, e
		}
	}
	return simRealSyscall6(trap, a1, a2, a3, a4, a5, a6)
}

//go:uintptrkeepalive
//go:nosplit
func simRealSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
"""),
("""//go:uintptrkeepalive
//go:nosplit
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
""", """//go:uintptrkeepalive
//go:nosplit
func simRealSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
"""),
])

patch("os/proc.go", [
("	runtime_beforeExit(code)\n", "	if h := syscall.SimExit; h != nil {\n		h(code)\n	}\n	runtime_beforeExit(code)\n"),
])

patch("os/tempfile.go", [
("	return strconv.FormatUint(uint64(uint32(runtime_rand())), 10)\n",
 "	return strconv.FormatUint(uint64(uint32(runtime.SimRandName())), 10)\n"),
('	"internal/strconv"\n', '	"internal/strconv"\n	"runtime"\n'),
])

patch("runtime/runtime2.go", [
("	goid         uint64\n	schedlink ", "	goid         uint64\n	simTask      uint64 // simulated task, inherited by new goroutines\n	schedlink "),
])

patch("runtime/proc.go", [
("	newg.parentGoid = callergp.goid\n", "	newg.parentGoid = callergp.goid\n	newg.simTask = callergp.simTask\n	if newg.simTask != 0 {\n		newg.simTask |= 1 << 32\n	}\n"),
])

patch("runtime/rand.go", [
("""func maps_rand() uint64 {
	return rand()
}
""", """func maps_rand() uint64 {
	return SimRand()
}

// simRand holds the seeded source of each simulated task.
var simRand [64]struct {
	state uint64
	draws uint64
	names uint64
	sec   int64
	nsec  int64
	tick  int64
	clock uint64
	pid   int
}

// SimRand returns a number from the simulator's source when called on a
// goroutine of a simulated task, and from the runtime's own source otherwise.
//
//go:nosplit
func SimRand() uint64 {
	if t := getg().simTask; t != 0 {
		r := &simRand[t&63]
		r.draws++
		if r.state == 0 { // the all-zero schedule: every choice is 0
			return 0
		}
		r.state += 0x9e3779b97f4a7c15
		z := r.state
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	return rand()
}

// SimRandName is SimRand for the names of temporary files.
func SimRandName() uint64 {
	if t := getg().simTask; t != 0 {
		r := &simRand[t&63]
		r.names += 0x9e3779b97f4a7c15
		z := r.names
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	return rand()
}

// SimTask returns the simulated task of the calling goroutine (0: none).
func SimTask() uint64 { return getg().simTask }

// SimSetTask makes the calling goroutine, and those it starts, part of task t.
func SimSetTask(t uint64) { getg().simTask = t }

// SimSeed sets the random state of task t (0: every choice is 0) and that of
// its temporary names.
func SimSeed(t, state, names uint64) {
	r := &simRand[t&63]
	r.state, r.names, r.draws = state, names, 0
}

// SimSetClock sets the clock of task t: it starts at sec, and every look at it
// moves it by tick nanoseconds; jump: now and then it also leaps forwards or back.
func SimSetClock(t uint64, sec, tick int64, jump uint64, pid int) {
	r := &simRand[t&63]
	r.sec, r.nsec, r.tick, r.clock, r.pid = sec, 0, tick, jump, pid
}

// SimClock returns the time of the calling task.
func SimClock() (sec int64, nsec int32, ok bool) {
	t := getg().simTask
	if t == 0 {
		return 0, 0, false
	}
	r := &simRand[t&63]
	r.nsec += r.tick
	r.sec += r.nsec / 1e9
	r.nsec %= 1e9
	if r.clock != 0 {
		r.clock += 0x9e3779b97f4a7c15
		z := r.clock
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		z ^= z >> 31
		if z%4 == 0 {
			r.sec += int64((z>>8)%200000) - 100000
		}
	}
	return r.sec, int32(r.nsec), true
}

// SimPid is the process id of the calling task (0: not a task).
func SimPid() int {
	if t := getg().simTask; t != 0 {
		return simRand[t&63].pid
	}
	return 0
}

// SimDraws returns how many choices task t has drawn.
func SimDraws(t uint64) uint64 { return simRand[t&63].draws }
"""),
("""func bootstrapRand() uint64 {
	lock(&globalRand.lock)
""", """func bootstrapRand() uint64 {
	// fixed: hash keys are the same in every process of the simulator
	simBoot += 0x9e3779b97f4a7c15
	{
		z := simBoot
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	lock(&globalRand.lock)
"""),
("// bootstrapRandReseed reseeds", "var simBoot uint64 = 42\n\n// bootstrapRandReseed reseeds"),
])

patch("time/time.go", [
("""func Now() Time {
	sec, nsec, mono := runtimeNow()
""", """func Now() Time {
	if s, n, ok := runtime.SimClock(); ok {
		return Time{uint64(n), s + unixToInternal, Local}
	}
	sec, nsec, mono := runtimeNow()
"""),
("import (\n", "import (\n	\"runtime\"\n"),
])
for f in ("math/rand/rand.go", "math/rand/v2/rand.go"):
    patch(f, [("//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.SimRand\n")])
patch("internal/syscall/unix/getrandom.go", [
("	ret, supported := vgetrandom(p, uint32(flags))\n", """	if runtime.SimTask() != 0 {
		for i := range p {
			p[i] = byte(runtime.SimRandName() >> 24)
		}
		return len(p), nil
	}
	ret, supported := vgetrandom(p, uint32(flags))
"""),
("import (\n", "import (\n	\"runtime\"\n"),
])
patch("os/exec.go", [
("func Getpid() int { return syscall.Getpid() }", "func Getpid() int {\n	if p := runtime.SimPid(); p != 0 {\n		return p\n	}\n	return syscall.Getpid()\n}"),
])

# the repository's files, with a step of the simulator in every function and loop
env = dict(os.environ, GOFLAGS="", GOWORK="off")
tool = os.path.join(out, "instr")
subprocess.check_call(["go", "build", "-o", tool, "."], cwd=os.path.join(here, "instr"), env=env)
repl.update(json.loads(subprocess.check_output([tool, repo, out], text=True)))

# the simulator's own packages
src = os.path.join(here, "src")
for root, _, files in os.walk(src):
    for f in files:
        if f.endswith(".go"):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, src)
            if rel.startswith("cmd/"):
                repl[os.path.join(repo, "cmd/modelconv", f)] = p
            else:
                repl[os.path.join(repo, "zzverif", rel)] = p

json.dump({"Replace": repl}, open(os.path.join(out, "overlay.json"), "w"), indent=1)
