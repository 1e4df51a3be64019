//go:build go1.22

package simk

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
)

// Sched runs several tasks one at a time. Which one continues at each yield
// point is decided by a seeded generator, or by a recorded list of choices.
type Sched struct {
	Seed uint64
	// Choices, when not nil, is replayed: at the i-th yield point task
	// Choices[i] (modulo the number of runnable tasks) continues; if that is
	// negative, and after the end of the list, the running task simply continues.
	Choices []int
	Replay  bool
	// Stay is the percentage of yield points at which the running task continues.
	Stay int

	Trace    []int // the choices that were made
	Switches int
	Stuck    bool
	hash     uint64
	rng      uint64
	tasks    []*schedTask
	cur      *schedTask
	free     bool
	done     chan *schedTask
	lastMove time.Time
}

type schedTask struct {
	p      *Proc
	resume chan bool
	ended  bool
}

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (s *Sched) next() uint64 {
	s.rng += 0x9e3779b97f4a7c15
	return mix64(s.rng)
}

// gap is the number of steps that the running task may do before the next
// decision. It depends on the seed and the number of decisions so far only.
func (s *Sched) gap() uint64 {
	if s.Replay && len(s.Trace) >= len(s.Choices) {
		return 1 << 62
	}
	h := mix64(s.Seed ^ 0x5151 ^ uint64(len(s.Trace))*0x9e3779b97f4a7c15)
	e := h % 15
	if s.Seed%3 == 0 { // a patient one
		e += 3
	}
	return 1 + (h>>8)%(1<<e)
}

// Hash identifies the interleaving.
func (s *Sched) Hash() uint64 { return s.hash }

func (s *Sched) runnable() []*schedTask {
	var r []*schedTask
	for _, t := range s.tasks {
		if !t.ended {
			r = append(r, t)
		}
	}
	return r
}

// pick chooses who runs next.
func (s *Sched) pick() *schedTask {
	r := s.runnable()
	if len(r) == 0 {
		return nil
	}
	i := 0
	if s.Replay {
		if n := len(s.Trace); n < len(s.Choices) && s.Choices[n] >= 0 {
			i = s.Choices[n] % len(r)
		} else {
			for k, t := range r {
				if t == s.cur {
					i = k
				}
			}
		}
	} else if s.cur != nil && !s.cur.ended && int(s.next()%100) < s.Stay {
		for k, t := range r {
			if t == s.cur {
				i = k
			}
		}
	} else {
		i = int(s.next() % uint64(len(r)))
	}
	s.Trace = append(s.Trace, i)
	if r[i] != s.cur {
		s.Switches++
		s.hash = mix64(s.hash ^ uint64(len(s.Trace))<<8 ^ r[i].p.ID)
	}
	return r[i]
}

// Yield lets another task run.
func (s *Sched) Yield(p *Proc) {
	if s.free || p.dead || s.cur == nil || s.cur.p != p {
		return
	}
	me := s.cur
	s.lastMove = time.Now()
	n := s.pick()
	if n == me {
		return
	}
	s.cur = n
	n.resume <- true
	<-me.resume
}

// Run starts one goroutine per function and returns when all have ended.
func (s *Sched) Run(ps []*Proc, fns []func()) {
	s.rng = s.Seed
	s.done = make(chan *schedTask, len(ps)+1)
	for i, p := range ps {
		p.Sched = s
		t := &schedTask{p: p, resume: make(chan bool, 4)}
		s.tasks = append(s.tasks, t)
		fn := fns[i]
		go func() {
			<-t.resume
			<-p.start(fn)
			s.done <- t
		}()
	}
	s.lastMove = time.Now()
	s.cur = s.pick()
	s.cur.resume <- true
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for n := 0; n < len(ps); {
		select {
		case t := <-s.done:
			n++
			t.ended = true
			if !s.free {
				if c := s.pick(); c != nil {
					s.cur = c
					c.resume <- true
				}
			}
		case <-tick.C:
			// A task that waits for something a parked task holds (a lock of the
			// program): let everybody run, and do not judge this run.
			if !s.free && time.Since(s.lastMove) > 5*time.Second && s.Stuck == false && allBlocked() {
				s.Stuck = true
				s.free = true
				for _, t := range s.tasks {
					if t != s.cur && !t.ended {
						t.resume <- true
					}
				}
			}
		}
	}
}

// allBlocked reports whether no task goroutine is executing.
func allBlocked() bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		head := strings.SplitN(g, "\n", 2)[0]
		if (strings.Contains(head, "[running") || strings.Contains(head, "[runnable")) && strings.Contains(g, "simk.(*Proc).start") {
			return false
		}
	}
	return true
}

// NewProc returns a process on disk d. id must be in 1..63.
func NewProc(id uint64, d *Disk) *Proc {
	return &Proc{ID: id, Disk: d, Cwd: "/work", MaxOps: 5000000,
		Injected: map[string]int{}, Unsupported: map[string]int{}, fds: map[int]*handle{},
		sticky: map[string]syscall.Errno{}, nth: map[string]int{}, extraMut: map[string]bool{}, NameSeed: 7}
}

// start runs fn as the process on a new goroutine.
func (p *Proc) start(fn func()) chan bool {
	if p.Chunk != nil {
		p.crng = p.Chunk.Seed
	}
	done := make(chan bool, 1)
	go func() {
		defer func() {
			runtime.SimSetTask(0)
			procs[p.ID&63] = nil
			p.Draws = runtime.SimDraws(p.ID)
			done <- true
		}()
		defer func() {
			if r := recover(); r != nil {
				runtime.SimSetTask(0)
				p.dead = true
				if !p.Exited && !p.Crashed {
					p.Panic = fmt.Sprint(r)
					p.Stack = string(debug.Stack())
					p.Exited, p.ExitCode = true, 2
				}
			}
		}()
		procs[p.ID&63] = p
		runtime.SimSeed(p.ID, p.MapSeed, p.NameSeed)
		runtime.SimSetClock(p.ID, 1700000000+p.ClockSkew, 1000003, p.ClockJump, int(1000+p.NameSeed%30000))
		p.nextStop()
		runtime.SimSetTask(p.ID)
		fn()
		runtime.SimSetTask(0)
		p.Exited = true
	}()
	return done
}

// Run executes fn as the process and returns when it has ended.
func (p *Proc) Run(fn func()) { <-p.start(fn) }
