package core

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"testing/synctest"
	"time"
)

// Task is one simulated caller.
type Task struct {
	ID     int
	Name   string
	resume chan struct{}
	parked bool
	done   bool
	point  string
	cond   func() bool
	timed  bool
	// Op is scenario data of the call the task is in; the engine attributes
	// what it executes to it.
	Op   any
	goid uint64
}

type waiter struct {
	try func() bool
	ch  chan struct{}
}

// Sim schedules the tasks of one simulated run.
type Sim struct {
	D        *Decider
	Tasks    []*Task
	cur      *Task
	aborting bool
	Steps    int
	MaxSteps int
	Log      []string
	KeepLog  bool
	hash     uint64
	Hung     string
	Events   int
	start    time.Time
	// Points counts the decisions where more than one task could run.
	Contended int
	shape     uint64
	// Serial keeps the running task running until it finishes.
	Serial  bool
	running bool
	waiters []*waiter
}

// Lock waits for a mutex on behalf of whoever asks: a task gives way to the
// scheduler, any other goroutine of the run is woken between steps.
func (s *Sim) Lock(try func() bool) {
	if s.running && !s.aborting && s.cur != nil && s.cur.goid == runtime.SimGoid() {
		got := false
		s.Block("mutex", func() bool {
			if !got {
				got = try()
			}
			return got
		})
		return
	}
	if s.running {
		w := &waiter{try, make(chan struct{})}
		s.waiters = append(s.waiters, w)
		<-w.ch
		return
	}
	for !try() {
		time.Sleep(time.Microsecond)
	}
}

// wake lets goroutines go on whose lock is free now.
func (s *Sim) wake() bool {
	for i, w := range s.waiters {
		if w.try() {
			s.waiters = append(s.waiters[:i:i], s.waiters[i+1:]...)
			close(w.ch)
			return true
		}
	}
	return false
}

// Abort is panicked in parked tasks when a run is given up.
type Abort struct{}

func NewSim(d *Decider) *Sim {
	return &Sim{D: d, MaxSteps: 20000, start: time.Now(), hash: 14695981039346656037, shape: 14695981039346656037}
}

// Logf appends to the event log, whose hash identifies the execution.
func (s *Sim) Logf(format string, a ...any) {
	line := fmt.Sprintf(format, a...)
	h := fnv.New64a()
	h.Write([]byte(line))
	s.hash = (s.hash ^ h.Sum64()) * 1099511628211
	s.Events++
	if s.KeepLog {
		s.Log = append(s.Log, line)
	}
}

func (s *Sim) Hash() uint64  { return s.hash }
func (s *Sim) Shape() uint64 { return s.shape }

// Mark folds a word into the interleaving shape (which task stepped at which
// kind of point), the measure used to count distinct interleavings.
func (s *Sim) Mark(w string) {
	h := fnv.New64a()
	h.Write([]byte(w))
	s.shape = (s.shape ^ h.Sum64()) * 1099511628211
}

func (s *Sim) Cur() *Task             { return s.cur }
func (s *Sim) Elapsed() time.Duration { return time.Since(s.start) }
func (s *Sim) Aborting() bool         { return s.aborting }

// Go adds a task; it starts when first scheduled.
func (s *Sim) Go(name string, fn func(t *Task)) *Task {
	t := &Task{ID: len(s.Tasks), Name: name, resume: make(chan struct{}), parked: true, point: "start"}
	s.Tasks = append(s.Tasks, t)
	go func() {
		t.goid = runtime.SimGoid()
		<-t.resume
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(Abort); !ok {
					s.Hung = fmt.Sprintf("task %s panicked outside an operation: %v\n%s", t.Name, r, debug.Stack())
				}
			}
			t.done = true
		}()
		if s.aborting {
			return
		}
		fn(t)
	}()
	return t
}

// Yield parks the running task and lets the scheduler choose who goes on.
func (s *Sim) Yield(point string) { s.Block(point, nil) }

// Timed parks the running task until cond holds, which depends on the clock.
func (s *Sim) Timed(point string, cond func() bool) {
	if t := s.cur; t != nil {
		t.timed = true
		defer func() { t.timed = false }()
	}
	s.Block(point, cond)
}

// Block parks the running task until cond holds (nil: at once).
func (s *Sim) Block(point string, cond func() bool) {
	t := s.cur
	if t == nil || s.aborting {
		if s.aborting {
			panic(Abort{})
		}
		return
	}
	t.point, t.cond, t.parked = point, cond, true
	<-t.resume
	if s.aborting {
		panic(Abort{})
	}
}

// Run executes until every task is done; it returns false if the run could not
// make progress within the step and (simulated) time bound.
func (s *Sim) Run() bool {
	var last *Task
	idle := 0
	s.running = true
	defer func() { s.running = false }()
	for {
		synctest.Wait()
		if s.wake() {
			continue
		}
		if s.Hung != "" {
			s.abort()
			return false
		}
		var ready []*Task
		alive := 0
		for _, t := range s.Tasks {
			if t.done {
				continue
			}
			alive++
			if t.parked && (t.cond == nil || t.cond()) {
				ready = append(ready, t)
			}
		}
		if alive == 0 {
			s.cur = nil
			return true
		}
		if len(ready) == 0 {
			// Somebody waits for time (or for ever).
			idle++
			if idle > 400 {
				s.Hung = "no task can make progress"
				for _, t := range s.Tasks {
					if !t.done {
						s.Hung += fmt.Sprintf("; %s at %s (parked=%v)", t.Name, t.point, t.parked)
					}
				}
				s.abort()
				return false
			}
			time.Sleep(250 * time.Millisecond)
			continue
		}
		idle = 0
		timed := false
		for _, t := range s.Tasks {
			timed = timed || t.timed && !t.done && !(t.cond == nil || t.cond())
		}
		if timed && !s.Serial && s.D.P(1, 8, "tick") {
			time.Sleep(250 * time.Millisecond)
			continue
		}
		s.Steps++
		if s.Steps > s.MaxSteps {
			s.Hung = "step bound exceeded"
			s.abort()
			return false
		}
		var t *Task
		if len(ready) == 1 {
			t = ready[0]
		} else {
			s.Contended++
			// Order so that 0 means "keep running the same task".
			if last != nil {
				for i := range ready {
					if ready[i] == last {
						copy(ready[1:i+1], ready[:i])
						ready[0] = last
						break
					}
				}
			}
			if s.Serial {
				t = ready[0]
			} else {
				t = ready[s.D.N(len(ready), "sched")]
			}
		}
		last = t
		s.cur = t
		t.parked, t.cond = false, nil
		s.Mark(fmt.Sprintf("%d@%s", t.ID, t.point))
		t.resume <- struct{}{}
	}
}

func (s *Sim) abort() {
	s.aborting = true
	for _, t := range s.Tasks {
		if !t.done && t.parked {
			t.parked = false
			t.resume <- struct{}{}
		}
	}
	for i := 0; i < 1000; i++ {
		synctest.Wait()
		if !s.wake() {
			break
		}
	}
}
