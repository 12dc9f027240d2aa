// Package vsched runs goroutines of the code under test one at a time under a controlled,
// seeded scheduler with virtual time. The instrumented library calls into it at every
// synchronisation, time and network operation and between statements.
package vsched

import (
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Thread is a goroutine under the scheduler's control.
type Thread struct {
	ID    int
	Name  string
	wake  chan struct{}
	ready func() bool // nil when runnable
	what  string      // what it is blocked on
	prio  int
	done  bool
	// Settling threads run only when nothing else can.
	settle   bool
	settleTo int64
}

// Timer is an entry of the virtual clock.
type Timer struct {
	At   int64
	seq  int
	F    func()
	dead bool
}

// Strategy selects how the next thread is chosen.
type Strategy struct {
	Kind     string  // "rand", "pct", "seq"
	Mean     float64 // rand: mean number of points between switches
	Depth    int     // pct: number of priority change points
	Length   int     // pct: estimated number of points
	OpWeight int     // points a synchronisation operation counts for
	Jump     float64 // probability, per switch, of letting a timer fire early
}

// Outcome describes how a run ended.
type Outcome struct {
	Kind    string // "ok", "deadlock", "hang", "panic"
	Detail  string
	Points  int
	Threads []string // threads alive at the end
}

type sched struct {
	rng      *rand.Rand
	st       Strategy
	threads  []*Thread
	cur      *Thread
	points   int
	budget   int
	fairAt   int
	next     int // point at which the scheduler acts
	changes  []int
	now      int64
	timers   []*Timer
	tseq     int
	outcome  *Outcome
	finished chan struct{}
	aborted  bool
	nextID   int
	lowPrio  int
	live     int
}

var s *sched

// Base is the virtual time at which every run starts.
var Base = time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC)

// Active reports whether a run is in progress.
func Active() bool { return s != nil && !s.aborted }

// Aborted reports whether the run is being torn down.
func Aborted() bool { return s != nil && s.aborted }

// Run executes main under the scheduler until it returns, everything blocks, a thread panics
// or the budget of scheduling points is used up.
func Run(seed int64, st Strategy, fairAt, budget int, main func()) Outcome {
	if st.OpWeight == 0 {
		st.OpWeight = 1
	}
	s = &sched{rng: rand.New(rand.NewSource(seed)), st: st, budget: budget, fairAt: fairAt, finished: make(chan struct{})}
	if st.Kind == "pct" {
		n := st.Length
		if n < 1 {
			n = 1
		}
		for i := 0; i < st.Depth; i++ {
			s.changes = append(s.changes, 1+s.rng.Intn(n))
		}
		sort.Ints(s.changes)
	}
	s.plan()
	t := s.spawn("main", func() {
		main()
		s.end("ok", "")
	})
	s.cur = t
	t.wake <- struct{}{}
	<-s.finished
	o := *s.outcome
	o.Points = s.points
	// tear down: wake every remaining thread so that it exits
	s.aborted = true
	for s.live > 0 {
		var t *Thread
		for _, x := range s.threads {
			if !x.done {
				t = x
				break
			}
		}
		if t == nil {
			break
		}
		s.finished = make(chan struct{})
		t.wake <- struct{}{}
		<-s.finished
	}
	s = nil
	return o
}

// plan decides the next point at which a switch is considered.
func (s *sched) plan() {
	switch {
	case s.points >= s.fairAt:
		s.next = s.points + 50
	case s.st.Kind == "rand":
		m := s.st.Mean
		if m < 1 {
			m = 1
		}
		s.next = s.points + 1 + int(s.rng.ExpFloat64()*m)
	case s.st.Kind == "pct":
		s.next = s.fairAt
		if len(s.changes) > 0 {
			s.next = s.changes[0]
			s.changes = s.changes[1:]
		}
	default:
		s.next = s.fairAt
	}
	if s.points < s.fairAt && s.next > s.fairAt {
		s.next = s.fairAt
	}
}

func (s *sched) spawn(name string, f func()) *Thread {
	t := &Thread{ID: s.nextID, Name: name, wake: make(chan struct{})}
	s.nextID++
	t.prio = 1000 + s.rng.Intn(1000000)
	s.threads = append(s.threads, t)
	s.live++
	go func() {
		<-t.wake
		defer func() {
			if s.aborted {
				t.done = true
				s.live--
				close(s.finished)
				return
			}
			t.done = true
			s.live--
			if s.outcome != nil {
				close(s.finished)
				return
			}
			s.remove(t)
			s.dispatch(nil)
		}()
		if s.aborted {
			return
		}
		defer func() {
			if s.aborted || s.outcome != nil {
				return
			}
			if r := recover(); r != nil {
				st := string(debug.Stack())
				s.outcome = &Outcome{Kind: "panic", Detail: fmt.Sprint(r) + "\n" + trimStack(st)}
			}
		}()
		f()
	}()
	return t
}

func trimStack(st string) string {
	var keep []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "goapi/sttp") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 12 {
		keep = keep[:12]
	}
	return strings.Join(keep, "\n")
}

func (s *sched) remove(t *Thread) {
	for i, x := range s.threads {
		if x == t {
			s.threads = append(s.threads[:i:i], s.threads[i+1:]...)
			return
		}
	}
}

// end finishes the run from the current thread.
func (s *sched) end(kind, detail string) {
	if s.outcome == nil {
		s.outcome = &Outcome{Kind: kind, Detail: detail}
		for _, t := range s.threads {
			if t != s.cur {
				s.outcome.Threads = append(s.outcome.Threads, t.Name+" ["+t.what+"]")
			}
		}
	}
	s.aborted = true
	runtime.Goexit()
}

// pick chooses the next thread to run, advancing virtual time when nothing is runnable.
// It returns nil when the run is over.
func (s *sched) pick(self *Thread) *Thread {
	for {
		var ready []*Thread
		selfReady := false
		for _, t := range s.threads {
			if t.done || t.settle {
				continue
			}
			if t.ready == nil || t.ready() {
				ready = append(ready, t)
				if t == self {
					selfReady = true
				}
			}
		}
		if len(ready) == 0 {
			// settle threads bound how far time may advance
			var st *Thread
			for _, t := range s.threads {
				if t.settle && (st == nil || t.settleTo < st.settleTo) {
					st = t
				}
			}
			tm := s.firstTimer()
			if tm != nil && (st == nil || tm.At <= st.settleTo) {
				s.fire(tm)
				continue
			}
			if st != nil {
				if st.settleTo > s.now {
					s.now = st.settleTo
				}
				st.settle = false
				return st
			}
			return nil
		}
		if s.st.Jump > 0 && s.points < s.fairAt && s.rng.Float64() < s.st.Jump {
			if tm := s.firstTimer(); tm != nil {
				s.fire(tm)
				continue
			}
		}
		if s.points >= s.fairAt {
			return ready[s.rng.Intn(len(ready))]
		}
		switch s.st.Kind {
		case "pct":
			best := ready[0]
			for _, t := range ready {
				if t.prio > best.prio {
					best = t
				}
			}
			return best
		case "seq":
			if selfReady {
				return self
			}
			return ready[0]
		default:
			return ready[s.rng.Intn(len(ready))]
		}
	}
}

// dispatch hands control to the next thread; self is nil when the caller is finished.
func (s *sched) dispatch(self *Thread) {
	t := s.pick(self)
	if t == nil {
		var bl []string
		for _, x := range s.threads {
			bl = append(bl, x.Name+" ["+x.what+"]")
		}
		s.outcome = &Outcome{Kind: "deadlock", Detail: strings.Join(bl, "; "), Threads: bl}
		if self == nil {
			close(s.finished)
			return
		}
		close(s.finished)
		<-self.wake
		runtime.Goexit()
	}
	t.ready = nil
	t.what = ""
	s.cur = t
	if t == self {
		return
	}
	if self == nil {
		t.wake <- struct{}{}
		return
	}
	t.wake <- struct{}{}
	<-self.wake
	if s.aborted {
		runtime.Goexit()
	}
}

func (s *sched) firstTimer() *Timer {
	var b *Timer
	k := 0
	for _, t := range s.timers {
		if t.dead {
			continue
		}
		s.timers[k] = t
		k++
		if b == nil || t.At < b.At || t.At == b.At && t.seq < b.seq {
			b = t
		}
	}
	s.timers = s.timers[:k]
	return b
}

func (s *sched) fire(t *Timer) {
	t.dead = true
	if t.At > s.now {
		s.now = t.At
	}
	t.F()
}

func (s *sched) point(weight int) {
	if s.aborted {
		return
	}
	s.points += weight
	if s.points < s.next {
		return
	}
	if s.points > s.budget {
		s.end("hang", "")
	}
	if s.st.Kind == "pct" && s.points < s.fairAt {
		s.lowPrio--
		s.cur.prio = s.lowPrio
	}
	s.plan()
	s.dispatch(s.cur)
}

// Y is a scheduling point between two statements.
func Y() {
	if s == nil || s.aborted {
		return
	}
	s.point(1)
}

// Op is a scheduling point before a synchronisation, time or network operation.
func Op() {
	if s == nil || s.aborted {
		return
	}
	s.point(s.st.OpWeight)
}

// Block waits until ready holds.
func Block(what string, ready func() bool) {
	if s == nil || s.aborted {
		return
	}
	if ready() {
		return
	}
	t := s.cur
	t.ready = ready
	t.what = what
	s.points++
	if s.points > s.budget {
		s.end("hang", "")
	}
	s.dispatch(t)
}

// Go starts a thread.
func Go(f func()) { GoNamed("goroutine", f) }

// GoNamed starts a thread with a name for reports.
func GoNamed(name string, f func()) {
	if s == nil {
		go f()
		return
	}
	if s.aborted {
		return
	}
	s.spawn(name, f)
	s.point(s.st.OpWeight)
}

// Settle lets all other threads run until none can, letting at most d of virtual time pass.
func Settle(d time.Duration) {
	if s == nil || s.aborted {
		return
	}
	t := s.cur
	t.settle = true
	t.settleTo = s.now + int64(d)
	t.ready = func() bool { return !t.settle }
	t.what = "settle"
	s.dispatch(t)
}

// Now is the virtual time since the start of the run.
func Now() int64 {
	if s == nil {
		return 0
	}
	return s.now
}

// AfterFunc arranges for f to be called by the scheduler at a later virtual time.
func AfterFunc(d time.Duration, f func()) *Timer {
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &Timer{At: s.now + int64(d), seq: s.tseq, F: f}
	s.timers = append(s.timers, t)
	return t
}

// Stop cancels the timer; it reports whether it was pending.
func (t *Timer) Stop() bool {
	p := !t.dead
	t.dead = true
	return p
}

// Rand gives the scenario access to the run's random source.
func Rand() *rand.Rand { return s.rng }

// CurName names the running thread.
func CurName() string {
	if s == nil || s.cur == nil {
		return ""
	}
	return s.cur.Name
}

// CurID identifies the running thread.
func CurID() int {
	if s == nil || s.cur == nil {
		return -1
	}
	return s.cur.ID
}

// SetName names the running thread.
func SetName(n string) { s.cur.Name = n }

// Threads lists the other live threads and what they wait for.
func Threads() []string {
	var r []string
	for _, t := range s.threads {
		if t != s.cur && !t.done {
			r = append(r, t.Name+" ["+t.what+"]")
		}
	}
	return r
}
