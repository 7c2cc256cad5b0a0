// Package simrt is the runtime of the simulation: instrumented code calls into it.
//
// Instrumented packages call Y before every statement and H before statements
// that touch shared state. Outside of a concurrent run these calls only count
// steps, which bounds the length of a run. In a concurrent run they are the
// points at which the simulator may take the processor away from a thread.
//
// Everything here assumes that one goroutine of the process runs at a time.
package simrt

import (
	"flag"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"sync/atomic"
	"testing"
	"testing/synctest"
)

// Steps counts yields of the current run.
var (
	steps    uint64 // all yields
	next     uint64 = math.MaxUint64
	hot      uint64 // yields at shared state
	nextHot  uint64 = math.MaxUint64
	limit    uint64 = math.MaxUint64
	sched    *Sched
	curTh    *Thread
	resets   []func()
	mapSeed  uint64
	Switches uint64 // preemptions of the current run
)

// Y is a possible preemption point.
func Y() {
	steps++
	if steps >= next {
		slow()
	}
}

// H is a possible preemption point in front of an access to shared state.
func H() {
	steps++
	hot++
	if steps >= next || hot >= nextHot {
		slow()
	}
}

// StepLimit is the panic value when a run exceeds its step budget.
type StepLimit struct{}

func (StepLimit) Error() string { return "step budget exceeded: no termination" }

// Killed is the panic value that unwinds threads of an aborted run.
type Killed struct{}

func slow() {
	if steps >= limit {
		panic(StepLimit{})
	}
	s := sched
	if s == nil {
		next = limit
		return
	}
	s.preempt()
}

// Begin starts a run: package state is reset and the step budget armed.
func Begin(seed uint64, budget uint64) {
	sched, curTh = nil, nil
	next, nextHot, limit = math.MaxUint64, math.MaxUint64, math.MaxUint64
	mapSeed = seed
	Reset()
	steps, hot, Switches = 0, 0, 0
	outside.Store(false)
	limit = budget
	next = budget
}

// Reset puts package state back to what it is at the start of a process.
func Reset() {
	// Commands define their flags when they are initialised.
	flag.CommandLine = flag.NewFlagSet("sim", flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)
	for _, r := range resets {
		r()
	}
}

// Rearm gives the current run a fresh step budget.
func Rearm(budget uint64) {
	limit = steps + budget
	if sched == nil {
		next = limit
	}
}

// Counters returns the yields and hot yields of the run.
func Counters() (uint64, uint64) { return steps, hot }

// OnReset registers a package state reset. Packages register in dependency order.
func OnReset(f func()) { resets = append(resets, f) }

// Instrumented reports whether any instrumented package is linked in.
func Instrumented() bool { return len(resets) > 0 }

// Zero sets the variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Thread is a simulated caller.
type Thread struct {
	ID     int
	prio   int
	resume chan struct{}
	state  int
	waitOn interface{}
	Err    interface{} // panic value
}

const (
	stReady = iota
	stWait  // in a simulated lock
	stDone
	stOutside // blocked in an operation the simulator does not own
)

// Plan decides every scheduling choice of a concurrent run.
type Plan struct {
	Prio   []int    `json:"prio,omitempty"`   // start priorities of threads
	Points []uint64 `json:"points,omitempty"` // yields at which the running thread falls to the lowest priority
	Hot    []uint64 `json:"hot,omitempty"`    // the same, counting only yields at shared state
}

// Sched runs threads one at a time.
type Sched struct {
	plan    *Plan
	pi, hi  int
	threads []*Thread
	lowest  int
	kill    bool
	trace   uint64
	Events  []uint32 // (thread<<8 | kind)
}

func (s *Sched) arm() {
	next = limit
	if s.pi < len(s.plan.Points) && s.plan.Points[s.pi] < next {
		next = s.plan.Points[s.pi]
	}
	nextHot = math.MaxUint64
	if s.hi < len(s.plan.Hot) {
		nextHot = s.plan.Hot[s.hi]
	}
}

func (s *Sched) preempt() {
	t := curTh
	if s.kill {
		panic(Killed{})
	}
	for s.pi < len(s.plan.Points) && s.plan.Points[s.pi] <= steps {
		s.pi++
	}
	for s.hi < len(s.plan.Hot) && s.plan.Hot[s.hi] <= hot {
		s.hi++
	}
	s.arm()
	if t == nil {
		return
	}
	s.lowest--
	t.prio = s.lowest
	Switches++
	t.state = stReady
	s.park(t)
}

func (s *Sched) park(t *Thread) {
	raceOff()
	<-t.resume
	raceOn()
	if s.kill {
		panic(Killed{})
	}
}

// Block parks the current thread until Unblock is called for the object.
// It returns false when no simulated thread is running.
func Block(on interface{}) bool {
	s, t := sched, curTh
	if s == nil || t == nil {
		return false
	}
	t.state = stWait
	t.waitOn = on
	s.park(t)
	return true
}

// Unblock makes the threads waiting for the object ready.
func Unblock(on interface{}) {
	if sched == nil {
		return
	}
	for _, t := range sched.threads {
		if t.state == stWait && t.waitOn == on {
			t.state = stReady
			t.waitOn = nil
		}
	}
}

// Active reports whether a simulated thread is running.
func Active() bool { return sched != nil && curTh != nil }

// outside is set once goroutines run that the simulator does not own.
var outside atomic.Bool

// SelfDeadlock is the panic value of a lone caller that waits for itself.
type SelfDeadlock struct{}

func (SelfDeadlock) Error() string { return "caller blocks forever on a lock nobody will release" }

// Wedge is called when a lock is taken outside of a concurrent run. If there is
// no other goroutine, nobody is left to release it.
func Wedge() {
	if !outside.Load() {
		panic(SelfDeadlock{})
	}
}

// Go starts a goroutine: a new thread in a concurrent run.
func Go(f func()) {
	if sched == nil {
		outside.Store(true)
		go f()
		return
	}
	if sched.kill {
		return
	}
	sched.spawn(f)
}

// ChanEnter is called in front of channel operations.
func ChanEnter() *Thread {
	Y()
	return curTh
}

// ChanExit is called behind channel operations. If another thread took over
// in the meantime, the caller waits for its turn.
func ChanExit(t *Thread) {
	s := sched
	if s == nil || t == nil {
		return
	}
	if s.kill {
		panic(Killed{})
	}
	if curTh == t {
		return
	}
	t.state = stReady
	s.park(t)
}

func (s *Sched) spawn(f func()) {
	t := &Thread{ID: len(s.threads), resume: make(chan struct{})}
	if t.ID < len(s.plan.Prio) {
		t.prio = s.plan.Prio[t.ID]
	} else {
		t.prio = -t.ID
	}
	s.threads = append(s.threads, t)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(Killed); !ok {
					t.Err = r
				}
			}
			Release(s)
			t.state = stDone
		}()
		s.park(t)
		f()
	}()
}

// Result of a concurrent run.
type Result struct {
	Deadlock bool
	Stuck    bool // goroutines remain that the simulator cannot unwind
	Panics   []interface{}
	Steps    uint64
	Hot      uint64
	Switches uint64
	Events   []uint32
}

// RunThreads runs the functions as simulated threads under the plan.
// onStep, if not nil, is called by the scheduler whenever no thread runs.
func RunThreads(tt *testing.T, plan *Plan, fns []func()) (res Result) {
	synctest.Test(tt, func(*testing.T) {
		s := &Sched{plan: plan}
		for _, f := range fns {
			s.spawn(f)
		}
		lo := 0
		for _, t := range s.threads {
			if t.prio < lo {
				lo = t.prio
			}
		}
		s.lowest = lo
		sched = s
		s.arm()
		synctest.Wait()
		for {
			var best *Thread
			undone := 0
			for _, t := range s.threads {
				if t.state != stDone {
					undone++
				}
				if t.state == stReady && (best == nil || t.prio > best.prio) {
					best = t
				}
			}
			if undone == 0 {
				break
			}
			if best == nil {
				res.Deadlock = true
				break
			}
			best.state = stOutside
			curTh = best
			s.Events = append(s.Events, uint32(best.ID))
			raceOff()
			best.resume <- struct{}{}
			raceOn()
			synctest.Wait()
			curTh = nil
		}
		Acquire(s)
		for _, t := range s.threads {
			res.Panics = append(res.Panics, t.Err)
		}
		res.Steps, res.Hot, res.Switches, res.Events = steps, hot, Switches, s.Events
		if res.Deadlock {
			s.kill = true
			for _, t := range s.threads {
				if t.state == stWait || t.state == stReady {
					t.resume <- struct{}{}
					synctest.Wait()
				}
			}
			for _, t := range s.threads {
				if t.state != stDone {
					res.Stuck = true
				}
			}
		}
		sched, curTh = nil, nil
		next, nextHot = limit, math.MaxUint64
		if res.Stuck {
			panic(stuckPanic{&res})
		}
	})
	return
}

type stuckPanic struct{ r *Result }

func (s stuckPanic) Error() string { return "deadlock outside of simulated locks" }

// Entry is a map entry visited in simulated order.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

// Live reports whether the entry is still in the map.
func (e Entry[K, V]) Live() bool {
	_, ok := e.m[e.K]
	return ok
}

// Val returns the current value.
func (e Entry[K, V]) Val() V { return e.m[e.K] }

// Entries lists map entries in an order decided by the run's seed.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	out := make([]Entry[K, V], 0, len(m))
	for k := range m {
		out = append(out, Entry[K, V]{k, m})
	}
	sort.Slice(out, func(i, j int) bool { return less(out[i].K, out[j].K) })
	for i := len(out) - 1; i > 0; i-- {
		j := pick(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// pick draws from the seed of the map orders.
func pick(n int) int {
	mapSeed += 0x9e3779b97f4a7c15
	z := mapSeed
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	z ^= z >> 31
	return int(z % uint64(n))
}

func less(a, b interface{}) bool {
	switch x := a.(type) {
	case string:
		return x < b.(string)
	case [20]byte:
		y := b.([20]byte)
		return string(x[:]) < string(y[:])
	case int:
		return x < b.(int)
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.CanUint() && vb.CanUint() {
		return va.Uint() < vb.Uint()
	}
	if va.CanInt() && vb.CanInt() {
		return va.Int() < vb.Int()
	}
	return fmt.Sprintf("%#v", a) < fmt.Sprintf("%#v", b)
}
