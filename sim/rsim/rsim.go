// Package rsim is the runtime of the deterministic simulator. The instrumented
// copy of the library under test calls it at every statement (Y), in the middle
// of every read-modify-write of shared memory (Set), and for every lock, atomic
// and finalizer operation. Exactly one simulated thread runs at any time; which
// one is decided only by Resume calls made by the harness, so an execution is a
// pure function of the harness' decisions.
package rsim

import (
	"fmt"
	"runtime"
)

// left/hleft count down to the next scheduling decision of the running thread:
// left over all yield points, hleft over the hot ones (lock operations, atomics,
// the gap of a read-modify-write).
var left, hleft int64 = 1 << 60, 1 << 60

// Yields is the total number of yield points executed so far, up to the last
// accounting point (see Steps).
var acct int64
var lastLeft int64 = 1 << 60

// Y is an ordinary yield point.
func Y() {
	left--
	if left < 0 {
		slow(false)
	}
}

// H is a hot yield point.
func H() {
	hleft--
	left--
	if left < 0 || hleft < 0 {
		slow(true)
	}
}

// Set stores v in *p. The value was computed before the call, so that another
// thread may run between the read and the write of a read-modify-write.
func Set[T any](p *T, v T) {
	H()
	*p = v
}

// Status is the reason why Resume returned.
type Status int

const (
	Exhausted Status = iota // the step budget is used up
	Done                    // the thread finished its job
	Blocked                 // the thread waits for a lock
)

// Thread is a simulated thread.
type Thread struct {
	Name     string
	tid      int
	wake     chan struct{}
	resumer  *Thread
	left     int64
	hleft    int64
	budget   int64 // remaining steps granted by the resumer, when preemptible
	job      func()
	active   bool // on the chain of resumed threads
	idle     bool // no job
	blocked  func() bool
	status   Status
	Panic    interface{}
	PanicStk string
	// OnEvent is called when the countdown set with SetNext expires
	OnEvent func(firedN, firedH bool)
	nextEv  int64 // yields left until OnEvent, <0: none
	nextHot int64
	dead    bool
	exited  chan struct{}
}

const never = int64(1) << 60

// Root is the thread of the harness itself.
var Root = &Thread{Name: "root", wake: make(chan struct{}), active: true, budget: never, nextEv: never, nextHot: never}
var cur = Root

// stepLimit bounds the number of yield points of one bounded section (an
// operation); exceeding it calls OnStepLimit.
var stepLeft int64 = never
var OnStepLimit func()

// OnDeadlock is called when no thread can make progress. It must panic.
var OnDeadlock func(what string)

// InSim is true while the harness runs a case.
var InSim bool

// Cur returns the running thread.
func Cur() *Thread { return cur }

// settle transfers the consumed steps of the countdowns to the bookkeeping of
// the running thread. After it, left and hleft must be re-armed.
var armedLeft, armedHot int64 = 1 << 60, 1 << 60

func settle() {
	used := armedLeft - left
	usedHot := armedHot - hleft
	armedLeft, armedHot = left, hleft
	acct += used
	cur.budget -= used
	if cur.nextEv < never {
		cur.nextEv -= used
	}
	if cur.nextHot < never {
		cur.nextHot -= usedHot
	}
	if stepLeft < never {
		stepLeft -= used
	}
}

func arm() {
	l := cur.budget
	if cur.nextEv < l {
		l = cur.nextEv
	}
	if stepLeft < l {
		l = stepLeft
	}
	if l < 0 {
		l = 0
	}
	h := cur.nextHot
	if h < 0 {
		h = 0
	}
	left, hleft = l, h
	armedLeft, armedHot = left, hleft
}

// Steps returns the number of yield points executed since the process started.
func Steps() int64 {
	settle()
	arm()
	return acct
}

// SetStepLimit bounds the number of yield points until the next call.
func SetStepLimit(n int64) {
	settle()
	if n <= 0 {
		stepLeft = never
	} else {
		stepLeft = n
	}
	arm()
}

// ArmN asks for OnEvent to be called on the running thread after n more yield
// points; a negative value means never.
func ArmN(n int64) {
	settle()
	cur.nextEv = never
	if n >= 0 {
		cur.nextEv = n
	}
	arm()
}

// ArmH is ArmN for hot yield points.
func ArmH(n int64) {
	settle()
	cur.nextHot = never
	if n >= 0 {
		cur.nextHot = n
	}
	arm()
}

// Saved is the state of the event countdowns of a thread.
type Saved struct{ n, h int64 }

// SaveEv disarms the countdowns of the running thread and returns them.
func SaveEv() Saved {
	settle()
	s := Saved{cur.nextEv, cur.nextHot}
	cur.nextEv, cur.nextHot = never, never
	arm()
	return s
}

// RestoreEv re-arms saved countdowns.
func RestoreEv(s Saved) {
	settle()
	cur.nextEv, cur.nextHot = s.n, s.h
	arm()
}

func slow(hot bool) {
	if killing {
		left, hleft = never, never
		return
	}
	settle()
	if stepLeft < 0 {
		stepLeft = never
		arm()
		if OnStepLimit != nil {
			OnStepLimit()
		}
		return
	}
	if fn, fh := cur.nextEv < 0, cur.nextHot < 0; fn || fh {
		if fn {
			cur.nextEv = never
		}
		if fh {
			cur.nextHot = never
		}
		if cur.OnEvent != nil {
			arm()
			cur.OnEvent(fn, fh)
			settle()
		}
	}
	if cur.budget < 0 && cur != Root {
		arm() // consistent state for whoever runs next
		cur.yield(Exhausted)
		settle()
	}
	arm()
}

// NewThread creates a thread without a job.
func NewThread(name string) *Thread {
	t := &Thread{Name: name, wake: make(chan struct{}), exited: make(chan struct{}), idle: true, nextEv: never, nextHot: never}
	if t.tid = ntid; ntid >= maxTid {
		t.tid = maxTid - 1
	}
	ntid++
	go t.loop()
	return t
}

func (t *Thread) loop() {
	defer close(t.exited)
	for {
		<-t.wake
		if t.dead {
			return
		}
		t.run()
		t.idle = true
		t.job = nil
		t.yieldDone()
	}
}

func (t *Thread) run() {
	defer func() {
		if r := recover(); r != nil {
			t.Panic = r
			buf := make([]byte, 16384)
			t.PanicStk = string(buf[:runtime.Stack(buf, false)])
		}
	}()
	t.job()
}

func (t *Thread) yieldDone() {
	settle()
	t.status = Done
	r := t.resumer
	t.active = false
	cur = r
	r.wake <- struct{}{}
}

// yield gives control back to the resumer, and returns when resumed.
func (t *Thread) yield(s Status) {
	t.status = s
	r := t.resumer
	t.active = false
	cur = r
	r.wake <- struct{}{}
	<-t.wake
	if t.dead {
		runtime.Goexit()
	}
}

// killing is true while a suspended thread is being unwound: its deferred calls
// run without any scheduling.
var killing bool

// Kill ends a suspended thread for good. It must be called from Root.
func (t *Thread) Kill() {
	if t == Root || t.active || t.dead {
		return
	}
	settle()
	t.dead = true
	killing = true
	cur = t
	left, hleft = never, never
	t.wake <- struct{}{}
	<-t.exited
	killing = false
	cur = Root
	armedLeft, armedHot = left, hleft
	arm()
}

// Reset puts Root back in its initial state, between two cases.
func Reset() {
	settle()
	cur = Root
	Root.active = true
	Root.budget, Root.nextEv, Root.nextHot = never, never, never
	Root.OnEvent = nil
	stepLeft = never
	Helpers = nil
	chans = nil
	resetRace()
	arm()
}

// Start gives a job to an idle thread; it runs at the next Resume.
func (t *Thread) Start(job func()) {
	if !t.idle {
		panic("rsim: Start on a busy thread")
	}
	t.job = job
	t.idle = false
	t.Panic = nil
}

// Idle tells whether the thread has no job.
func (t *Thread) Idle() bool { return t.idle }

// Blocked tells whether the thread waits for something that did not happen yet.
func (t *Thread) Blocked() bool { return t.blocked != nil && !t.blocked() }

// Active tells whether the thread is running or waiting for a thread it resumed.
func (t *Thread) Active() bool { return t.active }

// Resume runs thread t for at most budget yield points (0: unlimited) on behalf
// of the running thread.
func Resume(t *Thread, budget int64) Status {
	if t.active || t.idle || t.dead {
		panic("rsim: Resume on a thread that cannot run")
	}
	if t.blocked != nil && !t.blocked() {
		return Blocked
	}
	settle()
	me := cur
	if budget <= 0 {
		budget = never
	}
	t.budget = budget
	t.resumer = me
	t.active = true
	cur = t
	arm()
	t.wake <- struct{}{}
	<-me.wake
	// cur == me again
	armedLeft, armedHot = left, hleft
	arm()
	if t.status == Done && t.Panic != nil {
		p := t.Panic
		t.Panic = nil
		panic(&ThreadPanic{t.Name, p, t.PanicStk})
	}
	return t.status
}

// ThreadPanic wraps a panic raised in another thread.
type ThreadPanic struct {
	Thread string
	Val    interface{}
	Stk    string
}

// PanicStack is the stack of the panic.
func (p *ThreadPanic) PanicStack() string { return p.Stk }

func (p *ThreadPanic) Error() string { return fmt.Sprintf("panic in thread %s: %v", p.Thread, p.Val) }

// Helpers are the threads that a blocked thread may run to get unblocked.
var Helpers []*Thread

// Counters of what happened, for the evidence.
var NBlocked, NLockOps, NAtomics int64

// waitFor suspends the running thread until ok holds.
func waitFor(what string, ok func() bool) {
	for !ok() {
		if killing {
			return
		}
		NBlocked++
		me := cur
		progress := false
		for _, h := range Helpers {
			if h.active || h.idle || h.dead {
				continue
			}
			if Resume(h, 25) != Blocked || ok() {
				progress = true
				break
			}
		}
		if progress {
			continue
		}
		if me == Root || me.resumer == nil {
			OnDeadlock(what)
			panic("rsim: deadlock: " + what)
		}
		me.blocked = ok
		settle()
		arm()
		me.yield(Blocked)
		settle()
		arm()
		me.blocked = nil
	}
}

// RW is a simulated reader/writer lock with the semantics of sync.RWMutex: not
// reentrant, and a waiting writer blocks new readers.
type RW struct {
	w       bool
	readers int
	pending []*int
	wv, rv  SyncVar
}

func (m *RW) Lock() {
	NLockOps++
	H()
	tok := new(int)
	m.pending = append(m.pending, tok)
	waitFor("Lock", func() bool { return !m.w && m.readers == 0 && m.pending[0] == tok })
	m.pending = m.pending[1:]
	m.w = true
	Acquire(&m.wv)
	Acquire(&m.rv)
	H()
}

func (m *RW) TryLock() bool {
	H()
	if m.w || m.readers > 0 || len(m.pending) > 0 {
		return false
	}
	m.w = true
	Acquire(&m.wv)
	Acquire(&m.rv)
	return true
}

func (m *RW) Unlock() {
	H()
	if !m.w {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.w = false
	Release(&m.wv)
	H()
}

func (m *RW) RLock() {
	NLockOps++
	H()
	waitFor("RLock", func() bool { return !m.w && len(m.pending) == 0 })
	m.readers++
	Acquire(&m.wv)
	H()
}

func (m *RW) TryRLock() bool {
	H()
	if m.w || len(m.pending) > 0 {
		return false
	}
	m.readers++
	Acquire(&m.wv)
	return true
}

func (m *RW) RUnlock() {
	H()
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	Release(&m.rv)
	H()
}

// WaitFor is exported for the other simulated primitives.
func WaitFor(what string, ok func() bool) { waitFor(what, ok) }

// SetFinalizer and Spawn are provided by the harness.
var SetFinalizer = func(obj, fin interface{}) {}
var Spawn = func(f func()) { f() }

// GCRequests counts the calls to runtime.GC made by the code under test.
var GCRequests int64
var OnGC = func() {}
