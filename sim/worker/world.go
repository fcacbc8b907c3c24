package main

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"weak"

	"github.com/dalzilio/rudd"
	"verif/rsim"
	. "verif/rsim/sc"
)

type violPanic struct{ v *Violation }

type injectedPanic struct{}

type harnessError struct{ msg string }

// Ref is one counted reference to a node: an object with a finalizer.
type Ref struct {
	in    *Inst
	ptr   *int
	fin   interface{}
	id    int
	uses  int
	state int // refLive...
}

const (
	refLive = iota
	refPending
	refRunning
	refDone
)

// Counters measure what happened in the runs of this process.
type Counters struct {
	Runs, Ops, Skipped, Calls, Steps int64
	Fired                            map[string]int64 // events and faults that took effect
	Configured                       int64            // events in the cases
	GCs, Resizes, MemFails, Audits   int64
	FinMid, FinLock                  int64
	Kinds                            map[string]int64
	Probes                           map[string]int64 // rare conditions reached
	Sites                            map[string]struct{}
	Sigs                             map[uint64]struct{}
	MaxSteps                         int64
	MaxWide                          int
	Preempt                          int64
	Foreign                          map[string]int64
	Strips                           int64
	Nontrivial                       int64
}

func newCounters() *Counters {
	return &Counters{Fired: map[string]int64{}, Kinds: map[string]int64{}, Probes: map[string]int64{}, Sites: map[string]struct{}{}, Sigs: map[uint64]struct{}{}, Foreign: map[string]int64{}}
}

// World is the state of one simulated execution.
type World struct {
	c       *Case
	ps      []*P
	F       *rsim.Thread
	finRef  *Ref
	pending []*Ref
	byPtr   map[*int]*Ref
	dig     uint64
	sig     uint64
	nfired  int
	cnt     *Counters
	noFin   bool // the runtime never runs a finalizer
	tr      []string
	trOn    bool
	lastP   *P
	postm   bool
	viol    *Violation // the first violation
	gs      []*goro    // threads started by the library
}

// goro is a goroutine started by the library.
type goro struct {
	t   *rsim.Thread
	p   *P
	fin bool // started by a finalizer
}

var W *World

// spawn is the go statement of the library.
func (w *World) spawn(f func()) {
	var g *goro
	for _, x := range w.gs {
		if x.t.Idle() {
			g = x
			g.p = w.curP()
			break
		}
	}
	if g == nil {
		g = &goro{t: rsim.NewThread("G"), p: w.curP()}
		w.gs = append(w.gs, g)
		rsim.Helpers = append(rsim.Helpers, g.t)
	}
	g.fin = false
	if w.F == rsim.Cur() && w.finRef != nil {
		g.p, g.fin = w.finRef.in.p, true
	}
	rsim.Edge(rsim.Cur(), g.t)
	g.t.Start(f)
	w.cnt.Fired["goroutine"]++
}

// stepG runs a goroutine of the library for budget steps.
func (w *World) stepG(idx int, budget int64) bool {
	var gs []*goro
	for _, g := range w.gs {
		if !g.t.Idle() && !g.t.Active() {
			gs = append(gs, g)
		}
	}
	if len(gs) == 0 {
		return false
	}
	return w.resume(gs[idx%len(gs)].t, budget) != rsim.Blocked
}

// finQuiet tells whether no finalizer is running, nor anything they started.
func (w *World) finQuiet() bool {
	for _, g := range w.gs {
		if !g.t.Idle() && !g.t.Blocked() {
			return false
		}
	}
	return w.F.Idle()
}

// finishG runs the goroutines of the library until they end or wait.
func (w *World) finishG() {
	for i := 0; i < 10000; i++ {
		progress := false
		for _, g := range w.gs {
			if g.t.Idle() {
				continue
			}
			if !g.t.Active() && w.resume(g.t, 0) != rsim.Blocked {
				progress = true
			}
		}
		if !progress {
			return
		}
	}
}

func (w *World) note(x uint64) { w.dig = mix(w.dig ^ x*0x9e3779b97f4a7c15) }
func (w *World) noteS(s string) {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	w.note(h)
}

func (w *World) curP() *P {
	t := rsim.Cur()
	for _, p := range w.ps {
		if p.thread == t {
			return p
		}
	}
	for _, g := range w.gs {
		if g.t == t {
			return g.p
		}
	}
	return w.lastP
}

func onSetFinalizer(obj, fin interface{}) {
	w := W
	if w == nil {
		return
	}
	var ptr *int
	switch o := obj.(type) {
	case *int:
		ptr = o
	case rudd.Node:
		ptr = (*int)(o)
	default:
		v := reflect.ValueOf(obj)
		if v.Kind() == reflect.Ptr && v.Type().Elem().Kind() == reflect.Int {
			ptr = (*int)(v.UnsafePointer())
		} else {
			w.cnt.Probes["unknown-finalizer"]++
			return
		}
	}
	p := w.curP()
	if fin == nil {
		if r := w.byPtr[ptr]; r != nil && r.state == refLive {
			r.state = refDone
			delete(w.byPtr, ptr)
			r.in.nout--
			r.in.out[r.id]--
		}
		return
	}
	if w.byPtr[ptr] != nil {
		p.fail("fatal:setfinalizer", "runtime.SetFinalizer called twice on the same object")
	}
	r := &Ref{in: p.in, ptr: ptr, fin: fin, id: *ptr}
	w.byPtr[ptr] = r
	in := p.in
	in.nreg++
	in.nout++
	in.out[r.id]++
	if in.out[r.id] > in.maxOut[r.id] {
		in.maxOut[r.id] = in.out[r.id]
	}
	p.newRefs = append(p.newRefs, r)
}

// dead marks a reference as unreachable: its finalizer may run from now on.
func (w *World) dead(r *Ref) {
	if r.state == refLive {
		r.state = refPending
		w.pending = append(w.pending, r)
	}
}

func (w *World) runFin(r *Ref) {
	switch f := r.fin.(type) {
	case func(*int):
		f(r.ptr)
	case func(rudd.Node):
		f(rudd.Node(r.ptr))
	default:
		v := reflect.ValueOf(r.fin)
		v.Call([]reflect.Value{reflect.ValueOf(r.ptr).Convert(v.Type().In(0))})
	}
	for _, g := range w.gs {
		// the goroutines it started are part of the finalizer
		if t := g.t; g.fin {
			for !t.Idle() {
				if !t.Active() && rsim.Resume(t, 25) != rsim.Blocked {
					continue
				}
				rsim.WaitFor("goroutine", func() bool { return t.Idle() || !t.Blocked() })
			}
		}
	}
	r.state = refDone
	delete(w.byPtr, r.ptr)
	r.in.nout--
	r.in.out[r.id]--
	r.in.nfin++
	w.finRef = nil
}

// resume runs another thread, and reports a crash of that thread.
func (w *World) resume(t *rsim.Thread, budget int64) rsim.Status {
	var pan interface{}
	var st rsim.Status
	func() {
		defer func() { pan = recover() }()
		st = rsim.Resume(t, budget)
	}()
	if pan != nil {
		w.rethrow(pan, "finalizer", "")
	}
	return st
}

// rethrow raises a violation for a panic that came out of code under test.
func (w *World) rethrow(pan interface{}, where, stk string) {
	for {
		tp, ok := pan.(*rsim.ThreadPanic)
		if !ok {
			break
		}
		if tp.Thread != "F" && where == "finalizer" {
			where = "thread"
		}
		pan, stk = tp.Val, tp.PanicStack()
	}
	switch x := pan.(type) {
	case *violPanic:
		panic(x)
	case *harnessError:
		panic(x)
	}
	p := w.curP()
	p.fail("panic:"+where, "panic: %v\n%s", pan, trimStack(stk))
}

func trimStack(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i+1], "/rudd/") && strings.Contains(lines[i+1], ".go:") {
			f := strings.TrimSpace(lines[i+1])
			if j := strings.LastIndex(f, "/rudd/"); j >= 0 {
				f = f[j+6:]
			}
			if j := strings.Index(f, " +0x"); j >= 0 {
				f = f[:j]
			}
			out = append(out, f)
			if len(out) > 12 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// stepFin runs the finalizer thread for budget steps (0: to completion),
// starting the idx-th pending finalizer if it is idle.
func (w *World) stepFin(idx int, budget int64) bool {
	if len(w.gs) > 0 && (idx&1 == 1 || w.noFin || w.F.Idle() && len(w.pending) == 0) && w.stepG(idx>>1, budget) {
		return true
	}
	if w.noFin || w.F.Active() {
		return false
	}
	if w.F.Idle() {
		if len(w.pending) == 0 {
			return false
		}
		i := idx % len(w.pending)
		r := w.pending[i]
		w.pending = append(w.pending[:i:i], w.pending[i+1:]...)
		r.state = refRunning
		w.finRef = r
		rsim.Edge(r.in.p.thread, w.F)
		w.F.Start(func() { w.runFin(r) })
	}
	st := w.resume(w.F, budget)
	if st == rsim.Blocked {
		w.cnt.Probes["finalizer-blocked-on-lock"]++
	}
	if st == rsim.Exhausted {
		w.cnt.Probes["finalizer-suspended-midway"]++
	}
	return true
}

// finishFin lets a started finalizer complete.
func (w *World) finishFin() {
	if len(w.gs) > 0 {
		defer w.finishG()
	}
	for i := 0; i < 1000 && !w.F.Idle() && !w.F.Active(); i++ {
		if w.resume(w.F, 0) == rsim.Blocked {
			if len(w.gs) > 0 {
				if w.finishG(); w.F.Idle() || w.resume(w.F, 0) != rsim.Blocked {
					continue
				}
			}
			w.cnt.Probes["finalizer-blocked-between-calls"]++
			for _, q := range w.ps {
				if q.thread != rsim.Cur() && (q.thread == rsim.Root || !q.thread.Idle()) {
					return // a suspended program may have the lock
				}
			}
			if i > 10 {
				w.curP().fail("deadlock", "a finalizer is blocked for ever between two calls")
			}
		}
	}
}

// P is one user thread with its BDD.
type P struct {
	w         *World
	bound     int64 // limit on the number of steps of a call
	ix        int
	prog      *Prog
	cfg       Cfg
	b         *rudd.BDD
	k         int
	act       []int
	lvl       map[int]int
	slots     [nSlots]*Handle
	repl      [nRepl]*Repl
	bags      [2][]*Handle
	thread    *rsim.Thread
	infl      []*call
	cells     []weak.Pointer[int] // recent operands that were given up
	own       *call               // the last call that returned numbers
	newRefs   []*Ref
	in        *Inst
	limited   bool
	errored   bool // the error status was set by an earlier call
	opIx      int
	opKind    string
	gen       func(p *P) *Op
	ended     bool
	curOp     *Op
	st        Stat
	stOK      bool
	prevTab   *Table
	initAlloc int
	maxLive   int
	evs       *evState
	chainH    []*Handle
	ref       *WRef // the models of the functions of many variables
	wslot     [nWide]*Handle
	est       map[string]int64 // recent numbers of steps, by kind of operation
}

// Inst counts the references to the nodes of one BDD.
type Inst struct {
	p                *P
	nreg, nfin, nout int
	out, maxOut      map[int]int
}

const nSlots = 14
const nRepl = 6

// Repl is a replacer with its meaning.
type Repl struct {
	r        rudd.Replacer
	old, new []int
}

// Handle is a Node held by the program, with the function it denotes.
type Handle struct {
	n        rudd.Node
	ref      *Ref
	tt       TT
	set      []int
	isSet    bool
	kind     string
	verified bool
	wn       int32 // its model, for a function of many variables
}

func (h *Handle) id() int { return *h.n }

// fail reports a violation: it unwinds the whole case.
func (p *P) fail(class, format string, a ...interface{}) {
	v := &Violation{Classes: []string{class}, Detail: fmt.Sprintf(format, a...), Op: p.opKind, OpIndex: p.opIx, Prog: p.ix}
	if p.w.viol == nil {
		p.w.viol = v
	}
	panic(&violPanic{v})
}

func (p *P) handle(c *call, n rudd.Node, tt TT, kind string) *Handle {
	h := &Handle{n: n, tt: tt, kind: kind}
	ptr := (*int)(n)
	if r := p.w.byPtr[ptr]; r != nil {
		if r.state != refLive {
			p.fail("held", "%s returned a Node whose finalizer was already queued", kind)
		}
		h.ref = r
		r.uses++
	} else if c != nil {
		for i := range c.last {
			if l := &c.last[i]; !l.gone && l.w.Value() == ptr {
				h.ref = l.h.ref
				if h.ref != nil {
					h.ref.uses++
				}
				return h
			}
		}
		for _, o := range c.hs {
			if o.ref != nil && (*int)(o.n) == ptr {
				h.ref = o.ref
				h.ref.uses++
				return h
			}
		}
	}
	return h
}

func (p *P) release(h *Handle) {
	if h == nil || h.ref == nil {
		return
	}
	h.ref.uses--
	if h.ref.uses == 0 {
		p.w.dead(h.ref)
	}
}

func (p *P) setSlot(i int, h *Handle) {
	old := p.slots[i]
	p.slots[i] = h
	p.release(old)
}

func (p *P) slot(i int) *Handle {
	if i < 0 || i >= nSlots {
		return nil
	}
	return p.slots[i]
}

// endCall handles the references created by an API call and not returned.
func (p *P) endRefs(mark int) {
	for _, r := range p.newRefs[mark:] {
		if r.uses == 0 {
			p.w.dead(r)
		}
	}
	p.newRefs = p.newRefs[:mark]
}

//
// Events
//

type evState struct {
	p    *P
	ev   []Ev
	i    int
	prev *evState
}

func (s *evState) arm() {
	if s.i >= len(s.ev) {
		rsim.ArmN(-1)
		rsim.ArmH(-1)
		return
	}
	if e := s.ev[s.i]; e.Hot {
		rsim.ArmH(int64(e.At))
	} else {
		rsim.ArmN(int64(e.At))
	}
}

func (p *P) onEvent(fn, fh bool) {
	s := p.evs
	if s == nil || s.i >= len(s.ev) {
		return
	}
	e := s.ev[s.i]
	s.i++
	if p.event(e) {
		p.w.cnt.Fired[e.K]++
		p.w.nfired++
		site := callSite()
		p.w.cnt.Sites[e.K+"@"+site] = struct{}{}
		p.w.note(uint64(e.At)<<8 | uint64(len(site)))
		p.w.sig = mix(p.w.sig ^ hashS(e.K+site+p.opKind))
	}
	s.arm()
}

func hashS(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// callSite is the place of the code under test where the event happens.
func callSite() string {
	var pcs [24]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.File, "/.build/") {
			i := strings.LastIndexByte(f.File, '/')
			return fmt.Sprintf("%s:%d", f.File[i+1:], f.Line)
		}
		if !more {
			return "?"
		}
	}
}

func (p *P) event(e Ev) bool {
	w := p.w
	switch e.K {
	case "fin":
		return w.stepFin(e.A, int64(e.B))
	case "drop":
		i := e.A % nSlots
		h := p.slots[i]
		if h == nil {
			if h = p.wslot[i%nWide]; h != nil && !p.inUse(h) {
				p.wideSet(i%nWide, nil)
				return true
			}
			return false
		}
		if p.inUse(h) {
			return false
		}
		p.setSlot(i, nil)
		return true
	case "probe":
		return p.probe(e.B)
	case "sw":
		n := len(w.ps)
		for j := 0; j < n; j++ {
			q := w.ps[(e.A+j)%n]
			if q == p || q.thread == rsim.Root || q.thread.Active() || q.thread.Idle() {
				continue
			}
			w.resume(q.thread, int64(e.B)+1)
			w.cnt.Preempt++
			return true
		}
	}
	return false
}

func (p *P) inUse(h *Handle) bool {
	for _, c := range p.infl {
		for _, o := range c.hs {
			if o == h || (o != nil && o.ref != nil && o.ref == h.ref) {
				return true
			}
		}
	}
	return false
}

// probe asks the Go runtime which operands of the running calls, given up by the
// program when it made the call, are not reachable any more, and runs their
// finalizers.
func (p *P) probe(budget int) bool {
	any := false
	for _, c := range p.infl {
		for i := range c.last {
			if !c.last[i].gone {
				any = true
			}
		}
	}
	if !any || p.w.noFin {
		return false
	}
	runtime.GC()
	fired := false
	for _, c := range p.infl {
		for i := range c.last {
			l := &c.last[i]
			if !l.gone && l.w.Value() == nil {
				l.gone = true
				fired = true
				p.release(l.h)
				p.w.cnt.Probes["operand-unreachable-midcall"]++
			}
		}
	}
	if fired {
		if !p.w.F.Idle() && !p.w.F.Active() {
			p.w.resume(p.w.F, 0)
		}
		for p.w.F.Idle() && len(p.w.pending) > 0 {
			// the most recently queued finalizers are those of the operands
			p.w.stepFin(len(p.w.pending)-1, int64(budget))
			if budget > 0 {
				break
			}
		}
	}
	return fired
}

type lastOp struct {
	w    weak.Pointer[int]
	h    *Handle
	hold bool // the program also has the node, at least at the beginning of the call
	gone bool
}

// givenUp tells whether some node is only known to calls that are running.
func (p *P) givenUp() bool {
	n := map[*Ref]int{}
	for _, c := range p.infl {
		for _, l := range c.last {
			if !l.gone && l.h.ref != nil {
				n[l.h.ref]++
			}
		}
	}
	for r, k := range n {
		if r.uses == k {
			return true
		}
	}
	return false
}

// cell is big enough not to share its block of memory with other objects.
type cell struct {
	v   int
	pad [3]int
}

// sortedIDs returns the keys of m in order.
func sortedInts(m map[int]bool) []int {
	r := make([]int, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
