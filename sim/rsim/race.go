package rsim

import (
	"fmt"
	"unsafe"
)

// Detection of data races by vector clocks. The simulated threads run one at a
// time, so unsynchronised accesses to a map or to a variable of several words
// leave no trace here while they are fatal on a real machine: the instrumented
// code reports these accesses. A decision of the scheduler is not an edge.

const maxTid = 8

// VC is a vector clock.
type VC [maxTid]uint32

func (v *VC) join(w *VC) {
	for i := range v {
		if w[i] > v[i] {
			v[i] = w[i]
		}
	}
}

// SyncVar holds the clock released on a synchronisation object.
type SyncVar struct {
	vc    VC
	epoch uint64
}

func (s *SyncVar) fresh() {
	if s.epoch != epoch {
		s.vc, s.epoch = VC{}, epoch
	}
}

// RaceOn enables the detection.
var RaceOn bool

// OnRace is called when two accesses are not ordered.
var OnRace func(t1, t2 int, what string)

// NAccesses counts the checked accesses.
var NAccesses int64

var epoch uint64
var vcs [maxTid]VC
var ntid int

type access struct {
	tid  int
	clk  uint32
	site string
}

type cell struct {
	w  access
	rs [maxTid]access
}

var cells map[unsafe.Pointer]*cell
var atomics map[unsafe.Pointer]*SyncVar

func resetRace() {
	epoch++
	RaceOn = false
	ntid = 1
	Root.tid = 0
	vcs = [maxTid]VC{}
	for i := range vcs {
		vcs[i][i] = 1
	}
	cells, atomics = nil, nil
}

// Acquire orders the running thread after the last releases on s.
func Acquire(s *SyncVar) {
	if !RaceOn {
		return
	}
	s.fresh()
	vcs[cur.tid].join(&s.vc)
}

// Release orders later acquisitions of s after the running thread.
func Release(s *SyncVar) {
	if !RaceOn {
		return
	}
	s.fresh()
	s.vc.join(&vcs[cur.tid])
	vcs[cur.tid][cur.tid]++
}

// AcqRel is the edge of an atomic operation on address p.
func AcqRel(p unsafe.Pointer) {
	if !RaceOn {
		return
	}
	s := atomics[p]
	if s == nil {
		s = &SyncVar{}
		if atomics == nil {
			atomics = map[unsafe.Pointer]*SyncVar{}
		}
		atomics[p] = s
	}
	Acquire(s)
	Release(s)
}

// Edge orders thread b after everything thread a did up to now.
func Edge(a, b *Thread) {
	if !RaceOn {
		return
	}
	vcs[b.tid].join(&vcs[a.tid])
	vcs[a.tid][a.tid]++
}

// Tid is the number of a thread in the messages of OnRace.
func (t *Thread) Tid() int { return t.tid }

func touch(p unsafe.Pointer, write bool, site string) {
	if p == nil || ntid > maxTid {
		return
	}
	NAccesses++
	c := cells[p]
	if c == nil {
		if cells == nil {
			cells = map[unsafe.Pointer]*cell{}
		}
		c = &cell{}
		cells[p] = c
	}
	t := cur.tid
	vc := &vcs[t]
	if a := &c.w; a.clk > 0 && a.tid != t && a.clk > vc[a.tid] {
		report(a, t, "write", write, site)
	}
	if write {
		for i := range c.rs {
			if a := &c.rs[i]; a.clk > 0 && i != t && a.clk > vc[i] {
				report(a, t, "read", write, site)
			}
		}
		c.w = access{t, vc[t], site}
		return
	}
	c.rs[t] = access{t, vc[t], site}
}

func report(a *access, t int, first string, write bool, site string) {
	second := "read"
	if write {
		second = "write"
	}
	if OnRace != nil {
		OnRace(a.tid, t, fmt.Sprintf("%s at %s and %s at %s are not ordered by any synchronisation", first, a.site, second, site))
	}
}

// Map reports an access to the map (or the variable whose address) f returns.
func Map(write bool, site string, f func() any) {
	if !RaceOn || killing {
		return
	}
	p := mapPtr(f)
	touch(p, write, site)
}

func mapPtr(f func() any) (p unsafe.Pointer) {
	defer func() {
		if recover() != nil {
			p = nil
		}
	}()
	x := f()
	return (*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1]
}

// Var reports an access to a package-level variable.
func Var[T any](write bool, site string, p *T) {
	if !RaceOn || killing {
		return
	}
	touch(unsafe.Pointer(p), write, site)
}
