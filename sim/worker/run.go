package main

import (
	"fmt"

	"verif/rsim"
	. "verif/rsim/sc"
)

// Result is the outcome of one run.
type Result struct {
	V   *Violation
	Dig uint64
	Sig uint64
	Tr  []string
	N   int // events and faults that took effect
}

type runOpts struct {
	tr    bool               // record the transcript
	gens  []func(p *P) *Op   // online generation of the operations of each program
	quick bool               // no final checks
	prog  func(ix, opIx int) // progress
	post  bool               // look for everything that is broken after a violation
}

// main is the body of one simulated user thread.
func (p *P) main(o *runOpts) {
	p.thread = rsim.Cur()
	p.open(p.prog.Cfg, p.prog.Act, nil)
	for p.opIx = 0; ; p.opIx++ {
		var op *Op
		if p.gen != nil {
			if op = p.gen(p); op == nil {
				break
			}
			p.prog.Ops = append(p.prog.Ops, op)
		} else {
			if p.opIx >= len(p.prog.Ops) {
				break
			}
			op = p.prog.Ops[p.opIx]
		}
		if o.prog != nil {
			o.prog(p.ix, p.opIx)
		}
		p.curOp = op
		if p.w.c.Prop == "C08" && op.K != "newbdd" && op.K != "march" && op.K != "wrap" && p.prog.Cfg.Varnum <= 500 {
			live, s := p.boundBefore()
			p.runOp(op)
			p.boundAfter(op, live, s)
		} else {
			p.runOp(op)
		}
	}
	p.curOp = nil
	if o.prog != nil {
		o.prog(p.ix, p.opIx)
	}
	if !o.quick {
		p.finale()
	}
	p.ended = true
}

// onRace reports two accesses that the real runtime may run at the same time.
func (w *World) onRace(t1, t2 int, what string) {
	own := func(t int) (*P, string) {
		if t == w.F.Tid() {
			if w.finRef == nil {
				return nil, "the finalizers"
			}
			return w.finRef.in.p, "the finalizers"
		}
		for _, p := range w.ps {
			if p.thread.Tid() == t {
				return p, fmt.Sprintf("program %d", p.ix)
			}
		}
		return nil, "?"
	}
	p, n1 := own(t1)
	q, n2 := own(t2)
	class := "race"
	if p == q {
		class = "race-fin"
	}
	w.curP().fail(class, "data race between %s and %s: %s", n1, n2, what)
}

var counters = newCounters()

// runCase executes one case: a pure function of the case (or of the case and
// its generators) and of the code under test.
func runCase(c *Case, o runOpts) (res *Result) {
	w := &World{c: c, byPtr: map[*int]*Ref{}, cnt: counters, noFin: c.NoFin, trOn: o.tr}
	W = w
	w.cnt.Runs++
	res = &Result{}
	rsim.Reset()
	rsim.InSim = true
	rsim.SetFinalizer = onSetFinalizer
	steps0 := rsim.Steps()
	w.F = rsim.NewThread("F")
	rsim.Helpers = []*rsim.Thread{w.F}
	rsim.OnStepLimit = func() {
		w.curP().fail("steps", "more than the allowed number of steps in one operation")
	}
	rsim.OnDeadlock = func(what string) {
		w.curP().fail("deadlock", "no thread can run: %s waits for ever", what)
	}
	for i, pr := range c.Progs {
		p := &P{w: w, ix: i, prog: pr}
		if o.gens != nil {
			p.gen = o.gens[i]
			pr.Ops = nil
		}
		w.ps = append(w.ps, p)
	}
	rsim.RaceOn = len(c.Progs) > 1 || c.Prop == "C05" || c.Prop == "C16"
	rsim.OnRace = w.onRace
	rsim.Spawn = w.spawn
	rsim.SeedCase(int64(mix(c.Seed^mix(uint64(c.Index)+77)) >> 1))
	w.lastP = w.ps[0]
	w.ps[0].thread = rsim.Root
	rsim.Root.OnEvent = w.ps[0].onEvent
	for _, p := range w.ps[1:] {
		p := p
		p.thread = rsim.NewThread(fmt.Sprintf("P%d", p.ix))
		p.thread.OnEvent = p.onEvent
		rsim.Helpers = append(rsim.Helpers, p.thread)
		rsim.Edge(rsim.Root, p.thread)
		p.thread.Start(func() { p.main(&o) })
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				for {
					tp, ok := r.(*rsim.ThreadPanic)
					if !ok {
						break
					}
					r = tp.Val
				}
				vp, ok := r.(*violPanic)
				if !ok {
					panic(r)
				}
				res.V = vp.v
			}
		}()
		w.ps[0].main(&o)
		for n := 0; ; n++ {
			left := false
			for _, p := range w.ps[1:] {
				if !p.thread.Idle() {
					left = true
					w.lastP = p
					st := w.resume(p.thread, 0)
					if st == rsim.Blocked && !w.F.Idle() {
						w.resume(w.F, 0) // it may be next in line for the lock
						w.finishG()
					}
					if st == rsim.Blocked && n > 1000 {
						p.fail("deadlock", "a program is blocked for ever")
					}
				}
			}
			if !left {
				break
			}
		}
		for _, p := range w.ps {
			if !p.ended {
				panic(&harnessError{"a program did not end"})
			}
		}
	}()
	rsim.RaceOn = false
	if res.V != nil && o.post {
		p := w.ps[res.V.Prog]
		if cls := res.V.Classes[0]; cls != "deadlock" && cls != "steps" && cls != "harness" {
			// a suspended thread may be in the middle of an update
			p.postmortem(res.V, p.curOp)
		}
	}
	for _, p := range w.ps[1:] {
		p.thread.Kill()
	}
	w.F.Kill()
	for _, g := range w.gs {
		g.t.Kill()
	}
	rsim.Reset()
	W = nil
	res.Dig, res.Sig, res.Tr, res.N = w.dig, w.sig, w.tr, w.nfired
	w.cnt.Steps += rsim.Steps() - steps0
	return res
}
