package main

import (
	"errors"
	"fmt"
	"io"
	"math/big"
	"runtime"
	"slices"
	"strings"
	"weak"

	"github.com/dalzilio/rudd"
	"verif/rsim"
	. "verif/rsim/sc"
)

// call is one call of the public API.
type call struct {
	p    *P
	k    string
	hs   []*Handle
	last []lastOp
	mark int
	// arguments
	n   [3]rudd.Node
	ns  []rudd.Node
	i   int
	op  rudd.Operator
	vs  []int
	vt  []int
	pol []bool
	r   rudd.Replacer
	fs  func([]int) error
	fn  func(id, level, low, high int) error
	wr  io.Writer
	cb  *cbState
	raw func(c *call)
	// results
	node rudd.Node
	ok   bool
	num  int
	is   []int
	big  *big.Int
	err  error
	rep  rudd.Replacer
	str  string
	pan  interface{}
	stk  string
}

// scramble changes a slice: what the program passed to a call, or got from one,
// is its own.
func scramble(s []int) {
	for i := range s {
		s[i] = -9 - s[i]
	}
}

func (c *call) take() (rudd.Node, rudd.Node, rudd.Node) {
	a, b, d := c.n[0], c.n[1], c.n[2]
	c.n = [3]rudd.Node{}
	return a, b, d
}

func (c *call) takeNs() []rudd.Node {
	s := c.ns
	c.ns = nil
	return s
}

// do makes the call. Nothing in its frames keeps the operands reachable once
// they have been passed.
func (c *call) do() {
	b := c.p.b
	switch c.k {
	case "true":
		c.node = b.True()
	case "false":
		c.node = b.False()
	case "from":
		c.node = b.From(c.i != 0)
	case "ith":
		c.node = b.Ithvar(c.i)
	case "nith":
		c.node = b.NIthvar(c.i)
	case "makeset":
		vs := slices.Clone(c.vs)
		c.node = b.Makeset(vs)
		scramble(vs)
	case "makecube":
		vs, pol := slices.Clone(c.vs), slices.Clone(c.pol)
		c.node = b.Makecube(vs, pol)
		scramble(vs)
		for i := range pol {
			pol[i] = !pol[i]
		}
	case "not":
		x, _, _ := c.take()
		c.node = b.Not(x)
	case "apply":
		x, y, _ := c.take()
		c.node = b.Apply(x, y, c.op)
	case "and":
		c.node = b.And(c.takeNs()...)
	case "or":
		c.node = b.Or(c.takeNs()...)
	case "imp":
		x, y, _ := c.take()
		c.node = b.Imp(x, y)
	case "equiv":
		x, y, _ := c.take()
		c.node = b.Equiv(x, y)
	case "ite":
		x, y, z := c.take()
		c.node = b.Ite(x, y, z)
	case "exist":
		x, y, _ := c.take()
		c.node = b.Exist(x, y)
	case "appex":
		x, y, z := c.take()
		c.node = b.AppEx(x, y, c.op, z)
	case "andexist":
		x, y, z := c.take()
		c.node = b.AndExist(x, y, z)
	case "replace":
		x, _, _ := c.take()
		c.node = b.Replace(x, c.r)
	case "low":
		x, _, _ := c.take()
		c.node = b.Low(x)
	case "high":
		x, _, _ := c.take()
		c.node = b.High(x)
	case "retnode":
		c.node = b.Retnode(c.i)
	case "label":
		x, _, _ := c.take()
		c.num = b.Label(x)
	case "scanset":
		x, _, _ := c.take()
		c.is = b.Scanset(x)
	case "equal":
		x, y, _ := c.take()
		c.ok = b.Equal(x, y)
	case "satcount":
		x, _, _ := c.take()
		c.big = b.Satcount(x)
	case "allsat":
		x, _, _ := c.take()
		c.err = b.Allsat(c.fs, x)
	case "allnodes":
		c.err = b.Allnodes(c.fn, c.takeNs()...)
	case "print":
		b.Print(c.wr, c.takeNs()...)
	case "dot":
		c.err = b.Dot(c.wr, c.takeNs()...)
	case "newreplacer":
		vs, vt := slices.Clone(c.vs), slices.Clone(c.vt)
		c.rep, c.err = b.NewReplacer(vs, vt)
		scramble(vs)
		scramble(vt)
	case "stats":
		c.str = b.Stats()
	case "raw":
		c.raw(c)
	default:
		panic(&harnessError{"unknown call " + c.k})
	}
}

func (c *call) exec() {
	defer func() {
		if r := recover(); r != nil {
			c.pan = r
			buf := make([]byte, 1<<16)
			c.stk = string(buf[:runtime.Stack(buf, false)])
		}
	}()
	c.do()
}

// operand records handle h as the i-th operand. If it is the last use of the
// slot, the slot is emptied and the callee gets the only reachable copy. Calls
// with a callback always get a copy, since the callback can empty the slot.
func (c *call) operand(i int, h *Handle, last bool) rudd.Node {
	c.hs = append(c.hs, h)
	hold := !last && h.ref != nil && (c.k == "allsat" || c.k == "allnodes" || c.k == "print" || c.k == "dot")
	if !last && !hold {
		return h.n
	}
	x := &cell{v: *h.n}
	n := rudd.Node(&x.v)
	if len(c.p.cells) >= 100 {
		c.p.cells = append(c.p.cells[:0], c.p.cells[50:]...)
	}
	c.p.cells = append(c.p.cells, weak.Make(&x.v))
	c.last = append(c.last, lastOp{w: weak.Make(&x.v), h: h, hold: hold})
	if hold {
		h.ref.uses++
	}
	return n
}

// api makes call c, under the events ev.
func (p *P) api(c *call, ev []Ev) {
	if o := p.own; o != nil {
		scramble(o.is)
		if o.big != nil {
			o.big.Sub(big.NewInt(-13), o.big)
		}
		p.own = nil
	}
	c.mark = len(p.newRefs)
	saved := rsim.SaveEv()
	pe := p.evs
	p.evs = nil
	if len(p.infl) == 0 {
		rsim.SetStepLimit(p.bound)
	}
	p.infl = append(p.infl, c)
	p.w.cnt.Calls++
	lastP := p.w.lastP
	p.w.lastP = p
	if len(ev) > 0 {
		p.evs = &evState{p: p, ev: ev}
		p.w.cnt.Configured += int64(len(ev))
		p.evs.arm()
	}
	c.exec()
	if p.w.viol != nil {
		panic(&violPanic{p.w.viol}) // also if the code under test recovered from it
	}
	rsim.SaveEv()
	p.evs = pe
	p.infl = p.infl[:len(p.infl)-1]
	p.w.lastP = lastP
	if c.is != nil || c.big != nil {
		p.own = c
	}
	if c.pan != nil {
		switch c.pan.(type) {
		case *violPanic, *harnessError:
			panic(c.pan)
		}
		if c.cb == nil || !c.cb.expectPanic() {
			p.w.rethrow(c.pan, p.kindOf(c), c.stk)
		}
	}
	rsim.RestoreEv(saved)
}

func (p *P) kindOf(c *call) string {
	if c.k == "raw" {
		return p.opKind
	}
	return c.k
}

// done ends the lifetime of what the call did not give to the program.
func (p *P) done(c *call) {
	p.endRefs(c.mark)
	for i := range c.last {
		if !c.last[i].gone {
			c.last[i].gone = true
			p.release(c.last[i].h)
		}
	}
}

// quiet makes a call without events or result references.
func (p *P) quiet(k string, f func(c *call)) *call {
	c := &call{p: p, k: k}
	if k == "raw" {
		c.raw = f
	} else if f != nil {
		f(c)
	}
	p.api(c, nil)
	p.done(c)
	return c
}

//
// Callbacks and writers
//

var errInjected = errors.New("injected failure")

type cbState struct {
	p     *P
	subs  []Sub
	f     *Flt
	n     int
	fired bool
	kind  string
	wr    bool
	buf   strings.Builder
}

func (s *cbState) expectPanic() bool { return s != nil && s.fired && s.f.K == "panic" }

// hit is called for each callback: it runs the operations of the program in that
// callback, then injects its failure.
func (s *cbState) hit() error {
	p := s.p
	i := s.n
	s.n++
	if s.fired && !s.wr {
		p.fail("cberr", "%s calls its function again after an error", s.kind)
	}
	if len(s.subs) > 0 {
		saved := rsim.SaveEv()
		pe := p.evs
		p.evs = nil
		k := p.opKind
		for _, sub := range s.subs {
			if sub.At == i {
				for _, op := range sub.Ops {
					if p.givenUp() {
						p.probe(0)
					}
					p.w.cnt.Fired["reentrant-op"]++
					p.runOp(op)
				}
			}
		}
		p.opKind = k
		p.evs = pe
		rsim.RestoreEv(saved)
	}
	if s.f != nil && (s.f.At == i || s.f.K == "errall" && i > s.f.At) {
		if !s.fired {
			p.w.cnt.Fired["fault-"+s.f.K]++
		}
		s.fired = true
		if s.f.K == "panic" {
			panic(injectedPanic{})
		}
		return errInjected
	}
	return nil
}

// Write makes cbState an io.Writer.
func (s *cbState) Write(b []byte) (int, error) {
	err := s.hit()
	if err != nil {
		n := 0
		if s.f.K == "short" {
			n = len(b) / 2
			s.buf.Write(b[:n])
		}
		return n, err
	}
	s.buf.Write(b)
	return len(b), nil
}

//
// Snapshots of the node table
//

// Nd is a node as reported by Allnodes.
type Nd struct{ lvl, lo, hi int }

// Table is a set of nodes of a BDD.
type Table struct {
	m   map[int]Nd
	ids []int
	tts map[int]TT
	bad string // not empty: the report itself is malformed
}

func newTable() *Table { return &Table{m: map[int]Nd{}, tts: map[int]TT{}} }

func (t *Table) add(id, lvl, lo, hi int) {
	if id < 2 {
		return
	}
	if _, ok := t.m[id]; ok && t.bad == "" {
		t.bad = fmt.Sprintf("node %d is reported twice", id)
	}
	t.m[id] = Nd{lvl, lo, hi}
	t.ids = append(t.ids, id)
}

// eval computes the function of node id from the reported structure.
func (p *P) eval(t *Table, id int) (TT, string) {
	switch id {
	case 0:
		return ttConst(p.k, false), ""
	case 1:
		return ttConst(p.k, true), ""
	}
	if r, ok := t.tts[id]; ok {
		return r, ""
	}
	nd, ok := t.m[id]
	if !ok {
		return nil, fmt.Sprintf("node %d is not an active node", id)
	}
	v, ok := p.lvl[nd.lvl]
	if !ok {
		return nil, fmt.Sprintf("node %d has variable %d, which the program did not use", id, nd.lvl)
	}
	for _, ch := range []int{nd.lo, nd.hi} {
		if ch > 1 {
			if x, ok := t.m[ch]; ok && x.lvl <= nd.lvl {
				return nil, fmt.Sprintf("node %d with variable %d has a branch to node %d with variable %d", id, nd.lvl, ch, x.lvl)
			}
		}
	}
	lo, e := p.eval(t, nd.lo)
	if e != "" {
		return nil, e
	}
	hi, e := p.eval(t, nd.hi)
	if e != "" {
		return nil, e
	}
	r := ttIte(ttVar(p.k, v), hi, lo)
	t.tts[id] = r
	return r, ""
}

// snapshot is the set of all active nodes.
func (p *P) snapshot() *Table {
	t := newTable()
	c := p.quiet("allnodes", func(c *call) {
		c.fn = func(id, level, low, high int) error { t.add(id, level, low, high); return nil }
	})
	if c.err != nil {
		p.fail("allnodes", "Allnodes returns error %v", c.err)
	}
	return t
}

// snapFrom is the set of nodes reachable from some nodes.
func (p *P) snapFrom(ns ...rudd.Node) (*Table, error) {
	t := newTable()
	c := p.quiet("allnodes", func(c *call) {
		c.fn = func(id, level, low, high int) error { t.add(id, level, low, high); return nil }
		c.ns = ns
	})
	return t, c.err
}

func (t *Table) reach(set map[int]bool, id int) {
	for id > 1 && !set[id] {
		nd, ok := t.m[id]
		if !ok {
			return
		}
		set[id] = true
		t.reach(set, nd.lo)
		id = nd.hi
	}
}

// Stat is the content of Stats.
type Stat struct {
	Alloc, Produced, Free, Used, GC int
	Ext, Rec                        int
	dbg                             bool
	Out                             int  // outstanding references
	exact                           bool // no finalizer ran meanwhile
}

func (p *P) stats() Stat {
	nfin, idle := p.in.nfin, p.w.finQuiet()
	c := p.quiet("stats", nil)
	s := p.parseStats(c.str)
	s.Out, s.exact = p.in.nout, idle && p.w.finQuiet() && p.in.nfin == nfin
	return s
}

func (p *P) parseStats(str string) Stat {
	var s Stat
	seen := 0
	for _, l := range strings.Split(str, "\n") {
		i := strings.IndexByte(l, ':')
		if i < 0 {
			continue
		}
		v, ok := 0, false
		for _, ch := range strings.TrimSpace(l[i+1:]) {
			if ch < '0' || ch > '9' {
				break
			}
			v, ok = v*10+int(ch-'0'), true
		}
		if !ok {
			continue
		}
		switch strings.TrimSpace(l[:i]) {
		case "Allocated":
			s.Alloc = v
		case "Produced":
			s.Produced = v
		case "Free":
			s.Free = v
		case "Used":
			s.Used = v
		case "# of GC":
			s.GC = v
		case "Ext. refs":
			s.Ext = v
			s.dbg = true
			continue
		case "Reclaimed":
			s.Rec = v
			continue
		default:
			continue
		}
		seen++
	}
	if seen < 5 {
		p.fail("stats", "Stats does not give Allocated, Produced, Free, Used and # of GC as numbers:\n%s", str)
	}
	return s
}
