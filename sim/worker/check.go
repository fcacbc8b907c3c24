package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/dalzilio/rudd"
	"verif/rsim"
	. "verif/rsim/sc"
)

func list[T any](x ...T) []T { return x }

// unlimited replaces the largest values of the configurations, which are the
// same for all the builds, with the largest values of type int.
func unlimited(n int) int {
	if n >= math.MaxInt32-10 {
		return math.MaxInt - (math.MaxInt32 - n)
	}
	return n
}

// open creates the BDD of the program.
func (p *P) open(cfg Cfg, act []int, ev []Ev) {
	opts := list(rudd.Nodesize(0))[:0]
	if cfg.Nodesize >= 0 {
		opts = append(opts, rudd.Nodesize(cfg.Nodesize))
	}
	if cfg.Cachesize >= 0 {
		opts = append(opts, rudd.Cachesize(cfg.Cachesize))
	}
	if cfg.Cacheratio >= 0 {
		opts = append(opts, rudd.Cacheratio(cfg.Cacheratio))
	}
	if cfg.Maxnodesize >= 0 {
		opts = append(opts, rudd.Maxnodesize(unlimited(cfg.Maxnodesize)))
	}
	if cfg.Maxinc >= 0 {
		opts = append(opts, rudd.Maxnodeincrease(unlimited(cfg.Maxinc)))
	}
	if cfg.Minfree >= 0 {
		opts = append(opts, rudd.Minfreenodes(unlimited(cfg.Minfree)))
	}
	p.cfg = cfg
	p.act = act
	p.k = len(act)
	p.lvl = map[int]int{}
	for i, l := range act {
		p.lvl[l] = i
	}
	p.in = &Inst{p: p, out: map[int]int{}, maxOut: map[int]int{}}
	p.limited = cfg.Maxnodesize > 0 && cfg.Maxnodesize < math.MaxInt32-10
	p.errored = false
	p.prevTab, p.stOK, p.maxLive = nil, false, 0
	p.b = nil
	var nb *rudd.BDD
	c := &call{p: p, k: "raw", raw: func(c *call) { nb, c.err = rudd.New(cfg.Varnum, opts...) }}
	ok := p.opKind
	p.opKind = "new"
	p.api(c, ev)
	p.done(c)
	if nb == nil || c.err != nil {
		p.fail("new", "New(%+v) failed: %v", cfg, c.err)
	}
	p.b = nb
	if nb.Errored() {
		p.fail("new", "New(%+v) sets the error status: %s", cfg, nb.Error())
	}
	if nb.Varnum() != cfg.Varnum {
		p.fail("new", "Varnum is %d instead of %d", nb.Varnum(), cfg.Varnum)
	}
	p.opKind = ok
	p.initAlloc = p.stats().Alloc
	if min := cfg.Nodesize; p.initAlloc < 2*cfg.Varnum+2 || (min >= 0 && p.initAlloc < min) {
		p.fail("growth", "the initial table has %d nodes for %d variables (Nodesize %d)", p.initAlloc, cfg.Varnum, cfg.Nodesize)
	}
}

func (p *P) closeBDD() {
	for i := range p.slots {
		p.setSlot(i, nil)
	}
	for i := range p.bags {
		for _, h := range p.bags[i] {
			p.release(h)
		}
		p.bags[i] = nil
	}
	for i := range p.repl {
		p.repl[i] = nil
	}
	for i := range p.wslot {
		p.wideSet(i, nil)
	}
}

func (p *P) varID(kind string, l int) int {
	c := p.quiet(kind, func(c *call) { c.i = l })
	if c.node == nil {
		p.fail("error:"+kind, "%s(%d) returned nil", kind, l)
	}
	return *c.node
}

// audit checks the whole state between two calls.
func (p *P) audit() {
	p.w.cnt.Audits++
	t := p.snapshot()
	p.auditHeld(t)
	p.auditCanon(t)
	p.auditEqual()
	p.checkStat(p.stats(), t)
}

func (p *P) allHandles() []*Handle {
	var hs []*Handle
	for _, h := range p.slots {
		if h != nil && h.tt != nil {
			hs = append(hs, h)
		}
	}
	for _, bag := range p.bags {
		for i, h := range bag {
			if i == 0 || bag[i-1].id() != h.id() {
				hs = append(hs, h)
			}
		}
	}
	return hs
}

func (p *P) auditHeld(t *Table) {
	for _, h := range p.allHandles() {
		p.checkHandle(t, h)
	}
	for _, h := range p.wslot {
		if h != nil {
			p.wideCheck(t, h)
		}
	}
	for i, l := range p.act {
		for j, k := range []string{"ith", "nith"} {
			id := p.varID(k, l)
			exp := ttVar(p.k, i)
			if j == 1 {
				exp = ttNot(p.k, exp)
			}
			if got, e := p.eval(t, id); e != "" || !ttEq(got, exp) {
				p.fail("held", "variable %d (%s): node %d denotes %x instead of %x %s", l, k, id, got, exp, e)
			}
		}
	}
}

func (p *P) checkHandle(t *Table, h *Handle) {
	got, e := p.eval(t, h.id())
	if e == "" && ttEq(got, h.tt) {
		h.verified = true
		return
	}
	cl := "held"
	if !h.verified {
		cl = "unverified:" + h.kind
	}
	p.fail(cl, "a held node (id %d, from %s) denotes %x instead of %x %s", h.id(), h.kind, got, h.tt, e)
}

func (p *P) auditCanon(t *Table) {
	if t.bad != "" {
		p.fail("allnodes", "Allnodes: %s", t.bad)
	}
	uniq := make(map[Nd]int, len(t.m))
	for _, id := range t.ids {
		nd := t.m[id]
		if nd.lvl < 0 || nd.lvl >= p.cfg.Varnum {
			p.fail("canon", "node %d has variable %d", id, nd.lvl)
		}
		if nd.lo == nd.hi {
			p.fail("canon", "node %d %v has two identical branches", id, nd)
		}
		for _, ch := range [2]int{nd.lo, nd.hi} {
			if ch == 0 || ch == 1 {
				continue
			}
			x, ok := t.m[ch]
			if !ok {
				p.fail("canon", "node %d %v has a branch to %d, which is not active", id, nd, ch)
			}
			if x.lvl <= nd.lvl {
				p.fail("canon", "node %d %v has a branch to node %d %v", id, nd, ch, x)
			}
		}
		if o, ok := uniq[nd]; ok {
			p.fail("canon", "nodes %d and %d are both %v", o, id, nd)
		}
		uniq[nd] = id
	}
}

// auditEqual checks that held nodes with the same function are equal nodes.
func (p *P) auditEqual() {
	hs := p.allHandles()
	if len(hs) > 24 {
		hs = hs[:24]
	}
	for i, h := range hs {
		for _, g := range hs[:i] {
			exp := ttEq(h.tt, g.tt)
			if (h.id() == g.id()) != exp {
				p.fail("equal", "nodes %d (%s) and %d (%s): same function %v, same node %v", h.id(), h.kind, g.id(), g.kind, exp, !exp)
			}
			c := p.quiet("equal", func(c *call) { c.n[0], c.n[1] = h.n, g.n })
			if c.ok != exp {
				p.fail("equal", "Equal(%d, %d) is %v", h.id(), g.id(), c.ok)
			}
		}
	}
}

func (p *P) checkStat(s Stat, t *Table) {
	if s.Used+s.Free != s.Alloc {
		p.fail("stats", "%d used + %d free nodes in a table of %d", s.Used, s.Free, s.Alloc)
	}
	if s.Used != len(t.m)+2 {
		p.fail("stats", "%d used nodes, %d active nodes", s.Used, len(t.m)+2)
	}
	// prevTab may be older than st: compare only with what was recorded together
	if s.Produced < len(t.m) {
		p.fail("stats", "%d produced nodes, %d active nodes besides the constants", s.Produced, len(t.m))
	}
	if p.stOK {
		o := p.st
		if s.Produced < o.Produced || s.GC < o.GC {
			p.fail("stats", "produced nodes go from %d to %d, collections from %d to %d", o.Produced, s.Produced, o.GC, s.GC)
		}
		n := 0
		for _, id := range t.ids {
			if x, ok := p.prevTab.m[id]; !ok || x != t.m[id] {
				n++
			}
		}
		if n > s.Produced-o.Produced {
			p.fail("stats", "%d new active nodes, but only %d were counted as produced", n, s.Produced-o.Produced)
		}
		if s.GC == o.GC {
			if s.Alloc != o.Alloc {
				p.fail("growth", "the table goes from %d to %d nodes without a collection", o.Alloc, s.Alloc)
			}
			if s.Used-o.Used != s.Produced-o.Produced {
				p.fail("stats", "without a collection, %d more used nodes, and %d produced", s.Used-o.Used, s.Produced-o.Produced)
			}
		}
		if s.Alloc < o.Alloc {
			p.fail("growth", "the table shrinks from %d to %d nodes", o.Alloc, s.Alloc)
		}
		if inc := p.cfg.Maxinc; inc > 0 && int64(s.Alloc-o.Alloc) > int64(inc)*int64(s.GC-o.GC) {
			p.fail("growth", "the table grows from %d to %d in %d collections (Maxnodeincrease %d)", o.Alloc, s.Alloc, s.GC-o.GC, inc)
		}
		p.w.cnt.GCs += int64(s.GC - o.GC)
		if s.Alloc > o.Alloc {
			p.w.cnt.Resizes++
		}
	}
	if p.cfg.Maxnodesize > 0 && s.Alloc > p.limit() {
		p.fail("growth", "the table has %d nodes (Maxnodesize %d, initial size %d)", s.Alloc, p.cfg.Maxnodesize, p.initAlloc)
	}
	if s.dbg && s.exact {
		if s.Ext-s.Rec != s.Out {
			p.fail("stats", "statistics: %d external references, %d reclaimed; %d are outstanding", s.Ext, s.Rec, s.Out)
		}
		p.w.cnt.Probes["debug-refs-checked"]++
	}
	p.st, p.prevTab, p.stOK = s, t, true
}

// bounded is the bookkeeping for the bound on the size of the table.
func (p *P) boundBefore() (int, Stat) {
	t := p.snapshot()
	set := p.roots(t)
	for id := range p.stickies(t) {
		set[id] = true
	}
	return len(set) + 2, p.stats()
}

func (p *P) boundAfter(op *Op, live int, s0 Stat) {
	s := p.stats()
	d := s.Produced - s0.Produced
	if op.K == "fill" {
		d = 0
	}
	if op.K == "gc" {
		d = 4 * p.k
	}
	if live+d > p.maxLive {
		p.maxLive = live + d
	}
	minf := p.cfg.Minfree
	if minf < 0 {
		minf = 20
	}
	if minf > 60 {
		return
	}
	bound := int(math.Ceil(2*float64(p.maxLive)*100/float64(99-minf))) + 4
	if len(p.w.gs) > 0 {
		bound *= 2 // goroutines of the library may be late
	}
	if bound < p.initAlloc {
		bound = p.initAlloc
	}
	if s.Alloc > bound {
		p.fail("unbounded", "the table has %d nodes, although never more than %d were live (bound %d, Minfreenodes %d)", s.Alloc, p.maxLive, bound, minf)
	}
	p.w.cnt.Probes["table-bound-checked"]++
}

// finale releases everything and checks that everything is reclaimed.
func (p *P) finale() {
	if p.cfg.Varnum > 500 || p.st.Alloc > 5000 {
		p.opKind = "end"
		if p.cfg.Varnum <= 4000 {
			p.audit()
		}
		return
	}
	p.opKind = "end"
	p.bound = p.maxSteps()
	p.audit()
	p.forceGC(true, 12345)
	p.audit()
	for i := range p.repl {
		p.repl[i] = nil
	}
	p.closeBDD()
	if p.w.c.Prop == "C08" {
		p.retained()
	}
	p.forceGC(true, 54321)
	p.audit()
	rsim.SetStepLimit(0)
}

// postmortem adds to v the classes of everything that is broken.
func (p *P) postmortem(v *Violation, op *Op) {
	try := func(f func()) {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(*violPanic); ok {
					for _, c := range x.v.Classes {
						if !v.Has(c) {
							v.Classes = append(v.Classes, c)
							v.Detail += "\n  also: " + x.v.Detail
						}
					}
				}
			}
		}()
		p.bound = p.maxSteps()
		rsim.SetStepLimit(p.bound)
		p.w.viol = nil
		f()
	}
	p.infl, p.evs = nil, nil
	rsim.SaveEv()
	if p.b == nil {
		return
	}
	var t *Table
	try(func() { t = p.snapshot() })
	if t == nil {
		return
	}
	kind := p.opKind
	for _, h := range p.allHandles() {
		h := h
		try(func() { p.checkHandle(t, h) })
	}
	// the operands of the failing operation
	if op != nil {
		for _, s := range append([]int{op.A, op.B, op.C}, op.S...) {
			if h := p.slot(s); h != nil && h.tt != nil {
				if got, e := p.eval(t, h.id()); e != "" || !ttEq(got, h.tt) {
					if !v.Has("operand-broken") {
						v.Classes = append(v.Classes, "operand-broken")
					}
				}
			}
		}
	}
	try(func() { p.auditHeld(t) })
	try(func() { p.auditCanon(t) })
	try(func() { p.auditEqual() })
	try(func() { p.checkStat(p.stats(), t) })
	rsim.SetStepLimit(0)
	p.opKind = kind
}

var nodeBads = []string{"not", "apply1", "apply2", "and1", "and2", "or1", "or2", "or3", "imp1", "imp2", "equiv1", "ite1", "ite2", "ite3", "exist1", "exist2", "appex1", "appex2", "appex3", "andexist1", "andexist3", "replace", "low", "high", "label", "scanset", "satcount", "allsat", "allnodes", "dot", "print", "equal"}
var otherBads = []string{"ith", "nith", "makeset", "makecube", "cubeorder", "cubelen", "cubelen0", "applyop", "appexop", "repllen", "replrange", "repldup", "repldupnew", "repltarget", "replnil", "labelconst", "opstring", "new", "retnode"}

func nBads() int { return len(nodeBads)*5 + len(otherBads)*6 }

// bad makes an invalid call; op.N selects it, op.A and op.B give valid operands.
func (p *P) bad(op *Op) bool {
	n := op.N % nBads()
	b := p.b
	h1, h2 := p.slot(op.A), p.slot(op.B)
	if h1 == nil || h2 == nil {
		return false
	}
	x, y := h1.n, h2.n
	vs := p.quiet("makeset", func(c *call) { c.vs = p.levels([]int{op.Op}) })
	if vs.node == nil {
		if p.limited {
			p.errored = p.errored || b.Errored()
			return false
		}
		p.fail("error:makeset", "Makeset returned nil")
	}
	name := ""
	okNode := func(c *call) bool { return c.node == nil }
	okErr := func(c *call) bool { return c.err != nil }
	var run func(c *call)
	var ok func(c *call) bool
	needStatus := true
	called := false
	if n < len(nodeBads)*5 {
		name = nodeBads[n/5]
		var z rudd.Node
		what := ""
		switch n % 5 {
		case 0:
			what = "nil"
		case 1:
			v := p.stats().Alloc + op.C%3
			switch name {
			case "and2", "or1", "or3":
				// the table may grow before the call looks at this operand
				v += int64or(1<<40, 1<<30)
			}
			z, what = rudd.Node(&v), fmt.Sprint("node ", v)
		case 2:
			v := -1 - op.C%5
			z, what = rudd.Node(&v), fmt.Sprint("node ", v)
		case 3:
			// the id of a free slot of the table, that the call cannot use before
			// it looks at this operand
			switch name {
			case "and2", "or1", "or3":
				return false
			}
			t := p.snapshot()
			al := p.stats().Alloc
			v := -1
			for j := 0; j < al; j++ {
				i := (op.C*7 + j) % al
				if _, ok := t.m[i]; i > 1 && !ok {
					v = i
					break
				}
			}
			if v < 0 {
				return false
			}
			z, what = rudd.Node(&v), fmt.Sprint("free node ", v)
		case 4:
			// the nil result of a rejected call
			if b.Errored() {
				what = "chained nil"
			} else {
				what = "nil"
			}
			c := p.quiet("not", nil)
			z = c.node
			if z != nil {
				p.fail("bad", "Not(nil) returned node %d", *z)
			}
			p.errored = p.errored || b.Errored()
		}
		ok = okNode
		switch name {
		case "not":
			run = func(c *call) { c.node = b.Not(z) }
		case "apply1":
			run = func(c *call) { c.node = b.Apply(z, y, rudd.Operator(op.Op%10)) }
		case "apply2":
			run = func(c *call) { c.node = b.Apply(x, z, rudd.Operator(op.Op%10)) }
		case "and1":
			run = func(c *call) { c.node = b.And(z, x) }
		case "and2":
			run = func(c *call) { c.node = b.And(x, y, z) }
		case "or1":
			run = func(c *call) { c.node = b.Or(z, x, y) }
		case "or2":
			run = func(c *call) { c.node = b.Or(x, z) }
		case "or3":
			run = func(c *call) { c.node = b.Or(x, z, y) }
		case "imp1":
			run = func(c *call) { c.node = b.Imp(z, x) }
		case "imp2":
			run = func(c *call) { c.node = b.Imp(x, z) }
		case "equiv1":
			run = func(c *call) { c.node = b.Equiv(z, x) }
		case "ite1":
			run = func(c *call) { c.node = b.Ite(z, x, y) }
		case "ite2":
			run = func(c *call) { c.node = b.Ite(x, z, y) }
		case "ite3":
			run = func(c *call) { c.node = b.Ite(x, y, z) }
		case "exist1":
			run = func(c *call) { c.node = b.Exist(z, vs.node) }
		case "exist2":
			run = func(c *call) { c.node = b.Exist(x, z) }
		case "appex1":
			run = func(c *call) { c.node = b.AppEx(z, x, rudd.Operator(op.Op%4), vs.node) }
		case "appex2":
			run = func(c *call) { c.node = b.AppEx(x, z, rudd.Operator(op.Op%4), vs.node) }
		case "appex3":
			run = func(c *call) { c.node = b.AppEx(x, y, rudd.Operator(op.Op%4), z) }
		case "andexist1":
			run = func(c *call) { c.node = b.AndExist(z, y, vs.node) }
		case "andexist3":
			run = func(c *call) { c.node = b.AndExist(x, y, z) }
		case "replace":
			var r *Repl
			for _, q := range p.repl {
				if q != nil {
					r = q
				}
			}
			if r == nil {
				return false
			}
			run = func(c *call) { c.node = b.Replace(z, r.r) }
		case "low":
			run = func(c *call) { c.node = b.Low(z) }
		case "high":
			run = func(c *call) { c.node = b.High(z) }
		case "label":
			run = func(c *call) { c.num = b.Label(z) }
			ok = func(c *call) bool { return c.num == -1 }
		case "scanset":
			run = func(c *call) { c.is = b.Scanset(z) }
			ok = func(c *call) bool { return c.is == nil }
		case "satcount":
			run = func(c *call) { c.big = b.Satcount(z) }
			ok = func(c *call) bool { return c.big != nil && c.big.Sign() == 0 }
		case "allsat":
			run = func(c *call) { c.err = b.Allsat(func([]int) error { called = true; return nil }, z) }
			ok = okErr
		case "allnodes":
			run = func(c *call) {
				c.err = b.Allnodes(func(int, int, int, int) error { called = true; return nil }, x, z)
			}
			ok = okErr
		case "dot":
			cb := &cbState{p: p, kind: "dot", wr: true}
			run = func(c *call) { c.err = b.Dot(cb, x, z) }
			ok = okErr
		case "print":
			cb := &cbState{p: p, kind: "print", wr: true}
			run = func(c *call) { b.Print(cb, x, z) }
			ok = func(c *call) bool { return true }
		case "equal":
			needStatus = false
			if n%5 == 0 || n%5 == 4 {
				run = func(c *call) { c.ok = b.Equal(x, z) || b.Equal(z, y) }
				ok = func(c *call) bool { return !c.ok }
			} else {
				run = func(c *call) { c.ok = b.Equal(x, z) }
				ok = func(c *call) bool { return !c.ok }
			}
		}
		name += "(" + what + ")"
	} else {
		m := n - len(nodeBads)*5
		name = otherBads[m/6]
		v := m % 6
		vn := p.cfg.Varnum
		outs := []int{vn, -1, vn + 1 + op.C%5, -vn - 2, int64or(1<<32, math.MaxInt-1), math.MaxInt}
		out := outs[v]
		in := p.act[op.A%p.k]
		in2 := p.act[op.B%p.k]
		ok = okNode
		switch name {
		case "ith":
			run = func(c *call) { c.node = b.Ithvar(out) }
		case "nith":
			run = func(c *call) { c.node = b.NIthvar(out) }
		case "makeset":
			s := []int{in, out}
			if op.C&1 == 1 {
				s = []int{out, in}
			}
			run = func(c *call) { c.node = b.Makeset(s) }
			ok = func(c *call) bool { return c.node == nil || *c.node == 0 }
		case "makecube":
			s := []int{in, out}
			if v == 1 || v == 3 {
				s = []int{out, in}
			}
			run = func(c *call) { c.node = b.Makecube(s, []bool{op.C&1 == 1, op.C&2 == 2}) }
		case "cubeorder":
			if p.k < 2 {
				return false
			}
			i := op.A % (p.k - 1)
			s := [][]int{{p.act[i+1], p.act[i]}, {p.act[i], p.act[i]}, {p.act[0], p.act[p.k-1], p.act[i]}, {p.act[i], p.act[i+1], p.act[i+1]}, {p.act[p.k-1], p.act[0]}, {p.act[i+1], p.act[i], p.act[i+1]}}[v]
			pol := []bool{op.C&1 == 1, op.C&2 == 2, op.C&4 == 4}[:len(s)]
			run = func(c *call) { c.node = b.Makecube(s, pol) }
		case "cubelen":
			pol := make([]bool, []int{0, 2, 3, 5, 7, vn + 1}[v])
			run = func(c *call) { c.node = b.Makecube([]int{in}, pol) }
		case "cubelen0":
			d := []int{-1, 1, -2, 2, 7, 9}[v]
			if vn+d < 0 {
				return false
			}
			pol := make([]bool, vn+d)
			run = func(c *call) { c.node = b.Makecube(nil, pol) }
		case "applyop":
			o := rudd.Operator([]int{10, 11, 12, -1, 99, math.MinInt}[v])
			run = func(c *call) { c.node = b.Apply(x, y, o) }
		case "appexop":
			o := rudd.Operator([]int{4, 7, 10, -1, 99, math.MinInt}[v])
			set := vs.node
			if op.C&1 == 1 {
				set = b.True()
				if v < 2 {
					o = 10
				}
			}
			run = func(c *call) { c.node = b.AppEx(x, y, o, set) }
		case "repllen":
			s := []int{in}
			run = func(c *call) { c.rep, c.err = b.NewReplacer(s, []int{}) }
			if v&1 == 1 {
				run = func(c *call) { c.rep, c.err = b.NewReplacer(nil, s) }
			}
			ok, needStatus = okErr, false
		case "replrange":
			run = func(c *call) { c.rep, c.err = b.NewReplacer([]int{out}, []int{in}) }
			if op.C&1 == 1 {
				run = func(c *call) { c.rep, c.err = b.NewReplacer([]int{in}, []int{out}) }
			}
			ok, needStatus = okErr, false
		case "repldup":
			if p.k < 3 {
				return false
			}
			i := op.A % p.k
			a, t1, t2 := p.act[i], p.act[(i+1)%p.k], p.act[(i+2)%p.k]
			run = func(c *call) { c.rep, c.err = b.NewReplacer([]int{a, a}, []int{t1, t2}) }
			ok, needStatus = okErr, false
		case "repldupnew":
			if p.k < 3 {
				return false
			}
			i := op.A % p.k
			a, t1, t2 := p.act[i], p.act[(i+1)%p.k], p.act[(i+2)%p.k]
			run = func(c *call) { c.rep, c.err = b.NewReplacer([]int{t1, t2}, []int{a, a}) }
			ok, needStatus = okErr, false
		case "repltarget":
			if in == in2 {
				return false
			}
			run = func(c *call) { c.rep, c.err = b.NewReplacer([]int{in, in2}, []int{in2, in}) }
			ok, needStatus = okErr, false
		case "replnil":
			run = func(c *call) { c.node = b.Replace(x, nil) }
		case "labelconst":
			k := b.From(v&1 == 1)
			run = func(c *call) { c.num = b.Label(k) }
			ok = func(c *call) bool { return c.num == -1 }
		case "opstring":
			o := rudd.Operator([]int{12, -1, 13, 99, math.MinInt, math.MaxInt}[v])
			run = func(c *call) { c.str = o.String() }
			needStatus = false
		case "new":
			vn := []int{0, -1, -7, math.MaxInt32, int64or(1<<33, math.MaxInt32-1), 0x200000}[v]
			run = func(c *call) {
				nb, err := rudd.New(vn)
				c.ok, c.err = nb != nil, err
			}
			ok, needStatus = func(c *call) bool { return !c.ok && c.err != nil }, false
		case "retnode":
			if p.isDebug() {
				return false
			}
			al := p.stats().Alloc
			id := []int{-1, al, al + 1, -5, int64or(1<<40, math.MaxInt-1), math.MinInt}[v]
			run = func(c *call) { c.node = b.Retnode(id) }
			needStatus = false
		}
		name = fmt.Sprintf("%s#%d", name, v)
	}
	c := &call{p: p, k: "raw", raw: run}
	p.opKind = "bad " + name
	p.api(c, op.Ev)
	p.done(c)
	p.done(vs)
	p.w.cnt.Fired["invalid-call"]++
	p.w.cnt.Probes["bad-"+name[:indexAny(name)]]++
	if !ok(c) {
		p.fail("bad", "the invalid call %s is not rejected: node %v, err %v, num %v, set %v, count %v", name, c.node, c.err, c.num, c.is, c.big)
	}
	if called {
		p.fail("bad", "the invalid call %s calls its function", name)
	}
	if needStatus && !b.Errored() {
		p.fail("bad", "the invalid call %s does not set the error status", name)
	}
	p.errored = b.Errored()
	p.trace("rejected %s %v", name, p.errored)
	p.opKind = "bad"
	return true
}

func indexAny(s string) int {
	for i, c := range s {
		if c == '(' || c == '#' {
			return i
		}
	}
	return len(s)
}

func (p *P) isDebug() bool { return strings.Contains(p.w.c.Build, "debug") }

// chain runs one operation on functions with many variables, small diagrams and
// exponentially many paths, and bounds its number of steps.
func (p *P) chain(op *Op) bool {
	b := p.b
	n := p.cfg.Varnum / 2 * 2
	const bound = 40_000_000
	hold := []rudd.Node{}
	var calls []*call
	node := func(k string, f func(c *call)) (rudd.Node, bool) {
		c := &call{p: p, k: k}
		f(c)
		p.bound = bound
		p.api(c, nil)
		if c.node == nil {
			p.done(c)
			p.errored = true
			if !p.limited {
				p.fail("error:"+k, "%s returned nil: %s", k, b.Error())
			}
			if !b.Errored() {
				p.fail("memerr", "%s returned nil without an error status", k)
			}
			return nil, false
		}
		h := p.handle(c, c.node, nil, k)
		p.done(c)
		hold = append(hold, c.node)
		calls = append(calls, c)
		defer func() { p.chainH = append(p.chainH, h) }()
		return c.node, true
	}
	defer func() {
		for _, h := range p.chainH {
			p.release(h)
		}
		p.chainH = nil
	}()
	_ = hold
	xor := func(vars []int) (rudd.Node, bool) {
		r := b.False()
		ok := true
		for i := len(vars) - 1; i >= 0; i-- {
			l := vars[i]
			prev := r
			if r, ok = node("apply", func(c *call) { c.n[0], c.n[1], c.op = prev, b.Ithvar(l), rudd.OPxor }); !ok {
				return nil, false
			}
		}
		return r, true
	}
	var even, odd, all []int
	for i := 0; i < n; i += 2 {
		even = append(even, i)
		odd = append(odd, i+1)
		all = append(all, i, i+1)
	}
	fall, ok := xor(all)
	if !ok {
		return true
	}
	fe, ok := xor(even)
	if !ok {
		return true
	}
	fo, ok := xor(odd)
	if !ok {
		return true
	}
	set, ok := node("makeset", func(c *call) { c.vs = even[len(even)/2:] })
	if !ok {
		return true
	}
	rc := p.quiet("newreplacer", func(c *call) { c.vs, c.vt = even, odd })
	if rc.err != nil {
		p.fail("error:repl", "NewReplacer is rejected: %v", rc.err)
	}
	if op.N >= 0 {
		p.fill(op.N, uint64(op.B))
	}
	p.bound = bound
	c := &call{p: p}
	switch op.A % 12 {
	case 0:
		c.k, c.n[0] = "not", fall
	case 1:
		c.k, c.n[0], c.n[1], c.op = "apply", fe, fo, rudd.OPand
	case 2:
		c.k, c.n[0], c.n[1], c.op = "apply", fall, fe, rudd.OPimp
	case 3:
		c.k, c.n[0], c.n[1], c.n[2] = "ite", fall, fe, fo
	case 4:
		c.k, c.n[0], c.n[1] = "exist", fall, set
	case 5:
		c.k, c.n[0], c.n[1], c.n[2], c.op = "appex", fe, fo, set, rudd.OPor
	case 6:
		c.k, c.n[0], c.n[1], c.n[2] = "andexist", fall, fe, set
	case 7:
		c.k, c.n[0], c.r = "replace", fe, rc.rep
	case 8:
		c.k, c.n[0] = "satcount", fall
	case 9:
		k := 0
		c.k, c.ns, c.fn = "allnodes", []rudd.Node{fall, fe}, func(int, int, int, int) error { k++; return nil }
	case 10:
		if p.errored || b.Errored() {
			return true
		}
		c.k, c.ns, c.wr = "dot", []rudd.Node{fall}, &cbState{p: p, kind: "dot", wr: true}
	case 11:
		c.k, c.n[0], c.n[1], c.op = "apply", fall, fall, rudd.OPdiff
	}
	before := rsim.Steps()
	p.api(c, op.Ev)
	p.w.cnt.Probes["chain-"+c.k]++
	if d := rsim.Steps() - before; d > p.w.cnt.MaxSteps {
		p.w.cnt.MaxSteps = d
	}
	if c.node == nil && op.A%12 < 8 || c.node == nil && op.A%12 == 11 {
		if !p.limited {
			p.fail("error:"+c.k, "%s returned nil: %s", c.k, b.Error())
		}
		p.w.cnt.MemFails++
		p.w.cnt.Fired["table-exhausted"]++
		p.w.cnt.Probes["chain-exhausted-"+c.k]++
	}
	p.done(c)
	if b.Errored() {
		p.errored = true
	}
	if c.k == "satcount" && c.big.Cmp(bigPow2(p.cfg.Varnum-1)) != 0 {
		p.fail("satcount", "Satcount of a parity over %d variables is %v", p.cfg.Varnum, c.big)
	}
	p.bound = p.maxSteps()
	return true
}

// int64or returns x, or y on machines where x is not an int.
func int64or(x int64, y int) int {
	if int64(int(x)) == x {
		return int(x)
	}
	return y
}
