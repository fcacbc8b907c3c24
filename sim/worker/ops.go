package main

import (
	"fmt"
	"io"
	"math/big"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/dalzilio/rudd"
	"verif/rsim"
	. "verif/rsim/sc"
)

const stepLimit = 400_000_000

// maxSteps is the limit on the number of steps of a call. An enumeration takes
// a time proportional to the number of variables for each cube.
func (p *P) maxSteps() int64 {
	if p.cfg.Varnum > 1<<20 {
		return 12 * stepLimit
	}
	return stepLimit
}

func (p *P) boolean(kind string) bool {
	switch kind {
	case "const", "ith", "nith", "makeset", "makecube", "not", "apply", "and", "or", "imp", "equiv", "ite":
		return true
	}
	return false
}

// node makes a call that returns a Node denoting exp (alt: it may also fail).
func (p *P) node(op *Op, c *call, exp TT, mayNil bool, fit bool) *Handle {
	needFit, why := false, ""
	if p.limited && fit {
		needFit, why = p.fits(exp, c.hs)
	}
	errBefore := p.errored
	p.api(c, op.Ev)
	n := c.node
	if p.b.Errored() {
		p.errored = true
	}
	if n == nil {
		p.done(c)
		if mayNil && !p.limited {
			if !p.errored {
				p.fail("error:"+op.K, "%s returned nil without setting the error status", op.K)
			}
			p.w.cnt.Probes["replace-refused"]++
			p.trace("refused")
			return nil
		}
		if !p.limited {
			p.fail("error:"+op.K, "a valid call to %s returned nil (error status: %q)", op.K, p.b.Error())
		}
		if needFit {
			p.fail("mustfit:"+op.K, "%s failed although its result fits in the table: %s (error status %q)", op.K, why, p.b.Error())
		}
		if !p.errored {
			p.fail("memerr", "%s returned nil without setting the error status", op.K)
		}
		p.w.cnt.MemFails++
		p.w.cnt.Fired["table-exhausted"]++
		p.trace("nil")
		return nil
	}
	if p.errored && !errBefore && !p.limited {
		p.fail("error:"+op.K, "a valid call to %s set the error status: %s", op.K, p.b.Error())
	}
	h := p.handle(c, n, exp, op.K)
	p.done(c)
	p.observe(h, op.Obs)
	return h
}

// wrong reports that a result is not the expected function.
func (p *P) wrong(h *Handle, format string, a ...interface{}) {
	cl := "wrong:" + h.kind
	if h.verified {
		cl = "held"
	}
	p.fail(cl, format, a...)
}

// observe compares what the node denotes with the model.
func (p *P) observe(h *Handle, mode int) {
	if h == nil || h.tt == nil {
		return
	}
	switch mode {
	case 1:
		t, err := p.snapFrom(h.n)
		if err != nil {
			p.wrong(h, "the node %d returned by %s is not valid: %v", h.id(), h.kind, err)
		}
		got, e := p.eval(t, h.id())
		if e != "" || !ttEq(got, h.tt) {
			if s, ok := p.bySat(h); ok && ttEq(s, h.tt) {
				p.fail("allnodes", "Allnodes and Allsat disagree on node %d (%s)", h.id(), e)
			}
			p.wrong(h, "%s: node %d denotes %x instead of %x %s", h.kind, h.id(), got, h.tt, e)
		}
		h.verified = true
		p.trace("%x", got)
	case 2:
		n := 0
		got, ok := p.walk(h.n, &n, map[int]TT{})
		if n > 80 {
			return
		}
		if !ok || !ttEq(got, h.tt) {
			t, err := p.snapFrom(h.n)
			if err == nil {
				if g, e := p.eval(t, h.id()); e == "" && ttEq(g, h.tt) {
					p.fail("walk", "following Low, High and Label from node %d gives %x instead of %x", h.id(), got, h.tt)
				}
			}
			p.wrong(h, "%s: node %d denotes %x instead of %x", h.kind, h.id(), got, h.tt)
		}
		h.verified = true
		p.trace("%x", got)
	case 3:
		got, ok := p.bySat(h)
		if !ok || !ttEq(got, h.tt) {
			t, err := p.snapFrom(h.n)
			if err == nil {
				if g, e := p.eval(t, h.id()); e == "" && ttEq(g, h.tt) {
					p.fail("allsat", "Allsat of node %d gives %x instead of %x", h.id(), got, h.tt)
				}
			}
			p.wrong(h, "%s: node %d denotes %x instead of %x", h.kind, h.id(), got, h.tt)
		}
		h.verified = true
		p.trace("%x", got)
	}
}

// bySat computes the function of a node with Allsat.
func (p *P) bySat(h *Handle) (TT, bool) {
	t := ttConst(p.k, false)
	ok := true
	c := p.quiet("allsat", func(c *call) {
		c.n[0] = h.n
		c.fs = func(v []int) error {
			if len(v) != p.cfg.Varnum || !p.addCube(t, v) {
				ok = false
			}
			return nil
		}
	})
	return t, ok && c.err == nil
}

// addCube adds a cube to t; it is false if it overlaps it or fixes a variable
// that the program does not use.
func (p *P) addCube(t TT, v []int) bool {
	base, free := 0, []int{}
	fixed := 0
	for i, l := range p.act {
		switch v[l] {
		case 0:
			fixed++
		case 1:
			base |= 1 << uint(i)
			fixed++
		case -1:
			free = append(free, i)
		default:
			return false
		}
	}
	ok := true
	nfix := 0
	for _, x := range v {
		if x != -1 {
			nfix++
		}
	}
	if nfix != fixed {
		ok = false
	}
	for m := 0; m < 1<<uint(len(free)); m++ {
		a := base
		for j, i := range free {
			if m>>uint(j)&1 == 1 {
				a |= 1 << uint(i)
			}
		}
		if t.bit(a) {
			ok = false
		}
		t[a>>6] |= 1 << (uint(a) & 63)
	}
	return ok
}

// walk computes the function of a node with Label, Low and High.
func (p *P) walk(n rudd.Node, cnt *int, memo map[int]TT) (TT, bool) {
	if n == nil {
		return nil, false
	}
	switch *n {
	case 0:
		return ttConst(p.k, false), true
	case 1:
		return ttConst(p.k, true), true
	}
	if r, ok := memo[*n]; ok {
		return r, true
	}
	*cnt++
	if *cnt > 80 {
		return nil, false
	}
	c := p.quiet("label", func(c *call) { c.n[0] = n })
	v, ok := p.lvl[c.num]
	if !ok {
		return nil, false
	}
	var ch [2]TT
	for i, k := range []string{"low", "high"} {
		c := &call{p: p, k: k}
		c.n[0] = n
		p.api(c, nil)
		if c.node == nil {
			p.done(c)
			return nil, false
		}
		h := p.handle(c, c.node, nil, k)
		p.done(c)
		t, ok := p.walk(h.n, cnt, memo)
		p.release(h)
		if !ok {
			return nil, false
		}
		ch[i] = t
	}
	r := ttIte(ttVar(p.k, v), ch[1], ch[0])
	memo[*n] = r
	return r, true
}

func (p *P) trace(format string, a ...interface{}) {
	if p.w.trOn {
		p.w.tr = append(p.w.tr, p.opKind+" "+fmt.Sprintf(format, a...))
	}
}

// roots gives the nodes that are referenced. The result is an upper bound: the
// finalizer that is suspended midway may have released its reference already.
// Function rootsIf can leave that reference out.
func (p *P) roots(t *Table) map[int]bool { return p.rootsIf(t, true) }

func (p *P) rootsIf(t *Table, running bool) map[int]bool {
	set := map[int]bool{}
	for _, r := range p.w.byPtr {
		if r.in == p.in && r.state != refDone && (running || r.state != refRunning) {
			t.reach(set, r.id)
		}
	}
	for _, h := range p.slots {
		if h != nil {
			t.reach(set, h.id())
		}
	}
	for _, h := range p.wslot {
		if h != nil {
			t.reach(set, h.id())
		}
	}
	for _, bag := range p.bags {
		for _, h := range bag {
			t.reach(set, h.id())
		}
	}
	for id, nd := range t.m {
		if nd.lo < 2 && nd.hi < 2 {
			set[id] = true
		}
	}
	return set
}

func (p *P) stickies(t *Table) map[int]bool {
	set := map[int]bool{}
	for id, n := range p.in.maxOut {
		if n >= 512 {
			t.reach(set, id)
		}
	}
	return set
}

func (p *P) limit() int {
	if p.cfg.Maxnodesize > p.initAlloc {
		return p.cfg.Maxnodesize
	}
	return p.initAlloc
}

// fits tells whether the nodes still referenced plus the new nodes of exp are
// within the limit of the table.
func (p *P) fits(exp TT, hs []*Handle) (bool, string) {
	p.w.finishFin()
	t := p.snapshot()
	set := p.roots(t)
	for _, h := range hs {
		t.reach(set, h.id())
	}
	for id := range p.stickies(t) {
		set[id] = true
	}
	uniq := map[[3]int]int{}
	for id := range set {
		nd := t.m[id]
		uniq[[3]int{nd.lvl, nd.lo, nd.hi}] = id
	}
	nnew := 0
	memo := map[string]int{}
	var build func(f TT, i int) int
	build = func(f TT, i int) int {
		for i < p.k && !ttDep(p.k, f, i) {
			i++
		}
		if i == p.k {
			if f.bit(0) {
				return 1
			}
			return 0
		}
		key := ttKey(f)
		if id, ok := memo[key]; ok {
			return id
		}
		lo := build(ttCof(p.k, f, i, false), i+1)
		hi := build(ttCof(p.k, f, i, true), i+1)
		id, ok := uniq[[3]int{p.act[i], lo, hi}]
		if !ok {
			nnew++
			id = -nnew
			uniq[[3]int{p.act[i], lo, hi}] = id
		}
		memo[key] = id
		return id
	}
	build(exp, 0)
	total := len(set) + 2 + nnew
	return total <= p.limit(), fmt.Sprintf("%d referenced nodes, %d new nodes, limit %d", len(set)+2, nnew, p.limit())
}

// topVar is the first variable of f, or -1.
func (p *P) topVar(f TT) int {
	for i := 0; i < p.k; i++ {
		if ttDep(p.k, f, i) {
			return i
		}
	}
	return -1
}

// canonCount is the number of nodes of the reduced ordered diagram of fs.
func (p *P) canonCount(fs []TT) int {
	seen := map[string]bool{}
	var rec func(f TT, i int)
	rec = func(f TT, i int) {
		for i < p.k && !ttDep(p.k, f, i) {
			i++
		}
		if i == p.k {
			return
		}
		k := ttKey(f)
		if seen[k] {
			return
		}
		seen[k] = true
		rec(ttCof(p.k, f, i, false), i+1)
		rec(ttCof(p.k, f, i, true), i+1)
	}
	for _, f := range fs {
		rec(f, 0)
	}
	return len(seen)
}

// checkReport verifies that t is exactly the diagram of the roots hs.
func (p *P) checkReport(class string, t *Table, hs []*Handle, ids []int) {
	if t.bad != "" {
		p.fail(class, "%s: %s", class, t.bad)
	}
	set := map[int]bool{}
	var fs []TT
	for i, id := range ids {
		got, e := p.eval(t, id)
		if e != "" {
			p.fail(class, "%s: the report of root %d is wrong: %s", class, id, e)
		}
		if !ttEq(got, hs[i].tt) {
			p.fail(class, "%s: root %d is reported as %x instead of %x", class, id, got, hs[i].tt)
		}
		t.reach(set, id)
		fs = append(fs, hs[i].tt)
	}
	if len(set) != len(t.ids) {
		p.fail(class, "%s: %d nodes reported, %d are reachable from the roots", class, len(t.ids), len(set))
	}
	if n := p.canonCount(fs); n != len(t.ids) {
		p.fail(class, "%s: %d nodes reported for a function with %d nodes", class, len(t.ids), n)
	}
}

var (
	rowRe  = regexp.MustCompile(`^\s*(\d+)\s*\[\s*(\d+)\s*\]\s*\?\s*(\d+)\s*:\s*(\d+)\s*$`)
	dotNd  = regexp.MustCompile(`(?s)(\d+)\s+\[label=<\s*<FONT[^>]*>(\d+)</FONT>\s*<FONT[^>]*>\[(\d+)\]</FONT>`)
	dotEd  = regexp.MustCompile(`(\d+) -> (\d+) \[style=(dotted|filled)\]`)
	dotBeg = "digraph"
)

func parsePrint(s string) (*Table, string) {
	t := newTable()
	for _, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		m := rowRe.FindStringSubmatch(l)
		if m == nil {
			return t, "unexpected row " + strconv.Quote(l)
		}
		var v [4]int
		for i := range v {
			v[i], _ = strconv.Atoi(m[i+1])
		}
		t.add(v[0], v[1], v[2], v[3])
	}
	return t, t.bad
}

func parseDot(s string) (*Table, string) {
	t := newTable()
	if !strings.Contains(s, dotBeg) || !strings.HasSuffix(strings.TrimSpace(s), "}") {
		return t, "not a complete digraph"
	}
	for _, m := range dotNd.FindAllStringSubmatch(s, -1) {
		id, _ := strconv.Atoi(m[1])
		lvl, _ := strconv.Atoi(m[2])
		id2, _ := strconv.Atoi(m[3])
		if id != id2 {
			return t, fmt.Sprintf("node %d is labelled %d", id, id2)
		}
		t.add(id, lvl, 0, 0)
	}
	seen := map[[2]string]bool{}
	for _, m := range dotEd.FindAllStringSubmatch(s, -1) {
		a, _ := strconv.Atoi(m[1])
		b, _ := strconv.Atoi(m[2])
		nd, ok := t.m[a]
		if !ok {
			return t, fmt.Sprintf("edge from the unknown node %d", a)
		}
		if seen[[2]string{m[1], m[3]}] {
			return t, fmt.Sprintf("two %s edges from node %d", m[3], a)
		}
		seen[[2]string{m[1], m[3]}] = true
		if b == 0 {
			return t, fmt.Sprintf("edge from node %d to False", a)
		}
		if m[3] == "dotted" {
			nd.lo = b
		} else {
			nd.hi = b
		}
		t.m[a] = nd
	}
	return t, t.bad
}

// runOp runs one operation of the program.
func (p *P) runOp(op *Op) {
	defer func(k string) { p.opKind = k }(p.opKind)
	p.opKind = op.K
	p.bound = p.maxSteps()
	before := rsim.Steps()
	ran := p.dispatch(op)
	if len(p.infl) == 0 {
		rsim.SetStepLimit(0)
	}
	st := rsim.Steps() - before
	if st > p.w.cnt.MaxSteps {
		p.w.cnt.MaxSteps = st
	}
	if !ran {
		p.w.cnt.Skipped++
		return
	}
	if p.est == nil {
		p.est = map[string]int64{}
	}
	if e, ok := p.est[op.K]; ok {
		p.est[op.K] = (3*e + st) / 4
	} else {
		p.est[op.K] = st
	}
	p.w.cnt.Ops++
	p.w.cnt.Kinds[op.K]++
	p.w.noteS(op.K)
	p.w.note(uint64(st))
	if op.Aud != 0 {
		p.audit()
	}
}

func (p *P) levels(is []int) []int {
	r := make([]int, len(is))
	for j, i := range is {
		r[j] = p.act[i%p.k]
	}
	return r
}

func (p *P) dispatch(op *Op) bool {
	b := p.b
	_ = b
	c := &call{p: p, k: op.K}
	last := func(i int) bool { return op.Last>>uint(i)&1 == 1 }
	opd := func(i, s int, others ...int) bool {
		h := p.slot(s)
		if h == nil || h.tt == nil {
			return false
		}
		l := last(i)
		for _, o := range others {
			if o == s {
				l = false
			}
		}
		c.n[i] = c.operand(i, h, l)
		return true
	}
	// the slots of last uses are emptied once all operands are taken
	empty := func() {
		for _, l := range c.last {
			for s, h := range p.slots {
				if h == l.h && !l.hold {
					p.slots[s] = nil
				}
			}
		}
	}
	store := func(h *Handle) {
		if h != nil {
			p.w.note(uint64(h.id()))
			p.setSlot(op.D, h)
		}
	}
	has := func(ss ...int) bool {
		for _, s := range ss {
			if h := p.slot(s); h == nil || h.tt == nil {
				return false
			}
		}
		return true
	}
	switch op.K {
	case "const":
		v := op.A != 0
		c.k = [2]string{"false", "true"}[op.A&1]
		if op.N != 0 {
			c.k = "from"
			c.i = op.A & 1
		}
		v = op.A&1 == 1
		store(p.node(op, c, ttConst(p.k, v), false, true))
	case "ith", "nith":
		i := op.A % p.k
		c.i = p.act[i]
		t := ttVar(p.k, i)
		if op.K == "nith" {
			t = ttNot(p.k, t)
		}
		store(p.node(op, c, t, false, true))
	case "makeset":
		c.vs = p.levels(op.Vs)
		t := ttConst(p.k, true)
		set := map[int]bool{}
		for _, i := range op.Vs {
			set[i%p.k] = true
			t = ttOp(p.k, t, ttVar(p.k, i%p.k), opTables[0])
		}
		h := p.node(op, c, t, false, true)
		if h != nil {
			h.isSet = true
			h.set = sortedInts(set)
		}
		store(h)
	case "makecube":
		if len(op.Vs) != len(op.Vt) || len(op.Vs) == 0 {
			return false
		}
		t := ttConst(p.k, true)
		pol := map[int]bool{}
		for j, i := range op.Vs {
			pol[i%p.k] = op.Vt[j] != 0
		}
		for i := 0; i < p.k; i++ {
			if v, ok := pol[i]; ok {
				x := ttVar(p.k, i)
				if !v {
					x = ttNot(p.k, x)
				}
				c.vs = append(c.vs, p.act[i])
				c.pol = append(c.pol, v)
				t = ttOp(p.k, t, x, opTables[0])
			}
		}
		if len(pol) == p.cfg.Varnum && op.N != 0 {
			c.vs = nil
		}
		store(p.node(op, c, t, false, true))
	case "not":
		if !has(op.A) {
			return false
		}
		opd(0, op.A)
		empty()
		store(p.node(op, c, ttNot(p.k, c.hs[0].tt), false, true))
	case "apply", "imp", "equiv":
		if !has(op.A, op.B) {
			return false
		}
		opd(0, op.A, op.B)
		opd(1, op.B, op.A)
		empty()
		o := op.Op % 10
		if op.K == "imp" {
			o = 5
		}
		if op.K == "equiv" {
			o = 6
		}
		c.op = rudd.Operator(o)
		store(p.node(op, c, ttOp(p.k, c.hs[0].tt, c.hs[1].tt, opTables[o]), false, true))
	case "and", "or":
		if !has(op.S...) {
			return false
		}
		t := ttConst(p.k, op.K == "and")
		o := 0
		if op.K == "or" {
			o = 2
		}
		c.ns = []rudd.Node{}
		for i, s := range op.S {
			l := last(i)
			for j, s2 := range op.S {
				if i != j && s == s2 {
					l = false
				}
			}
			h := p.slot(s)
			c.ns = append(c.ns, c.operand(i, h, l))
			t = ttOp(p.k, t, h.tt, opTables[o])
		}
		empty()
		store(p.node(op, c, t, false, len(op.S) <= 2))
	case "ite":
		if !has(op.A, op.B, op.C) {
			return false
		}
		opd(0, op.A, op.B, op.C)
		opd(1, op.B, op.A, op.C)
		opd(2, op.C, op.A, op.B)
		empty()
		store(p.node(op, c, ttIte(c.hs[0].tt, c.hs[1].tt, c.hs[2].tt), false, true))
	case "exist":
		v := p.slot(op.B)
		if !has(op.A, op.B) || !v.isSet {
			return false
		}
		opd(0, op.A, op.B)
		opd(1, op.B, op.A)
		empty()
		store(p.node(op, c, ttExist(p.k, c.hs[0].tt, v.set), false, false))
	case "appex", "andexist":
		v := p.slot(op.C)
		if !has(op.A, op.B, op.C) || !v.isSet {
			return false
		}
		opd(0, op.A, op.B, op.C)
		opd(1, op.B, op.A, op.C)
		opd(2, op.C, op.A, op.B)
		empty()
		o := op.Op % 4
		if op.K == "andexist" {
			o = 0
		}
		c.op = rudd.Operator(o)
		t := ttOp(p.k, c.hs[0].tt, c.hs[1].tt, opTables[o])
		store(p.node(op, c, ttExist(p.k, t, v.set), false, false))
	case "repl":
		return p.newRepl(op, c)
	case "replace":
		r := p.repl[op.B%nRepl]
		if !has(op.A) || r == nil {
			return false
		}
		opd(0, op.A)
		empty()
		c.r = r.r
		t := c.hs[0].tt
		dep := false
		for _, v := range r.new {
			if ttDep(p.k, t, v) {
				dep = true
			}
		}
		store(p.node(op, c, ttSubst(p.k, t, r.old, r.new), dep, false))
	case "low", "high":
		if !has(op.A) {
			return false
		}
		h := p.slot(op.A)
		v := p.topVar(h.tt)
		if v < 0 {
			return false
		}
		opd(0, op.A)
		empty()
		store(p.node(op, c, ttCof(p.k, h.tt, v, op.K == "high"), false, true))
	case "dup":
		if !has(op.A) {
			return false
		}
		h := p.slot(op.A)
		c.k = "retnode"
		c.i = h.id()
		c.hs = append(c.hs, h)
		n := p.node(op, c, h.tt, false, true)
		if n != nil {
			n.isSet, n.set = h.isSet, h.set
			if n.id() != h.id() {
				p.fail("wrong:dup", "Retnode(%d) returned node %d", h.id(), n.id())
			}
		}
		store(n)
	case "mass":
		if !has(op.A) {
			return false
		}
		h := p.slot(op.A)
		bag := op.B & 1
		for i := 0; i < op.N && len(p.bags[bag]) < 2500; i++ {
			cc := &call{p: p, k: "retnode", i: h.id(), hs: []*Handle{h}}
			var ev []Ev
			if i == op.N/2 {
				ev = op.Ev
			}
			p.api(cc, ev)
			if cc.node == nil {
				p.fail("error:dup", "Retnode(%d) returned nil", h.id())
			}
			p.bags[bag] = append(p.bags[bag], p.handle(cc, cc.node, h.tt, "dup"))
			p.done(cc)
		}
	case "bagdrop":
		bag := p.bags[op.B&1]
		if len(bag) == 0 {
			return false
		}
		r := NewRNG(uint64(op.A))
		for i := 0; i < op.N && len(bag) > 0; i++ {
			j := r.Intn(len(bag))
			p.release(bag[j])
			bag[j] = bag[len(bag)-1]
			bag = bag[:len(bag)-1]
		}
		p.bags[op.B&1] = bag
	case "drop":
		if p.slot(op.A) == nil {
			return false
		}
		p.setSlot(op.A, nil)
	case "fin":
		if p.w.noFin || (p.w.F.Idle() && len(p.w.pending) == 0) {
			return false
		}
		for i := 0; i <= op.N; i++ {
			if !p.w.stepFin(op.A, int64(op.B)) {
				break
			}
			p.w.cnt.Fired["fin-between"]++
		}
	case "probe":
		if p.probe(op.B) {
			p.w.cnt.Fired["probe"]++
			return true
		}
		return false
	case "fill":
		return p.fill(op.N, uint64(op.A))
	case "gc":
		return p.forceGC(op.N != 0, uint64(op.A))
	case "build":
		return p.build(op, c, store)
	case "satcount":
		if !has(op.A) {
			return false
		}
		opd(0, op.A)
		empty()
		t := c.hs[0].tt
		p.api(c, op.Ev)
		p.done(c)
		p.spurious(op, "satcount")
		exp := new(big.Int).Mul(big.NewInt(int64(ttOnes(t))), bigPow2(p.cfg.Varnum-p.k))
		if c.big == nil || c.big.Cmp(exp) != 0 {
			p.blame(op, "satcount", "Satcount is %v instead of %v", c.big, exp)
		}
		p.trace("%v", c.big)
	case "allsat":
		return p.allsat(op, c, opd, has, empty)
	case "allnodes", "print", "dot":
		return p.report(op, c, has, last, empty)
	case "label":
		if !has(op.A) || p.topVar(p.slot(op.A).tt) < 0 {
			return false
		}
		opd(0, op.A)
		empty()
		exp := p.act[p.topVar(c.hs[0].tt)]
		p.api(c, op.Ev)
		p.done(c)
		p.spurious(op, "label")
		if c.num != exp {
			p.blame(op, "label", "Label is %d instead of %d", c.num, exp)
		}
		p.trace("%d", c.num)
	case "scanset":
		if !has(op.A) {
			return false
		}
		opd(0, op.A)
		empty()
		h := c.hs[0]
		var exp []int
		if h.isSet {
			for _, i := range h.set {
				exp = append(exp, p.act[i])
			}
		} else {
			for t := h.tt; ; {
				v := p.topVar(t)
				if v < 0 {
					break
				}
				exp = append(exp, p.act[v])
				t = ttCof(p.k, t, v, true)
			}
		}
		p.api(c, op.Ev)
		p.done(c)
		p.spurious(op, "scanset")
		if fmt.Sprint(exp) != fmt.Sprint(c.is) {
			p.blame(op, "scanset", "Scanset is %v instead of %v", c.is, exp)
		}
		p.trace("%v", c.is)
	case "equal":
		if !has(op.A, op.B) {
			return false
		}
		opd(0, op.A, op.B)
		opd(1, op.B, op.A)
		empty()
		exp := ttEq(c.hs[0].tt, c.hs[1].tt)
		p.api(c, op.Ev)
		p.done(c)
		if c.ok != exp {
			p.blame(op, "equal", "Equal of two nodes is %v, their functions are equal: %v", c.ok, exp)
		}
		p.trace("%v", c.ok)
	case "stats":
		p.api(c, op.Ev)
		p.done(c)
		s := p.parseStats(c.str)
		if s.Used+s.Free != s.Alloc {
			p.fail("stats", "%d used + %d free nodes in a table of %d", s.Used, s.Free, s.Alloc)
		}
	case "audit":
		p.audit()
	case "bad":
		return p.bad(op)
	case "newbdd":
		if op.Cfg == nil {
			return false
		}
		p.closeBDD()
		p.open(*op.Cfg, op.Vs, op.Ev)
	case "chain":
		return p.chain(op)
	case "burst":
		return p.burst(op)
	case "wide":
		return p.wide(op)
	case "march":
		p.march(op)
	case "wrap":
		p.wrap(op)
	case "twin":
		p.twin(op.N, uint64(op.A))
	default:
		panic(&harnessError{"unknown operation " + op.K})
	}
	return true
}

// blame fails with class, unless the operand itself lost its meaning.
func (p *P) blame(op *Op, class, format string, a ...interface{}) {
	p.fail(class, format, a...)
}

// spurious checks that a valid call did not set the error status.
func (p *P) spurious(op *Op, class string) {
	if !p.errored && p.b.Errored() {
		p.errored = true
		p.fail(class, "a valid call to %s set the error status: %s", op.K, p.b.Error())
	}
}

func (p *P) allsat(op *Op, c *call, opd func(int, int, ...int) bool, has func(...int) bool, empty func()) bool {
	if !has(op.A) {
		return false
	}
	opd(0, op.A)
	empty()
	h := c.hs[0]
	t := h.tt
	cb := &cbState{p: p, subs: op.Sub, f: op.F, kind: "Allsat"}
	c.cb = cb
	got := ttConst(p.k, false)
	bad := ""
	max := 1<<uint(p.k) + 1
	c.fs = func(v []int) error {
		if cb.n > max {
			p.fail("allsat", "Allsat calls its function more than %d times", max)
		}
		if len(v) != p.cfg.Varnum {
			p.fail("allsat", "Allsat gives a slice of length %d for %d variables", len(v), p.cfg.Varnum)
		}
		if p.w.trOn {
			s := make([]int, p.k)
			for i, l := range p.act {
				s[i] = v[l]
			}
			p.trace("cube %v", s)
		}
		if !p.addCube(got, v) && bad == "" {
			bad = fmt.Sprintf("cube %d (%v) overlaps an earlier one, or fixes an unused variable", cb.n, v)
			if len(v) > 40 {
				bad = fmt.Sprintf("cube %d overlaps an earlier one, or fixes an unused variable", cb.n)
			}
		}
		return cb.hit()
	}
	p.api(c, op.Ev)
	if cb.expectPanic() && c.pan == nil {
		p.fail("cberr", "the panic of the function given to Allsat was swallowed")
	}
	p.done(c)
	p.spurious(op, "allsat")
	if bad != "" {
		p.fail("allsat", "Allsat: %s", bad)
	}
	if cb.fired {
		if !cb.expectPanic() && c.err != errInjected {
			p.fail("cberr", "the function given to Allsat failed at call %d, and Allsat returned %v", cb.f.At, c.err)
		}
		return true
	}
	if c.err != nil {
		p.fail("cberr", "Allsat returned %v without any failure of its function", c.err)
	}
	if !ttEq(got, t) {
		p.blame(op, "allsat", "Allsat covers %x instead of %x", got, t)
	}
	p.trace("allsat %d", cb.n)
	return true
}

// report handles the traversals: Allnodes, Print and Dot.
func (p *P) report(op *Op, c *call, has func(...int) bool, last func(int) bool, empty func()) bool {
	if !has(op.S...) {
		return false
	}
	if op.K != "allnodes" && (p.errored || p.b.Errored()) {
		return false
	}
	var hs []*Handle
	var ids []int
	for i, s := range op.S {
		h := p.slot(s)
		l := last(i)
		for j, s2 := range op.S {
			if i != j && s == s2 {
				l = false
			}
		}
		c.ns = append(c.ns, c.operand(i, h, l))
		hs = append(hs, h)
		ids = append(ids, h.id())
	}
	empty()
	cb := &cbState{p: p, subs: op.Sub, f: op.F, kind: op.K, wr: op.K != "allnodes"}
	if len(op.S) == 0 {
		cb.subs = nil
	}
	c.cb = cb
	t := newTable()
	var before *Table
	if len(op.S) == 0 {
		before = p.snapshot()
	}
	limit := 1 << 22
	if op.K == "allnodes" {
		c.fn = func(id, level, low, high int) error {
			if cb.n > limit {
				p.fail("allnodes", "Allnodes does not stop")
			}
			t.add(id, level, low, high)
			return cb.hit()
		}
	} else {
		c.wr = cb
	}
	p.api(c, op.Ev)
	p.done(c)
	if op.K == "print" && cb.expectPanic() && c.pan == nil {
		p.fail("print", "the panic of the writer given to Print was swallowed")
	}
	p.spurious(op, op.K)
	class := op.K
	if cb.fired {
		switch {
		case cb.expectPanic():
			if c.pan == nil {
				p.fail(map[bool]string{true: op.K, false: "cberr"}[cb.wr], "the panic of the function given to %s was swallowed", op.K)
			}
		case op.K == "allnodes":
			if c.err != errInjected {
				p.fail("cberr", "the function given to Allnodes failed at call %d, and Allnodes returned %v", cb.f.At, c.err)
			}
		case op.K == "dot":
			if c.err == nil {
				p.fail("dot", "the writer given to Dot failed (%s) at write %d, and Dot returned nil", cb.f.K, cb.f.At)
			}
		}
		return true
	}
	if c.err != nil {
		cl := class
		if op.K == "allnodes" {
			cl = "cberr"
		}
		p.fail(cl, "%s returned error %v without any failure", op.K, c.err)
	}
	out := cb.buf.String()
	switch op.K {
	case "print":
		if len(ids) == 1 && ids[0] < 2 {
			if strings.TrimSpace(out) != [2]string{"False", "True"}[ids[0]] {
				p.fail(class, "Print of the constant %d writes %q", ids[0], out)
			}
			return true
		}
		e := ""
		if t, e = parsePrint(out); e != "" {
			p.fail(class, "Print: %s", e)
		}
	case "dot":
		e := ""
		if t, e = parseDot(out); e != "" {
			p.fail(class, "Dot: %s", e)
		}
	}
	if len(op.S) == 0 {
		p.sameTable(class, before, t)
		return true
	}
	p.checkReport(class, t, hs, ids)
	p.trace("%s %d", op.K, len(t.ids))
	return true
}

func (p *P) sameTable(class string, a, b *Table) {
	if b.bad != "" {
		p.fail(class, "%s: %s", class, b.bad)
	}
	if len(a.m) != len(b.m) {
		p.fail(class, "%s reports %d nodes instead of %d", class, len(b.m), len(a.m))
	}
	for _, id := range a.ids {
		if b.m[id] != a.m[id] {
			p.fail(class, "%s reports node %d as %v instead of %v", class, id, b.m[id], a.m[id])
		}
	}
}

func (p *P) newRepl(op *Op, c *call) bool {
	if len(op.Vs) != len(op.Vt) {
		return false
	}
	c.k = "newreplacer"
	var old, new []int
	seen := map[int]bool{}
	for j := range op.Vs {
		o, n := op.Vs[j]%p.k, op.Vt[j]%p.k
		if seen[o] || seen[n] {
			return false
		}
		seen[o], seen[n] = true, true
		old, new = append(old, o), append(new, n)
	}
	c.vs, c.vt = p.levels(old), p.levels(new)
	p.api(c, op.Ev)
	p.done(c)
	if c.err != nil || c.rep == nil {
		p.fail("error:repl", "NewReplacer(%v, %v) is rejected: %v", p.levels(old), p.levels(new), c.err)
	}
	img := map[int]int{}
	for j, v := range c.vs {
		img[v] = c.vt[j]
	}
	for v := 0; v < p.cfg.Varnum && v < 200; v++ {
		w, ok := img[v]
		if !ok {
			w = v
		}
		if x, _ := c.rep.Replace(int32(v)); int(x) != w {
			p.fail("error:repl", "the method Replace of NewReplacer(%v, %v) changes %d into %d", c.vs, c.vt, v, x)
		}
	}
	if s, ok := c.rep.(fmt.Stringer); ok && s.String() == "" {
		p.fail("error:repl", "a replacer is printed as an empty string")
	}
	p.repl[op.D%nRepl] = &Repl{c.rep, old, new}
	return true
}

// march repeats operations.
func (p *P) march(op *Op) {
	r := NewRNG(uint64(op.Op))
	for i := 0; i < op.N; i++ {
		if i%64 == 63 {
			// the message grows with every invalid call
			long := false
			p.quiet("raw", func(c *call) { long = len(p.b.Error()) > 50000 })
			if long {
				break
			}
		}
		for _, s := range op.Sub {
			for _, o := range s.Ops {
				if isCall(o.K) && r.Intn(1000) < op.C {
					o = p.vary(o, r)
				}
				if bounds := p.w.c.Prop == "C08" && i < 1100; bounds {
					live, st := p.boundBefore()
					p.runOp(o)
					p.boundAfter(o, live, st)
				} else {
					p.runOp(o)
				}
			}
		}
	}
	p.w.cnt.Probes[fmt.Sprintf("march-%d", op.N)]++
}

// twin makes nodes whose branches differ by a few bits.
func (p *P) twin(n int, seed uint64) {
	r := NewRNG(seed)
	vn := p.cfg.Varnum
	st := p.stats()
	lvl := make([]int32, st.Alloc)
	for i := range lvl {
		lvl[i] = -1
	}
	lvl[0], lvl[1] = int32(vn), int32(vn)
	var ids []int
	top := 0
	if st.Alloc <= 5000 {
		t := p.snapshot()
		for _, i := range t.ids {
			lvl[i] = int32(t.m[i].lvl)
			ids = append(ids, i)
		}
	} else {
		p.quiet("raw", func(c *call) {
			for l := 0; l < vn; l++ {
				x, y := p.b.Ithvar(l), p.b.NIthvar(l)
				lvl[*x], lvl[*y] = int32(l), int32(l)
				ids = append(ids, *x, *y)
			}
		})
	}
	for _, i := range ids {
		if i > top {
			top = i
		}
	}
	if len(ids) == 0 {
		return
	}
	bits := 0
	for top>>bits > 1 {
		bits++
	}
	made := map[[3]int]int{}
	of := map[int][3]int{}
	p.opKind = "twin"
	p.quiet("raw", func(c *call) {
		p.b.Initref()
		push := map[int]bool{}
		var todo [][3]int
		for ; n > 0; n-- {
			lo, hi := r.Intn(2), ids[r.Intn(len(ids))]
			if r.P(0.4) {
				lo = ids[r.Intn(len(ids))]
			}
			switch r.Intn(3) {
			case 0:
				// among the largest
				if i := 1<<bits + r.Intn(top-1<<bits+1); lvl[i] >= 0 {
					hi = i
				}
			case 1:
				// whose twin is small
				if i := 1<<bits + r.Log(1000); i < len(lvl) && lvl[i] >= 0 {
					hi = i
				}
			}
			lo2, hi2 := lo, hi
			switch r.Intn(4) {
			case 0:
				hi2 ^= 1 << r.Intn(bits+1)
			case 1:
				lo2 ^= 1 << r.Intn(bits+1)
			case 2:
				hi2 ^= 1 << bits
				lo2 ^= 1
			default:
				hi2 ^= 1 << r.Intn(bits+1)
				lo2 ^= 1 << r.Intn(bits+1)
			}
			if r.P(0.5) {
				lo, hi, lo2, hi2 = hi, lo, hi2, lo2
			}
			m := vn
			for _, i := range []int{lo, hi, lo2, hi2} {
				if i >= len(lvl) || lvl[i] < 0 {
					m = 0
				} else {
					m = min(m, int(lvl[i]))
				}
			}
			if m == 0 || lo == hi || lo2 == hi2 {
				continue
			}
			l := r.Intn(m)
			if len(todo) > 400 {
				break
			}
			todo = append(todo, [3]int{l, lo, hi}, [3]int{l, lo2, hi2})
			for _, i := range []int{lo, hi, lo2, hi2} {
				if i > 1 && !push[i] {
					push[i] = true
					p.b.Pushref(i)
				}
			}
		}
		for again := 0; again < 2; again++ {
			for _, t := range todo {
				id := p.b.Makenode(int32(t[0]), t[1], t[2])
				if id == -1 && p.limited {
					break
				}
				if id < 2 {
					p.fail("kernel", "Makenode(%d, %d, %d) returns %d", t[0], t[1], t[2], id)
				}
				if o, ok := of[id]; ok && o != t {
					p.fail("canon", "node %d is %v and %v", id, o, t)
				}
				if o, ok := made[t]; ok && o != id {
					p.fail("canon", "nodes %d and %d are both %v", o, id, t)
				}
				made[t], of[id] = id, t
				p.b.Pushref(id)
			}
		}
	})
	p.w.cnt.Probes["twins"] += int64(len(made))
	if bits >= 16 {
		p.w.cnt.Probes[fmt.Sprintf("twins-%d-bits", bits)] += int64(len(made))
	}
}

var fillers = []string{"gc", "allnodes", "exist", "appex", "replace", "ite", "apply", "allsat", "satcount", "not", "low", "makeset", "newreplacer", "scanset",
	"print", "stats", "equal", "and", "andexist", "ith", "from", "dot", "label"}

// wrap repeats a few operations, with so many calls of one kind in between that
// two of them are exactly a power of two apart: op.N calls after the first, one
// more after the second, and so on.
func (p *P) wrap(op *Op) {
	b := p.b
	r := NewRNG(uint64(op.Op))
	kind := fillers[op.B%len(fillers)]
	if p.k < 2 {
		return
	}
	i0 := op.A % p.k
	i1 := (i0 + 1) % p.k
	v0, v1 := p.act[i0], p.act[i1]
	var x, y rudd.Node
	var rep rudd.Replacer
	p.quiet("raw", func(c *call) {
		x, y = b.Ithvar(v0), b.Ithvar(v1)
		rep, _ = b.NewReplacer([]int{v0}, []int{v1})
	})
	if x == nil || y == nil || rep == nil {
		p.fail("error:wrap", "Ithvar(%d), Ithvar(%d) or NewReplacer(%d, %d) fails: %s", v0, v1, v0, v1, b.Error())
	}
	id := func(n rudd.Node) int {
		if n == nil {
			return -1
		}
		return *n
	}
	one := func(c *call) int {
		n := 0
		switch kind {
		case "allnodes":
			b.Allnodes(func(_, _, _, _ int) error { n++; return nil }, x)
		case "allsat":
			b.Allsat(func([]int) error { n++; return nil }, x)
		case "exist":
			n = id(b.Exist(x, y))
		case "appex":
			n = id(b.AppEx(x, y, rudd.OPor, x))
		case "andexist":
			n = id(b.AndExist(x, y, x))
		case "replace":
			n = id(b.Replace(x, rep))
		case "ite":
			n = id(b.Ite(x, y, b.False()))
			if n >= 2 {
				n = 2
			}
		case "apply":
			n = id(b.Apply(x, y, rudd.OPnand))
			if n >= 2 {
				n = 2
			}
		case "and":
			if n = id(b.And(x, y)); n >= 2 {
				n = 2
			}
		case "not":
			n = id(b.Not(x))
		case "low":
			n = id(b.Low(x))
		case "makeset":
			n = id(b.Makeset([]int{v0}))
		case "newreplacer":
			b.NewReplacer([]int{v0}, []int{v1})
		case "scanset":
			n = len(b.Scanset(x))
		case "satcount":
			n = b.Satcount(x).BitLen()
		case "print":
			b.Print(io.Discard, x)
		case "dot":
			b.Dot(io.Discard, x)
		case "stats":
			b.Stats()
		case "label":
			n = b.Label(x)
		case "equal":
			if b.Equal(x, y) {
				n = 1
			}
		case "ith":
			n = id(b.Ithvar(v0))
		case "from":
			n = id(b.From(true))
		}
		return n
	}
	first, known := 0, false
	vary := []int{500, 500}
	if len(op.Vs) == 2 {
		vary = op.Vs
	}
	for i := 0; i < op.C; i++ {
		gc0 := p.stats().GC
		for _, s := range op.Sub {
			for _, o := range s.Ops {
				if isCall(o.K) {
					q := vary[1]
					if o.K == "build" {
						q = vary[0]
					}
					if r.Intn(1000) < q {
						o = p.vary(o, r)
					}
				}
				if p.w.c.Prop == "C08" {
					live, st := p.boundBefore()
					p.runOp(o)
					p.boundAfter(o, live, st)
				} else {
					p.runOp(o)
				}
			}
		}
		if i == op.C-1 {
			break
		}
		p.opKind = "wrap"
		m := op.N + i
		if kind == "gc" {
			m += 8
			p.fastGC(op.N + 2 - p.stats().GC + gc0)
		}
		for j := m; j > 0; j-- {
			if kind == "gc" {
				// here the distance is known
				gap := op.N + 4
				if i%4 == 3 {
					gap += i/4%2*2 - 1
				}
				if d := p.stats().GC - gc0; d >= gap || !p.oneGC(uint64(op.Op)+uint64(j)) {
					break
				}
			} else {
				n := 0
				p.quiet("raw", func(c *call) { n = one(c) })
				if !known {
					first, known = n, true
				}
				if n != first {
					cl := "wrong:" + kind
					switch kind {
					case "allnodes", "allsat", "satcount", "scanset", "label", "equal":
						cl = kind
					}
					p.fail(cl, "repeating %s gives %d, then %d", kind, first, n)
				}
			}
			if j%100 == 0 && !p.w.noFin {
				for l := 0; l < 400 && p.w.stepFin(0, 0); l++ {
				}
			}
		}
		if !p.errored && b.Errored() {
			p.errored = true
			p.fail("error:wrap", "repeated valid calls to %s set the error status: %s", kind, b.Error())
		}
	}
	p.w.cnt.Probes[fmt.Sprintf("wrap-%d", op.N)]++
}

// fastGC makes the table full with nodes that nobody references, again and again,
// until there were n collections or all nodes above two variables exist.
func (p *P) fastGC(n int) {
	type tr struct{ l, x, y int }
	vn := p.cfg.Varnum
	var ids, lvl []int
	for i := 0; i < 2; i++ {
		ids, lvl = append(ids, i), append(lvl, vn)
	}
	for _, l := range p.act {
		ids, lvl = append(ids, p.varID("ith", l), p.varID("nith", l)), append(lvl, l, l)
	}
	var trs []tr
	for x := range ids {
		for y := range ids {
			for l := 0; l < lvl[x] && l < lvl[y] && x != y; l++ {
				trs = append(trs, tr{l, ids[x], ids[y]})
			}
		}
	}
	at := 0
	for n > 0 {
		s0 := p.stats()
		if s0.Free >= len(trs) {
			return
		}
		gc := s0.GC
		p.quiet("raw", func(c *call) {
			p.b.Initref()
			for i := 0; i < len(trs); i++ {
				t := trs[at%len(trs)]
				at++
				p.b.Makenode(int32(t.l), t.x, t.y)
				if i >= s0.Free {
					if s := p.stats(); s.GC > gc {
						gc = s.GC
						return
					}
				}
			}
		})
		if gc == s0.GC {
			return
		}
		n -= gc - s0.GC
	}
}

// oneGC makes the table full with nodes that nobody references, and then one more.
func (p *P) oneGC(seed uint64) bool {
	if !p.fill(0, seed) {
		return false
	}
	s0 := p.stats()
	if s0.Free != 0 || s0.Alloc > 1500 {
		return false
	}
	r := NewRNG(seed)
	vn := p.cfg.Varnum
	var ids, lvl []int
	for _, l := range p.act {
		ids, lvl = append(ids, p.varID("ith", l), p.varID("nith", l)), append(lvl, l, l)
	}
	for try := 0; try < 2; try++ {
		if try == 1 {
			// everything with variables exists
			ids, lvl = []int{0, 1}, []int{vn, vn}
			t := p.snapshot()
			for _, i := range t.ids {
				ids, lvl = append(ids, i), append(lvl, t.m[i].lvl)
			}
		}
		ok := false
		p.quiet("raw", func(c *call) {
			for i := 0; i < 30+300*try && !ok; i++ {
				x, y := r.Intn(len(ids)), r.Intn(len(ids))
				m := min(lvl[x], lvl[y])
				if m == 0 || ids[x] == ids[y] {
					continue
				}
				p.b.Initref()
				p.b.Pushref(ids[x])
				p.b.Pushref(ids[y])
				p.b.Makenode(int32(r.Intn(m)), ids[x], ids[y])
				p.b.Popref(2)
				ok = p.stats().GC > s0.GC
			}
		})
		if ok {
			return true
		}
	}
	return false
}

// vary replaces an operand.
func (p *P) vary(o *Op, r *RNG) *Op {
	x := o.Clone()
	other := func(i int, set bool) int {
		for t := 0; t < 6; t++ {
			j := r.Intn(nSlots)
			if h := p.slot(j); h != nil && h.tt != nil && (!set || h.isSet) {
				return j
			}
		}
		return i
	}
	i := r.Intn(3)
	switch o.K {
	case "not", "replace", "low", "high", "satcount", "allsat", "label", "scanset", "dup":
		x.A = other(x.A, false)
	case "apply", "imp", "equiv", "equal", "ite", "exist", "appex", "andexist":
		switch q := []*int{&x.A, &x.B, &x.C}[i]; {
		case i == 1 && o.K == "exist" || i == 2 && o.K != "ite":
			*q = other(*q, true)
		default:
			*q = other(*q, false)
		}
	case "and", "or", "allnodes", "print", "dot":
		if len(x.S) > 0 {
			x.S[i%len(x.S)] = other(x.S[i%len(x.S)], false)
		}
	case "makeset", "ith", "nith", "build":
		x.A, x.N = r.Intn(8), int(r.U64()>>34)
		for j := range x.Vs {
			x.Vs[j] = r.Intn(p.k)
		}
	case "repl":
		if q := r.Perm(p.k); len(x.Vs)+len(x.Vt) <= p.k {
			x.Vs, x.Vt = q[:len(x.Vs)], q[len(x.Vs):len(x.Vs)+len(x.Vt)]
		}
	}
	return x
}

// burst makes many calls of the same kind with varying operands.
func (p *P) burst(op *Op) bool {
	h := p.slot(op.A)
	g := p.slot(op.B)
	if h == nil || g == nil || h.tt == nil || g.tt == nil {
		return false
	}
	r := NewRNG(uint64(op.Op))
	// one variable is in few sets
	rare := r.Intn(p.k)
	other := (rare + 1) % p.k
	held := map[string]*Handle{}
	defer func() {
		for _, x := range held {
			p.release(x)
		}
	}()
	kind := []string{"exist", "appex", "replace", "repl"}[op.C%4]
	p.opKind = kind
	n := op.N
	if p.limited {
		n = 0
	}
	for i := 0; i < n; i++ {
		c := &call{p: p, k: kind}
		var exp TT
		var set *Handle
		var ev []Ev
		if i == n/2 {
			ev = op.Ev
		}
		x := h
		if r.P(0.5) {
			x = g
		}
		mayNil := false
		switch kind {
		case "exist", "appex":
			q := r.Perm(p.k)[:1+r.Intn(p.k)]
			if i == 0 || r.P(0.01) {
				q = append(q, rare)
			} else if p.k > 1 {
				for j := range q {
					if q[j] == rare {
						q[j] = other
					}
				}
			}
			sort.Ints(q)
			q = slices.Compact(q)
			t := ttConst(p.k, true)
			for _, v := range q {
				t = ttOp(p.k, t, ttVar(p.k, v), opTables[0])
			}
			set = p.node(&Op{K: "makeset"}, &call{p: p, k: "makeset", vs: p.levels(q)}, t, false, false)
			c.n[0] = c.operand(0, x, false)
			if kind == "exist" {
				c.n[1] = c.operand(1, set, false)
				exp = ttExist(p.k, x.tt, q)
			} else {
				o := r.Intn(4)
				c.op = rudd.Operator(o)
				c.n[1] = c.operand(1, g, false)
				c.n[2] = c.operand(2, set, false)
				exp = ttExist(p.k, ttOp(p.k, x.tt, g.tt, opTables[o]), q)
			}
		default:
			if p.k < 2 {
				return true
			}
			kind, c.k = "replace", "replace"
			q := r.Perm(p.k)
			m := 1 + r.Intn(p.k/2)
			if r.P(0.02) {
				// replacers that are not used, so that the identifiers of two
				// replacers used one after the other are far apart
				for j := 1<<(3+r.Intn(10)) - 1; j > 0; j-- {
					p.quiet("newreplacer", func(c *call) { c.vs, c.vt = p.levels(q[:1]), p.levels(q[1:2]) })
				}
			}
			rc := &call{p: p, k: "newreplacer", vs: p.levels(q[:m]), vt: p.levels(q[m : 2*m])}
			p.api(rc, nil)
			p.done(rc)
			if rc.err != nil || rc.rep == nil {
				p.fail("error:repl", "NewReplacer(%v, %v) is rejected: %v", rc.vs, rc.vt, rc.err)
			}
			for _, v := range q[m : 2*m] {
				if ttDep(p.k, x.tt, v) {
					mayNil = true
				}
			}
			if mayNil && op.C%4 == 2 {
				continue // would only set the error status
			}
			if mayNil {
				// another operand
				t := ttVar(p.k, q[0])
				if x = p.node(&Op{K: "ith"}, &call{p: p, k: "ith", i: p.act[q[0]]}, t, false, false); x == nil {
					return true
				}
				defer p.release(x)
				mayNil = false
			}
			c.r = rc.rep
			c.n[0] = c.operand(0, x, false)
			exp = ttSubst(p.k, x.tt, q[:m], q[m:2*m])
		}
		y := p.node(&Op{K: kind, Ev: ev}, c, exp, mayNil, false)
		if set != nil {
			p.release(set)
		}
		if y == nil {
			continue
		}
		k := ttKey(exp)
		if o := held[k]; o != nil {
			if o.id() != y.id() {
				p.wrong(y, "%s (call %d of %d): node %d instead of %d for %x", kind, i, n, y.id(), o.id(), exp)
			}
			p.release(y)
			continue
		}
		p.observe(y, 1)
		if len(held) < 40 {
			held[k] = y
		} else {
			p.release(y)
		}
	}
	p.w.cnt.Probes["burst-"+kind]++
	return true
}

//
// Kernel functions
//

// build publishes a function built with the kernel functions.
func (p *P) build(op *Op, c *call, store func(*Handle)) bool {
	r := NewRNG(uint64(op.N))
	t := ttRand(p.k, r)
	if len(op.Vs) > 0 {
		// a sparser function
		keep := map[int]bool{}
		for _, i := range op.Vs {
			keep[i%p.k] = true
		}
		for i := 0; i < p.k; i++ {
			if !keep[i] {
				t = ttCof(p.k, t, i, r.P(0.5))
			}
		}
	}
	c.k = "raw"
	type made struct {
		lvl    int
		lo, hi int
		id     int
	}
	var prot []made // nodes on the reference stack
	failed := false
	looks := op.C&1 == 1
	// calls that create no node, and leave the reference stack alone
	look := func() {
		c := &call{p: p}
		var h *Handle
		for _, x := range p.slots[r.Intn(nSlots):] {
			if x != nil && x.tt != nil {
				h = x
				break
			}
		}
		kinds := []string{"true", "from", "ith", "nith", "stats", "allnodes", "low", "high", "label", "scanset", "satcount", "equal", "retnode"}
		c.k = kinds[r.Intn(len(kinds))]
		switch c.k {
		case "ith", "nith":
			c.i = p.act[r.Intn(p.k)]
		case "low", "high", "label", "scanset", "satcount", "equal", "retnode":
			if h == nil || h.id() < 2 {
				return
			}
			c.hs = append(c.hs, h)
			c.n[0], c.n[1], c.i = h.n, h.n, h.id()
			if c.k == "retnode" {
				c.n = [3]rudd.Node{}
			}
		case "allnodes":
			if p.cfg.Varnum > 500 {
				return
			}
			c.fn = func(id, level, low, high int) error { return nil }
		}
		p.api(c, nil)
		p.done(c)
		p.w.cnt.Probes["call-during-build"]++
	}
	recheck := func() {
		if len(prot) == 0 || !r.P(0.3) {
			return
		}
		m := prot[r.Intn(len(prot))]
		if id := p.b.Makenode(int32(m.lvl), m.lo, m.hi); id != m.id {
			p.fail("kernel", "Makenode(%d, %d, %d) is %d, and was %d when the node was pushed on the reference stack", m.lvl, m.lo, m.hi, id, m.id)
		}
	}
	var rec func(f TT, i int) int
	rec = func(f TT, i int) int {
		for i < p.k && !ttDep(p.k, f, i) {
			i++
		}
		if i == p.k {
			if f.bit(0) {
				return 1
			}
			return 0
		}
		np := len(prot)
		lo := p.b.Pushref(rec(ttCof(p.k, f, i, false), i+1))
		if lo < 0 {
			return -1
		}
		hi := p.b.Pushref(rec(ttCof(p.k, f, i, true), i+1))
		if hi < 0 {
			return -1
		}
		id := p.b.Makenode(int32(p.act[i]), lo, hi)
		if id < 0 {
			failed = true
			return -1
		}
		p.b.Popref(2)
		prot = prot[:np]
		prot = append(prot, made{p.act[i], lo, hi, id})
		if op.A&1 == 1 {
			// pushed by our caller; check it again once it is
			p.b.Pushref(id)
			if looks && r.P(0.3) {
				look()
			}
			recheck()
			p.b.Popref(1)
		}
		return id
	}
	// first a pile of protected nodes
	var pile []made
	heap := func() {
		type nd struct{ id, lvl int }
		vn := p.cfg.Varnum
		pool := []nd{{0, vn}, {1, vn}}
		for i := 0; i < p.k || i < 5; i++ {
			l := p.act[i%p.k]
			if i >= p.k {
				l = r.Intn(vn)
			}
			pool = append(pool, nd{p.varID("ith", l), l}, nd{p.varID("nith", l), l})
		}
		for i := 0; i < op.B; i++ {
			x, y := pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
			m := x.lvl
			if y.lvl < m {
				m = y.lvl
			}
			if m == 0 || x.id == y.id {
				continue
			}
			l := r.Intn(m)
			id := p.b.Pushref(p.b.Makenode(int32(l), x.id, y.id))
			if id < 2 {
				p.fail("kernel", "Makenode(%d, %d, %d) returns %d", l, x.id, y.id, id)
			}
			pile = append(pile, made{l, x.id, y.id, id})
			if len(pool) < 40 {
				pool = append(pool, nd{id, l})
			} else {
				pool[r.Intn(len(pool))] = nd{id, l}
			}
		}
		p.w.cnt.Probes["kernel-pile"]++
	}
	c.raw = func(c *call) {
		p.b.Initref()
		if op.B > 0 && !p.limited {
			heap()
		}
		id := rec(t, 0)
		if len(pile) > 0 && id >= 0 {
			p.b.Pushref(id)
			for _, m := range pile {
				if id := p.b.Makenode(int32(m.lvl), m.lo, m.hi); id != m.id {
					p.fail("kernel", "Makenode(%d, %d, %d) is %d, and was %d when the node was pushed on the reference stack", m.lvl, m.lo, m.hi, id, m.id)
				}
			}
			p.b.Popref(1 + r.Intn(len(pile)+1))
		}
		if id < 0 {
			p.b.Initref()
			return
		}
		if op.A&2 == 2 {
			p.b.Initref()
		}
		if op.A&4 == 4 {
			p.b.Pushref(id)
			c.node = p.b.Retnode(id)
			p.b.Popref(1)
			return
		}
		c.node = p.b.Retnode(id)
	}
	_ = failed
	store(p.node(op, c, t, false, true))
	return true
}

// fill creates unreferenced nodes until only k are free.
func (p *P) fill(k int, seed uint64) bool {
	st := p.stats()
	if st.Free > 6000 || st.Free <= k {
		return st.Free <= k
	}
	r := NewRNG(seed)
	type nd struct{ id, lvl int }
	vn := p.cfg.Varnum
	pool := []nd{{0, vn}, {1, vn}}
	for _, l := range p.act {
		pool = append(pool, nd{p.varID("ith", l), l}, nd{p.varID("nith", l), l})
	}
	for i := 0; i < 10 && vn > p.k; i++ {
		l := r.Intn(vn)
		pool = append(pool, nd{p.varID("ith", l), l})
	}
	stuck := 0
	p.quiet("raw", func(c *call) {
		for free := st.Free; free > k && stuck < 60; {
			p.b.Initref()
			for i := free - k; i > 0; i-- {
				x, y := pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
				m := x.lvl
				if y.lvl < m {
					m = y.lvl
				}
				if m == 0 || x.id == y.id {
					continue
				}
				l := r.Intn(m)
				id := p.b.Makenode(int32(l), x.id, y.id)
				if id < 2 {
					p.fail("kernel", "Makenode returns %d although %d nodes are free", id, free)
				}
				if len(pool) < 400 {
					pool = append(pool, nd{id, l})
				} else {
					pool[r.Intn(len(pool))] = nd{id, l}
				}
			}
			nf := p.stats().Free
			if nf >= free {
				stuck++
			}
			free = nf
		}
	})
	return true
}

// forceGC makes the next node creation collect the table, and checks exactly
// what the collection and the resizing policy did.
func (p *P) forceGC(drain bool, seed uint64) bool {
	w := p.w
	w.finishFin()
	if drain {
		for n := len(w.pending); n > 0 && len(w.pending) > 0; n-- {
			w.stepFin(0, 0)
			w.finishFin()
		}
	}
	if !p.fill(0, seed) {
		return false
	}
	s0 := p.stats()
	if s0.Free != 0 {
		return false
	}
	t := p.snapshot()
	r := NewRNG(seed + 1)
	var ids []int
	for id := range p.roots(t) {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	uniq := map[[3]int]bool{}
	for _, nd := range t.m {
		uniq[[3]int{nd.lvl, nd.lo, nd.hi}] = true
	}
	lvl := func(id int) int {
		if id < 2 {
			return p.cfg.Varnum
		}
		return t.m[id].lvl
	}
	l, lo, hi := -1, 0, 0
	for i := 0; i < 400; i++ {
		x, y := ids[r.Intn(len(ids))], ids[r.Intn(len(ids))]
		if i%3 == 0 {
			x = r.Intn(2)
		}
		m := lvl(x)
		if lvl(y) < m {
			m = lvl(y)
		}
		if m == 0 || x == y {
			continue
		}
		v := r.Intn(m)
		if uniq[[3]int{v, x, y}] {
			continue
		}
		l, lo, hi = v, x, y
		break
	}
	if l < 0 {
		return false
	}
	nfin, idle := p.in.nfin, w.finQuiet()
	exp := p.roots(t)
	t.reach(exp, lo)
	t.reach(exp, hi)
	sticky := p.stickies(t)
	var id int
	errBefore := p.b.Errored()
	p.quiet("raw", func(c *call) {
		p.b.Initref()
		p.b.Pushref(lo)
		p.b.Pushref(hi)
		id = p.b.Makenode(int32(l), lo, hi)
		p.b.Popref(2)
	})
	s1 := p.stats()
	w.cnt.GCs += int64(s1.GC - s0.GC)
	w.cnt.Fired["forced-gc"]++
	after := p.snapshot()
	amb := len(sticky) > 0
	if !idle || !w.finQuiet() || p.in.nfin != nfin {
		// another program ran finalizers of this BDD meanwhile
		amb = true
		exp = p.rootsIf(t, false)
		for i := range t.m {
			sticky[i] = true
		}
		w.cnt.Probes["forced-gc-ambiguous"]++
	}
	free := s0.Alloc - 2 - len(exp)
	if id < 0 {
		if p.b.Errored() {
			p.errored = true
		}
		if !p.limited || (!amb && (free > 0 || s0.Alloc < p.limit())) {
			p.fail("mustfit:gc", "Makenode failed: table of %d nodes, %d referenced, limit %d", s0.Alloc, len(exp)+2, p.limit())
		}
		w.cnt.MemFails++
	} else if !p.limited && p.b.Errored() && !errBefore {
		p.fail("error:kernel", "Makenode set the error status: %s", p.b.Error())
	}
	if id >= 0 {
		nd, ok := after.m[id]
		if !ok || nd != (Nd{l, lo, hi}) {
			p.fail("kernel", "the node %d returned by Makenode(%d, %d, %d) is %v", id, l, lo, hi, nd)
		}
	}
	// exact reclamation
	for i := range exp {
		if after.m[i] != t.m[i] {
			p.fail("held", "node %d %v is referenced and was changed to %v by a collection", i, t.m[i], after.m[i])
		}
	}
	if s1.GC > s0.GC {
		for _, i := range after.ids {
			if !exp[i] && i != id && !sticky[i] {
				p.fail("leak", "node %d %v is not referenced and survives a collection (outstanding references to it: %d)", i, after.m[i], p.in.out[i])
			}
		}
		w.cnt.Probes["exact-reclamation-checked"]++
	}
	// resizing policy
	grew := s1.Alloc > s0.Alloc
	if grew && s1.GC == s0.GC {
		p.fail("growth", "the table grows from %d to %d without a collection", s0.Alloc, s1.Alloc)
	}
	if !amb && s1.GC > s0.GC {
		minf := p.cfg.Minfree
		if minf < 0 {
			minf = 20
		}
		ratio := float64(free) * 100 / float64(s0.Alloc)
		if grew {
			w.cnt.Probes["growth-decision-yes"]++
			if ratio > float64(minf)+1 {
				p.fail("growth", "the table grows from %d to %d after a collection that leaves %.2f%% of free nodes (Minfreenodes is %d%%)", s0.Alloc, s1.Alloc, ratio, minf)
			}
		} else {
			w.cnt.Probes["growth-decision-no"]++
			may := p.cfg.Maxnodesize <= 0 || s0.Alloc < p.limit()
			if may && (free == 0 || ratio < float64(minf)-1) {
				p.fail("growth", "the table does not grow from %d after a collection that leaves %.2f%% of free nodes (Minfreenodes is %d%%, Maxnodesize %d, Maxnodeincrease %d)", s0.Alloc, ratio, minf, p.cfg.Maxnodesize, p.cfg.Maxinc)
			}
		}
	}
	p.checkStat(s1, after)
	return true
}
