package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/dalzilio/rudd"
	. "verif/rsim/sc"
)

// Functions of many variables. Their model is a reference diagram: a reduced
// ordered diagram without memory management, limited caches or side effects,
// whose nodes are created by mk only.

type rnode struct {
	lvl    int
	lo, hi int32
}

// WRef is a set of reference diagrams over n variables. Nodes 0 and 1 are the
// constants.
type WRef struct {
	n    int
	nd   []rnode
	uniq map[rnode]int32
	work int // subproblems of the current operation
}

func newWRef(n int) *WRef {
	return &WRef{n: n, nd: []rnode{{n, 0, 0}, {n, 1, 1}}, uniq: map[rnode]int32{}}
}

func (r *WRef) mk(l int, lo, hi int32) int32 {
	if lo == hi {
		return lo
	}
	k := rnode{l, lo, hi}
	if i, ok := r.uniq[k]; ok {
		return i
	}
	i := int32(len(r.nd))
	r.nd = append(r.nd, k)
	r.uniq[k] = i
	return i
}

func (r *WRef) v(l int) int32 { return r.mk(l, 0, 1) }

func (r *WRef) cof(f int32, l int) (int32, int32) {
	if x := r.nd[f]; f > 1 && x.lvl == l {
		return x.lo, x.hi
	}
	return f, f
}

func (r *WRef) ite(f, g, h int32) int32 {
	memo := map[[3]int32]int32{}
	var rec func(f, g, h int32) int32
	rec = func(f, g, h int32) int32 {
		switch {
		case f == 1 || g == h:
			return g
		case f == 0:
			return h
		}
		k := [3]int32{f, g, h}
		if x, ok := memo[k]; ok {
			return x
		}
		r.work++
		l := r.nd[f].lvl
		for _, x := range k[1:] {
			if r.nd[x].lvl < l {
				l = r.nd[x].lvl
			}
		}
		f0, f1 := r.cof(f, l)
		g0, g1 := r.cof(g, l)
		h0, h1 := r.cof(h, l)
		x := r.mk(l, rec(f0, g0, h0), rec(f1, g1, h1))
		memo[k] = x
		return x
	}
	return rec(f, g, h)
}

func (r *WRef) op(f, g int32, t [4]bool) int32 {
	memo := map[[2]int32]int32{}
	var rec func(f, g int32) int32
	rec = func(f, g int32) int32 {
		if f < 2 && g < 2 {
			if t[f<<1|g] {
				return 1
			}
			return 0
		}
		k := [2]int32{f, g}
		if x, ok := memo[k]; ok {
			return x
		}
		r.work++
		l := r.nd[f].lvl
		if m := r.nd[g].lvl; m < l {
			l = m
		}
		f0, f1 := r.cof(f, l)
		g0, g1 := r.cof(g, l)
		x := r.mk(l, rec(f0, g0), rec(f1, g1))
		memo[k] = x
		return x
	}
	return rec(f, g)
}

func (r *WRef) exist(f int32, set map[int]bool) int32 {
	memo := map[int32]int32{}
	var rec func(f int32) int32
	rec = func(f int32) int32 {
		if f < 2 {
			return f
		}
		if x, ok := memo[f]; ok {
			return x
		}
		r.work++
		x := r.nd[f]
		lo, hi := rec(x.lo), rec(x.hi)
		y := int32(0)
		if set[x.lvl] {
			y = r.op(lo, hi, opTables[2])
		} else {
			y = r.mk(x.lvl, lo, hi)
		}
		memo[f] = y
		return y
	}
	return rec(f)
}

func (r *WRef) subst(f int32, m map[int]int) int32 {
	memo := map[int32]int32{}
	var rec func(f int32) int32
	rec = func(f int32) int32 {
		if f < 2 {
			return f
		}
		if x, ok := memo[f]; ok {
			return x
		}
		r.work++
		x := r.nd[f]
		lo, hi := rec(x.lo), rec(x.hi)
		l := x.lvl
		if y, ok := m[l]; ok {
			l = y
		}
		y := r.ite(r.v(l), hi, lo)
		memo[f] = y
		return y
	}
	return rec(f)
}

func (r *WRef) reach(set map[int32]bool, f int32) {
	for f > 1 && !set[f] {
		set[f] = true
		r.reach(set, r.nd[f].lo)
		f = r.nd[f].hi
	}
}

func (r *WRef) size(f int32) int {
	set := map[int32]bool{}
	r.reach(set, f)
	return len(set)
}

func (r *WRef) support(f int32) map[int]bool {
	set := map[int32]bool{}
	r.reach(set, f)
	s := map[int]bool{}
	for x := range set {
		s[r.nd[x].lvl] = true
	}
	return s
}

// count is the number of assignments that satisfy f.
func (r *WRef) count(f int32) *big.Int {
	memo := map[int32]*big.Int{}
	// assignments of the variables from the level of f
	var rec func(f int32) *big.Int
	rec = func(f int32) *big.Int {
		if f < 2 {
			return big.NewInt(int64(f))
		}
		if x, ok := memo[f]; ok {
			return x
		}
		x := r.nd[f]
		s := new(big.Int)
		for _, ch := range []int32{x.lo, x.hi} {
			y := new(big.Int).Mul(rec(ch), bigPow2(r.nd[ch].lvl-x.lvl-1))
			s.Add(s, y)
		}
		memo[f] = s
		return s
	}
	return new(big.Int).Mul(rec(f), bigPow2(r.nd[f].lvl))
}

// paths is the number of paths to 1, at most max.
func (r *WRef) paths(f int32, max int) int {
	memo := map[int32]int{}
	var rec func(f int32) int
	rec = func(f int32) int {
		if f < 2 {
			return int(f)
		}
		if x, ok := memo[f]; ok {
			return x
		}
		x := rec(r.nd[f].lo) + rec(r.nd[f].hi)
		if x > max {
			x = max
		}
		memo[f] = x
		return x
	}
	return rec(f)
}

// under tells whether all assignments of a cube satisfy f.
func (r *WRef) under(f int32, v []int) bool {
	seen := map[int32]bool{}
	var rec func(f int32) bool
	rec = func(f int32) bool {
		if f < 2 || seen[f] {
			return f != 0
		}
		seen[f] = true
		x := r.nd[f]
		return (v[x.lvl] == 1 || rec(x.lo)) && (v[x.lvl] == 0 || rec(x.hi))
	}
	return rec(f)
}

// machine describes a function as the language of a state machine that reads
// the variables in order.
type machine struct {
	init  int
	trans []map[int][2]int // by level
	acc   []bool
	used  []int
	s     int
}

// newMachine draws a machine over a part of n variables.
func newMachine(n int, r *RNG) *machine {
	m := &machine{s: 2 + r.Intn(3)}
	lo, hi, stride := 0, n, 1
	switch r.Intn(6) {
	case 0, 1:
		stride = 2
		lo = r.Intn(2)
	case 2:
		lo = r.Intn(n)
		hi = lo + 1 + r.Intn(n-lo)
	case 3:
		hi = n - r.Intn(4)
		if hi < 1 {
			hi = 1
		}
	}
	for i := lo; i < hi; i += stride {
		if r.P(0.05) {
			continue
		}
		m.used = append(m.used, i)
	}
	per := 1 + r.Intn(3)
	kind := r.Intn(8)
	var pat [][][2]int
	for j := 0; j < per; j++ {
		p := make([][2]int, m.s)
		for q := range p {
			switch kind {
			case 0: // parity
				p[q] = [2]int{q, q ^ 1}
				if q^1 >= m.s {
					p[q] = [2]int{q, q}
				}
			case 1: // counting modulo
				p[q] = [2]int{q, (q + 1) % m.s}
			case 2: // at least
				p[q] = [2]int{q, q + 1}
				if q == m.s-1 {
					p[q][1] = q
				}
			case 3: // no two in a row
				p[q] = [2]int{0, 1}
				if q > 0 {
					p[q] = [2]int{0, m.s - 1}
				}
				if q == m.s-1 {
					p[q] = [2]int{q, q}
				}
			default:
				p[q] = [2]int{r.Intn(m.s), r.Intn(m.s)}
			}
		}
		pat = append(pat, p)
	}
	for i := range m.used {
		t := map[int][2]int{}
		for q, x := range pat[i%per] {
			t[q] = x
		}
		m.trans = append(m.trans, t)
	}
	m.acc = make([]bool, m.s)
	k := r.Intn(m.s)
	for q := range m.acc {
		m.acc[q] = q == k || q != (k+1)%m.s && r.P(0.3)
	}
	return m
}

const nWide = 6

// wideWork bounds the number of subproblems of an operation.
const wideWork = 3000

// WideKinds are the operations on functions of many variables.
var wideKinds = []string{"new", "not", "apply", "ite", "exist", "appex", "replace", "satcount", "allnodes", "print", "dot", "equal", "scanset", "label", "low", "high", "allsat", "retnode", "drop", "gc", "makeset", "makecube", "and", "or", "andexist"}

// wideCheck compares the diagram of a node, as reported by t, with its model.
func (p *P) wideCheck(t *Table, h *Handle) {
	if e := p.wideIso(t, h.id(), h.wn); e != "" {
		cl := "wrong:" + h.kind
		if h.verified {
			cl = "held"
		}
		p.fail(cl, "%s: node %d: %s", h.kind, h.id(), e)
	}
	h.verified = true
}

func (p *P) wideIso(t *Table, id int, f int32) string {
	if t.bad != "" {
		return t.bad
	}
	seen := map[int]int32{}
	var rec func(id int, f int32) string
	rec = func(id int, f int32) string {
		if id < 2 || f < 2 {
			if id != int(f) {
				return fmt.Sprintf("node %d in place of a node with value %d", id, f)
			}
			return ""
		}
		if g, ok := seen[id]; ok {
			if g != f {
				return fmt.Sprintf("node %d stands for two functions", id)
			}
			return ""
		}
		nd, ok := t.m[id]
		if !ok {
			return fmt.Sprintf("node %d is not an active node", id)
		}
		x := p.ref.nd[f]
		if nd.lvl != x.lvl {
			return fmt.Sprintf("node %d has variable %d instead of %d", id, nd.lvl, x.lvl)
		}
		seen[id] = f
		if e := rec(nd.lo, x.lo); e != "" {
			return e
		}
		return rec(nd.hi, x.hi)
	}
	if e := rec(id, f); e != "" {
		return e
	}
	back := map[int32]int{}
	for id, f := range seen {
		if o, ok := back[f]; ok {
			return fmt.Sprintf("nodes %d and %d stand for the same function", o, id)
		}
		back[f] = id
	}
	return ""
}

// wideNode makes a call that returns a node denoting f.
func (p *P) wideNode(c *call, ev []Ev, f int32, kind string) *Handle {
	errBefore := p.errored
	p.api(c, ev)
	if p.b.Errored() {
		p.errored = true
	}
	if c.node == nil {
		p.done(c)
		if !p.limited {
			p.fail("error:"+kind, "a valid call to %s returned nil (error status: %q)", kind, p.b.Error())
		}
		if !p.errored {
			p.fail("memerr", "%s returned nil without setting the error status", kind)
		}
		p.w.cnt.MemFails++
		p.w.cnt.Fired["table-exhausted"]++
		return nil
	}
	if p.errored && !errBefore && !p.limited {
		p.fail("error:"+kind, "a valid call to %s set the error status: %s", kind, p.b.Error())
	}
	h := p.handle(c, c.node, nil, kind)
	h.wn = f
	p.done(c)
	return h
}

// wideNew builds the function of a machine, from the last variable.
func (p *P) wideNew(op *Op, f *int32) *Handle {
	r := NewRNG(uint64(op.A))
	m := newMachine(p.cfg.Varnum, r)
	if op.B%3 == 2 {
		// with the kernel functions
		cur := make([]int32, m.s)
		for q := range cur {
			if m.acc[q] {
				cur[q] = 1
			}
		}
		for i := len(m.used) - 1; i >= 0; i-- {
			nxt := make([]int32, m.s)
			for q := range nxt {
				nxt[q] = p.ref.mk(m.used[i], cur[m.trans[i][q][0]], cur[m.trans[i][q][1]])
			}
			cur = nxt
		}
		c := &call{p: p, k: "raw"}
		c.raw = func(c *call) {
			b := p.b
			b.Initref()
			ids := make([]int, m.s)
			for q := range ids {
				if m.acc[q] {
					ids[q] = 1
				}
				b.Pushref(ids[q])
			}
			for i := len(m.used) - 1; i >= 0; i-- {
				nxt := make([]int, m.s)
				for q := range nxt {
					nxt[q] = b.Makenode(int32(m.used[i]), ids[m.trans[i][q][0]], ids[m.trans[i][q][1]])
					if nxt[q] < 0 {
						b.Initref()
						return
					}
					b.Pushref(nxt[q])
				}
				b.Popref(2 * m.s)
				for _, x := range nxt {
					b.Pushref(x)
				}
				ids = nxt
			}
			c.node = b.Retnode(ids[0])
			b.Popref(m.s)
		}
		*f = cur[0]
		return p.wideNode(c, op.Ev, cur[0], "build")
	}
	hs := make([]*Handle, m.s)
	free := func(hs []*Handle) {
		for _, h := range hs {
			p.release(h)
		}
	}
	for q := range hs {
		c := &call{p: p, k: "from"}
		x := int32(0)
		if m.acc[q] {
			c.i, x = 1, 1
		}
		hs[q] = p.wideNode(c, nil, x, "from")
		if hs[q] == nil {
			return nil
		}
	}
	for i := len(m.used) - 1; i >= 0; i-- {
		nxt := make([]*Handle, m.s)
		l := m.used[i]
		for q := range nxt {
			lo, hi := hs[m.trans[i][q][0]], hs[m.trans[i][q][1]]
			x := p.ref.mk(l, lo.wn, hi.wn)
			cv := p.quiet("ith", func(c *call) { c.i = l })
			if cv.node == nil {
				p.fail("error:ith", "Ithvar(%d) returned nil", l)
			}
			var ev []Ev
			if i == len(m.used)/2 && q == 0 {
				ev = op.Ev
			}
			if op.B%3 == 0 || lo.wn > 1 || hi.wn > 1 && lo.wn == 1 {
				c := &call{p: p, k: "ite"}
				c.n[0] = cv.node
				c.n[1] = c.operand(1, hi, false)
				c.n[2] = c.operand(2, lo, false)
				nxt[q] = p.wideNode(c, ev, x, "ite")
			} else {
				// var and hi, or var implies hi
				c := &call{p: p, k: "apply"}
				c.n[0] = cv.node
				c.n[1] = c.operand(1, hi, false)
				c.op = rudd.OPand
				if lo.wn == 1 {
					c.op = rudd.OPimp
				}
				nxt[q] = p.wideNode(c, ev, x, "apply")
			}
			if nxt[q] == nil {
				free(nxt)
				free(hs)
				return nil
			}
		}
		free(hs)
		hs = nxt
	}
	for _, h := range hs[1:] {
		p.release(h)
	}
	*f = hs[0].wn
	return hs[0]
}

func (p *P) wideSet(i int, h *Handle) {
	old := p.wslot[i]
	p.wslot[i] = h
	p.release(old)
}

// wideVars draws a set of variables, in increasing order.
func (p *P) wideVars(seed int) []int {
	r := NewRNG(uint64(seed))
	n := p.cfg.Varnum
	var vs []int
	switch r.Intn(4) {
	case 0:
		a := r.Intn(n)
		for i := a; i < a+1+r.Intn(n-a); i++ {
			vs = append(vs, i)
		}
	case 1:
		for i := r.Intn(2); i < n; i += 2 {
			vs = append(vs, i)
		}
	case 2:
		for i := 0; i < n; i++ {
			if r.P(0.3) {
				vs = append(vs, i)
			}
		}
	default:
		q := r.Perm(n)[:1+r.Intn(3)%n]
		vs = append(vs, q...)
		sort.Ints(vs)
	}
	if len(vs) == 0 {
		vs = []int{n - 1}
	}
	return vs
}

// wideRepl draws a renaming for f: distinct targets that f does not use.
func (p *P) wideRepl(f int32, seed int) (old, new []int) {
	r := NewRNG(uint64(seed))
	n := p.cfg.Varnum
	sup := p.ref.support(f)
	used := map[int]bool{}
	take := func(o, t int) {
		if o != t && !used[o] && !used[t] && !sup[t] {
			used[o], used[t] = true, true
			old, new = append(old, o), append(new, t)
		}
	}
	switch r.Intn(4) {
	case 0, 1:
		d := 1
		if r.P(0.4) {
			d = -1
		}
		for i := 0; i < n; i++ {
			if sup[i] && i+d >= 0 && i+d < n && r.P(0.95) {
				take(i, i+d)
			}
		}
	case 2:
		for i := 0; i < 1+r.Intn(3); i++ {
			take(r.Intn(n), r.Intn(n))
		}
	default:
		// a few variables change place
		for i := 0; i < 1+r.Intn(2); i++ {
			for j := 0; j < 8; j++ {
				o, t := r.Intn(n), r.Intn(n)
				if sup[o] && !sup[t] {
					take(o, t)
					break
				}
			}
		}
	}
	return old, new
}

// wide runs one operation on functions of many variables.
func (p *P) wide(op *Op) bool {
	if p.ref == nil || p.ref.n != p.cfg.Varnum {
		p.ref = newWRef(p.cfg.Varnum)
	}
	rf := p.ref
	rf.work = 0
	kind := wideKinds[op.N%len(wideKinds)]
	p.opKind = kind
	if p.w.c.Prop == "C18" && !p.limited {
		p.bound = 40_000_000
	}
	s := func(i int) *Handle {
		if i < 0 {
			return nil
		}
		return p.wslot[i%nWide]
	}
	c := &call{p: p, k: kind}
	slots := []int{op.A % nWide, op.B % nWide, op.C % nWide}
	opd := func(k int) bool {
		for i := 0; i < k; i++ {
			if p.wslot[slots[i]] == nil {
				return false
			}
		}
		for i := 0; i < k; i++ {
			l := op.Last>>uint(i)&1 == 1
			for j := 0; j < k; j++ {
				if i != j && slots[i] == slots[j] {
					l = false
				}
			}
			c.n[i] = c.operand(i, p.wslot[slots[i]], l)
		}
		for i := 0; i < k; i++ {
			for _, l := range c.last {
				if !l.hold && p.wslot[slots[i]] == l.h {
					p.wslot[slots[i]] = nil
				}
			}
		}
		return true
	}
	busy := func() bool { return rf.work > wideWork }
	var h *Handle
	var f int32
	a, b, d := s(op.A), s(op.B), s(op.C)
	switch kind {
	case "new":
		h = p.wideNew(op, &f)
	case "drop":
		if a == nil {
			return false
		}
		p.wideSet(slots[0], nil)
		return true
	case "gc":
		return p.forceGC(op.B&1 == 1, uint64(op.A))
	case "makeset":
		c.vs = p.wideVars(op.A)
		f = 1
		for i := len(c.vs) - 1; i >= 0; i-- {
			f = rf.mk(c.vs[i], 0, f)
		}
		h = p.wideNode(c, op.Ev, f, kind)
	case "makecube":
		c.vs = p.wideVars(op.A)
		r := NewRNG(uint64(op.A) + 5)
		f = 1
		c.pol = make([]bool, len(c.vs))
		for i := len(c.vs) - 1; i >= 0; i-- {
			if c.pol[i] = r.P(0.5); c.pol[i] {
				f = rf.mk(c.vs[i], 0, f)
			} else {
				f = rf.mk(c.vs[i], f, 0)
			}
		}
		h = p.wideNode(c, op.Ev, f, kind)
	case "not":
		if a == nil {
			return false
		}
		f = rf.ite(a.wn, 0, 1)
		if busy() || !opd(1) {
			return false
		}
		h = p.wideNode(c, op.Ev, f, kind)
	case "apply", "and", "or":
		if a == nil || b == nil {
			return false
		}
		o := op.Op % 10
		switch kind {
		case "and":
			o = 0
		case "or":
			o = 2
		}
		f = rf.op(a.wn, b.wn, opTables[o])
		if busy() || !opd(2) {
			return false
		}
		c.op = rudd.Operator(o)
		if kind != "apply" {
			c.ns = []rudd.Node{c.n[0], c.n[1]}
			c.n = [3]rudd.Node{}
		}
		h = p.wideNode(c, op.Ev, f, kind)
	case "ite":
		if a == nil || b == nil || d == nil {
			return false
		}
		f = rf.ite(a.wn, b.wn, d.wn)
		if busy() || !opd(3) {
			return false
		}
		h = p.wideNode(c, op.Ev, f, kind)
	case "exist", "appex", "andexist":
		if a == nil || kind != "exist" && b == nil {
			return false
		}
		vs := p.wideVars(op.Op / 10)
		set := map[int]bool{}
		sn := int32(1)
		for i := len(vs) - 1; i >= 0; i-- {
			set[vs[i]] = true
			sn = rf.mk(vs[i], 0, sn)
		}
		if kind == "exist" {
			f = rf.exist(a.wn, set)
		} else {
			o := op.Op % 4
			if kind == "andexist" {
				o = 0
			}
			c.op = rudd.Operator(o)
			f = rf.exist(rf.op(a.wn, b.wn, opTables[o]), set)
		}
		if busy() {
			return false
		}
		cs := &call{p: p, k: "makeset", vs: vs}
		hs := p.wideNode(cs, nil, sn, "makeset")
		if hs == nil {
			return true
		}
		defer func() { p.release(hs) }()
		k := 1
		if kind != "exist" {
			k = 2
		}
		if !opd(k) {
			return false
		}
		c.n[k] = c.operand(k, hs, false)
		h = p.wideNode(c, op.Ev, f, kind)
	case "replace":
		if a == nil {
			return false
		}
		old, new := p.wideRepl(a.wn, op.Op)
		m := map[int]int{}
		for i, o := range old {
			m[o] = new[i]
		}
		f = rf.subst(a.wn, m)
		if busy() {
			return false
		}
		rc := p.quiet("newreplacer", func(c *call) { c.vs, c.vt = old, new })
		if rc.err != nil {
			p.fail("error:repl", "NewReplacer(%v, %v) is rejected: %v", old, new, rc.err)
		}
		if !opd(1) {
			return false
		}
		c.r = rc.rep
		h = p.wideNode(c, op.Ev, f, kind)
	case "low", "high":
		if a == nil || a.wn < 2 {
			return false
		}
		f = rf.nd[a.wn].lo
		if kind == "high" {
			f = rf.nd[a.wn].hi
		}
		opd(1)
		h = p.wideNode(c, op.Ev, f, kind)
	case "retnode":
		if a == nil {
			return false
		}
		f = a.wn
		c.i = a.id()
		c.hs = append(c.hs, a)
		h = p.wideNode(c, op.Ev, f, "dup")
	case "satcount":
		if !opd(1) {
			return false
		}
		x := c.hs[0].wn
		p.api(c, op.Ev)
		p.done(c)
		p.spurious(op, "satcount")
		if exp := rf.count(x); c.big == nil || c.big.Cmp(exp) != 0 {
			p.fail("satcount", "Satcount is %v instead of %v (%d variables)", c.big, exp, rf.n)
		}
		p.trace("%v", c.big)
		return true
	case "equal":
		if !opd(2) {
			return false
		}
		exp := c.hs[0].wn == c.hs[1].wn
		p.api(c, op.Ev)
		p.done(c)
		if c.ok != exp {
			p.fail("equal", "Equal of two nodes is %v, their functions are equal: %v", c.ok, exp)
		}
		return true
	case "label":
		if a == nil || a.wn < 2 {
			return false
		}
		opd(1)
		exp := rf.nd[c.hs[0].wn].lvl
		p.api(c, op.Ev)
		p.done(c)
		p.spurious(op, "label")
		if c.num != exp {
			p.fail("label", "Label is %d instead of %d", c.num, exp)
		}
		return true
	case "scanset":
		if !opd(1) {
			return false
		}
		var exp []int
		for x := c.hs[0].wn; x > 1; x = rf.nd[x].hi {
			exp = append(exp, rf.nd[x].lvl)
		}
		p.api(c, op.Ev)
		p.done(c)
		p.spurious(op, "scanset")
		if fmt.Sprint(exp) != fmt.Sprint(c.is) {
			p.fail("scanset", "Scanset is %v instead of %v", c.is, exp)
		}
		return true
	case "allnodes", "print", "dot":
		if a == nil || kind != "allnodes" && (p.errored || p.b.Errored()) {
			return false
		}
		k := 1
		if b != nil && op.C&1 == 1 {
			k = 2
		}
		opd(k)
		hs := append([]*Handle(nil), c.hs...)
		var ids []int
		for i := 0; i < k; i++ {
			ids = append(ids, hs[i].id())
		}
		c.ns = append([]rudd.Node(nil), c.n[:k]...)
		c.n = [3]rudd.Node{}
		cb := &cbState{p: p, kind: kind, wr: kind != "allnodes"}
		t := newTable()
		if kind == "allnodes" {
			c.fn = func(id, level, low, high int) error { t.add(id, level, low, high); return nil }
		} else {
			c.wr = cb
		}
		p.api(c, op.Ev)
		p.done(c)
		p.spurious(op, kind)
		if c.err != nil {
			p.fail(kind, "%s returns error %v", kind, c.err)
		}
		e := ""
		switch {
		case kind == "print" && k == 1 && ids[0] < 2:
			if strings.TrimSpace(cb.buf.String()) != [2]string{"False", "True"}[ids[0]] {
				p.fail(kind, "Print of the constant %d writes %q", ids[0], cb.buf.String())
			}
			return true
		case kind == "print":
			t, e = parsePrint(cb.buf.String())
		case kind == "dot":
			t, e = parseDot(cb.buf.String())
		}
		if e != "" {
			p.fail(kind, "%s: %s", kind, e)
		}
		set := map[int32]bool{}
		for i, x := range hs {
			if e := p.wideIso(t, ids[i], x.wn); e != "" {
				p.fail(kind, "%s: the report of node %d is wrong: %s", kind, ids[i], e)
			}
			rf.reach(set, x.wn)
		}
		if len(set) != len(t.ids) {
			p.fail(kind, "%s: %d nodes reported, %d are reachable from the roots", kind, len(t.ids), len(set))
		}
		p.trace("%d", len(set))
		return true
	case "allsat":
		const max = 400
		if a == nil || rf.paths(a.wn, max) >= max {
			return false
		}
		opd(1)
		x := c.hs[0].wn
		sum := new(big.Int)
		var cubes [][]int
		n := 0
		c.fs = func(v []int) error {
			if n++; n > 4*max {
				p.fail("allsat", "Allsat calls its function more than %d times", 4*max)
			}
			if len(v) != rf.n {
				p.fail("allsat", "Allsat gives a slice of length %d for %d variables", len(v), rf.n)
			}
			free := 0
			for _, y := range v {
				switch y {
				case -1:
					free++
				case 0, 1:
				default:
					p.fail("allsat", "Allsat gives %v", v)
				}
			}
			for _, u := range cubes {
				dis := false
				for i := range u {
					if u[i]+v[i] == 1 && u[i] >= 0 && v[i] >= 0 {
						dis = true
						break
					}
				}
				if !dis {
					p.fail("allsat", "Allsat: cube %d overlaps an earlier one", n-1)
				}
			}
			if !rf.under(x, v) {
				p.fail("allsat", "Allsat: cube %d is not included in the function", n-1)
			}
			sum.Add(sum, bigPow2(free))
			cubes = append(cubes, append([]int(nil), v...))
			return nil
		}
		p.api(c, op.Ev)
		p.done(c)
		p.spurious(op, "allsat")
		if c.err != nil {
			p.fail("cberr", "Allsat returned %v without any failure of its function", c.err)
		}
		if exp := rf.count(x); sum.Cmp(exp) != 0 {
			p.fail("allsat", "Allsat covers %v assignments instead of %v", sum, exp)
		}
		p.trace("%d", n)
		return true
	}
	p.w.cnt.Probes["wide-"+kind]++
	if h == nil {
		return true
	}
	if k := rf.size(f); k > p.w.cnt.MaxWide {
		p.w.cnt.MaxWide = k
	}
	p.trace("%d", rf.size(f))
	p.wideSet(op.D%nWide, h)
	if op.Obs > 0 {
		p.bound = p.maxSteps()
		t, err := p.snapFrom(h.n)
		if err != nil {
			p.fail("wrong:"+h.kind, "the node %d returned by %s is not valid: %v", h.id(), h.kind, err)
		}
		p.wideCheck(t, h)
	}
	return true
}

// wideConfig chooses options under which the caches are effective.
func (g *Gen) wideConfig(n int) Cfg {
	c := g.config(n, false)
	if c.Nodesize < 2*n+2 || g.r.P(0.5) {
		c.Nodesize = 2*n + 2 + g.r.Log(3000)
	}
	c.Cachesize = g.oneOf(10000, 15000, 20000)
	c.Cacheratio = g.oneOf(-1, 0, 2000, 3000)
	if c.Maxinc > 0 && c.Maxinc < 100 {
		c.Maxinc = g.oneOf(-1, 0, 100, 200, 1000)
	}
	if c.Minfree >= 0 && c.Minfree < 20 {
		c.Minfree = 20
	}
	return c
}

func (g *Gen) wideProg() *Gen {
	r := g.r
	n := 18 + r.Intn(50)
	if r.P(0.3) {
		n = g.oneOf(31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129)
	}
	g.wide = true
	g.prog = &Prog{Cfg: g.wideConfig(n), Act: []int{0, n / 2, n - 1}, Wide: true}
	g.left = 6 + r.Intn(22)
	f := g.f
	g.ev, g.last, g.aud, g.obs = f.Ev, f.Last, f.Aud/2, 0.4
	for i := 0; i < 2; i++ {
		g.queue = append(g.queue, g.wideOp(i, 0))
	}
	return g
}

func (g *Gen) wideOp(d, kind int) *Op {
	r := g.r
	op := &Op{K: "wide", N: kind, D: d, A: int(r.U64() >> 34), B: r.Intn(1000)}
	return op
}

var wideW = map[string][]float64{}

func (g *Gen) drawWide(p *P) *Op {
	r := g.r
	kind := 0
	ws, ok := wideW[p.w.c.Prop]
	if !ok {
		t := 0.0
		for _, k := range wideKinds {
			w := 1.0
			switch k {
			case "new":
				w = 2.5
			case "drop", "gc":
				w = 0.7
			case "label", "low", "high", "retnode", "scanset", "makecube", "makeset", "print", "dot":
				w = 0.5
			}
			x, ok := g.f.W[k]
			if b, ok2 := baseW()[k]; ok && ok2 && b > 0 {
				w *= x / b
			}
			t += w
			ws = append(ws, t)
		}
		wideW[p.w.c.Prop] = ws
	}
	x := float64(r.U64()>>11) / float64(1<<53) * ws[len(ws)-1]
	for kind = 0; kind < len(ws)-1 && ws[kind] < x; kind++ {
	}
	op := g.wideOp(r.Intn(nWide), kind)
	switch wideKinds[kind] {
	case "new", "makeset", "makecube", "gc":
	default:
		var c []int
		for i, h := range p.wslot {
			if h != nil {
				c = append(c, i)
			}
		}
		if len(c) == 0 {
			return g.wideOp(op.D, 0)
		}
		pick := func() int { return c[r.Intn(len(c))] }
		op.A, op.B, op.C, op.Op = pick(), pick(), pick(), int(r.U64()>>40)
		for i := 0; i < 3; i++ {
			if r.P(g.last) {
				op.Last |= 1 << uint(i)
			}
		}
	}
	if r.P(g.obs) {
		op.Obs = 1
	}
	if r.P(g.aud) {
		op.Aud = 1
	}
	g.events(p, op)
	return op
}
