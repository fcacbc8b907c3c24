package main

import (
	"math"
	"sort"
	"strings"

	. "verif/rsim/sc"
)

// Prof is the distribution of the cases of one property.
type Prof struct {
	W         map[string]float64 // weights of the operations
	Ops       [2]int
	K         [2]int
	Progs     int
	Ev        float64 // probability that an operation has events
	EvMax     int
	Fin       float64 // weights of the kinds of events
	Drop      float64
	Probe     float64
	Sw        float64
	Hot       float64
	Last      float64 // probability that an operand is used for the last time
	Sub       float64 // probability that a callback runs operations
	Flt       float64 // probability that a callback or a writer fails
	Limit     float64 // probability that the size of the table is limited
	Big       float64 // probability of many variables
	Twin      bool    // only the nodes are of interest
	Huge      bool    // more than 2^20 variables
	Word      float64 // probability of a number of variables around a power of two
	Pile      float64 // probability that a user-defined operation protects many nodes
	Squeeze   float64 // probability that an operation starts with a full table
	Again     float64 // probability to compute an earlier result again
	Aud, Obs  float64
	Chain     float64 // probability of a case about resources with wide functions
	Wide      float64 // probability of a case about functions of many variables
	Fixed     bool    // the program does not depend on the implementation
	SmallInit bool
	Small     bool // small tables are not a purpose
}

func baseW() map[string]float64 {
	return map[string]float64{
		"const": 1, "ith": 3, "nith": 1.5, "makeset": 2, "makecube": 1.5, "not": 3, "apply": 12,
		"and": 1.5, "or": 1.5, "imp": 0.7, "equiv": 0.7, "ite": 5, "exist": 3, "appex": 3, "andexist": 1.5,
		"repl": 1, "replace": 2, "low": 1, "high": 1, "dup": 1, "mass": 0.05, "bagdrop": 0.3, "drop": 6,
		"fin": 4, "fill": 2, "gc": 0.6, "build": 2, "satcount": 0.6, "allsat": 0.7, "allnodes": 0.5,
		"print": 0.3, "dot": 0.3, "label": 0.3, "scanset": 0.3, "equal": 0.8, "audit": 0.5, "probe": 0,
		"bad": 0, "newbdd": 0.05, "chain": 0, "stats": 0.3, "burst": 0.02, "march": 0.02, "wrap": 0.02, "twin": 0.02,
	}
}

func profile(prop string) *Prof {
	f := &Prof{W: baseW(), Ops: [2]int{15, 90}, K: [2]int{3, 7}, Progs: 1, Ev: 0.35, EvMax: 3, Fin: 5, Drop: 2, Probe: 2,
		Hot: 0.25, Last: 0.15, Sub: 0.3, Squeeze: 0.15, Again: 0.1, Aud: 0.04, Obs: 0.3, Big: 0.01, Pile: 0.03, Wide: 0.02, Word: 0.03}
	mul := func(x float64, ks ...string) {
		for _, k := range ks {
			f.W[k] *= x
		}
	}
	switch prop {
	case "C01":
		mul(2, "apply", "ite", "not", "makeset", "makecube", "and", "or", "imp", "equiv", "const", "ith", "nith")
		f.Obs, f.Squeeze, f.Big, f.Wide = 0.5, 0.25, 0.02, 0.04
	case "C02":
		mul(4, "exist", "appex", "andexist", "makeset")
		f.W["burst"] = 0.15
		f.Obs, f.Squeeze, f.Wide = 0.5, 0.25, 0.04
	case "C03":
		mul(5, "repl", "replace")
		f.W["burst"] = 0.15
		f.Obs, f.Squeeze, f.K = 0.5, 0.25, [2]int{3, 8}
		f.Big, f.Wide = 0.02, 0.05
	case "C04":
		mul(6, "dup", "bagdrop")
		f.W["mass"] = 0.3
		f.Aud, f.Squeeze, f.Limit = 0.1, 0.2, 0.1
		mul(2, "drop", "fin", "gc")
	case "C05":
		f.Ev, f.EvMax, f.Hot, f.Fin, f.Drop, f.Probe = 0.85, 6, 0.6, 10, 3, 0
		mul(3, "drop", "fin", "dup")
		mul(3, "gc", "stats")
		f.Squeeze = 0.3
		f.Aud = 0.08
	case "C06":
		f.Last, f.Ev, f.Probe, f.Fin, f.Drop, f.Squeeze = 0.75, 0.8, 12, 2, 1, 0.45
		mul(4, "allsat", "allnodes", "print", "dot", "satcount")
		mul(0.3, "drop", "fin")
		mul(2, "replace", "exist", "appex", "low", "high", "scanset", "label")
		f.Sub = 0.8
		f.Obs = 0.5
	case "C07":
		f.Aud, f.Limit = 0.2, 0.15
		mul(2, "equal", "gc", "fill", "drop")
		mul(3, "allnodes", "build", "twin")
		f.Flt = 0.3
		f.Again = 0.2
	case "C08":
		mul(3, "drop", "fin", "gc", "build", "dup", "bagdrop")
		mul(2, "allnodes", "low", "high", "replace", "makeset", "makecube")
		f.W["mass"] = 0.1
		f.Flt = 0.1
		f.Last = 0.3
	case "C09":
		mul(8, "gc")
		mul(3, "drop", "fin", "fill")
		f.W["newbdd"] = 1
		f.Limit = 0.5
		f.Squeeze = 0.1
		f.SmallInit = true
	case "C10":
		f.Limit = 1
		f.Squeeze = 0.4
		f.Again = 0.2
		mul(2, "drop", "fin", "not", "ite", "apply", "replace", "exist", "appex", "build", "makeset", "makecube")
		f.SmallInit = true
		f.Aud = 0.1
	case "C11":
		f.W["bad"] = 25
		f.Again, f.Aud = 0.15, 0.1
		f.W["newbdd"] = 0.3
		mul(2, "repl")
	case "C12":
		mul(12, "allsat", "satcount")
		f.Sub, f.Big, f.Last, f.Wide = 0.7, 0.03, 0.3, 0.05
	case "C13":
		mul(10, "allnodes", "low", "high", "label", "scanset")
		mul(2, "makeset")
		f.Sub, f.Obs, f.Big, f.Wide = 0.7, 0.5, 0.02, 0.04
	case "C14":
		mul(10, "allsat", "allnodes")
		f.Flt, f.Sub, f.Aud = 0.7, 0.3, 0.1
		mul(2, "gc")
	case "C15":
		mul(15, "print", "dot")
		f.Flt, f.Sub, f.Big = 0.35, 0.4, 0.02
	case "C16":
		f.Progs = 3
		f.Ops = [2]int{10, 45}
		f.Sw, f.Ev, f.EvMax, f.Hot = 15, 0.8, 5, 0.4
		f.W["newbdd"] = 2
		mul(6, "repl", "replace")
		mul(2, "exist", "appex", "andexist")
	case "C17":
		f.Fixed = true
		f.Big = 0.02
		f.Drop = 0
		f.W["bad"] = 1
		f.Obs = 0.6
		mul(3, "allsat", "satcount", "allnodes", "scanset", "label")
		f.W["newbdd"] = 0
	case "C18":
		f.Hot, f.Ev, f.EvMax, f.Fin = 0.7, 0.8, 6, 12
		f.Limit, f.Chain, f.Wide, f.Flt = 0.3, 0.1, 0.12, 0.2
		f.W["bad"] = 2
		mul(3, "allnodes", "allsat", "print", "dot", "gc", "dup")
		mul(8, "stats")
	case "C19":
		f.Aud, f.Limit = 0.25, 0.15
		mul(3, "gc", "fill", "drop", "fin", "dup", "bagdrop")
		mul(12, "stats")
		f.W["mass"] = 0.1
		f.Hot, f.Ev = 0.5, 0.5
	case "C20":
		mul(15, "build")
		mul(2, "gc", "drop")
		f.Squeeze, f.Limit, f.Pile = 0.4, 0.1, 0.2
	}
	return f
}

// replacers makes the programs create replacers and use them in turn.
func (f *Prof) replacers() {
	for k := range f.W {
		f.W[k] *= 0.1
	}
	f.W["repl"], f.W["replace"], f.W["build"] = 12, 20, 1
	f.K = [2]int{4, 6}
	f.Again, f.Obs, f.Drop, f.Fin, f.Squeeze = 0.1, 0.7, 0.2, 1, 0
	f.Small, f.Wide = true, 0
}

// Gen draws the operations of one program.
type Gen struct {
	r     *RNG
	f     *Prof
	left  int
	queue []*Op
	kinds []string
	cum   []float64
	hist  []*Op
	hh    [][]*Handle
	ev    float64
	last  float64
	sq    float64
	sub   float64
	flt   float64
	again float64
	aud   float64
	obs   float64
	depth int
	kmax  int
	dst   int
	prog  *Prog
	wide  bool // functions of many variables
}

func newCase(prop, build string, seed uint64, index int) (*Case, []func(p *P) *Op) {
	r := NewRNG(mix(seed*0x9e3779b97f4a7c15+0x51ed) ^ mix(uint64(index)+0xabcdef) ^ hashS(prop))
	c := &Case{Prop: prop, Build: build, Seed: seed, Index: index}
	f := profile(prop)
	if prop == "C16" && r.P(0.3) {
		f.replacers()
	}
	n := f.Progs
	if n > 1 {
		n = 2 + r.Intn(n-1)
	}
	var gens []func(p *P) *Op
	switch prop {
	case "C07":
		f.Huge = (index%20000 == 7677 || index%20000 == 7777) && !strings.Contains(build, "386")
		f.Twin = f.Huge
	case "C06", "C09", "C10", "C11", "C14", "C16", "C17", "C19", "C20":
	default:
		// a few executions with as many variables as the library supports
		// (of both implementations)
		f.Huge = index%20000 == 7777-100*(index/20000%2) && !strings.Contains(build, "386")
	}
	for i := 0; i < n; i++ {
		g := newGen(f, NewRNG(r.U64()))
		c.Progs = append(c.Progs, g.prog)
		gens = append(gens, g.next)
	}
	if prop == "C17" {
		// two other executions
		pr := c.Progs[0]
		g := &Gen{r: NewRNG(r.U64()), f: f}
		x := g.config(pr.Cfg.Varnum, false)
		y := Cfg{Varnum: pr.Cfg.Varnum, Nodesize: 3000, Cachesize: 1000, Cacheratio: -1, Maxnodesize: -1, Maxinc: -1, Minfree: -1}
		if pr.Wide {
			x, y.Cachesize = g.wideConfig(pr.Cfg.Varnum), 20000
		}
		c.Vars = []*Variant{{Cfg: x, NoEv: r.P(0.5), NoFin: r.P(0.3), NoMem: r.P(0.3)}, {Cfg: y, NoEv: true, NoFin: true, NoMem: true}}
	}
	return c, gens
}

func (g *Gen) oneOf(xs ...int) int { return xs[g.r.Intn(len(xs))] }

func (g *Gen) config(varnum int, limited bool) Cfg {
	r := g.r
	c := Cfg{Varnum: varnum, Nodesize: -1, Cachesize: -1, Cacheratio: -1, Maxnodesize: -1, Maxinc: -1, Minfree: -1}
	min := 2*varnum + 2
	if g.f.Small {
		c.Nodesize, c.Cachesize = 300+r.Intn(2000), g.oneOf(100, 1000)
		return c
	}
	switch {
	case r.P(0.15):
	case r.P(0.1):
		c.Nodesize = r.Intn(min)
	case g.f.SmallInit:
		c.Nodesize = min + r.Log(30)
	default:
		c.Nodesize = min + r.Log(250)
	}
	if varnum > 2000 {
		c.Nodesize = min + r.Log(2000)
	}
	c.Cachesize = g.oneOf(1, 2, 3, 3, 5, 5, 7, 7, 11, 13, 30, 100, 1000)
	if r.P(0.02) {
		c.Cachesize = g.oneOf(-1, 0)
	}
	if r.P(0.4) {
		c.Cacheratio = g.oneOf(0, 1, 3, 10, 20, 25, 50, 100, 200)
	}
	if r.P(0.7) {
		c.Maxinc = g.oneOf(0, 1, 1, 2, 3, 5, 7, 10, 13, 20, 30, 50, 100, 1000)
	}
	if r.P(0.6) {
		c.Minfree = g.oneOf(0, 1, 5, 10, 20, 30, 50, 50, 80, 99, 100)
	}
	if c.Minfree >= 80 && (c.Maxinc <= 0 || c.Maxinc > 100) {
		c.Maxinc = g.oneOf(1, 3, 10, 50, 90)
	}
	if r.P(0.04) && c.Minfree < 80 {
		// no limit, as a very large number
		c.Maxinc = math.MaxInt32 - r.Intn(3)
	}
	if c.Maxinc > 0 && c.Maxinc <= 100 && r.P(0.03) {
		c.Minfree = g.oneOf(101, 150, 1000, math.MaxInt32)
	}
	if r.P(0.02) {
		c.Cacheratio = g.oneOf(500, 1000)
	}
	if varnum > 2000 && c.Maxinc > 0 && c.Maxinc < 1<<30 {
		// each step of the growth is a collection of a large table
		c.Maxinc += varnum / 4
	}
	if !limited && r.P(0.03) {
		c.Maxnodesize = math.MaxInt32 - r.Intn(3)
	}
	if limited {
		base := min
		if c.Nodesize > base {
			base = c.Nodesize
		}
		c.Maxnodesize = base + r.Log(120)
		if r.P(0.1) {
			c.Maxnodesize = 1 + r.Intn(base)
		}
	}
	return c
}

func newGen(f *Prof, r *RNG) *Gen {
	g := &Gen{r: r, f: f}
	k := f.K[0] + r.Intn(f.K[1]-f.K[0]+1)
	if r.P(0.1) {
		k = 1 + r.Intn(3)
	}
	varnum, act := g.vars(k)
	if f.Huge {
		g.prog = &Prog{Cfg: g.config(varnum, r.P(f.Limit) && !f.Twin), Act: act}
	} else if r.P(f.Chain) {
		return g.chainProg()
	}
	if g.prog == nil && r.P(f.Wide) {
		return g.wideProg()
	}
	if g.prog == nil {
		g.prog = &Prog{Cfg: g.config(varnum, r.P(f.Limit)), Act: act}
	}
	g.left = f.Ops[0] + r.Log(f.Ops[1]-f.Ops[0]) + r.Intn(10)
	if varnum > 2000 {
		g.left = 12 + r.Intn(15)
	}
	if g.f.Huge {
		g.left = 6 + r.Intn(10)
	}
	scale := func(x float64) float64 { return x * []float64{0, 0.3, 0.7, 1, 1, 1.3, 1.8}[r.Intn(7)] }
	g.ev, g.last, g.sq, g.sub, g.flt, g.again, g.aud, g.obs = scale(f.Ev), scale(f.Last), scale(f.Squeeze), scale(f.Sub), scale(f.Flt), scale(f.Again), scale(f.Aud), scale(f.Obs)
	g.weights()
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		g.queue = append(g.queue, &Op{K: []string{"ith", "ith", "nith", "build", "makecube"}[r.Intn(4)], D: i, A: r.Intn(k), N: int(r.U64() >> 34)})
	}
	if f.Twin {
		g.queue = []*Op{{K: "twin", N: 20000, A: int(r.U64() >> 34)}, {K: "twin", N: 20000, A: int(r.U64() >> 34)}}
		g.left = len(g.queue)
	}
	g.dst = n
	return g
}

// vars chooses the variables used by a program.
func (g *Gen) vars(k int) (int, []int) {
	r := g.r
	varnum := k
	var must []int
	switch {
	case g.f.Huge:
		varnum = g.oneOf(1<<20+100+r.Intn(5000), 1<<20+100+r.Intn(5000), 1<<21-1)
		must = []int{3, 65536 + 3, 1<<17 + 3, 1<<18 + 3, 1<<19 + 3, 1<<20 + 3, varnum - 1, varnum - 2}
	case r.P(g.f.Big):
		switch r.Intn(6) {
		case 0, 1, 2:
			varnum = 257 + r.Intn(60)
			must = []int{255, 256, 254}
		case 3, 4:
			varnum = 1000 + r.Intn(2000)
			must = []int{255, 256, 511, 512, 0}
		default:
			varnum = 65537 + r.Intn(2000)
			must = []int{255, 256, 65535, 65536, 0}
		}
		must = append(must, varnum-1)
	case r.P(g.f.Word):
		// around the sizes of the words of the machine
		varnum = g.oneOf(31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257)
		must = []int{varnum - 1, 0, 31, 32, 63, 64}
		for i := len(must) - 1; i > 0; i-- {
			if must[i] >= varnum-1 {
				must = append(must[:i], must[i+1:]...)
			}
		}
	case r.P(0.5):
		varnum = k + r.Intn(4)
	}
	set := map[int]bool{}
	if len(must) > 0 && k < 3 {
		k = 3
	}
	for _, i := range r.Perm(len(must)) {
		if len(set) < k-1 {
			set[must[i]] = true
		}
	}
	for len(set) < k {
		set[r.Intn(varnum)] = true
	}
	var act []int
	for l := range set {
		act = append(act, l)
	}
	sort.Ints(act)
	return varnum, act
}

func (g *Gen) weights() {
	var ks []string
	for k := range g.f.W {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	t := 0.0
	for _, k := range ks {
		w := g.f.W[k]
		if g.r.P(0.2) {
			w *= 0.1
		} else if g.r.P(0.15) {
			w *= 4
		}
		if w <= 0 {
			continue
		}
		t += w
		g.kinds = append(g.kinds, k)
		g.cum = append(g.cum, t)
	}
}

func (g *Gen) chainProg() *Gen {
	r := g.r
	n := 20 + r.Intn(24)
	c := g.config(n, r.P(0.7))
	if c.Maxnodesize > 0 {
		c.Maxnodesize = 2*n + 2 + 5*n + r.Log(5*n)
	}
	if c.Cachesize < 1000 {
		c.Cachesize = 3000
	}
	if c.Cacheratio < 2000 {
		// a resize gives the caches this ratio of the size of the table: with less
		// than the diagrams involved there is no memoisation
		c.Cacheratio = []int{-1, 0, 2000, 3000}[r.Intn(4)]
	}
	g.prog = &Prog{Cfg: c, Act: []int{0, n / 2, n - 1}}
	m := 1 + r.Intn(4)
	for i := 0; i < m; i++ {
		o := &Op{K: "chain", A: r.Intn(12), B: r.Intn(1000), N: r.Intn(60) - 20}
		g.queue = append(g.queue, o)
	}
	g.left = len(g.queue)
	return g
}

// next draws the next operation.
func (g *Gen) next(p *P) *Op {
	if g.left <= 0 {
		return nil
	}
	g.left--
	if len(g.queue) > 0 {
		op := g.queue[0]
		g.queue = g.queue[1:]
		return op
	}
	if g.wide {
		return g.drawWide(p)
	}
	return g.draw(p)
}

func (g *Gen) slot(p *P) int {
	var c []int
	for i, h := range p.slots {
		if h != nil && h.tt != nil {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return -1
	}
	if g.r.P(0.5) {
		// prefer proper functions
		for t := 0; t < 3; t++ {
			i := c[g.r.Intn(len(c))]
			if p.topVar(p.slots[i].tt) >= 0 {
				return i
			}
		}
	}
	return c[g.r.Intn(len(c))]
}

func (g *Gen) set(p *P) int {
	var c []int
	for i, h := range p.slots {
		if h != nil && h.isSet {
			c = append(c, i)
		}
	}
	if len(c) == 0 || g.r.P(0.1) {
		return -1
	}
	return c[g.r.Intn(len(c))]
}

func (g *Gen) subset(k int) []int {
	r := g.r
	q := r.Perm(k)
	n := 1 + r.Intn(k)
	if r.P(0.4) && n > 2 {
		n = 1 + r.Intn(2)
	}
	if r.P(0.06) {
		n = 0
	}
	s := append([]int(nil), q[:n]...)
	if r.P(0.4) {
		sort.Ints(s)
	}
	if r.P(0.04) && n > 0 {
		s = append(s, s[r.Intn(n)])
	}
	return s
}

func (g *Gen) dest() int {
	if g.r.P(0.6) {
		g.dst = (g.dst + 1) % nSlots
		return g.dst
	}
	return g.r.Intn(nSlots)
}

func (g *Gen) draw(p *P) *Op {
	r := g.r
	if r.P(g.again) && len(g.hist) > 0 && g.depth == 0 {
		i := r.Intn(len(g.hist))
		op := g.hist[i].Clone()
		same := true
		hs := opHandles(p, op)
		for j, h := range g.hh[i] {
			if j >= len(hs) || hs[j] == nil || hs[j] != h {
				same = false
			}
		}
		if same {
			op.D = g.dest()
			op.Ev, op.Last = nil, 0
			op.Obs = g.oneOf(0, 1, 1, 2, 3)
			g.events(p, op)
			return op
		}
	}
	var op *Op
	for t := 0; t < 20 && op == nil; t++ {
		x := float64(r.U64()>>11) / float64(1<<53) * g.cum[len(g.cum)-1]
		i := sort.SearchFloat64s(g.cum, x)
		if i >= len(g.kinds) {
			i = len(g.kinds) - 1
		}
		op = g.make(p, g.kinds[i])
	}
	if op == nil {
		op = &Op{K: "ith", A: r.Intn(p.k), D: g.dest()}
	}
	if isCall(op.K) {
		nopd := len(opSlots(op))
		for i := 0; i < nopd; i++ {
			if r.P(g.last) {
				op.Last |= 1 << uint(i)
			}
		}
		if r.P(g.obs) {
			op.Obs = g.oneOf(1, 1, 2, 3)
		}
		if r.P(g.aud) {
			op.Aud = 1
		}
		g.events(p, op)
		if g.depth == 0 {
			if len(g.hist) < 40 {
				g.hist = append(g.hist, nil)
				g.hh = append(g.hh, nil)
			}
			if op.Last == 0 && len(opSlots(op)) > 0 && len(op.Sub) == 0 {
				j := r.Intn(len(g.hist))
				g.hist[j] = op.Clone()
				g.hh[j] = opHandles(p, op)
			}
			for j := range g.hist {
				if g.hist[j] == nil {
					g.hist = append(g.hist[:j], g.hist[j+1:]...)
					g.hh = append(g.hh[:j], g.hh[j+1:]...)
					break
				}
			}
			if r.P(g.sq) {
				g.queue = append(g.queue, op)
				g.left++
				if r.P(0.4) {
					g.queue = append([]*Op{{K: "fin", A: 0, N: 30}}, g.queue...)
					g.left++
				}
				return &Op{K: "fill", N: r.Log(14), A: int(r.U64() >> 34)}
			}
		}
	}
	return op
}

func isCall(k string) bool {
	switch k {
	case "drop", "fin", "fill", "gc", "audit", "bagdrop", "probe", "newbdd", "march", "wrap", "twin":
		return false
	}
	return true
}

// opSlots lists the operands of an operation.
func opSlots(op *Op) []int {
	switch op.K {
	case "not", "replace", "low", "high", "satcount", "allsat", "label", "scanset":
		return []int{op.A}
	case "apply", "imp", "equiv", "exist", "equal":
		return []int{op.A, op.B}
	case "ite", "appex", "andexist":
		return []int{op.A, op.B, op.C}
	case "and", "or", "allnodes", "print", "dot":
		return op.S
	}
	return nil
}

func opHandles(p *P, op *Op) []*Handle {
	var hs []*Handle
	for _, s := range opSlots(op) {
		hs = append(hs, p.slot(s))
	}
	return hs
}

var est0 = map[string]int{"not": 200, "apply": 500, "ite": 700, "exist": 700, "appex": 900, "andexist": 900, "replace": 500, "low": 20, "high": 20, "dup": 15,
	"ith": 10, "nith": 10, "const": 5, "makeset": 60, "makecube": 60, "and": 700, "or": 700, "imp": 500, "equiv": 500, "build": 400, "satcount": 200,
	"allsat": 500, "allnodes": 600, "print": 800, "dot": 800, "label": 8, "scanset": 40, "equal": 8, "mass": 15, "bad": 60, "stats": 15, "burst": 20000, "wide": 20000}

func (g *Gen) est(p *P, k string) int {
	e := est0[k]
	if !g.f.Fixed {
		if x, ok := p.est[k]; ok {
			e = int(x)
		}
	}
	if e < 5 {
		e = 5
	}
	return e
}

func (g *Gen) events(p *P, op *Op) {
	r, f := g.r, g.f
	if !r.P(g.ev) {
		if op.Last != 0 && r.P(0.7) {
			// the operands become unreachable during the call
			op.Ev = append(op.Ev, Ev{At: r.Intn(g.est(p, op.K) + 10), K: "probe"})
		}
		return
	}
	n := 1 + r.Intn(f.EvMax)
	e := g.est(p, op.K)
	if op.K == "chain" {
		e = 40000
	}
	for i := 0; i < n; i++ {
		var ev Ev
		if r.P(f.Hot) {
			ev.Hot = true
			ev.At = r.Log(e/6 + 4)
			if r.P(0.5) {
				ev.At = r.Intn(e/5 + 2)
			}
		} else if r.P(0.5) {
			ev.At = r.Intn(e + e/4 + 2)
		} else {
			ev.At = r.Log(2*e + 20)
		}
		x := float64(r.U64()>>11) / float64(1<<53) * (f.Fin + f.Drop + f.Probe + f.Sw)
		switch {
		case x < f.Fin:
			ev.K = "fin"
			ev.A = r.Intn(50)
			if r.P(0.6) {
				ev.B = 1 + r.Log(25)
			}
		case x < f.Fin+f.Drop:
			ev.K = "drop"
			ev.A = r.Intn(nSlots)
		case x < f.Fin+f.Drop+f.Probe:
			ev.K = "probe"
			if r.P(0.2) {
				ev.B = 1 + r.Log(25)
			}
			if op.Last == 0 && r.P(0.8) {
				continue
			}
		default:
			ev.K = "sw"
			ev.A = r.Intn(4)
			ev.B = r.Log(3000)
			if f.Small && op.K == "repl" {
				// in the middle of the creation of a replacer
				ev.B = 300 + r.Log(8000)
				if r.P(0.5) {
					ev.Hot, ev.At = true, r.Intn(4)
				}
			}
		}
		op.Ev = append(op.Ev, ev)
	}
}

func (g *Gen) make(p *P, k string) *Op {
	r := g.r
	op := &Op{K: k}
	a, b, c := g.slot(p), g.slot(p), g.slot(p)
	need := func(xs ...int) bool {
		for _, x := range xs {
			if x < 0 {
				return false
			}
		}
		return true
	}
	op.D = g.dest()
	switch k {
	case "const":
		op.A, op.N = r.Intn(2), r.Intn(2)
	case "stats":
	case "ith", "nith":
		op.A = r.Intn(p.k)
	case "makeset":
		op.Vs = g.subset(p.k)
	case "makecube":
		op.Vs = g.subset(p.k)
		if r.P(0.1) && p.k == p.cfg.Varnum {
			op.N = 1
			op.Vs = nil
			for i := 0; i < p.k; i++ {
				op.Vs = append(op.Vs, i)
			}
		}
		seen := map[int]int{}
		for _, v := range op.Vs {
			x := r.Intn(2)
			if y, ok := seen[v]; ok {
				x = y
			}
			seen[v] = x
			op.Vt = append(op.Vt, x)
		}
		if len(op.Vs) == 0 {
			return nil
		}
	case "not", "low", "high", "dup", "satcount", "scanset", "label":
		if !need(a) {
			return nil
		}
		op.A = a
		if k == "scanset" && r.P(0.6) {
			if s := g.set(p); s >= 0 {
				op.A = s
			}
		}
	case "allsat":
		if !need(a) {
			return nil
		}
		op.A = a
		g.callbacks(p, op)
	case "allnodes", "print", "dot":
		n := 1 + r.Intn(3)
		if r.P(0.1) {
			n = 0
		}
		for i := 0; i < n; i++ {
			s := g.slot(p)
			if s < 0 {
				return nil
			}
			op.S = append(op.S, s)
		}
		if n == 0 && p.cfg.Varnum > 500 && r.P(0.9) {
			return nil
		}
		g.callbacks(p, op)
	case "apply", "imp", "equiv", "equal":
		if !need(a, b) {
			return nil
		}
		op.A, op.B, op.Op = a, b, r.Intn(10)
	case "and", "or":
		n := r.Intn(5)
		for i := 0; i < n; i++ {
			s := g.slot(p)
			if s < 0 {
				return nil
			}
			op.S = append(op.S, s)
		}
	case "ite":
		if !need(a, b, c) {
			return nil
		}
		op.A, op.B, op.C = a, b, c
	case "exist":
		if !need(a) {
			return nil
		}
		s := g.set(p)
		if s < 0 {
			return g.make(p, "makeset")
		}
		op.A, op.B = a, s
	case "appex", "andexist":
		if !need(a, b) {
			return nil
		}
		s := g.set(p)
		if s < 0 {
			return g.make(p, "makeset")
		}
		op.A, op.B, op.C, op.Op = a, b, s, r.Intn(4)
	case "repl":
		q := r.Perm(p.k)
		if p.k < 2 {
			return nil
		}
		n := 1 + r.Intn(p.k/2)
		op.Vs, op.Vt = q[:n:n], q[n:2*n:2*n]
		op.D = r.Intn(nRepl)
	case "replace":
		if !need(a) {
			return nil
		}
		var rs []int
		for i, x := range p.repl {
			if x != nil {
				rs = append(rs, i)
			}
		}
		if len(rs) == 0 {
			return g.make(p, "repl")
		}
		op.A, op.B = a, rs[r.Intn(len(rs))]
		if r.P(0.75) {
			// prefer an operand without target variables
			for t := 0; t < 6; t++ {
				h := p.slots[op.A]
				bad := false
				for _, v := range p.repl[op.B].new {
					if ttDep(p.k, h.tt, v) {
						bad = true
					}
				}
				if !bad && p.topVar(h.tt) >= 0 {
					break
				}
				op.A = g.slot(p)
				op.B = rs[r.Intn(len(rs))]
			}
			h := p.slots[op.A]
			for _, v := range p.repl[op.B].new {
				if ttDep(p.k, h.tt, v) {
					// build an operand for this replacer
					keep := &Op{K: "build", D: g.dest(), N: int(r.U64() >> 34), A: r.Intn(8)}
					bad := map[int]bool{}
					for _, v := range p.repl[op.B].new {
						bad[v] = true
					}
					for i := 0; i < p.k; i++ {
						if !bad[i] {
							keep.Vs = append(keep.Vs, i)
						}
					}
					if len(keep.Vs) == 0 {
						break
					}
					op.A = keep.D
					if g.depth == 0 {
						g.queue = append(g.queue, op)
						g.left++
					}
					return keep
				}
			}
		}
	case "mass":
		if !need(a) {
			return nil
		}
		op.A, op.B = a, r.Intn(2)
		if g.depth == 0 && r.P(0.5) {
			// many references, then few
			n := g.oneOf(1022, 1023, 1024, 1030, 1100, 1500, 2046, 2050)
			op.N = n
			m := &Op{K: "bagdrop", A: int(r.U64() >> 34), B: op.B, N: n - r.Log(20)}
			g.queue = append(g.queue, m, &Op{K: "fin", A: r.Intn(50), N: 3000}, &Op{K: "gc", N: r.Intn(2), A: int(r.U64() >> 34)}, &Op{K: "audit"})
			g.left += 4
			if r.P(0.6) {
				g.queue = append([]*Op{{K: "drop", A: a}}, g.queue...)
				g.left++
			} else if r.P(0.5) {
				g.queue = append([]*Op{{K: "bagdrop", A: int(r.U64() >> 34), B: op.B, N: r.Intn(n)}, {K: "fin", A: r.Intn(50), N: 3000}, {K: "mass", A: a, B: op.B, N: r.Intn(n)}}, g.queue...)
				g.left += 3
			}
			return op
		}
		op.N = g.oneOf(3, 20, 100, 600, 1022, 1023, 1024, 1100, 1500)
	case "bagdrop":
		op.A, op.B = int(r.U64()>>34), r.Intn(2)
		op.N = g.oneOf(1, 5, 50, 1000, 3000)
	case "drop":
		if !need(a) {
			return nil
		}
		op.A = a
		op.D = 0
	case "fin":
		op.D = 0
		op.A = r.Intn(50)
		op.N = g.oneOf(0, 0, 1, 3, 30)
		if r.P(0.3) {
			op.B = 1 + r.Log(25)
		}
	case "fill":
		op.D = 0
		op.N = r.Log(20)
		op.A = int(r.U64() >> 34)
		if p.cfg.Varnum > 500 && r.P(0.5) {
			return nil
		}
	case "gc":
		op.D = 0
		op.N = r.Intn(2)
		op.A = int(r.U64() >> 34)
	case "build":
		op.N = int(r.U64() >> 34)
		op.A = r.Intn(8)
		if r.P(0.3) {
			op.C = 1
			op.A |= 1
		}
		if pile := g.f.Pile; r.P(pile) && p.cfg.Varnum <= 500 {
			op.B = r.Log(1500)
		}
		if r.P(0.4) {
			op.Vs = r.Perm(p.k)[:1+r.Intn(p.k)]
		}
	case "burst":
		if !need(a, b) {
			return nil
		}
		op.D = 0
		op.A, op.B, op.C, op.Op = a, b, r.Intn(4), int(r.U64()>>34)
		op.N = g.oneOf(40, 140, 270, 300, 530)
		if p.k <= 3 && r.P(0.1) {
			op.N = 3000
		}
	case "twin":
		// (brings back unused nodes, that the bound of C08 does not count)
		if p.limited || g.depth > 0 || p.w.c.Prop == "C08" {
			return nil
		}
		op.D = 0
		op.A, op.N = int(r.U64()>>34), 1000
	case "march":
		if g.depth > 0 || p.cfg.Varnum > 70 || g.f.Huge || p.limited {
			return nil
		}
		op.D = 0
		g.march(p, op)
		if len(op.Sub) == 0 {
			return nil
		}
	case "wrap":
		if g.depth > 0 || p.cfg.Varnum > 70 || g.f.Huge || p.limited || p.k < 2 {
			return nil
		}
		op.D = 0
		g.wrap(p, op)
		if len(op.Sub) == 0 {
			return nil
		}
	case "audit":
		op.D = 0
		if p.cfg.Varnum > 500 && r.P(0.7) {
			return nil
		}
	case "bad":
		if !need(a, b) {
			return nil
		}
		op.A, op.B, op.C, op.Op = a, b, r.Intn(1000), r.Intn(40)
		op.N = r.Intn(nBads())
		if g.f.Fixed {
			// only those that mean the same for every implementation
			if op.N = r.Intn(nBads() - 6); op.N < 5*len(nodeBads) {
				op.N -= op.N % 5
			}
		}
	case "newbdd":
		if g.depth > 0 || g.left < 8 {
			return nil
		}
		op.D = 0
		n := g.f.K[0] + r.Intn(g.f.K[1]-g.f.K[0]+1)
		vn, act := g.vars(n)
		cf := g.config(vn, r.P(g.f.Limit))
		op.Cfg, op.Vs = &cf, act
	default:
		return nil
	}
	return op
}

// march repeats a few operations very often: counters wrap around, and what is
// leaked adds up.
func (g *Gen) march(p *P, op *Op) {
	r := g.r
	g.depth++
	defer func() { g.depth-- }()
	ks := []string{"allnodes", "allnodes", "allsat", "allsat", "satcount", "scanset", "print", "dot", "label", "exist", "appex", "replace", "ite",
		"not", "apply", "equal", "low", "high", "stats", "build", "repl", "gc", "makeset", "makecube", "bad"}
	cheap := true
	var ops []*Op
	for n := 1 + r.Intn(3); n > 0; n-- {
		var o *Op
		if r.P(0.6) {
			o = g.make(p, ks[r.Intn(len(ks))])
		} else {
			o = g.draw(p)
		}
		if o == nil || o.K == "mass" || o.K == "burst" || o.K == "newbdd" || o.K == "wide" || o.K == "wrap" || o.K == "twin" || o.K == "bagdrop" {
			continue
		}
		if r.P(0.8) {
			o.Ev = nil
		}
		if o.K == "bad" && !g.f.Fixed && r.P(0.9) {
			continue // ends the history of the valid calls
		}
		switch o.K {
		case "print", "dot", "gc", "build", "fill":
			cheap = false
		case "allnodes":
			cheap = cheap && p.cfg.Nodesize < 300
		}
		o.Last, o.Aud = 0, 0
		ops = append(ops, o)
	}
	if len(ops) == 0 {
		return
	}
	if r.P(0.5) {
		ops = append(ops, &Op{K: "fin", N: 3000})
	}
	if r.P(0.3) {
		ops = append(ops, &Op{K: "gc", N: r.Intn(2), A: int(r.U64() >> 34)})
		cheap = false
	}
	op.N = g.oneOf(20, 70, 130, 130, 260, 260, 520)
	if !g.f.Fixed && g.f.Progs == 1 {
		switch x := r.Intn(40); {
		case x == 0 && cheap && len(ops) <= 2 && p.k <= 4:
			op.N = 66000
		case x < 3 && p.k <= 4:
			op.N = 4100
		case x < 8:
			op.N = 1030
		}
	}
	op.C, op.Op = g.oneOf(0, 10, 60, 300, 1000), int(r.U64()>>34)
	op.Sub = []Sub{{Ops: ops}}
}

var wrapFav = map[string][]string{
	"C01": {"gc", "gc", "ite", "apply"}, "C02": {"exist", "appex", "andexist", "gc"}, "C03": {"replace", "newreplacer", "gc"},
	"C04": {"gc", "ite", "apply"}, "C05": {"gc", "from", "not"}, "C06": {"makeset", "and", "gc"},
	"C12": {"satcount", "allsat"}, "C13": {"allnodes", "print", "dot"},
}

func indexOf(ss []string, x string) int {
	for i, s := range ss {
		if s == x {
			return i
		}
	}
	return 0
}

// wrap repeats operations a power of two apart.
func (g *Gen) wrap(p *P, op *Op) {
	r := g.r
	g.depth++
	defer func() { g.depth-- }()
	op.A, op.B, op.Op = r.Intn(p.k), r.Intn(len(fillers)), int(r.U64()>>34)
	if fav := wrapFav[p.w.c.Prop]; len(fav) > 0 && r.P(0.6) {
		op.B = indexOf(fillers, fav[r.Intn(len(fav))])
	} else if p.cfg.Nodesize <= 600 && r.P(0.2) {
		op.B = 0
	}
	kind := fillers[op.B]
	if kind == "gc" && (p.cfg.Varnum < 5 || p.stats().Alloc > 800) {
		return
	}
	// operations of the same kind as what comes in between, more often than not
	ks := []string{"allnodes", "allsat", "satcount", "scanset", "exist", "appex", "replace", "ite", "not", "apply", "equal", "low", "andexist", "makeset", "and"}
	if kind == "gc" {
		ks = []string{"ite", "ite", "apply", "not", "exist", "appex", "replace", "and", "satcount"}
	}
	same := func() string {
		if r.P(0.5) {
			for _, k := range ks {
				if k == kind {
					return k
				}
			}
			if kind == "newreplacer" {
				return "replace"
			}
		}
		return ks[r.Intn(len(ks))]
	}
	add := func(o *Op) *Op {
		if o != nil {
			if r.P(0.8) {
				o.Ev = nil
			}
			o.Last, o.Aud = 0, 0
			op.Sub[0].Ops = append(op.Sub[0].Ops, o)
		}
		return o
	}
	op.Sub = []Sub{{}}
	fresh := r.P(0.5) || kind == "gc"
	if fresh {
		m := 1 + r.Intn(3)
		if kind == "gc" && r.P(0.7) {
			m = 3
		}
		for n := m; n > 0; n-- {
			o := g.make(p, "build")
			if o == nil {
				continue
			}
			o.B, o.C, o.Vs = 0, 0, nil
			o.D = n - 1
			add(o)
		}
	}
	for n := 1 + r.Intn(2); n > 0; n-- {
		k := same()
		var o *Op
		for i := 0; i < 8 && (o == nil || o.K != k); i++ {
			o = g.make(p, k)
		}
		if o != nil && fresh && r.P(0.8) {
			q := r.Perm(3)
			if r.P(0.8) {
				o.D = q[2]
			}
			switch k {
			case "ite":
				o.A, o.B, o.C = q[0], q[1], q[2]
			case "apply", "equal":
				o.A, o.B = q[0], q[1]
			case "and", "allnodes":
				o.S = q[:1+r.Intn(2)]
			case "exist", "appex", "andexist", "replace", "not", "satcount", "allsat", "low":
				o.A = q[0]
			}
		}
		add(o)
	}
	if len(op.Sub[0].Ops) == 0 {
		op.Sub = nil
		return
	}
	all := r.P(0.8)
	for i := 0; i < 3 && fresh; i++ {
		if all || r.P(0.7) {
			add(&Op{K: "drop", A: i})
		}
	}
	if all || r.P(0.7) {
		add(&Op{K: "fin", N: 3000})
	}
	op.Vs = []int{900, g.oneOf(0, 0, 200, 700)}
	if kind != "gc" {
		op.Vs[1] = g.oneOf(0, 300, 700, 1000)
	}
	op.N, op.C = 252, 9
	switch x := r.Intn(20); {
	case x < 2:
		op.N = 124
	case x < 3:
		op.N = 508
	case x < 4 && kind != "gc":
		op.N = 1020
	case (x < 5 || x < 12 && p.w.c.Prop == "C02") && kind != "gc" && !g.f.Fixed && g.f.Progs == 1 && p.k <= 4 && kind != "print" && kind != "dot" && kind != "allnodes":
		op.N, op.C = 65532, 6
		if r.P(0.3) {
			op.N = 4092
		}
	}
}

// callbacks chooses what the callback of an enumeration does.
func (g *Gen) callbacks(p *P, op *Op) {
	r := g.r
	if g.depth == 0 && r.P(g.sub) && !(op.K != "allsat" && len(op.S) == 0) {
		g.depth++
		n := 1 + r.Intn(3)
		for i := 0; i < n; i++ {
			s := Sub{At: r.Log(12)}
			m := 1 + r.Intn(3)
			for j := 0; j < m; j++ {
				if r.P(0.3) {
					s.Ops = append(s.Ops, &Op{K: "fill", N: r.Log(6), A: int(r.U64() >> 34)})
				}
				s.Ops = append(s.Ops, g.draw(p))
			}
			op.Sub = append(op.Sub, s)
		}
		g.depth--
	}
	if r.P(g.flt) {
		k := []string{"err", "errall", "panic", "err"}[r.Intn(4)]
		if (op.K == "print" || op.K == "dot") && r.P(0.4) {
			k = "short"
		}
		op.F = &Flt{At: r.Log(30), K: k}
	}
}
