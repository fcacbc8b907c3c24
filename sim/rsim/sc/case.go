// Package sc describes the simulated executions: cases, violations, how a
// violation is attributed to a property, and how a failing case is minimised.
package sc

// A Case is one simulated execution, as explicit data: replaying it does not
// draw any random number.
type Case struct {
	Prop  string
	Build string // "hudd", "buddy", "hudd-debug", "buddy-debug"
	Seed  uint64
	Index int
	NoFin bool `json:",omitempty"` // the runtime never runs a finalizer
	Progs []*Prog
	Vars  []*Variant `json:",omitempty"` // other executions of the same program, to compare
}

// Variant is another execution of the first program of a case.
type Variant struct {
	Cfg   Cfg
	NoEv  bool   `json:",omitempty"` // without scheduling events
	NoFin bool   `json:",omitempty"`
	NoMem bool   `json:",omitempty"` // without the operations that only cause memory events
	Build string `json:",omitempty"` // with another build
}

// Prog is the program of one simulated user thread, with its own BDD.
type Prog struct {
	Cfg  Cfg
	Wide bool  `json:",omitempty"` // functions of many variables
	Act  []int // levels of the variables used by the program, in increasing order
	Ops  []*Op
}

// Cfg holds the options of New; -1 means that the option is not used.
type Cfg struct {
	Varnum, Nodesize, Cachesize, Cacheratio, Maxnodesize, Maxinc, Minfree int
}

// Op is one operation. K is its kind; the slots it uses are in A, B, C and S,
// its result goes to slot D.
type Op struct {
	K    string
	D    int   `json:",omitempty"`
	A    int   `json:",omitempty"`
	B    int   `json:",omitempty"`
	C    int   `json:",omitempty"`
	Op   int   `json:",omitempty"`
	N    int   `json:",omitempty"`
	S    []int `json:",omitempty"`
	Vs   []int `json:",omitempty"`
	Vt   []int `json:",omitempty"`
	Last int   `json:",omitempty"` // bit i: this is the last use of the i-th operand
	Obs  int   `json:",omitempty"` // how the result is observed: see observe
	Aud  int   `json:",omitempty"` // audit of the whole diagram after the operation
	Cfg  *Cfg  `json:",omitempty"`
	Ev   []Ev  `json:",omitempty"`
	Sub  []Sub `json:",omitempty"`
	F    *Flt  `json:",omitempty"`
}

// Ev is a scheduling or fault event during an operation, At yield points (hot
// yield points if Hot) after the previous event of the operation.
type Ev struct {
	At  int
	Hot bool `json:",omitempty"`
	K   string
	A   int `json:",omitempty"`
	B   int `json:",omitempty"`
}

// Sub is a sequence of operations run from inside the At-th callback.
type Sub struct {
	At  int
	Ops []*Op
}

// Flt is a failure of the callback or writer given to an operation, at its
// At-th call.
type Flt struct {
	At int
	K  string // err, errall, panic, short
}

// Violation describes what a run found. Classes[0] is the primary class.
type Violation struct {
	Classes []string
	Detail  string
	Op      string
	OpIndex int
	Prog    int
}

// Has tells whether the violation has a class.
func (v *Violation) Has(class string) bool {
	for _, c := range v.Classes {
		if c == class {
			return true
		}
	}
	return false
}

// Request asks a worker to execute a case.
type Request struct {
	Case *Case
	Tr   bool
}

// Reply is the answer of a worker.
type Reply struct {
	V       *Violation `json:",omitempty"`
	Dig     uint64
	Tr      []string `json:",omitempty"`
	Harness string   `json:",omitempty"`
}

// Clone copies a case deeply.
func (c *Case) Clone() *Case {
	d := *c
	d.Progs = nil
	for _, p := range c.Progs {
		q := *p
		q.Ops = cloneOps(p.Ops)
		d.Progs = append(d.Progs, &q)
	}
	d.Vars = nil
	for _, v := range c.Vars {
		x := *v
		d.Vars = append(d.Vars, &x)
	}
	return &d
}

func cloneOps(ops []*Op) []*Op {
	r := make([]*Op, len(ops))
	for i, o := range ops {
		r[i] = o.Clone()
	}
	return r
}

// Clone copies an operation deeply.
func (o *Op) Clone() *Op {
	x := *o
	x.S = append([]int(nil), o.S...)
	x.Vs = append([]int(nil), o.Vs...)
	x.Vt = append([]int(nil), o.Vt...)
	x.Ev = append([]Ev(nil), o.Ev...)
	if o.Cfg != nil {
		c := *o.Cfg
		x.Cfg = &c
	}
	if o.F != nil {
		f := *o.F
		x.F = &f
	}
	x.Sub = nil
	for _, s := range o.Sub {
		x.Sub = append(x.Sub, Sub{s.At, cloneOps(s.Ops)})
	}
	return &x
}

// Walk applies f to all operations, including those of callbacks; it removes
// the operations for which f is false.
func (c *Case) Walk(f func(o *Op) bool) {
	var rec func(ops []*Op) []*Op
	rec = func(ops []*Op) []*Op {
		var r []*Op
		for _, o := range ops {
			if !f(o) {
				continue
			}
			for i := range o.Sub {
				o.Sub[i].Ops = rec(o.Sub[i].Ops)
			}
			r = append(r, o)
		}
		return r
	}
	for _, p := range c.Progs {
		p.Ops = rec(p.Ops)
	}
}

// Variation is the execution v of the program of c, as a case of its own.
func Variation(c *Case, v *Variant) *Case {
	d := c.Clone()
	d.Vars = nil
	if v.Cfg.Varnum != 0 {
		d.Progs[0].Cfg = v.Cfg
	}
	if v.Build != "" {
		d.Build = v.Build
	}
	d.NoFin = d.NoFin || v.NoFin
	d.Walk(func(o *Op) bool {
		if v.NoEv {
			o.Ev = nil
		}
		if v.NoMem {
			switch o.K {
			case "fill", "gc", "fin", "probe":
				return false
			}
		}
		return true
	})
	return d
}
