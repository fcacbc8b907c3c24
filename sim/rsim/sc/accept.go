package sc

import (
	"strings"
)

// Strip removes from a copy of c what the property is about. It returns nil if
// there is nothing to remove.
func Strip(prop string, c *Case) *Case {
	d := c.Clone()
	changed := false
	evs := func(o *Op, kinds string) {
		var ev []Ev
		add := 0
		for _, e := range o.Ev {
			if strings.Contains(kinds, e.K) {
				changed = true
				add += e.At
				continue
			}
			e.At += add
			add = 0
			ev = append(ev, e)
		}
		o.Ev = ev
	}
	drop := func(kinds ...string) {
		d.Walk(func(o *Op) bool {
			for _, k := range kinds {
				if o.K == k {
					changed = true
					return false
				}
			}
			return true
		})
	}
	switch prop {
	case "C05":
		if !d.NoFin {
			d.NoFin = true
			changed = true
		}
	case "C06":
		d.Walk(func(o *Op) bool {
			if o.Last != 0 {
				o.Last = 0
				changed = true
			}
			evs(o, "probe")
			if o.K == "probe" {
				changed = true
				return false
			}
			return true
		})
	case "C10":
		lim := func(f *Cfg) {
			if f.Maxnodesize > 0 {
				f.Maxnodesize = -1
				changed = true
			}
		}
		for _, p := range d.Progs {
			lim(&p.Cfg)
		}
		d.Walk(func(o *Op) bool {
			if o.Cfg != nil {
				lim(o.Cfg)
			}
			return true
		})
	case "C11":
		drop("bad")
	case "C12":
		drop("allsat", "satcount")
	case "C13":
		drop("allnodes", "label", "scanset")
	case "C14":
		d.Walk(func(o *Op) bool {
			if o.F != nil && (o.K == "allsat" || o.K == "allnodes") {
				o.F = nil
				changed = true
			}
			return true
		})
	case "C15":
		drop("print", "dot")
	case "C16":
		d.Walk(func(o *Op) bool { evs(o, "sw"); return true })
	case "C17":
		for _, p := range d.Progs {
			p.Cfg = Cfg{Varnum: p.Cfg.Varnum, Nodesize: 20000, Cachesize: 10000, Cacheratio: -1, Maxnodesize: p.Cfg.Maxnodesize, Maxinc: -1, Minfree: -1}
		}
		d.NoFin = true
		d.Vars = nil
		d.Walk(func(o *Op) bool { o.Ev = nil; return o.K != "fill" && o.K != "gc" })
		changed = true
	}
	if !changed {
		return nil
	}
	return d
}

var direct = map[string][]string{
	"C02": {"*:exist", "*:appex", "*:andexist"},
	"C03": {"*:replace", "*:repl", "*:newreplacer"},
	"C04": {"held", "unverified:*", "*:dup", "*:retnode", "panic:dup", "fatal:setfinalizer"},
	"C05": {"fatal:setfinalizer", "race-fin"},
	"C07": {"canon", "equal"},
	"C08": {"leak", "unbounded"},
	"C09": {"growth", "new", "panic:new"},
	"C10": {"mustfit:*", "memerr"},
	"C11": {"bad", "panic:bad*", "new", "panic:new"},
	"C12": {"allsat", "satcount", "panic:allsat", "panic:satcount"},
	"C13": {"allnodes", "walk", "label", "scanset", "*:low", "*:high", "panic:allnodes", "panic:label", "panic:scanset"},
	"C14": {"cberr"},
	"C15": {"print", "dot", "panic:print", "panic:dot"},
	"C16": {"new", "panic:new", "race"},
	"C17": {"diff", "new", "panic:new"},
	"C18": {"steps", "deadlock"},
	"C19": {"stats"},
	"C20": {"*:build", "kernel", "*:kernel", "panic:build", "panic:gc", "panic:fill"},
}

var boolKinds = []string{"const", "true", "false", "from", "ith", "nith", "makeset", "makecube", "not", "apply", "and", "or", "imp", "equiv", "ite"}

func match(pat, class string) bool {
	if strings.HasSuffix(pat, "*") {
		return strings.HasPrefix(class, pat[:len(pat)-1])
	}
	if strings.HasPrefix(pat, "*:") {
		i := strings.IndexByte(class, ':')
		return i >= 0 && class[:i] != "mustfit" && class[i+1:] == pat[2:]
	}
	return pat == class
}

// Direct tells whether the violation itself is one of the property.
func Direct(prop string, v *Violation) bool {
	for _, cl := range v.Classes {
		for _, pat := range direct[prop] {
			if match(pat, cl) {
				return true
			}
		}
		if prop == "C01" {
			if cl == "new" || cl == "panic:new" {
				return true
			}
			i := strings.IndexByte(cl, ':')
			if i < 0 || cl[:i] == "mustfit" {
				continue
			}
			for _, k := range boolKinds {
				if cl[i+1:] == k && (cl[:i] == "unverified" || !v.Has("operand-broken")) {
					return true
				}
			}
		}
	}
	return false
}

// stripped properties: any violation that disappears without what the property
// is about is a violation of the property.
var byStrip = map[string]bool{"C05": true, "C06": true, "C10": true, "C11": true, "C12": true, "C13": true, "C14": true, "C15": true, "C16": true, "C17": true}

// roomy is case c, whose tables grow at each collection.
func roomy(c *Case) *Case {
	wide := false
	d := c.Clone()
	room := func(f *Cfg) {
		f.Minfree, f.Maxinc, f.Maxnodesize = 100, 0, -1
		if f.Nodesize < 1000 {
			f.Nodesize = 1000
		}
		if f.Cachesize < 20000 {
			f.Cachesize = 20000
		}
	}
	for _, p := range d.Progs {
		if p.Wide {
			wide = true
			room(&p.Cfg)
		}
	}
	for _, v := range d.Vars {
		room(&v.Cfg)
	}
	if !wide {
		return nil
	}
	return d
}

// Accept tells whether violation v of case c is a violation of prop. run
// executes a case; ok is false if that was not possible.
func Accept(prop string, c *Case, v *Violation, run func(*Case) (*Violation, bool)) bool {
	if v == nil {
		return false
	}
	if v.Has("steps") {
		// a table which is too small for the nodes that an operation on many
		// variables builds is collected again and again, and intermediate results
		// are lost each time: the same must happen when the table and the caches
		// have room for everything
		if d := roomy(c); d != nil {
			if w, ok := run(d); !ok || w == nil || !w.Has("steps") {
				return false
			}
		}
	}
	if Direct(prop, v) {
		return true
	}
	if !byStrip[prop] {
		return false
	}
	d := Strip(prop, c)
	if d == nil {
		return false
	}
	w, ok := run(d)
	return ok && w == nil
}
