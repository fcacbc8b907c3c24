package sc

import "time"

// Shrink minimises a failing case: bad executes a case and tells whether it
// still fails the same way.
func Shrink(c *Case, bad func(*Case) bool, deadline time.Time) (*Case, int) {
	tries := 0
	late := func() bool { return time.Now().After(deadline) }
	try := func(d *Case) bool {
		if late() {
			return false
		}
		tries++
		if bad(d) {
			c = d
			return true
		}
		return false
	}
	for round := 0; round < 6 && !late(); round++ {
		progress := false
		// fewer threads
		for i := len(c.Progs) - 1; i > 0; i-- {
			d := c.Clone()
			d.Progs = append(d.Progs[:i:i], d.Progs[i+1:]...)
			if try(d) {
				progress = true
			}
		}
		for i := len(c.Vars) - 1; i >= 0; i-- {
			d := c.Clone()
			d.Vars = append(d.Vars[:i:i], d.Vars[i+1:]...)
			if try(d) {
				progress = true
			}
		}
		for pi := range c.Progs {
			// fewer operations
			for n := (len(c.Progs[pi].Ops) + 1) / 2; n >= 1; n /= 2 {
				for i := len(c.Progs[pi].Ops) - n; i > -n; i -= n {
					if late() {
						break
					}
					lo, hi := i, i+n
					if lo < 0 {
						lo = 0
					}
					if hi > len(c.Progs[pi].Ops) {
						hi = len(c.Progs[pi].Ops)
					}
					if lo >= hi {
						continue
					}
					d := c.Clone()
					o := d.Progs[pi].Ops
					d.Progs[pi].Ops = append(o[:lo:lo], o[hi:]...)
					if try(d) {
						progress = true
					}
				}
			}
			// simpler operations
			for i := 0; i < len(c.Progs[pi].Ops); i++ {
				at := func(d *Case) *Op { return d.Progs[pi].Ops[i] }
				mut := func(f func(o *Op) bool) {
					d := c.Clone()
					if f(at(d)) && try(d) {
						progress = true
					}
				}
				for j := len(at(c).Ev) - 1; j >= 0; j-- {
					if j >= len(at(c).Ev) {
						continue
					}
					j := j
					mut(func(o *Op) bool {
						if j+1 < len(o.Ev) && o.Ev[j+1].Hot == o.Ev[j].Hot {
							o.Ev[j+1].At += o.Ev[j].At
						}
						o.Ev = append(o.Ev[:j:j], o.Ev[j+1:]...)
						return true
					})
				}
				for j := len(at(c).Sub) - 1; j >= 0; j-- {
					if j >= len(at(c).Sub) {
						continue
					}
					mut(func(o *Op) bool { o.Sub = append(o.Sub[:j:j], o.Sub[j+1:]...); return true })
					if j >= len(at(c).Sub) {
						continue
					}
					for k := len(at(c).Sub[j].Ops) - 1; k >= 0; k-- {
						if len(at(c).Sub[j].Ops) <= k {
							continue
						}
						mut(func(o *Op) bool {
							s := o.Sub[j].Ops
							o.Sub[j].Ops = append(s[:k:k], s[k+1:]...)
							return true
						})
					}
				}
				mut(func(o *Op) bool { r := o.F != nil; o.F = nil; return r })
				mut(func(o *Op) bool { r := o.Aud != 0; o.Aud = 0; return r })
				mut(func(o *Op) bool { r := o.Obs != 0; o.Obs = 0; return r })
				for b := 0; b < 4; b++ {
					mut(func(o *Op) bool { r := o.Last>>uint(b)&1 == 1; o.Last &^= 1 << uint(b); return r })
				}
				for at(c).K == "build" && at(c).B > 0 {
					n := at(c).B
					mut(func(o *Op) bool { o.B /= 2; return true })
					if at(c).B == n {
						break
					}
				}
				if k := at(c).K; (k == "mass" || k == "bagdrop" || k == "burst" || k == "march") && at(c).N > 1 {
					for at(c).N > 1 {
						n := at(c).N
						mut(func(o *Op) bool { o.N /= 2; return true })
						if at(c).N == n {
							break
						}
					}
				}
				if at(c).K == "wrap" {
					for at(c).C > 2 {
						n := at(c).C
						mut(func(o *Op) bool { o.C--; return true })
						if at(c).C == n {
							break
						}
					}
				}
				if (at(c).K == "and" || at(c).K == "or" || at(c).K == "allnodes" || at(c).K == "dot" || at(c).K == "print") && len(at(c).S) > 1 {
					mut(func(o *Op) bool { o.S = o.S[:len(o.S)-1]; return true })
				}
				for j := range at(c).Ev {
					if at(c).Ev[j].B > 1 {
						mut(func(o *Op) bool { o.Ev[j].B = 0; return true })
					}
				}
			}
		}
		// simpler configuration
		for pi := range c.Progs {
			for f := 0; f < 6; f++ {
				d := c.Clone()
				g := &d.Progs[pi].Cfg
				x := []*int{&g.Nodesize, &g.Cachesize, &g.Cacheratio, &g.Maxinc, &g.Minfree, &g.Maxnodesize}[f]
				if *x == -1 {
					continue
				}
				*x = -1
				if f == 1 {
					*x = 1000
					if c.Progs[pi].Cfg.Cachesize == 1000 {
						continue
					}
				}
				if try(d) {
					progress = true
				}
			}
		}
		if !progress {
			break
		}
	}
	return c, tries
}
