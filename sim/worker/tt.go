package main

import (
	"math/big"
	"math/bits"
)

// RNG is splitmix64: every random choice of the simulator comes from one.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{seed} }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *RNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability p.
func (r *RNG) P(p float64) bool { return float64(r.U64()>>11)/float64(1<<53) < p }

// Log returns a number in [0..max), with a uniform order of magnitude.
func (r *RNG) Log(max int) int {
	if max <= 1 {
		return 0
	}
	b := r.Intn(bits.Len(uint(max)) + 1)
	v := 0
	if b > 0 {
		v = 1<<(b-1) + r.Intn(1<<(b-1))
	}
	if v >= max {
		v = r.Intn(max)
	}
	return v
}

func (r *RNG) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// TT is a Boolean function over k variables: bit a is its value for the
// assignment giving to variable i the i-th bit of a.
type TT []uint64

func ttWords(k int) int {
	if k <= 6 {
		return 1
	}
	return 1 << (k - 6)
}

func ttMask(k int) uint64 {
	if k >= 6 {
		return ^uint64(0)
	}
	return (uint64(1) << (uint(1) << uint(k))) - 1
}

func ttConst(k int, v bool) TT {
	t := make(TT, ttWords(k))
	if v {
		for i := range t {
			t[i] = ^uint64(0)
		}
		t[len(t)-1] &= ttMask(k)
	}
	return t
}

var varPat = [6]uint64{0xAAAAAAAAAAAAAAAA, 0xCCCCCCCCCCCCCCCC, 0xF0F0F0F0F0F0F0F0, 0xFF00FF00FF00FF00, 0xFFFF0000FFFF0000, 0xFFFFFFFF00000000}

func ttVar(k, i int) TT {
	t := make(TT, ttWords(k))
	for w := range t {
		if i < 6 {
			t[w] = varPat[i]
		} else if w>>(uint(i)-6)&1 == 1 {
			t[w] = ^uint64(0)
		}
	}
	t[len(t)-1] &= ttMask(k)
	return t
}

func ttNot(k int, a TT) TT {
	t := make(TT, len(a))
	for i := range a {
		t[i] = ^a[i]
	}
	t[len(t)-1] &= ttMask(k)
	return t
}

// ttOp applies the binary operator whose truth table (00, 01, 10, 11) is op.
func ttOp(k int, a, b TT, op [4]bool) TT {
	t := make(TT, len(a))
	for i := range a {
		var r uint64
		if op[0] {
			r |= ^a[i] & ^b[i]
		}
		if op[1] {
			r |= ^a[i] & b[i]
		}
		if op[2] {
			r |= a[i] & ^b[i]
		}
		if op[3] {
			r |= a[i] & b[i]
		}
		t[i] = r
	}
	t[len(t)-1] &= ttMask(k)
	return t
}

func ttIte(f, g, h TT) TT {
	t := make(TT, len(f))
	for i := range f {
		t[i] = f[i]&g[i] | ^f[i]&h[i]
	}
	return t
}

func ttEq(a, b TT) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ttCof is the cofactor of a for variable i equal to v; it does not depend on i.
func ttCof(k int, a TT, i int, v bool) TT {
	t := make(TT, len(a))
	if i < 6 {
		s := uint(1) << uint(i)
		p := varPat[i]
		for w := range a {
			if v {
				x := a[w] & p
				t[w] = x | x>>s
			} else {
				x := a[w] & ^p
				t[w] = x | x<<s
			}
		}
		t[len(t)-1] &= ttMask(k)
		return t
	}
	b := 1 << (uint(i) - 6)
	for w := range a {
		if v {
			t[w] = a[w|b]
		} else {
			t[w] = a[w&^b]
		}
	}
	return t
}

func ttDep(k int, a TT, i int) bool { return !ttEq(ttCof(k, a, i, false), ttCof(k, a, i, true)) }

func ttExist(k int, a TT, vars []int) TT {
	t := a
	for _, i := range vars {
		c0, c1 := ttCof(k, t, i, false), ttCof(k, t, i, true)
		t = ttOp(k, c0, c1, [4]bool{false, true, true, true})
	}
	return t
}

func (a TT) bit(i int) bool { return a[i>>6]>>(uint(i)&63)&1 == 1 }

// ttSubst substitutes variable old[j] by variable new[j], simultaneously.
func ttSubst(k int, a TT, old, new []int) TT {
	t := make(TT, len(a))
	m := make([]int, k)
	for i := range m {
		m[i] = i
	}
	for j, o := range old {
		m[o] = new[j]
	}
	for x := 0; x < 1<<uint(k); x++ {
		y := 0
		for i := 0; i < k; i++ {
			if x>>uint(m[i])&1 == 1 {
				y |= 1 << uint(i)
			}
		}
		if a.bit(y) {
			t[x>>6] |= 1 << (uint(x) & 63)
		}
	}
	return t
}

func ttOnes(a TT) int {
	n := 0
	for _, w := range a {
		n += bits.OnesCount64(w)
	}
	return n
}

func ttKey(a TT) string {
	b := make([]byte, 0, len(a)*8)
	for _, w := range a {
		for j := 0; j < 8; j++ {
			b = append(b, byte(w>>(8*uint(j))))
		}
	}
	return string(b)
}

func ttRand(k int, r *RNG) TT {
	t := make(TT, ttWords(k))
	for i := range t {
		t[i] = r.U64()
	}
	t[len(t)-1] &= ttMask(k)
	return t
}

func bigPow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

var opTables = [10][4]bool{
	{false, false, false, true},
	{false, true, true, false},
	{false, true, true, true},
	{true, true, true, false},
	{true, false, false, false},
	{true, true, false, true},
	{true, false, false, true},
	{false, false, true, false},
	{false, true, false, false},
	{true, false, true, true},
}
