package rsim

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
)

// Seeds of the choices that the Go runtime makes at random or from the clock:
// the order of iteration over maps, math/rand, time.Now.

var caseSeed int64 = 1
var rng *rand.Rand
var clock int64

// SeedCase starts the streams of a new execution.
func SeedCase(s int64) {
	caseSeed, rng, clock = s, nil, 0
}

// Rand is the source of math/rand.
func Rand() *rand.Rand {
	if rng == nil {
		rng = rand.New(rand.NewSource(caseSeed))
	}
	return rng
}

// Clock is the simulated time in nanoseconds: it advances at every look, most
// of the time a little, sometimes a lot.
func Clock() int64 {
	switch Rand().Intn(20) {
	case 0:
		clock += int64(Rand().Int63n(3_000_000_000))
	case 1:
	default:
		clock += int64(Rand().Intn(2_000))
	}
	return clock
}

// Sleep advances the clock.
func Sleep(d int64) {
	H()
	if d > 0 {
		clock += d
	}
}

// NRanges counts the iterations over maps.
var NRanges int64

// Range returns the keys of a map in the order of the next iteration over it,
// chosen by the seed of the case.
func Range[M ~map[K]V, K comparable, V any](m M) (M, []K, int) {
	NRanges++
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) > 1 {
		sortKeys(ks)
		Rand().Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	}
	return m, ks, 0
}

func sortKeys[K comparable](ks []K) {
	switch x := any(ks).(type) {
	case []int:
		sort.Ints(x)
		return
	case []string:
		sort.Strings(x)
		return
	}
	if k := reflect.TypeOf(ks).Elem().Kind(); k >= reflect.Int && k <= reflect.Int64 {
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Int() < reflect.ValueOf(ks[j]).Int() })
		return
	}
	s := make([]string, len(ks))
	ix := make([]int, len(ks))
	for i, k := range ks {
		s[i], ix[i] = fmt.Sprint(k), i
	}
	sort.SliceStable(ix, func(i, j int) bool { return s[ix[i]] < s[ix[j]] })
	r := make([]K, len(ks))
	for i, j := range ix {
		r[i] = ks[j]
	}
	copy(ks, r)
}
