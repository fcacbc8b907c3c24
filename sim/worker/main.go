package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	. "verif/rsim/sc"
)

// progress is shared with the driver, which needs it when this process dies.
var progress = new([4]int64)

func note(ix, opIx int) { progress[1], progress[2] = int64(ix), int64(opIx) }

// Found is a violation and its case.
type Found struct {
	Case *Case
	V    *Violation
}

// Report is the result of a batch.
type Report struct {
	From, To, Next int
	Found          *Found
	Cnt            *Counters
	NSigs, NSites  int
	Sigs           []uint64
	Sites          []string
	Foreign        []*Found
	Dig            uint64
	Trs            map[int]uint64 `json:",omitempty"`
	Sample         *Case
}

// exec executes a case and its variants.
func exec(c *Case, o runOpts) *Result {
	if len(c.Vars) > 0 {
		o.tr = true
	}
	res := runCase(c, o)
	if res.V != nil {
		return res
	}
	for i, v := range c.Vars {
		if v.Build != "" && v.Build != c.Build {
			continue
		}
		w := runCase(Variation(c, v), runOpts{tr: true, post: true})
		res.Dig = mix(res.Dig ^ w.Dig)
		if w.V != nil {
			w.V.Classes = append([]string{"diff"}, w.V.Classes...)
			w.V.Detail = fmt.Sprintf("execution %d (%+v) of the program fails: %s", i+1, *v, w.V.Detail)
			res.V = w.V
			return res
		}
		counters.Probes["executions-compared"]++
		if d := diffTr(res.Tr, w.Tr); d != "" {
			res.V = &Violation{Classes: []string{"diff"}, Detail: fmt.Sprintf("execution %d (%+v) of the program differs: %s", i+1, *v, d)}
			return res
		}
	}
	return res
}

func diffTr(a, b []string) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("result %d is %q, and nothing", i, a[i])
		}
		if a[i] != b[i] {
			return fmt.Sprintf("result %d is %q, and %q", i, a[i], b[i])
		}
	}
	if len(b) > len(a) {
		return fmt.Sprintf("result %d is nothing, and %q", len(a), b[len(a)])
	}
	return ""
}

// safely runs f and returns the failure of the harness itself, if any.
func safely(f func()) (err string) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(*harnessError); ok {
				err = "harness: " + h.msg
				return
			}
			err = fmt.Sprintf("harness: %v\n%s", r, debug.Stack())
		}
	}()
	f()
	return ""
}

func main() {
	mode := flag.String("mode", "run", "")
	prop := flag.String("prop", "C01", "")
	build := flag.String("build", "hudd", "")
	seed := flag.Uint64("seed", 1, "")
	from := flag.Int("from", 0, "")
	to := flag.Int("to", 1, "")
	out := flag.String("out", "", "")
	prg := flag.String("progress", "", "")
	dump := flag.String("dump", "", "")
	secs := flag.Float64("secs", 1e9, "")
	flag.Parse()
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	log.SetOutput(io.Discard)
	if *prg != "" {
		f, err := os.OpenFile(*prg, os.O_RDWR, 0)
		if err != nil {
			fatal(err)
		}
		m, err := syscall.Mmap(int(f.Fd()), 0, 32, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			fatal(err)
		}
		progress = (*[4]int64)(unsafe.Pointer(&m[0]))
	}
	switch *mode {
	case "run":
		run(*prop, *build, *seed, *from, *to, *out, *dump, *secs)
	case "serve":
		serve()
	default:
		fatal("unknown mode")
	}
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(4)
}

func run(prop, build string, seed uint64, from, to int, out, dump string, secs float64) {
	start := time.Now()
	rep := &Report{From: from, To: to, Cnt: counters, Trs: map[int]uint64{}}
	seen := map[string]int{}
	i := from
	var df *os.File
	if dump != "" {
		var err error
		if df, err = os.Create(dump); err != nil {
			fatal(err)
		}
	}
	for ; i < to; i++ {
		if time.Since(start).Seconds() > secs {
			break
		}
		progress[0] = int64(i)
		note(0, -1)
		c, gens := newCase(prop, build, seed, i)
		if df != nil {
			b, _ := json.Marshal(c)
			fmt.Fprintf(df, "%s\n", b)
			for j := range gens {
				j, g := j, gens[j]
				gens[j] = func(p *P) *Op {
					op := g(p)
					if op != nil {
						b, _ := json.Marshal(op)
						fmt.Fprintf(df, "%d %s\n", j, b)
					}
					return op
				}
			}
		}
		var res *Result
		if e := safely(func() { res = exec(c, runOpts{gens: gens, prog: note, post: true}) }); e != "" {
			fatal(fmt.Sprintf("case %d of %s: %s", i, prop, e))
		}
		rep.Dig = mix(rep.Dig ^ res.Dig)
		if len(c.Vars) > 0 {
			h := uint64(0)
			for _, s := range res.Tr {
				h = mix(h ^ hashS(s))
			}
			rep.Trs[i] = h
		}
		if res.N > 0 {
			counters.Sigs[res.Sig] = struct{}{}
			counters.Nontrivial++
		}
		if rep.Sample == nil && res.N > 0 && len(c.Progs[0].Ops) < 25 {
			rep.Sample = c.Clone()
		}
		if res.V == nil {
			continue
		}
		progress[3] = 1
		ok := false
		if e := safely(func() {
			ok = Accept(prop, c, res.V, func(d *Case) (*Violation, bool) {
				counters.Strips++
				return exec(d, runOpts{}).V, true
			})
		}); e != "" {
			fatal(fmt.Sprintf("case %d of %s: %s", i, prop, e))
		}
		progress[3] = 0
		if ok {
			rep.Found = &Found{c, res.V}
			i++
			break
		}
		cl := res.V.Classes[0]
		counters.Foreign[strings.Join(res.V.Classes, "+")]++
		if seen[cl]++; seen[cl] == 1 && len(rep.Foreign) < 5 {
			rep.Foreign = append(rep.Foreign, &Found{c, res.V})
		}
	}
	rep.Next = i
	rep.NSigs, rep.NSites = len(counters.Sigs), len(counters.Sites)
	for s := range counters.Sigs {
		rep.Sigs = append(rep.Sigs, s)
	}
	for s := range counters.Sites {
		rep.Sites = append(rep.Sites, s)
	}
	counters.Sigs, counters.Sites = nil, nil
	b, err := json.Marshal(rep)
	if err != nil {
		fatal(err)
	}
	if out == "" {
		fmt.Printf("%s\n", b)
		return
	}
	if err := os.WriteFile(out, b, 0o666); err != nil {
		fatal(err)
	}
}

func serve() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var rq Request
		if err := json.Unmarshal(line, &rq); err != nil {
			fatal(err)
		}
		var rp Reply
		progress[0], progress[3] = 0, 0
		rp.Harness = safely(func() {
			res := exec(rq.Case, runOpts{prog: note, post: true, tr: rq.Tr})
			rp.V, rp.Dig = res.V, res.Dig
			if rq.Tr {
				rp.Tr = res.Tr
			}
		})
		b, err := json.Marshal(&rp)
		if err != nil {
			fatal(err)
		}
		os.Stdout.Write(append(b, '\n'))
	}
}
