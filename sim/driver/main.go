// The driver builds the simulator from the current tree of the repository, runs
// batches of simulated executions of one property in worker processes, and
// reports what they found.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	. "verif/rsim/sc"
)

var (
	root   string // /verif
	bdir   string // build directory
	repo   string
	builds = []string{"hudd", "buddy", "hudd-debug", "buddy-debug", "hudd-386", "buddy-386", "hudd-debug-386", "buddy-debug-386"}
	tags   = map[string]string{"hudd": "", "buddy": "buddy", "hudd-debug": "debug", "buddy-debug": "buddy debug"}
	broken = map[string]string{} // 32-bit builds that the current tree does not allow
	absent = map[string]string{} // 32-bit builds that are not usable here
	inst   instrStats
)

func is386(b string) bool { return strings.HasSuffix(b, "-386") }

func goBuild(b, dir string, args ...string) (string, error) {
	c := exec.Command("go", append([]string{"build", "-tags", tags[strings.TrimSuffix(b, "-386")]}, args...)...)
	c.Dir = dir
	if is386(b) {
		c.Env = append(os.Environ(), "GOARCH=386")
	}
	out, err := c.CombinedOutput()
	return string(out), err
}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "error: "+format+"\n", a...)
	os.Exit(3)
}

func main() {
	setup := flag.Bool("setup", false, "only build")
	replay := flag.String("replay", "", "replay file")
	seedF := flag.Uint64("seed", 0, "seed (default VERIF_SEED)")
	tierF := flag.String("tier", "", "quick or thorough (default VERIF_TIER)")
	nF := flag.Int("n", 0, "number of cases")
	det := flag.Bool("determinism", false, "run every batch twice, with different process layouts, and compare the event logs")
	survey := flag.Bool("survey", false, "also print what was found and belongs to other properties")
	flag.Parse()
	exe, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	root = filepath.Dir(filepath.Dir(exe))
	bdir = filepath.Join(root, ".build")
	repo = os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	build()
	if *setup {
		fmt.Println("built", inst.Files, "instrumented files,", inst.Yields, "yield points")
		return
	}
	seed := *seedF
	if seed == 0 {
		seed = 1
		if s := os.Getenv("VERIF_SEED"); s != "" {
			if x, err := strconv.ParseUint(s, 10, 64); err == nil {
				seed = x
			}
		}
	}
	tier := *tierF
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	if flag.NArg() != 1 {
		die("usage: check.sh [options] PROPERTY")
	}
	prop := flag.Arg(0)
	if *det {
		os.Exit(determinism(prop, seed, *nF))
	}
	os.Exit(check(prop, tier, seed, *nF, *survey))
}

func build() {
	lock, err := os.OpenFile(filepath.Join(bdir, "lock"), os.O_CREATE|os.O_RDWR, 0o666)
	if err != nil {
		die("%v", err)
	}
	if err := syscall.Flock(int(lock.Fd()), syscall.LOCK_EX); err != nil {
		die("lock: %v", err)
	}
	defer lock.Close()
	dst := filepath.Join(bdir, "rudd")
	tmp, err := os.MkdirTemp(bdir, "instr")
	if err != nil {
		die("%v", err)
	}
	if err := instrumentDir(repo, tmp, &inst); err != nil {
		os.RemoveAll(tmp)
		die("instrumenting %s: %v", repo, err)
	}
	if err := os.RemoveAll(dst); err != nil {
		die("%v", err)
	}
	if err := os.Rename(tmp, dst); err != nil {
		die("%v", err)
	}
	var wg sync.WaitGroup
	errs := make([]string, len(builds))
	for i, b := range builds {
		wg.Add(1)
		go func(i int, b string) {
			defer wg.Done()
			out, err := goBuild(b, filepath.Join(root, "sim", "worker"), "-o", worker(b), ".")
			if err != nil {
				errs[i] = fmt.Sprintf("building the %s worker: %v\n%s", b, err, out)
			}
		}(i, b)
	}
	wg.Wait()
	var ok []string
	for i, b := range builds {
		switch {
		case errs[i] != "" && !is386(b):
			die("%s", errs[i])
		case errs[i] != "":
			// is it the library or the harness?
			if out, err := goBuild(b, repo); err != nil {
				broken[b] = out
			} else {
				absent[b] = errs[i]
			}
		case is386(b) && !executable(b):
			absent[b] = "32-bit programs cannot be executed here"
		default:
			ok = append(ok, b)
			continue
		}
		fmt.Printf("no %s build: %s%s\n", b, head(broken[b], 3), head(absent[b], 3))
	}
	builds = ok
}

// executable tells if this machine runs the worker.
func executable(b string) bool {
	_, isExit := exec.Command(worker(b), "-mode", "none").Run().(*exec.ExitError)
	return isExit
}

func has(b string) bool {
	for _, x := range builds {
		if x == b {
			return true
		}
	}
	return false
}

func worker(b string) string { return filepath.Join(bdir, "worker-"+b) }

//
// Batches
//

type chunk struct {
	ix, from, to int
	build        string
}

// plan cuts the cases of a property into batches for the builds.
func plan(prop string, n int) []chunk {
	sched := []string{"hudd", "buddy", "hudd", "buddy", "hudd", "buddy", "hudd", "buddy", "hudd-debug", "buddy-debug", "hudd", "buddy", "hudd", "buddy", "hudd-386", "buddy-386"}
	switch prop {
	case "C19":
		sched = []string{"hudd", "buddy", "hudd-debug", "buddy-debug", "hudd", "buddy", "hudd-debug", "buddy-debug", "hudd-debug-386", "buddy-386", "buddy-debug-386", "hudd-386"}
	}
	for i, b := range sched {
		if !has(b) {
			sched[i] = strings.TrimSuffix(b, "-386")
		}
	}
	const size = 100
	var cs []chunk
	if prop == "C17" {
		for i := 0; i < n/4; i += size {
			to := i + size
			if to > n/4 {
				to = n / 4
			}
			for _, b := range builds {
				if is386(b) && i/size%3 != 0 {
					continue
				}
				cs = append(cs, chunk{len(cs), i, to, b})
			}
		}
		return cs
	}
	for i := 0; i < n; i += size {
		to := i + size
		if to > n {
			to = n
		}
		cs = append(cs, chunk{len(cs), i, to, sched[(i/size)%len(sched)]})
	}
	return cs
}

// counters mirrors the worker's.
type counters struct {
	Runs, Ops, Skipped, Calls, Steps int64
	Fired                            map[string]int64
	Configured                       int64
	GCs, Resizes, MemFails, Audits   int64
	Kinds                            map[string]int64
	Probes                           map[string]int64
	MaxWide                          int
	MaxSteps                         int64
	Preempt                          int64
	Foreign                          map[string]int64
	Strips                           int64
	Nontrivial                       int64
}

func (c *counters) add(d *counters) {
	c.Runs += d.Runs
	c.Ops += d.Ops
	c.Skipped += d.Skipped
	c.Calls += d.Calls
	c.Steps += d.Steps
	c.Configured += d.Configured
	c.GCs += d.GCs
	c.Resizes += d.Resizes
	c.MemFails += d.MemFails
	c.Audits += d.Audits
	c.Preempt += d.Preempt
	c.Strips += d.Strips
	c.Nontrivial += d.Nontrivial
	if d.MaxWide > c.MaxWide {
		c.MaxWide = d.MaxWide
	}
	if d.MaxSteps > c.MaxSteps {
		c.MaxSteps = d.MaxSteps
	}
	for _, p := range [][2]*map[string]int64{{&c.Fired, &d.Fired}, {&c.Kinds, &d.Kinds}, {&c.Probes, &d.Probes}, {&c.Foreign, &d.Foreign}} {
		if *p[0] == nil {
			*p[0] = map[string]int64{}
		}
		for k, v := range *p[1] {
			(*p[0])[k] += v
		}
	}
}

type found struct {
	Case *Case
	V    *Violation
}

type report struct {
	From, To, Next int
	Found          *found
	Cnt            *counters
	Sigs           []uint64
	Sites          []string
	Foreign        []*found
	Dig            uint64
	Trs            map[int]uint64
	Sample         *Case

	crash   string // not empty: the process died
	crashAt [4]int64
	hang    bool
}

const hangSecs = 150

// runWorker runs one batch in a process of its own.
func runWorker(prop string, seed uint64, ck chunk, from int, secs float64, dump string) *report {
	dir, err := os.MkdirTemp(bdir, "run")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	prg := filepath.Join(dir, "p")
	out := filepath.Join(dir, "o")
	if err := os.WriteFile(prg, make([]byte, 32), 0o666); err != nil {
		die("%v", err)
	}
	args := []string{"-mode", "run", "-prop", prop, "-build", ck.build, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from), "-to", fmt.Sprint(ck.to), "-out", out, "-progress", prg, "-secs", fmt.Sprint(secs)}
	if dump != "" {
		args = append(args, "-dump", dump)
	}
	c := exec.Command(worker(ck.build), args...)
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single")
	var se bytes.Buffer
	c.Stderr = &limited{b: &se, max: 1 << 18}
	if err := c.Start(); err != nil {
		die("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	last, lastT := [4]int64{-1}, time.Now()
	rp := &report{}
	for run := true; run; {
		select {
		case err = <-done:
			run = false
		case <-time.After(500 * time.Millisecond):
			if p := readProgress(prg); p != last {
				last, lastT = p, time.Now()
			} else if time.Since(lastT) > hangSecs*time.Second {
				c.Process.Kill()
				rp.hang = true
			}
		}
	}
	rp.crashAt = readProgress(prg)
	if rp.hang {
		return rp
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 4 {
			die("worker: %s", se.String())
		}
		rp.crash = fmt.Sprintf("%v\n%s", err, se.String())
		return rp
	}
	b, err := os.ReadFile(out)
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, rp); err != nil {
		die("%v", err)
	}
	return rp
}

type limited struct {
	b   *bytes.Buffer
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.max {
		l.b.Write(p)
	}
	return len(p), nil
}

func readProgress(f string) (p [4]int64) {
	b, err := os.ReadFile(f)
	if err != nil || len(b) < 32 {
		return
	}
	for i := range p {
		for j := 7; j >= 0; j-- {
			p[i] = p[i]<<8 | int64(b[8*i+j])
		}
	}
	return
}

// crashClass classifies the death of a worker; "" if it is not the doing of
// the code under test.
func crashClass(s string) string {
	switch {
	case strings.Contains(s, "all goroutines are asleep"):
		return "deadlock"
	case strings.Contains(s, "stack exceeds") || strings.Contains(s, "stack overflow"):
		return "panic"
	case strings.Contains(s, "out of memory") || strings.Contains(s, "cannot allocate"):
		return ""
	case strings.Contains(s, "fatal error:") || strings.Contains(s, "panic:"):
		return "panic"
	}
	return ""
}

func head(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

//
// Executing single cases
//

// server executes cases in worker processes, which it restarts when they die.
type server struct {
	build string
	cmd   *exec.Cmd
	in    *json.Encoder
	out   *json.Decoder
	prg   string
	dir   string
	se    *bytes.Buffer
	kill  func()
}

type pool map[string]*server

func (p pool) close() {
	for _, s := range p {
		s.stop()
	}
}

func (s *server) stop() {
	if s.cmd != nil {
		s.kill()
		s.cmd.Wait()
		s.cmd = nil
		os.RemoveAll(s.dir)
	}
}

func (s *server) start() {
	dir, err := os.MkdirTemp(bdir, "srv")
	if err != nil {
		die("%v", err)
	}
	s.dir = dir
	s.prg = filepath.Join(dir, "p")
	if err := os.WriteFile(s.prg, make([]byte, 32), 0o666); err != nil {
		die("%v", err)
	}
	c := exec.Command(worker(s.build), "-mode", "serve", "-progress", s.prg)
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single")
	s.se = &bytes.Buffer{}
	c.Stderr = &limited{b: s.se, max: 1 << 18}
	in, err := c.StdinPipe()
	if err != nil {
		die("%v", err)
	}
	out, err := c.StdoutPipe()
	if err != nil {
		die("%v", err)
	}
	if err := c.Start(); err != nil {
		die("%v", err)
	}
	s.cmd, s.in, s.out = c, json.NewEncoder(in), json.NewDecoder(out)
	s.kill = func() { c.Process.Kill() }
}

func (p pool) exec1(c *Case, tr bool) (*Reply, bool) {
	s := p[c.Build]
	if s == nil {
		s = &server{build: c.Build}
		p[c.Build] = s
	}
	if s.cmd == nil {
		s.start()
	}
	t := time.AfterFunc(hangSecs*time.Second, s.kill)
	var rp Reply
	err := s.in.Encode(&Request{Case: c, Tr: tr})
	if err == nil {
		err = s.out.Decode(&rp)
	}
	hung := !t.Stop()
	if err == nil {
		if rp.Harness != "" {
			die("%s", rp.Harness)
		}
		return &rp, true
	}
	s.cmd.Wait()
	pr := readProgress(s.prg)
	os.RemoveAll(s.dir)
	s.cmd = nil
	if hung {
		return nil, false
	}
	cl := crashClass(s.se.String())
	if cl == "" {
		return nil, false
	}
	return &Reply{V: crashViolation(c, pr, cl, s.se.String())}, true
}

func crashViolation(c *Case, pr [4]int64, cl, text string) *Violation {
	kind := "end"
	if pr[2] < 0 {
		kind = "new"
	}
	if i := int(pr[1]); i < len(c.Progs) && pr[2] >= 0 && int(pr[2]) < len(c.Progs[i].Ops) {
		kind = c.Progs[i].Ops[pr[2]].K
	}
	v := &Violation{Classes: []string{cl}, Detail: "the process died:\n" + head(text, 12), Op: kind, OpIndex: int(pr[2]), Prog: int(pr[1])}
	if cl == "panic" {
		v.Classes = []string{"panic:" + kind}
	}
	return v
}

// run executes a case, and the variants of it that need other builds.
func (p pool) run(c *Case) (*Violation, bool) {
	other := false
	for _, v := range c.Vars {
		if v.Build != "" && v.Build != c.Build {
			other = true
		}
	}
	rp, ok := p.exec1(c, other)
	if !ok {
		return nil, false
	}
	for _, v := range c.Vars {
		if v.Build == "" || v.Build == c.Build {
			continue
		}
		d := Variation(c, v)
		rq, ok := p.exec1(d, true)
		if !ok {
			return nil, false
		}
		switch {
		case rp.V == nil && rq.V != nil:
			w := rq.V
			w.Classes = append([]string{"diff"}, w.Classes...)
			w.Detail = fmt.Sprintf("the program is executed correctly by the %s build, and the %s build fails: %s", c.Build, d.Build, w.Detail)
			return w, true
		case rp.V != nil && rq.V == nil:
			rp.V.Classes = append([]string{"diff"}, rp.V.Classes...)
			rp.V.Detail = fmt.Sprintf("the program is executed correctly by the %s build, and the %s build fails: %s", d.Build, c.Build, rp.V.Detail)
		case rp.V == nil:
			for i := 0; i < len(rp.Tr) || i < len(rq.Tr); i++ {
				x, y := "nothing", "nothing"
				if i < len(rp.Tr) {
					x = rp.Tr[i]
				}
				if i < len(rq.Tr) {
					y = rq.Tr[i]
				}
				if x != y {
					return &Violation{Classes: []string{"diff"}, Detail: fmt.Sprintf("result %d is %q with the %s build, and %q with the %s build", i, x, c.Build, y, d.Build)}, true
				}
			}
		}
	}
	return rp.V, true
}

// rebuild gets the case that kills its worker, up to the fatal operation.
func rebuild(prop string, seed uint64, ck chunk, ix int) *Case {
	f := filepath.Join(bdir, fmt.Sprintf("dump-%d", os.Getpid()))
	defer os.Remove(f)
	ck.to = ix + 1
	runWorker(prop, seed, ck, ix, 1e9, f)
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	lines := strings.Split(string(b), "\n")
	var c Case
	if json.Unmarshal([]byte(lines[0]), &c) != nil {
		return nil
	}
	for _, l := range lines[1:] {
		i := strings.IndexByte(l, ' ')
		if i < 0 {
			continue
		}
		j, err := strconv.Atoi(l[:i])
		var op Op
		if err != nil || json.Unmarshal([]byte(l[i+1:]), &op) != nil {
			continue
		}
		c.Progs[j].Ops = append(c.Progs[j].Ops, &op)
	}
	return &c
}

//
// Checking a property
//

var quickN = map[string]int{"C06": 80000, "C10": 80000, "C16": 60000, "C17": 25000}

func check(prop, tier string, seed uint64, n int, survey bool) int {
	start := time.Now()
	if n == 0 {
		n = 100000
		if x, ok := quickN[prop]; ok {
			n = x
		}
		if tier == "thorough" {
			n *= 40
		}
	}
	limit := 150 * time.Second
	shrinkT := 60 * time.Second
	if tier == "thorough" {
		limit = 45 * time.Minute
		shrinkT = 10 * time.Minute
	}
	fmt.Printf("property %s, seed %d, tier %s, up to %d simulated runs\n", prop, seed, tier, n)
	if prop == "C17" {
		for _, b := range []string{"hudd-386", "buddy-386", "hudd-debug-386", "buddy-debug-386"} {
			if t, bad := broken[b]; bad {
				path := writeJSON(fmt.Sprintf("%s-build-%s.json", prop, b), &Replay{Property: prop, BuildFailure: b, Violation: &Violation{Classes: []string{"build"}, Detail: t}})
				ev := evidence(prop, tier, seed, &counters{}, 0, 0, nil, nil, 1, time.Since(start).Seconds(), 1, nil, 0)
				if err := ev.write(); err != nil {
					die("%v", err)
				}
				fmt.Printf("the %s build fails: %s\nVIOLATION property=%s replay=%s\n", b, t, prop, path)
				return 1
			}
		}
	}
	cs := plan(prop, n)
	var mu sync.Mutex
	next, stopAt := 0, len(cs)
	type hit struct {
		ck chunk
		ix int
		f  *found
	}
	var hits []hit
	tot := &counters{}
	sigs, sites := map[uint64]bool{}, map[string]bool{}
	trs := map[int]map[string]uint64{}
	var samples []*Case
	var foreign []*found
	cases, crashes, hangs := 0, 0, 0
	hangAt := ""
	digs := make([]uint64, len(cs))
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= stopAt || time.Since(start) > limit {
					mu.Unlock()
					return
				}
				ck := cs[next]
				next++
				mu.Unlock()
				from := ck.from
				for from < ck.to {
					rp := runWorker(prop, seed, ck, from, 1e9, "")
					mu.Lock()
					if rp.hang {
						hangs++
						hangAt = fmt.Sprintf("case %d of build %s", rp.crashAt[0], ck.build)
						from = ck.to
						mu.Unlock()
						continue
					}
					if rp.crash != "" {
						crashes++
						ix := int(rp.crashAt[0])
						if rp.crashAt[3] == 0 {
							hits = append(hits, hit{ck, ix, &found{nil, &Violation{Classes: []string{crashClass(rp.crash)}, Detail: rp.crash, OpIndex: int(rp.crashAt[2]), Prog: int(rp.crashAt[1])}}})
							if ck.ix+1 < stopAt {
								stopAt = ck.ix + 1
							}
							from = ck.to
						} else {
							from = ix + 1
						}
						mu.Unlock()
						continue
					}
					cases += rp.Next - from
					tot.add(rp.Cnt)
					for _, s := range rp.Sigs {
						sigs[s] = true
					}
					for _, s := range rp.Sites {
						sites[s] = true
					}
					for i, h := range rp.Trs {
						if trs[i] == nil {
							trs[i] = map[string]uint64{}
						}
						trs[i][ck.build] = h
					}
					if rp.Sample != nil && len(samples) < 2 {
						samples = append(samples, rp.Sample)
					}
					foreign = append(foreign, rp.Foreign...)
					digs[ck.ix] ^= rp.Dig
					if rp.Found != nil {
						hits = append(hits, hit{ck, rp.Next - 1, rp.Found})
						if ck.ix+1 < stopAt {
							stopAt = ck.ix + 1
						}
					}
					from = ck.to
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	sort.Slice(hits, func(i, j int) bool {
		if hits[i].ck.ix != hits[j].ck.ix {
			return hits[i].ck.ix < hits[j].ck.ix
		}
		return hits[i].ix < hits[j].ix
	})
	simWall := time.Since(start).Seconds()
	p := pool{}
	defer p.close()
	var final *found
	var fck chunk
	var fix int
	notRepro := []string{}
	for _, h := range hits {
		c, v := h.f.Case, h.f.V
		if c == nil {
			if v.Classes[0] == "" {
				die("a worker died: %s", head(v.Detail, 20))
			}
			c = rebuild(prop, seed, h.ck, h.ix)
			if c == nil {
				die("cannot rebuild case %d, which killed its worker: %s", h.ix, head(v.Detail, 20))
			}
		}
		w, ok := p.run(c)
		if ok && w != nil && Accept(prop, c, w, p.run) {
			final, fck, fix = &found{c, w}, h.ck, h.ix
			break
		}
		if ok && w != nil {
			foreign = append(foreign, &found{c, w})
			tot.add(&counters{Foreign: map[string]int64{strings.Join(w.Classes, "+"): 1}})
			continue
		}
		// it may need the earlier cases of the batch
		rp := runWorker(prop, seed, chunk{0, h.ck.from, h.ix + 1, h.ck.build}, h.ck.from, 1e9, "")
		if rp.Found != nil {
			final, fck, fix = &found{nil, rp.Found.V}, h.ck, h.ix
			break
		}
		notRepro = append(notRepro, fmt.Sprintf("case %d (%s): %v %s", h.ix, h.ck.build, v.Classes, v.Detail))
	}
	if final == nil && prop == "C17" {
		final = crossBuild(seed, trs, cs, p)
		if final != nil {
			fix = final.Case.Index
		}
	}
	viol := 0
	path := ""
	if final != nil {
		viol = 1
		path = writeReplay(prop, seed, final, fck, fix, p, shrinkT)
	}
	ev := evidence(prop, tier, seed, tot, cases, len(sigs), sites, samples, simWall, time.Since(start).Seconds(), viol, foreign, crashes)
	if err := ev.write(); err != nil {
		die("%v", err)
	}
	if survey {
		for _, f := range foreign {
			fmt.Printf("foreign: %s case %d %s op %d %s: %v %s\n", f.Case.Build, f.Case.Index, "", f.V.OpIndex, f.V.Op, f.V.Classes, f.V.Detail)
		}
	}
	fmt.Printf("%d runs, %d operations, %d simulated steps, %d distinct schedules, %d foreign, %.1f s\n", cases, tot.Ops, tot.Steps, len(sigs), sum(tot.Foreign), time.Since(start).Seconds())
	if final != nil {
		fmt.Printf("%s: %s\n", strings.Join(final.V.Classes, ", "), final.V.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	if len(notRepro) > 0 {
		die("violations that do not replay:\n%s", strings.Join(notRepro, "\n"))
	}
	if hangs > 0 {
		die("%d worker(s) made no progress for %d s (%s)", hangs, hangSecs, hangAt)
	}
	if cases == 0 {
		die("no case was run")
	}
	fmt.Printf("property %s held on everything explored\n", prop)
	return 0
}

func sum(m map[string]int64) (n int64) {
	for _, v := range m {
		n += v
	}
	return
}

// crossBuild compares the executions of the same programs by different builds.
func crossBuild(seed uint64, trs map[int]map[string]uint64, cs []chunk, p pool) *found {
	var ixs []int
	for i := range trs {
		ixs = append(ixs, i)
	}
	sort.Ints(ixs)
	tried := 0
	for _, i := range ixs {
		m := trs[i]
		for _, b := range builds[1:] {
			h0, ok0 := m[builds[0]]
			h, ok := m[b]
			if is386(b) && !ok {
				continue // not executed
			}
			if (!ok0 && !ok) || (ok0 == ok && h0 == h) {
				continue
			}
			c := rebuild("C17", seed, chunk{0, i, i + 1, "hudd"}, i)
			if c == nil {
				continue
			}
			c.Vars = []*Variant{{Build: b}}
			if v, ok := p.run(c); ok && v != nil && v.Has("diff") {
				return &found{c, v}
			}
			if tried++; tried > 50 {
				return nil
			}
		}
	}
	return nil
}

// Replay is the content of a replay file.
type Replay struct {
	Property  string
	Seed      uint64
	Index     int
	Violation *Violation
	Case      *Case   `json:",omitempty"` // minimised
	Batch     *chunkR `json:",omitempty"` // when the violation needs the earlier cases of its batch
	Tries     int     // executions made to minimise

	BuildFailure string `json:",omitempty"` // the build that the tree does not allow
	How          string
}

type chunkR struct {
	From, To int
	Build    string
}

func writeReplay(prop string, seed uint64, f *found, ck chunk, ix int, p pool, d time.Duration) string {
	name := fmt.Sprintf("%s-%d-%d.json", prop, seed, ix)
	rp := &Replay{Property: prop, Seed: seed, Index: ix}
	if f.Case == nil {
		rp.Batch = &chunkR{ck.from, ix + 1, ck.build}
		rp.Violation = f.V
	} else {
		bad := func(c *Case) bool {
			v, ok := p.run(c)
			return ok && v != nil && v.Classes[0] == f.V.Classes[0] && Accept(prop, c, v, p.run)
		}
		c, n := Shrink(f.Case, bad, time.Now().Add(d))
		rp.Case, rp.Tries = c, n
		// in fresh processes
		q := pool{}
		defer q.close()
		again := func(c *Case) bool {
			v, ok := q.run(c)
			if !ok || v == nil || !Accept(prop, c, v, q.run) {
				return false
			}
			rp.Violation, rp.Case = v, c
			f.V, f.Case = v, c
			return true
		}
		if !again(c) && !again(f.Case) {
			// it depends on the earlier cases of the batch, or on something
			// outside of the simulation
			rp.Case, rp.Violation = nil, f.V
			rp.Batch = &chunkR{ck.from, ix + 1, ck.build}
		}
	}
	return writeJSON(name, rp)
}

func writeJSON(name string, rp *Replay) string {
	dir := filepath.Join(root, "replays")
	os.MkdirAll(dir, 0o777)
	path := filepath.Join(dir, name)
	rp.How = "/verif/check.sh --replay " + path
	b, err := json.MarshalIndent(rp, "", " ")
	if err == nil {
		err = os.WriteFile(path, b, 0o666)
	}
	if err != nil {
		die("%v", err)
	}
	return path
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		die("%v", err)
	}
	if rp.BuildFailure != "" {
		if t, bad := broken[rp.BuildFailure]; bad {
			fmt.Printf("the %s build fails: %s\nVIOLATION property=%s replay=%s\n", rp.BuildFailure, t, rp.Property, path)
			return 1
		}
		fmt.Println("no violation")
		return 0
	}
	p := pool{}
	defer p.close()
	if rp.Batch != nil {
		r := runWorker(rp.Property, rp.Seed, chunk{0, rp.Batch.From, rp.Batch.To, rp.Batch.Build}, rp.Batch.From, 1e9, "")
		if r.Found != nil {
			fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", strings.Join(r.Found.V.Classes, ", "), r.Found.V.Detail, rp.Property, path)
			return 1
		}
	} else {
		v, ok := p.run(rp.Case)
		if !ok {
			die("the case cannot be executed")
		}
		if v != nil && Accept(rp.Property, rp.Case, v, p.run) {
			fmt.Printf("operation %d (%s)\n%s: %s\nVIOLATION property=%s replay=%s\n", v.OpIndex, v.Op, strings.Join(v.Classes, ", "), v.Detail, rp.Property, path)
			return 1
		}
		if v != nil {
			fmt.Printf("another violation: %s: %s\n", strings.Join(v.Classes, ", "), v.Detail)
		}
	}
	fmt.Println("no violation")
	return 0
}

// determinism runs the same cases in differently cut batches, at different
// levels of load, and compares the logs.
func determinism(prop string, seed uint64, n int) int {
	if n == 0 {
		n = 2000
	}
	bad := 0
	for _, b := range builds {
		run := func(size, par int) map[int]uint64 {
			res := map[int]uint64{}
			var mu sync.Mutex
			sem := make(chan bool, par)
			var wg sync.WaitGroup
			for i := 0; i < n; i += size {
				i := i
				wg.Add(1)
				sem <- true
				go func() {
					defer wg.Done()
					for j := i; j < i+size && j < n; {
						rp := runWorker(prop, seed, chunk{0, i, i + size, b}, j, 1e9, "")
						if rp.crash != "" || rp.hang {
							die("worker died: %s", rp.crash)
						}
						mu.Lock()
						res[j] = rp.Dig ^ uint64(rp.Cnt.Steps)<<1
						mu.Unlock()
						if rp.Found != nil {
							j = rp.Next
							continue
						}
						break
					}
					<-sem
				}()
			}
			wg.Wait()
			return res
		}
		x, y := run(20, runtime.NumCPU()), run(20, 3)
		for i, d := range x {
			if y[i] != d {
				fmt.Printf("%s: batch %d differs\n", b, i)
				bad++
			}
		}
		fmt.Printf("%s %s: %d batches of 20 runs compared\n", prop, b, len(x))
	}
	if bad > 0 {
		return 1
	}
	return 0
}
