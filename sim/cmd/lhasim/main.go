// lhasim runs the checks: a parent that hands seeds to worker processes, shrinks
// what fails, confirms it in a fresh process and writes the evidence.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"lhasim/checks"
	"lhasim/vsim"
)

const cores = 8

// Replay is the file that reproduces a violation.
type Replay struct {
	Property  string         `json:"property"`
	Violation checks.Viol    `json:"violation"`
	Seed      uint64         `json:"seed"`
	Index     int            `json:"index"`
	Thorough  bool           `json:"thorough"`
	Hash      string         `json:"hash"`
	Scenario  []string       `json:"scenario"`
	Faults    map[string]int `json:"faults_fired"`
	Tape      []uint64       `json:"tape"`
	BySeed    bool           `json:"by_seed"` /* the process died: run the seed, not the tape */
	Trace     []string       `json:"trace"`
}

type summary struct {
	Runs, Worlds int
	Ticks, SimNS int64
	Probes       map[string]int
	Fired        map[string]int
	Hashes       []uint64
	ILs          []uint64
	Samples      []string
	Trivial      int
	Known        map[string]int
	Dig          []uint64
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: lhasim check|worker|shrink|replay|digest|bench ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "shrink":
		shrink()
	case "replay":
		replay(os.Args[2:])
	case "digest":
		digest(os.Args[2:])
	case "bench":
		bench(os.Args[2:])
	case "stunt":
		stunt(os.Args[2:])
	case "list":
		for _, id := range checks.IDs() {
			fmt.Println(id)
		}
	default:
		os.Exit(2)
	}
}

func seedOf(seed uint64, id string, i int) uint64 {
	h := uint64(0)
	for _, c := range id {
		h = h*131 + uint64(c)
	}
	return vsim.Mix(seed, h, uint64(i))
}

func run(p *checks.Prop, t *vsim.Tape, verbose, thorough bool) *checks.Ctx {
	return checks.Scenario(p, t, verbose, thorough)
}

// ---- worker ----

type found struct {
	Index int
	Viol  checks.Viol
	Tape  []uint64
	Desc  []string
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func limits() {
	debug.SetGCPercent(200)
	lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
}

func worker(a []string) {
	limits()
	runtime.GOMAXPROCS(2)
	p := checks.Props[a[0]]
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	thorough := a[2] == "thorough"
	from, step, total := atoi(a[3]), atoi(a[4]), atoi(a[5])
	deadline := time.Now().Add(time.Duration(atoi(a[6])) * time.Millisecond)
	known := readKnown(a[7], p.ID)
	s := &summary{Probes: map[string]int{}, Fired: map[string]int{}, Known: map[string]int{}}
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	for i := from; i < total; i += step {
		if time.Now().After(deadline) {
			break
		}
		fmt.Fprintf(out, "S %d\n", i)
		out.Flush()
		t := vsim.NewTape(seedOf(seed, p.ID, i))
		c := run(p, t, false, thorough)
		s.Runs++
		s.Worlds += c.Worlds
		s.Ticks += c.Ticks
		s.SimNS += c.SimNS
		for k, n := range c.Probes {
			s.Probes[k] += n
		}
		for k, n := range c.Fired {
			s.Fired[k] += n
		}
		if c.Trivial() {
			s.Trivial++
		} else {
			s.Hashes = append(s.Hashes, c.Hash)
		}
		s.ILs = append(s.ILs, c.IL...)
		if len(s.Samples) < 2 && !c.Trivial() {
			s.Samples = append(s.Samples, fmt.Sprintf("seed %d: %s", i, strings.Join(c.Desc, "; ")))
		}
		if c.V != nil {
			if k := known.match(c.V); k != "" {
				s.Known[k]++
				continue
			}
			b, _ := json.Marshal(found{i, *c.V, t.Rec, c.Desc})
			fmt.Fprintf(out, "V %s\n", b)
			break
		}
	}
	b, _ := json.Marshal(s)
	fmt.Fprintf(out, "E %s\n", b)
	out.Flush()
}

// ---- known findings ----

type finding struct{ kind, match, text string }
type findings []finding

// readKnown reads the lines "finding: property=<id> kind=<kind> match=<text>".
func readKnown(file, id string) findings {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r findings
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		k := strings.Index(l, "kind=")
		m := strings.Index(l, " match=")
		if k < 0 || m < k {
			continue
		}
		r = append(r, finding{l[k+5 : m], l[m+7:], l[len("finding: "):]})
	}
	return r
}

func (f findings) match(v *checks.Viol) string {
	for _, x := range f {
		if x.kind == v.Kind && strings.Contains(v.Detail, x.match) {
			return x.text
		}
	}
	return ""
}

// ---- parent ----

type workerEnd struct {
	n    int
	sum  *summary
	viol *found
	died string
	last int
}

func check(a []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", "quick", "")
	ev := fs.String("evidence", "", "")
	rep := fs.String("replays", ".", "")
	seed := fs.Uint64("seed", 1, "")
	knownFile := fs.String("known", "", "")
	limit := fs.Int("limit", 0, "seconds")
	runs := fs.Int("runs", 0, "")
	id := a[0]
	_ = fs.Parse(a[1:])
	p := checks.Props[id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "no property %s\n", id)
		os.Exit(2)
	}
	total := p.Quick
	secs := 200
	if *tier == "thorough" {
		total, secs = p.Thorough, 3000
	}
	if *runs > 0 {
		total = *runs
	}
	if *limit > 0 {
		secs = *limit
	}
	t0 := time.Now()
	ends := make(chan workerEnd, cores)
	var mu sync.Mutex
	procs := map[int]*exec.Cmd{}
	killed := false
	for n := 0; n < cores; n++ {
		c := exec.Command(self(), "worker", id, fmt.Sprint(*seed), *tier, fmt.Sprint(n), fmt.Sprint(cores), fmt.Sprint(total), fmt.Sprint(secs*1000), *knownFile)
		go func(n int) { ends <- drive(c, n, &mu, procs) }(n)
	}
	var all []workerEnd
	for len(all) < cores {
		e := <-ends
		all = append(all, e)
		if (e.viol != nil || e.died != "") && !killed {
			killed = true
			mu.Lock()
			for k, c := range procs {
				if k != e.n && c.Process != nil {
					_ = c.Process.Kill()
				}
			}
			mu.Unlock()
		}
	}
	sum := &summary{Probes: map[string]int{}, Fired: map[string]int{}, Known: map[string]int{}}
	hashes, ils := map[uint64]bool{}, map[uint64]bool{}
	var viol *found
	died, diedAt := "", -1
	for _, e := range all {
		if e.viol != nil && (viol == nil || e.viol.Index < viol.Index) {
			viol = e.viol
		}
		if e.sum == nil {
			if e.died != "" && e.died != "killed" {
				died, diedAt = e.died, e.last
			}
			continue
		}
		s := e.sum
		sum.Runs += s.Runs
		sum.Worlds += s.Worlds
		sum.Ticks += s.Ticks
		sum.SimNS += s.SimNS
		sum.Trivial += s.Trivial
		for k, n := range s.Probes {
			sum.Probes[k] += n
		}
		for k, n := range s.Fired {
			sum.Fired[k] += n
		}
		for k, n := range s.Known {
			sum.Known[k] += n
		}
		for _, h := range s.Hashes {
			hashes[h] = true
		}
		for _, h := range s.ILs {
			ils[h] = true
		}
		sum.Samples = append(sum.Samples, s.Samples...)
	}
	wall := time.Since(t0)
	nviol := 0
	code := 0
	replayPath := ""
	var vtext checks.Viol
	if viol != nil {
		replayPath, vtext, code = confirm(id, *seed, *tier == "thorough", viol, *rep)
		nviol = 1
	} else if diedAt >= 0 {
		replayPath, vtext, code = confirmDeath(id, *seed, *tier == "thorough", diedAt, died, *rep)
		nviol = 1
	}
	if *ev != "" {
		writeEvidence(*ev, p, *tier, *seed, sum, hashes, ils, wall, nviol, total)
	}
	for k := range sum.Known {
		fmt.Printf("KNOWN-FINDING: %s\n", k)
	}
	fmt.Printf("%s %s: %d simulated runs (%d machines), %d distinct non-trivial, %.0f s simulated, %d fault kinds, %.1f s\n",
		id, *tier, sum.Runs, sum.Worlds, len(hashes), float64(sum.SimNS)/1e9, len(sum.Fired), wall.Seconds())
	switch code {
	case 1:
		fmt.Printf("%s: %s: %s\n", id, vtext.Kind, vtext.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replayPath)
		os.Exit(1)
	case 2:
		fmt.Printf("%s: a worker failed for reasons of its own: %s\n", id, vtext.Detail)
		os.Exit(2)
	}
	if sum.Runs == 0 {
		fmt.Println("no runs")
		os.Exit(2)
	}
}

func self() string {
	e, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return e
}

func drive(c *exec.Cmd, n int, mu *sync.Mutex, procs map[int]*exec.Cmd) workerEnd {
	e := workerEnd{n: n, last: -1}
	out, err := c.StdoutPipe()
	if err != nil {
		e.died = err.Error()
		return e
	}
	var errb bytes.Buffer
	c.Stderr = &errb
	mu.Lock()
	err = c.Start()
	procs[n] = c
	mu.Unlock()
	if err != nil {
		e.died = err.Error()
		return e
	}
	beat := make(chan bool, 1)
	quit := make(chan bool)
	stalled := false
	go func() {
		for {
			select {
			case <-beat:
			case <-quit:
				return
			case <-time.After(240 * time.Second):
				stalled = true
				_ = c.Process.Kill()
				return
			}
		}
	}()
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 1<<30)
	for sc.Scan() {
		select {
		case beat <- true:
		default:
		}
		l := sc.Text()
		switch {
		case strings.HasPrefix(l, "S "):
			e.last = atoi(l[2:])
		case strings.HasPrefix(l, "V "):
			var f found
			if json.Unmarshal([]byte(l[2:]), &f) == nil {
				e.viol = &f
			}
		case strings.HasPrefix(l, "E "):
			var s summary
			if json.Unmarshal([]byte(l[2:]), &s) == nil {
				e.sum = &s
			}
		}
	}
	err = c.Wait()
	close(quit)
	if e.sum == nil {
		e.died = "killed"
		if stalled {
			e.died = "no progress in 240 s"
		} else if ws, ok := c.ProcessState.Sys().(syscall.WaitStatus); ok && !ws.Signaled() {
			e.died = head(errb.String(), 1500)
		}
		_ = err
	}
	return e
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// confirm shrinks a violation and reproduces it in a fresh process.
func confirm(id string, seed uint64, thorough bool, f *found, dir string) (string, checks.Viol, int) {
	r := &Replay{Property: id, Violation: f.Viol, Seed: seed, Index: f.Index, Thorough: thorough, Tape: f.Tape}
	in, _ := json.Marshal(r)
	c := exec.Command(self(), "shrink")
	c.Stdin = bytes.NewReader(in)
	out, err := c.Output()
	var s Replay
	if err == nil && json.Unmarshal(out, &s) == nil && s.Property == id {
		r = &s
	}
	path := save(r, dir)
	for try := 0; try < 3; try++ {
		c = exec.Command(self(), "replay", path)
		if err := c.Run(); err != nil {
			if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 1 {
				return path, r.Violation, 1
			}
		}
		/* not what the shrunk tape gives: keep the first one */
		r = &Replay{Property: id, Violation: f.Viol, Seed: seed, Index: f.Index, Thorough: thorough, Tape: f.Tape, Scenario: f.Desc}
		path = save(r, dir)
	}
	return path, checks.Viol{Kind: f.Viol.Kind, Detail: "not reproduced: " + f.Viol.Detail}, 2
}

func confirmDeath(id string, seed uint64, thorough bool, i int, died, dir string) (string, checks.Viol, int) {
	v := checks.Viol{Kind: "process died", Detail: died}
	r := &Replay{Property: id, Violation: v, Seed: seed, Index: i, Thorough: thorough, BySeed: true}
	path := save(r, dir)
	c := exec.Command(self(), "replay", path)
	var eb bytes.Buffer
	c.Stderr = &eb
	err := c.Run()
	/* only what the code under test did counts: a runtime error that no recover stops */
	t := eb.String()
	if err != nil && (strings.Contains(t, "fatal error: stack overflow") || strings.Contains(t, "out of memory") ||
		strings.Contains(t, "concurrent map")) && strings.Contains(t, "lhasim/gen/lha") {
		return path, v, 1
	}
	return path, v, 2
}

func save(r *Replay, dir string) string {
	_ = os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%s-seed%d-%d.json", r.Property, r.Seed, r.Index))
	b, _ := json.MarshalIndent(r, "", " ")
	_ = os.WriteFile(p, b, 0644)
	return p
}

// ---- shrinking ----

func shrink() {
	limits()
	var r Replay
	if err := json.NewDecoder(os.Stdin).Decode(&r); err != nil {
		os.Exit(2)
	}
	p := checks.Props[r.Property]
	end := time.Now().Add(25 * time.Second)
	best := r.Tape
	tries := 0
	same := func(t []uint64) bool {
		if time.Now().After(end) || tries > 3000 {
			return false
		}
		tries++
		c := run(p, vsim.ReplayTape(t), false, r.Thorough)
		return c.V != nil && c.V.Kind == r.Violation.Kind
	}
	if len(best) < 200000 && same(best) {
		trim := func(t []uint64) []uint64 {
			for len(t) > 0 && t[len(t)-1] == 0 {
				t = t[:len(t)-1]
			}
			return t
		}
		best = trim(best)
		for {
			before := fmt.Sprint(len(best), sumOf(best))
			/* shorter */
			for k := len(best) / 2; k >= 1; k /= 2 {
				for len(best) > k && same(best[:len(best)-k]) {
					best = trim(best[:len(best)-k])
				}
			}
			/* without a stretch */
			for k := len(best) / 2; k >= 1; k /= 2 {
				for i := 0; i+k <= len(best); {
					t := append(append([]uint64{}, best[:i]...), best[i+k:]...)
					if same(t) {
						best = trim(t)
					} else {
						i += k
					}
				}
				if k > 64 {
					k = k/2 + 1
				}
			}
			/* simpler values */
			for i := 0; i < len(best); i++ {
				if best[i] == 0 {
					continue
				}
				t := append([]uint64{}, best...)
				t[i] = 0
				if same(t) {
					best = t
					continue
				}
				lo, hi := uint64(0), best[i]
				for lo+1 < hi {
					m := (lo + hi) / 2
					t := append([]uint64{}, best...)
					t[i] = m
					if same(t) {
						best, hi = t, m
					} else {
						lo = m
					}
				}
			}
			best = trim(best)
			if fmt.Sprint(len(best), sumOf(best)) == before || time.Now().After(end) || tries > 3000 {
				break
			}
		}
	}
	c := run(p, vsim.ReplayTape(best), true, r.Thorough)
	if c.V == nil {
		c = run(p, vsim.ReplayTape(r.Tape), true, r.Thorough)
		best = r.Tape
		if c.V == nil {
			os.Exit(3)
		}
	}
	r.Tape, r.Violation, r.Hash, r.Scenario, r.Faults, r.Trace = best, *c.V, fmt.Sprintf("%016x", c.Hash), c.Desc, c.Fired, c.Trace
	if len(r.Trace) > 2000 {
		r.Trace = r.Trace[:2000]
	}
	b, _ := json.Marshal(&r)
	os.Stdout.Write(b)
}

func sumOf(t []uint64) (s uint64) {
	for _, x := range t {
		s += x
	}
	return
}

func replay(a []string) {
	limits()
	b, err := os.ReadFile(a[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := checks.Props[r.Property]
	if p == nil {
		os.Exit(2)
	}
	t := vsim.ReplayTape(r.Tape)
	if r.BySeed {
		t = vsim.NewTape(seedOf(r.Seed, r.Property, r.Index))
	}
	c := run(p, t, true, r.Thorough)
	for _, l := range c.Trace {
		fmt.Println(l)
	}
	if c.V == nil {
		fmt.Println("no violation")
		return
	}
	if r.Hash != "" && fmt.Sprintf("%016x", c.Hash) != r.Hash {
		fmt.Println("a different execution")
		os.Exit(3)
	}
	fmt.Printf("%s: %s\n", c.V.Kind, c.V.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, a[0])
	os.Exit(1)
}

// digest prints the hash of each scenario: two runs must agree.
func digest(a []string) {
	limits()
	p := checks.Props[a[0]]
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	from, to := atoi(a[2]), atoi(a[3])
	rev := len(a) > 4
	for k := from; k < to; k++ {
		i := k
		if rev { /* another order, after other scenarios */
			i = to - 1 - (k - from)
		}
		c := run(p, vsim.NewTape(seedOf(seed, p.ID, i)), false, false)
		fmt.Printf("%d %016x %d %v\n", i, c.Hash, c.Ticks, c.V != nil)
	}
}

func bench(a []string) {
	limits()
	p := checks.Props[a[0]]
	n, from := atoi(a[1]), 0
	if len(a) > 2 {
		from = atoi(a[2])
	}
	t0 := time.Now()
	bad := map[string]int{}
	probes := map[string]int{}
	fired := map[string]int{}
	var ticks, max int64
	triv := 0
	for i := from; i < from+n; i++ {
		t1 := time.Now()
		t := vsim.NewTape(seedOf(1, p.ID, i))
		c := run(p, t, os.Getenv("TRACE") != "", false)
		if d := time.Since(t1); d > 2*time.Second {
			fmt.Println("slow", i, d, c.Ticks, c.Desc)
		}
		if os.Getenv("TRACE") != "" {
			for _, l := range c.Trace {
				fmt.Println(l)
			}
		}
		ticks += c.Ticks
		if c.Ticks > max {
			max = c.Ticks
		}
		if c.Trivial() {
			triv++
		}
		for k, n := range c.Probes {
			probes[k] += n
		}
		for k, n := range c.Fired {
			fired[k] += n
		}
		if c.V != nil {
			bad[c.V.Kind]++
			if bad[c.V.Kind] < 4 {
				fmt.Println(i, c.V.Kind, "|", c.V.Detail, "|", c.Desc)
			}
		}
	}
	fmt.Println("BAD", bad, "\nPROBES", probes, "\nFIRED", fired, "\ntrivial", triv, "ticks", ticks, max, time.Since(t0))
}

// stunt runs the scenarios that shrinking would come by: cut, thinned and zeroed
// tapes.  A check that is quiet on the drawn ones must be quiet on these too.
func stunt(a []string) {
	limits()
	p := checks.Props[a[0]]
	n, from := atoi(a[1]), 0
	if len(a) > 2 {
		from = atoi(a[2])
	}
	bad := map[string]int{}
	for i := from; i < from+n; i++ {
		t := vsim.NewTape(seedOf(1, p.ID, i/8))
		run(p, t, false, false)
		g := rand.New(rand.NewPCG(uint64(i), 77))
		tape := append([]uint64{}, t.Rec...)
		if i == from {
			tape = nil
		}
		for k := 1 + g.IntN(4); k > 0 && len(tape) > 0; k-- {
			switch g.IntN(4) {
			case 0:
				tape = tape[:g.IntN(len(tape)+1)]
			case 1:
				x := g.IntN(len(tape))
				y := x + g.IntN(len(tape)-x+1)
				tape = append(tape[:x], tape[y:]...)
			case 2:
				d := 1 + g.IntN(10)
				for j := range tape {
					if g.IntN(10) < d {
						tape[j] = 0
					}
				}
			case 3:
				for j := range tape {
					if tape[j] != 0 && g.IntN(3) == 0 {
						tape[j] >>= g.IntN(64)
					}
				}
			}
		}
		c := run(p, vsim.ReplayTape(tape), false, false)
		if c.V != nil {
			bad[c.V.Kind]++
			if bad[c.V.Kind] < 4 {
				fmt.Println(i, c.V.Kind, "|", c.V.Detail, "|", c.Desc)
				if os.Getenv("SAVE") != "" {
					save(&Replay{Property: p.ID, Violation: *c.V, Seed: 1, Index: i, Tape: tape}, os.Getenv("SAVE"))
				}
			}
		}
	}
	fmt.Println("BAD", bad)
}

// ---- evidence ----

func writeEvidence(path string, p *checks.Prop, tier string, seed uint64, s *summary, hashes, ils map[uint64]bool, wall time.Duration, nviol, planned int) {
	var samples []any
	for _, x := range s.Samples {
		if len(samples) < 6 {
			samples = append(samples, x)
		}
	}
	perHour := func(n int) float64 { return float64(n) / wall.Hours() }
	cov := map[string]any{
		"evaluations":         s.Runs,
		"distinct_nontrivial": len(hashes),
		"rule":                p.Rule + "; distinct: the hash of the whole event log (system calls, data written, schedule, workload) differs",
		"samples":             samples,
		"planned_runs":        planned,
		"trivial_runs":        s.Trivial,
		"simulated_machines":  s.Worlds,
		"runs_per_hour":       int(perHour(s.Runs)),
		"seeds_per_hour":      int(perHour(s.Runs)),
		"simulated_seconds":   float64(s.SimNS) / 1e9,
		"simulated_steps":     s.Ticks,
		"faults_injected":     s.Fired,
		"interleavings":       len(ils),
		"interleavings_note":  "distinct sequences of scheduling decisions among tasks, over the runs that had more than one",
		"probes":              s.Probes,
		"real_components":     []string{"every function of package lha and of cmd/lharc.go, rebuilt from /repo's working tree with imports of the operating system replaced and a step counter in every body"},
		"stub_components":     []string{"file system, standard streams, clock, time zone, process table, mutexes, flag parsing set, map iteration order (sim/vsim, sim/shim)", "the reference reader and encoder (sim/ref) stand for other archivers"},
	}
	var known []string
	for k := range s.Known {
		known = append(known, k)
	}
	sort.Strings(known)
	if len(known) > 0 {
		cov["known_findings"] = known
	}
	e := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": append([]string{"the simulated file system behaves as a POSIX one: rename is atomic, directory changes reach the disk in order, data reaches it when synced"}, p.Assume...),
		"wall_s":      wall.Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(e, "", " ")
	_ = os.MkdirAll(filepath.Dir(path), 0755)
	_ = os.WriteFile(path, append(b, '\n'), 0644)
}
