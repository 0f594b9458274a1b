// Command mc is the bounded exhaustive explorer for AdamColton/parlex.
//
//	mc check  -property C01 -tier quick        supervisor: shards the space over worker processes
//	mc worker -property C01 -tier quick ...    one shard (or one case with -only u:s)
//	mc replay FILE                             re-executes the case recorded in a replay file
//
// A check enumerates a finite space of cases.  The enumeration is
// deterministic: a case is identified by (unit, sub).  Worker k of n executes
// the units congruent to k modulo n.  Each case drives the real code and
// compares what it observes with a reference model; a panic, a fatal runtime
// error, non-termination or unbounded memory in the code under test is a
// violation as well, and is attributed to the case through a progress word
// that the worker keeps in a shared mapping.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Check is one registered property check.
type Check struct {
	ID     string
	Rule   string   // how cases are made
	Bounds []string // stated bounds, quick tier
	Assume []string
	Run    func(c *Ctx)
}

var registry = map[string]*Check{}

func register(c *Check) { registry[c.ID] = c }

// Ctx is the exploration context of one worker.
type Ctx struct {
	Thorough      bool
	shard, shards int64
	onlyU, onlyS  int64
	unit, sub     int64
	prog          *[2]int64
	deadline      time.Time
	started       time.Time

	mu          sync.Mutex
	desc        func() string
	cases       int64
	trans       int64
	traces      int64
	nontrivial  int64
	outcomes    map[uint64]struct{}
	states      map[uint64]struct{}
	stateCount  int64
	violations  int
	capped      bool
	samples     []string
	spaces      map[string]int64
	space       string
	known       map[string]string
	knownHits   map[string]int
	maxViol     int
	halted      bool
	sampleEvery int64
	printOnly   bool
}

// Space names the sub-space the following units belong to.
func (c *Ctx) Space(name string) { c.space = name }

// Unit advances to the next unit and reports whether this worker owns it.
func (c *Ctx) Unit() bool {
	c.unit++
	c.sub = 0
	if c.halted {
		return false
	}
	if c.onlyU >= 0 {
		return c.unit == c.onlyU
	}
	if c.unit%c.shards != c.shard {
		return false
	}
	if c.unit&15 == 0 || c.capped {
		if time.Now().After(c.deadline) {
			c.capped = true
			return false
		}
	}
	return true
}

// Trans counts n calls into the code under test.
func (c *Ctx) Trans(n int) { c.trans += int64(n) }

// Outcome records an observed outcome (for the distinct-outcome count).
func (c *Ctx) Outcome(h uint64) {
	if len(c.outcomes) < 1<<18 {
		c.outcomes[h] = struct{}{}
	}
}

// OutcomeS records an observed outcome given as a string.
func (c *Ctx) OutcomeS(s string) { c.Outcome(hashS(s)) }

// State records a visited state of an explicit-state search.
func (c *Ctx) State(h uint64) bool {
	if _, ok := c.states[h]; ok {
		return false
	}
	c.states[h] = struct{}{}
	return true
}

// NonTrivial marks the current case as non-trivial.
func (c *Ctx) NonTrivial() { c.nontrivial++ }

func hashS(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Case executes one case.  desc renders the case; f returns "" if the property
// held and an explanation otherwise.
func (c *Ctx) Case(desc func() string, f func() string) {
	c.sub++
	if c.halted || (c.onlyU >= 0 && (c.unit != c.onlyU || c.sub != c.onlyS)) {
		return
	}
	if c.capped {
		return
	}
	if c.sub&255 == 0 && time.Now().After(c.deadline) {
		c.capped = true
		return
	}
	c.mu.Lock()
	c.desc = desc
	c.mu.Unlock()
	atomic.StoreInt64(&c.prog[1], c.sub)
	atomic.StoreInt64(&c.prog[0], c.unit)
	if c.printOnly {
		fmt.Printf("CASE %s\n", strconv.Quote(desc()))
	}
	c.cases++
	c.traces++
	c.spaces[c.space]++
	if n := len(c.samples); n < 3 && c.cases >= 1+int64(n)*c.sampleEvery {
		c.samples = append(c.samples, c.space+": "+desc())
	}
	bad := c.protect(f)
	if bad == "" {
		return
	}
	d := desc()
	if _, ok := c.known[d]; ok {
		c.knownHits[d]++
		return
	}
	c.violations++
	emit(map[string]interface{}{"type": "violation", "unit": c.unit, "sub": c.sub, "space": c.space, "case": d, "why": bad})
	if c.violations >= c.maxViol {
		c.halted = true
	}
}

func (c *Ctx) protect(f func() string) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return f()
}

// guard runs f and reports a panic as a string ("" if none).
func guard(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("panic: %v", r)
		}
	}()
	f()
	return ""
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") && !strings.Contains(l, "zz_verif") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "\n")
}

var outMu sync.Mutex

func emit(m map[string]interface{}) {
	b, _ := json.Marshal(m)
	outMu.Lock()
	os.Stdout.Write(append(b, '\n'))
	outMu.Unlock()
}

const (
	hangAfter = 60 * time.Second
	memLimit  = 2600 << 20
)

func (c *Ctx) watchdog() {
	var lastU, lastS int64 = -1, -1
	since := time.Now()
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}, {Name: "/memory/classes/heap/stacks:bytes"}}
	for {
		time.Sleep(250 * time.Millisecond)
		u, s := atomic.LoadInt64(&c.prog[0]), atomic.LoadInt64(&c.prog[1])
		if u != lastU || s != lastS {
			lastU, lastS, since = u, s, time.Now()
		} else if u > 0 && time.Since(since) > hangAfter {
			os.Stderr.WriteString("WATCHDOG: no progress\n")
			os.Exit(41)
		}
		metrics.Read(sample)
		if sample[0].Value.Uint64()+sample[1].Value.Uint64() > memLimit {
			os.Stderr.WriteString("WATCHDOG: memory limit\n")
			os.Exit(42)
		}
	}
}

func mapProgress(path string) *[2]int64 {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return new([2]int64)
	}
	defer f.Close()
	f.Truncate(4096)
	b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return new([2]int64)
	}
	return (*[2]int64)(unsafe.Pointer(&b[0]))
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("property", "", "")
	tier := fs.String("tier", "quick", "")
	shard := fs.Int64("shard", 0, "")
	shards := fs.Int64("shards", 1, "")
	only := fs.String("only", "", "")
	prog := fs.String("progress", "", "")
	secs := fs.Int("seconds", 600, "")
	knownF := fs.String("known", "", "")
	fs.Parse(args)
	chk := registry[*prop]
	if chk == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	debug.SetMaxStack(192 << 20)
	runtime.GOMAXPROCS(2)
	if *prop == "C22" {
		// one thread runs at a time anyway; a hand-over is a goroutine switch
		runtime.GOMAXPROCS(1)
	}
	c := &Ctx{
		Thorough: *tier == "thorough", shard: *shard, shards: *shards, onlyU: -1, onlyS: -1,
		started: time.Now(), deadline: time.Now().Add(time.Duration(*secs) * time.Second),
		outcomes: map[uint64]struct{}{}, states: map[uint64]struct{}{}, spaces: map[string]int64{},
		known: loadKnown(*knownF, *prop), knownHits: map[string]int{}, maxViol: 1, sampleEvery: 997,
	}
	if *prog != "" {
		c.prog = mapProgress(*prog)
	} else {
		c.prog = new([2]int64)
	}
	if *only != "" {
		p := strings.Split(*only, ":")
		c.onlyU, _ = strconv.ParseInt(p[0], 10, 64)
		c.onlyS, _ = strconv.ParseInt(p[1], 10, 64)
		c.printOnly = true
	}
	go c.watchdog()
	chk.Run(c)
	atomic.StoreInt64(&c.prog[0], -1)
	outs := make([]string, 0, len(c.outcomes))
	for h := range c.outcomes {
		outs = append(outs, strconv.FormatUint(h, 36))
	}
	known := []string{}
	for k := range c.knownHits {
		known = append(known, k)
	}
	emit(map[string]interface{}{"type": "done", "cases": c.cases, "trans": c.trans, "traces": c.traces, "nontrivial": c.nontrivial,
		"states": len(c.states), "capped": c.capped, "samples": c.samples, "spaces": c.spaces, "outcomes": strings.Join(outs, ","),
		"known": known, "units": c.unit})
}

type knownFinding struct {
	Status   string `json:"status"`
	Property string `json:"property"`
	Case     string `json:"case"`
	What     string `json:"what"`
}

func loadKnown(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == prop && k.Status == "known" && k.Case != "" {
			out[k.Case] = k.What
		}
	}
	return out
}

type msg struct {
	Type       string           `json:"type"`
	Unit       int64            `json:"unit"`
	Sub        int64            `json:"sub"`
	Space      string           `json:"space"`
	Case       string           `json:"case"`
	Why        string           `json:"why"`
	Cases      int64            `json:"cases"`
	Trans      int64            `json:"trans"`
	Traces     int64            `json:"traces"`
	NonTrivial int64            `json:"nontrivial"`
	States     int64            `json:"states"`
	Capped     bool             `json:"capped"`
	Samples    []string         `json:"samples"`
	Spaces     map[string]int64 `json:"spaces"`
	Outcomes   string           `json:"outcomes"`
	Known      []string         `json:"known"`
	Units      int64            `json:"units"`
}

type workerResult struct {
	done  *msg
	viols []msg
	fatal string // how the process died, if it did
	unit  int64
	sub   int64
	code  int
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = append(append([]byte{}, b[:n/2]...), b[len(b)-n/2:]...)
	}
	return string(b)
}

func runWorker(self string, args []string, prog string, timeout time.Duration, stop <-chan struct{}) workerResult {
	cmd := exec.Command(self, append([]string{"worker", "-progress", prog}, args...)...)
	var stderr bytes.Buffer
	cmd.Stderr = &capWriter{b: &stderr, max: 1 << 16}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	out, _ := cmd.StdoutPipe()
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var r workerResult
	if err := cmd.Start(); err != nil {
		r.fatal = err.Error()
		return r
	}
	finished := make(chan struct{})
	stopped := false
	var smu sync.Mutex
	go func() {
		select {
		case <-finished:
		case <-stop:
			smu.Lock()
			stopped = true
			smu.Unlock()
			cmd.Process.Kill()
		case <-time.After(timeout):
			cmd.Process.Kill()
		}
	}()
	rd := bufio.NewReaderSize(out, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 && line[0] == '{' {
			var m msg
			if json.Unmarshal(line, &m) == nil {
				if m.Type == "done" {
					mm := m
					r.done = &mm
				} else if m.Type == "violation" {
					r.viols = append(r.viols, m)
				}
			}
		} else if bytes.HasPrefix(line, []byte("CASE ")) {
			r.viols = append(r.viols, msg{Type: "case", Case: string(bytes.TrimSpace(line[5:]))})
		}
		if err != nil {
			break
		}
	}
	err := cmd.Wait()
	close(finished)
	smu.Lock()
	defer smu.Unlock()
	if r.done == nil && !stopped {
		p := mapProgress(prog)
		r.unit, r.sub = p[0], p[1]
		r.fatal = fmt.Sprintf("%v: %s", err, tail(stderr.Bytes(), 3000))
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
		}
	}
	return r
}

type capWriter struct {
	b   *bytes.Buffer
	max int
}

func (w *capWriter) Write(p []byte) (int, error) {
	if w.b.Len() < w.max {
		w.b.Write(p)
	}
	return len(p), nil
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check|worker|replay")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "check":
		os.Exit(supervise(os.Args[2:]))
	case "fresh":
		os.Exit(freshMain(os.Args[2:]))
	case "cold":
		os.Exit(coldMain(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	default:
		os.Exit(2)
	}
}

func supervise(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("property", "", "")
	tier := fs.String("tier", "quick", "")
	verif := fs.String("verif", "/verif", "")
	seconds := fs.Int("seconds", 0, "")
	nworkers := fs.Int("workers", runtime.NumCPU(), "")
	fs.Parse(args)
	chk := registry[*prop]
	if chk == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	if *seconds == 0 {
		*seconds = 420
		if *tier == "thorough" {
			*seconds = 3000
		}
	}
	start := time.Now()
	self, _ := os.Executable()
	tmp, err := os.MkdirTemp("", "mc-"+*prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	knownPath := filepath.Join(*verif, "known_findings.jsonl")
	base := []string{"-property", *prop, "-tier", *tier, "-known", knownPath}
	n := *nworkers
	results := make([]workerResult, n)
	stop := make(chan struct{})
	var once sync.Once
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			a := append(append([]string{}, base...), "-shard", strconv.Itoa(k), "-shards", strconv.Itoa(n), "-seconds", strconv.Itoa(*seconds))
			results[k] = runWorker(self, a, filepath.Join(tmp, "prog"+strconv.Itoa(k)), time.Duration(*seconds)*time.Second+5*time.Minute, stop)
			if len(results[k].viols) > 0 || results[k].fatal != "" {
				once.Do(func() { close(stop) })
			}
		}(k)
	}
	wg.Wait()

	ev := &evidence{chk: chk, tier: *tier}
	incomplete := false
	for _, r := range results {
		if r.done == nil {
			incomplete = true
			continue
		}
		ev.add(r.done)
	}
	var viol *msg
	for i := range results {
		r := &results[i]
		for j := range r.viols {
			v := r.viols[j]
			if viol == nil || v.Unit < viol.Unit || (v.Unit == viol.Unit && v.Sub < viol.Sub) {
				vv := v
				viol = &vv
			}
		}
	}
	reproduced := 0
	if viol == nil {
		// A worker that died: attribute the death to the case it was executing
		// and confirm by executing that case alone.
		for i := range results {
			r := &results[i]
			if r.fatal == "" {
				continue
			}
			if r.unit <= 0 {
				fmt.Fprintln(os.Stderr, "worker died outside any case:", r.fatal)
				continue
			}
			only := fmt.Sprintf("%d:%d", r.unit, r.sub)
			confirmed, cas, how := 0, "", ""
			for try := 0; try < 3; try++ {
				rr := runWorker(self, append(append([]string{}, base...), "-only", only, "-seconds", "600"), filepath.Join(tmp, "only"), 150*time.Second, nil)
				for _, v := range rr.viols {
					if v.Type == "case" {
						cas = v.Case
					} else {
						confirmed++
						how = v.Why
					}
				}
				if rr.fatal != "" {
					confirmed++
					how = classify(rr)
				}
				if confirmed > try && strings.HasPrefix(how, "does not terminate") {
					break
				}
			}
			if confirmed > 0 {
				if u, err := strconv.Unquote(cas); err == nil {
					cas = u
				}
				viol = &msg{Unit: r.unit, Sub: r.sub, Case: cas, Why: how}
				reproduced = confirmed
				break
			}
			fmt.Fprintf(os.Stderr, "worker %d died at case %s and the case alone does not reproduce it: %s\n", i, only, r.fatal)
		}
	} else {
		only := fmt.Sprintf("%d:%d", viol.Unit, viol.Sub)
		for try := 0; try < 5; try++ {
			rr := runWorker(self, append(append([]string{}, base...), "-only", only, "-seconds", "600"), filepath.Join(tmp, "only"), 150*time.Second, nil)
			bad := rr.fatal != ""
			for _, v := range rr.viols {
				bad = bad || v.Type == "violation"
			}
			if bad {
				reproduced++
			}
		}
	}
	ev.wall = time.Since(start).Seconds()
	for k := range ev.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, oneLine(loadKnown(knownPath, *prop)[k]))
	}
	if viol != nil {
		ev.violations = 1
		ev.write(*verif, *prop, false)
		dir := filepath.Join(*verif, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, *prop+".json")
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": *prop, "tier": *tier, "unit": viol.Unit, "sub": viol.Sub, "space": viol.Space,
			"case": viol.Case, "why": viol.Why, "reproduced_of_5": reproduced,
			"replay_cmd": "bash " + *verif + "/bin/replay.sh " + path,
		}, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("case:\n%s\nwhy:\n%s\n(reproduced %d times alone)\n", viol.Case, viol.Why, reproduced)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		return 1
	}
	if incomplete {
		ev.note = "a worker ended early without a reproducible cause; the covered part held"
	}
	ev.write(*verif, *prop, !incomplete)
	fmt.Printf("OK property=%s tier=%s cases=%d calls=%d outcomes=%d exhaustive=%v wall=%.1fs\n", *prop, *tier, ev.cases, ev.trans, len(ev.outcomes), !incomplete && !ev.capped, ev.wall)
	return 0
}

func oneLine(s string) string { return strings.Join(strings.Fields(s), " ") }

func classify(r workerResult) string {
	switch {
	case r.code == 41:
		return "does not terminate: no progress for " + hangAfter.String() + " on this one case"
	case r.code == 42:
		return "unbounded memory: more than " + strconv.Itoa(memLimit>>20) + " MB for this one case"
	case r.code == 66:
		return "data race:\n" + tail([]byte(r.fatal), 3000)
	case strings.Contains(r.fatal, "stack overflow") || strings.Contains(r.fatal, "stack exceeds"):
		return "fatal: stack overflow (unbounded recursion)"
	}
	return "fatal: " + tail([]byte(r.fatal), 1500)
}

type evidence struct {
	chk                       *Check
	tier, note                string
	cases, trans, traces      int64
	nontrivial, states, units int64
	capped                    bool
	samples                   []string
	spaces                    map[string]int64
	outcomes                  map[string]bool
	known                     map[string]bool
	violations                int
	wall                      float64
}

func (e *evidence) add(m *msg) {
	e.cases += m.Cases
	e.trans += m.Trans
	e.traces += m.Traces
	e.nontrivial += m.NonTrivial
	e.states += m.States
	if m.Units > e.units {
		e.units = m.Units
	}
	e.capped = e.capped || m.Capped
	if e.spaces == nil {
		e.spaces, e.outcomes, e.known = map[string]int64{}, map[string]bool{}, map[string]bool{}
	}
	for k, v := range m.Spaces {
		e.spaces[k] += v
	}
	for _, o := range strings.Split(m.Outcomes, ",") {
		if o != "" {
			e.outcomes[o] = true
		}
	}
	for _, k := range m.Known {
		e.known[k] = true
	}
	if len(e.samples) < 6 {
		e.samples = append(e.samples, m.Samples...)
	}
}

func (e *evidence) write(verif, prop string, complete bool) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	states := e.states
	stateRule := "distinct states of the explicit-state search"
	if states == 0 {
		states = e.cases
		stateRule = "distinct closed configurations (enumerated without repetition), each executed on the real code"
	}
	if len(e.samples) > 6 {
		e.samples = e.samples[:6]
	}
	sort.Strings(e.samples)
	cov := map[string]interface{}{
		"states": states, "states_are": stateRule,
		"transitions": e.trans, "transitions_are": "calls into the code under test",
		"traces_validated_against_impl": e.traces,
		"distinct_nontrivial":           e.nontrivial,
		"distinct_outcomes":             len(e.outcomes),
		"rule":                          e.chk.Rule,
		"bounds":                        e.chk.Bounds,
		"spaces":                        e.spaces,
		"units":                         e.units,
		"samples":                       e.samples,
		"exhaustive":                    complete && !e.capped,
	}
	if e.note != "" {
		cov["note"] = e.note
	}
	doc := map[string]interface{}{
		"property": prop, "tier": e.tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": e.chk.Assume, "wall_s": e.wall, "violations": e.violations,
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

func replay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property, Tier, Case string
		Unit, Sub            int64
	}
	json.Unmarshal(b, &r)
	self, _ := os.Executable()
	cmd := exec.Command(self, "worker", "-property", r.Property, "-tier", r.Tier, "-only", fmt.Sprintf("%d:%d", r.Unit, r.Sub), "-seconds", "600")
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	out, err := cmd.CombinedOutput()
	os.Stdout.Write(out)
	if err != nil || bytes.Contains(out, []byte(`"type":"violation"`)) {
		fmt.Println("reproduced")
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}
