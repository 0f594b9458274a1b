package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/adamcolton/parlex/zz_sched"
)

func init() {
	register(&Check{
		ID:     "C22",
		Rule:   "two operations run in two goroutines on one instance of a reusable component, under a scheduler that owns every statement of the code under test (a scheduling point is inserted before each); all schedules up to a preemption bound are executed, starting with either thread.  The race detector judges every access (the scheduler's hand-over is invisible to it), and each result is compared with the result of the operation alone on a fresh instance",
		Bounds: []string{"2 threads, 1 operation each, all pairs of the chosen operations of 12 components", "preemption bound 0 for every pair, 1 at every statement for pairs of at most 8000 steps (thorough: every pair), 2 at every two statements for pairs of at most 90 steps (thorough: 800)", "first use: every pair in a process of its own, as the first thing it does; preemption bound 0, for the constructors and the examples (thorough: every component) also 1 at steps 1 to 4 and the powers of two"},
		Assume: []string{"a scheduling point lies before every statement of the packages under test; code of the standard library runs without preemption by the scheduler (the race detector still sees its accesses)"},
		Run:    runC22,
	})
}

const concClasses = 16

func runPair(cp *component, a, b *compOp, first int, plan []int) (ra, rb interface{}, steps int, stolen bool) {
	inst := cp.mk()
	var wg sync.WaitGroup
	wg.Add(2)
	zz_sched.Begin(first, plan)
	go func() {
		defer wg.Done()
		defer zz_sched.End(0)
		zz_sched.Start(0)
		ra = a.guarded(inst)
	}()
	go func() {
		defer wg.Done()
		defer zz_sched.End(1)
		zz_sched.Start(1)
		rb = b.guarded(inst)
	}()
	wg.Wait()
	steps, stolen = zz_sched.Finish()
	return
}

func runC22(c *Ctx) {
	coldC22(c)
	limit1, limit2 := 8000, 90
	if c.Thorough {
		limit1, limit2 = 1<<30, 800
	}
	for _, cp := range components() {
		cp := cp
		c.Space(cp.name)
		for x := 0; x < len(cp.conc); x++ {
			for y := x; y < len(cp.conc); y++ {
				a, b := &cp.ops[cp.conc[x]], &cp.ops[cp.conc[y]]
				for class := 0; class < concClasses; class++ {
					if !c.Unit() {
						continue
					}
					pairUnit(c, &cp, a, b, class, limit1, limit2)
				}
			}
		}
	}
}

// the race detector lets a process sleep for a second before it ends
const noRaceSleep = "GORACE=atexit_sleep_ms=0"

// coldPair runs a pair of operations in a process of their own, where nothing
// has been used before (package level state is as the program start left it).
func coldPair(ci, x, y, first int, plan []int) (ra, rb string, steps int, bad string) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	args := []string{"cold", strconv.Itoa(ci), strconv.Itoa(x), strconv.Itoa(y), strconv.Itoa(first)}
	for _, k := range plan {
		args = append(args, strconv.Itoa(k))
	}
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, args...)
	cmd.Env = append(os.Environ(), noRaceSleep)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		msg := stderr.String()
		if len(msg) > 2500 {
			msg = msg[:2500]
		}
		return "", "", 0, fmt.Sprintf("in a fresh process: %v\n%s", err, msg)
	}
	p := strings.SplitN(string(out), "\x00", 3)
	if len(p) != 3 {
		return "", "", 0, "in a fresh process: no result"
	}
	steps, _ = strconv.Atoi(p[0])
	return p[1], p[2], steps, ""
}

// coldMain is the process of coldPair.
func coldMain(args []string) int {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(192 << 20)
	var n []int
	for _, a := range args {
		k, _ := strconv.Atoi(a)
		n = append(n, k)
	}
	cp := components()[n[0]]
	ra, rb, steps, _ := runPair(&cp, &cp.ops[n[1]], &cp.ops[n[2]], n[3], n[4:])
	fmt.Printf("%d\x00%s\x00%s", steps, render(ra), render(rb))
	return 0
}

// coldSteps are the steps at which a cold pair is preempted.
func coldSteps(n int) (out []int) {
	for k := 1; k <= n; k++ {
		if k <= 4 || k&(k-1) == 0 {
			out = append(out, k)
		}
	}
	return
}

func coldC22(c *Ctx) {
	for ci, cp := range components() {
		ci, cp := ci, cp
		c.Space("first use: " + cp.name)
		shared := cp.name == "constructors" || cp.name == "examples"
		for x := 0; x < len(cp.conc); x++ {
			for y := x; y < len(cp.conc); y++ {
				if !c.Unit() {
					continue
				}
				a, b := &cp.ops[cp.conc[x]], &cp.ops[cp.conc[y]]
				var want []string
				n := 0
				try := func(first int, plan []int) {
					c.Case(func() string {
						return fmt.Sprintf("first use, %s: %s against %s, thread %d first, preemption at steps %v", cp.name, a.name, b.name, first, plan)
					}, func() string {
						if want == nil {
							want = freshResults(ci, []int{cp.conc[x], cp.conc[y]})
						}
						ra, rb, steps, bad := coldPair(ci, cp.conc[x], cp.conc[y], first, plan)
						if bad != "" {
							return bad
						}
						c.Trans(steps)
						c.NonTrivial()
						if steps > n {
							n = steps
						}
						if ra != want[0] {
							return fmt.Sprintf("%s gives\n%s\nalone it gives\n%s", a.name, ra, want[0])
						}
						if rb != want[1] {
							return fmt.Sprintf("%s gives\n%s\nalone it gives\n%s", b.name, rb, want[1])
						}
						return ""
					})
				}
				if c.onlyU >= 0 {
					_, _, n, _ = coldPair(ci, cp.conc[x], cp.conc[y], 0, nil)
					if _, _, m, _ := coldPair(ci, cp.conc[x], cp.conc[y], 1, nil); m > n {
						n = m
					}
				}
				try(0, nil)
				try(1, nil)
				if !shared && !c.Thorough {
					continue
				}
				ks := coldSteps(n)
				for first := 0; first < 2; first++ {
					for _, k := range ks {
						try(first, []int{k})
					}
				}
			}
		}
	}
}

func pairUnit(c *Ctx, cp *component, a, b *compOp, class, limit1, limit2 int) {
	var wa, wb string
	stolenRuns := 0
	n := 0
	try := func(first int, plan []int) {
		c.Case(func() string {
			var s strings.Builder
			fmt.Fprintf(&s, "%s: %s against %s, thread %d first, preemption at steps %v", cp.name, a.name, b.name, first, plan)
			return s.String()
		}, func() string {
			if wa == "" {
				wa, wb = render(a.guarded(cp.mk())), render(b.guarded(cp.mk()))
			}
			ra, rb, steps, stolen := runPair(cp, a, b, first, plan)
			c.Trans(steps)
			if steps > n {
				n = steps
			}
			if stolen {
				stolenRuns++
			} else {
				c.NonTrivial()
			}
			if got := render(ra); got != wa {
				return fmt.Sprintf("%s gives\n%s\nalone it gives\n%s", a.name, got, wa)
			}
			if got := render(rb); got != wb {
				return fmt.Sprintf("%s gives\n%s\nalone it gives\n%s", b.name, got, wb)
			}
			c.OutcomeS(wa + "|" + wb)
			return ""
		})
	}
	// the two sequential orders, which also tell the number of steps
	if c.onlyU >= 0 {
		// keep the numbering of the cases when a single one is replayed
		if c.printOnly {
			fmt.Printf("CASE %s\n", strconv.Quote(fmt.Sprintf("%s: %s against %s", cp.name, a.name, b.name)))
		}
		_, _, s0, _ := runPair(cp, a, b, 0, nil)
		_, _, s1, _ := runPair(cp, a, b, 1, nil)
		n = s0
		if s1 > n {
			n = s1
		}
	}
	for first := 0; first < 2; first++ {
		try(first, nil)
	}
	steps := n
	if steps > limit1 {
		return
	}
	for first := 0; first < 2; first++ {
		for k := class + 1; k <= steps; k += concClasses {
			if stolenRuns > 50 {
				return
			}
			try(first, []int{k})
		}
	}
	if steps > limit2 {
		return
	}
	for first := 0; first < 2; first++ {
		for k := class + 1; k <= steps; k += concClasses {
			for k2 := k + 1; k2 <= steps; k2++ {
				if stolenRuns > 50 {
					return
				}
				try(first, []int{k, k2})
			}
		}
	}
}
