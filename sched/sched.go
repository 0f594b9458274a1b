// Package zz_sched is the controlled scheduler that the instrumented build of
// the code under test calls before every statement.
//
// Two threads (goroutines) run under a token: only the holder runs.  A plan
// lists the steps at which the token changes hands.  The hand-over uses plain
// memory in functions the race detector does not see, so it creates no
// happens-before edge: the detector judges the accesses of the two threads as
// if nothing ordered them, which is what the program guarantees.
package zz_sched

import (
	"runtime"
	"time"
)

var (
	active bool
	free   bool // a thread blocked in a lock: both run freely from there on
	cur    int
	step   int
	next   int
	plan   []int
	done   [2]bool
	stolen int
)

const stall = 40 * time.Millisecond

// Point is called before every statement of the code under test.
//
//go:norace
//go:noinline
func Point() {
	if !active || free {
		return
	}
	step++
	if next < len(plan) && step == plan[next] {
		next++
		me := cur
		if done[1-me] {
			return
		}
		cur = 1 - me
		wait(me)
	}
}

//go:norace
//go:noinline
func wait(me int) {
	last := -1
	var since time.Time
	for n := 0; cur != me && !free; n++ {
		runtime.Gosched()
		if n&1023 == 1023 {
			if step != last {
				last = step
				since = time.Now()
			} else if time.Since(since) > stall {
				free = true
				stolen++
			}
		}
	}
}

// Start is called by a thread before its operation.
//
//go:norace
//go:noinline
func Start(me int) { wait(me) }

// End is called by a thread after its operation.
//
//go:norace
//go:noinline
func End(me int) {
	done[me] = true
	if cur == me {
		cur = 1 - me
	}
}

// Begin sets up an execution: first runs first, the token changes hands at the
// given steps.
//
//go:norace
//go:noinline
func Begin(first int, p []int) {
	cur, step, next, plan = first, 0, 0, p
	done = [2]bool{}
	free = false
	stolen = 0
	active = true
}

// Finish ends the execution and returns the number of steps taken and whether
// the threads had to be released.
//
//go:norace
//go:noinline
func Finish() (int, bool) {
	active = false
	return step, stolen > 0
}
