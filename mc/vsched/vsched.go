// Package vsched is a cooperative scheduler for a few goroutines: exactly one of
// them, the holder of the token, runs; it passes the token on at the scheduling
// points a schedule names. Points (calls of P) are inserted into the code of
// /repo by a build overlay, before every statement.
//
// The token is passed through plain memory in functions that the race detector
// does not see, so it orders nothing: two accesses that only the schedule keeps
// apart still count as a data race. Run it with GOMAXPROCS=1.
package vsched

import (
	"runtime"
	"sync"
)

func getg() uintptr

// Switch: when Thread reaches its At-th counted point, the token goes to To.
type Switch struct{ Thread, At, To int }

type thread struct {
	g    uintptr
	n    int
	done bool
}

const maxThreads = 64

var (
	on       bool
	token    int
	steps    uint64
	blocked  int // times a holder was found blocked
	mask     int
	rev      bool
	threads  [maxThreads]thread
	nthreads int
	plan     []Switch
	next     int
)

// P is a scheduling point of a class (a bit).
//
//go:norace
//go:noinline
func P(class int) {
	if on {
		point(class)
	}
}

//go:norace
func point(class int) {
	g := getg()
	me := -1
	for i := 0; i < nthreads; i++ {
		if threads[i].g == g {
			me = i
		}
	}
	if me < 0 {
		return
	}
	if token != me {
		wait(me)
	}
	steps++
	if class&mask == 0 {
		return
	}
	threads[me].n++
	if next < len(plan) && plan[next].Thread == me && plan[next].At == threads[me].n {
		to := plan[next].To
		next++
		if to != me && to < nthreads && !threads[to].done {
			token = to
			wait(me)
		}
	}
}

// wait returns when this thread holds the token. With one processor, the holder
// runs whenever a waiter yields, unless it is blocked; then a waiter goes on.
//
//go:norace
func wait(me int) {
	idle, last := 0, steps
	for token != me {
		runtime.Gosched()
		if steps != last || token < 0 {
			idle, last = 0, steps
			continue
		}
		if idle++; idle > 300 {
			blocked++
			token = me
		}
	}
	steps++
}

//go:norace
func finish(me int) {
	threads[me].done = true
	threads[me].g = 0
	steps++
	if token != me {
		return
	}
	for k := 0; k < nthreads; k++ {
		i := k
		if rev {
			i = nthreads - 1 - k
		}
		if !threads[i].done {
			token = i
			return
		}
	}
}

//go:norace
func begin(me int) {
	threads[me].g = getg()
	wait(me)
}

//go:norace
func setup(n, m int, p []Switch, r bool) {
	nthreads, mask, plan, next, rev, blocked = n, m, p, 0, r, 0
	for i := range threads {
		threads[i] = thread{}
	}
	token = -1
	on = true
}

//go:norace
func start() { token = 0; steps++ }

//go:norace
func registered() bool {
	for i := 0; i < nthreads; i++ {
		if threads[i].g == 0 {
			return false
		}
	}
	return true
}

//go:norace
func teardown(n int) (counts []int, taken, block int) {
	on = false
	for i := 0; i < n; i++ {
		counts = append(counts, threads[i].n)
	}
	return counts, next, blocked
}

// Run executes the functions under the schedule. It returns the number of counted
// points of each, the number of switches that took place, and how often a holder
// of the token was blocked.
func Run(fns []func(), m int, p []Switch, r bool) (counts []int, taken, block int) {
	setup(len(fns), m, p, r)
	var wg sync.WaitGroup
	for i, f := range fns {
		wg.Add(1)
		go func(i int, f func()) {
			defer wg.Done()
			begin(i)
			f()
			finish(i)
		}(i, f)
	}
	for !registered() {
		runtime.Gosched()
	}
	start()
	wg.Wait()
	return teardown(len(fns))
}
