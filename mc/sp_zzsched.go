package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifmc/vsched"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/utils"
)

// Concurrent parses (C19). The explorer is built again with scheduling points in
// all code of /repo and with the race detector; every schedule within the bounds
// runs on that code, and every result must be the one the parse has alone.

// A Sched is two or three operations and the schedule they run under.
type Sched struct {
	Ops  []string // mode letter and source, as in histories
	Mask int      // classes of points counted
	Plan [][3]int // at its n-th counted point, thread a hands over to thread b: {a, n, b}
	Rev  bool     `json:",omitempty"` // after an end, the highest unfinished thread goes on
}

func schedOp(st string, g *Got) func() {
	src := st[1:]
	return func() {
		switch st[0] {
		case 't':
			*g = parseMode(src, nil, kfparser.Trace)
		case 'l':
			*g = parseMode(src, utils.NewErrorListener(), kfparser.Default)
		default:
			*g = parse(src)
		}
	}
}

// run executes the schedule in this process.
func (s *Sched) run() (res []string, taken, blocked int) {
	gs := make([]Got, len(s.Ops))
	var fns []func()
	for i, o := range s.Ops {
		fns = append(fns, schedOp(o, &gs[i]))
	}
	var plan []vsched.Switch
	for _, p := range s.Plan {
		plan = append(plan, vsched.Switch{Thread: p[0], At: p[1], To: p[2]})
	}
	_, taken, blocked = vsched.Run(fns, s.Mask, plan, s.Rev)
	for i := range gs {
		res = append(res, canonical(&gs[i]))
	}
	return
}

// count returns the number of points of a class an operation passes.
func schedCount(op string, mask int) int {
	schedInit()
	var g Got
	schedOp(op, &g)() // start-up and caches do not count
	n, _, _ := vsched.Run([]func(){schedOp(op, &g)}, mask, nil, false)
	return n[0]
}

func (s *Sched) judge(res []string) string {
	for i, o := range s.Ops {
		if want := aloneOne(o[1:]); res[i] != want {
			return sp("thread %d (%q) got %s, alone in a fresh process %s", i, o, clip(res[i], 600), clip(want, 600))
		}
	}
	return ""
}

// schedMain is the fresh process for one schedule.
func schedMain() {
	runtime.GOMAXPROCS(1)
	var s Sched
	must(json.NewDecoder(os.Stdin).Decode(&s))
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	res, taken, blocked := s.run()
	json.NewEncoder(out).Encode(map[string]any{"Res": quoteAll(res), "Taken": taken, "Blocked": blocked})
}

var schedRuns int

func schedInit() {
	if schedRuns == 0 {
		runtime.GOMAXPROCS(1)
		debug.SetGCPercent(-1)
		debug.SetMemoryLimit(1500 << 20)
		os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	}
	if schedRuns++; schedRuns%400 == 0 {
		runtime.GC()
	}
}

// schedPrepare builds the instrumented explorer and continues as it.
func schedPrepare(r *Run) {
	if os.Getenv("MC_SCHED") != "" {
		return
	}
	dir, err := os.MkdirTemp("", "mc-sched-")
	must(err)
	ov, points := instrument(dir)
	bin := filepath.Join(dir, "mc")
	cmd := exec.Command("go", "build", "-race", "-overlay", ov, "-o", bin, ".")
	cmd.Dir = filepath.Join(verifDir(), "mc")
	if _, err := os.Stat(cmd.Dir); err != nil {
		cmd.Dir = "/verif/mc"
	}
	if b, err := cmd.CombinedOutput(); err != nil {
		os.RemoveAll(dir)
		fmt.Fprintf(os.Stderr, "the instrumented build fails: %v\n%s", err, b)
		os.Exit(2)
	}
	os.RemoveAll(r.Dir)
	env := append(os.Environ(), "MC_SCHED="+dir, sp("MC_SCHED_POINTS=%d", points), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0 log_path="+filepath.Join(dir, "race"))
	must(syscall.Exec(bin, append([]string{bin}, os.Args[1:]...), env))
}

// raceReport returns what the race detector wrote last.
func raceReport() string {
	l, _ := filepath.Glob(filepath.Join(os.Getenv("MC_SCHED"), "race.*"))
	best, at := "", time.Time{}
	for _, f := range l {
		if st, err := os.Stat(f); err == nil && st.ModTime().After(at) {
			best, at = f, st.ModTime()
		}
	}
	b, _ := os.ReadFile(best)
	return string(b)
}

func init() {
	oracles["sched"] = func(c *Case) (string, string) {
		schedInit()
		var s Sched
		if json.Unmarshal([]byte(c.S), &s) != nil {
			return "", "unreadable schedule"
		}
		res, taken, blocked := s.run()
		touch(c.S, int64(len(s.Plan)+len(s.Ops)))
		return s.judge(res), sp("%d of %d preemptions%s", taken, len(s.Plan), map[bool]string{true: ", waits"}[blocked > 0])
	}
	oracles["sched-cold"] = func(c *Case) (string, string) {
		schedInit()
		var s Sched
		if json.Unmarshal([]byte(c.S), &s) != nil {
			return "", "unreadable schedule"
		}
		cmd := exec.Command(self(), "sched")
		cmd.Stdin = strings.NewReader(c.S)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
		b, err := cmd.Output()
		if err != nil {
			return sp("the process executing the schedule ended: %v\n%s", err, clip(raceReport(), 2500)), ""
		}
		var o struct {
			Res            []string
			Taken, Blocked int
		}
		if json.Unmarshal(b, &o) != nil {
			return "unreadable result " + clip(string(b), 200), ""
		}
		unquoteAll(o.Res)
		touch("cold"+c.S, int64(len(s.Plan)+len(s.Ops)))
		return s.judge(o.Res), sp("cold, %d of %d preemptions%s", o.Taken, len(s.Plan), map[bool]string{true: ", waits"}[o.Blocked > 0])
	}
	sched := func(e *Emit, oracle string, s Sched) {
		b, err := json.Marshal(s)
		must(err)
		e.Case(oracle, string(b))
	}
	pick := func(l ...int) []string {
		var out []string
		for _, i := range l {
			out = append(out, "p"+histSources[i])
		}
		return out
	}
	short := "pdatabase d;"
	all := ptFunc | ptStmt | ptGen
	register(&Prop{ID: "C19", Prepare: schedPrepare,
		Rule:   "every statement of /repo's packages is a scheduling point; every schedule of two or three parses with up to the stated number of preemptions runs on the real code built with the race detector, whose view has no ordering from the scheduler; a schedule fails when a result differs from the parse alone in a fresh process, on a data race, a panic or a deadlock",
		Assume: []string{"dependencies run without scheduling points of their own; their accesses are covered by the race detector"},
		Spaces: []Space{
			{"no preemption: every ordered pair of operations", func(e *Emit) {
				for _, a := range histSources {
					for _, b := range histSources {
						sched(e, "sched", Sched{Ops: []string{"p" + a, "p" + b}})
						sched(e, "sched", Sched{Ops: []string{"t" + a, "l" + b}})
					}
				}
			}},
			{"one preemption at every statement, two parses", func(e *Emit) {
				ops := pick(0, 1, 4, 10, 3)
				if e.Thorough {
					ops = pick(0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 14, 17, 19)
				}
				for _, a := range ops {
					n := schedCount(a, all)
					for _, b := range ops {
						for k := 1; k <= n; k++ {
							sched(e, "sched", Sched{Ops: []string{a, b}, Mask: all, Plan: [][3]int{{0, k, 1}}})
						}
					}
				}
			}},
			{"one preemption at every function entry, every pair of operations and modes", func(e *Emit) {
				for i, a := range histSources {
					for j, b := range histSources {
						m := [][2]string{{"p", "p"}, {"t", "p"}, {"p", "t"}, {"l", "p"}, {"t", "t"}}[(i+j)%5]
						for k, n := 1, schedCount(m[0]+a, ptFunc); k <= n; k += e.Pick(1+(n-1)/25, 1) {
							sched(e, "sched", Sched{Ops: []string{m[0] + a, m[1] + b}, Mask: ptFunc, Plan: [][3]int{{0, k, 1}}})
						}
					}
				}
			}},
			{"two preemptions at every pair of statements that mention package-level variables", func(e *Emit) {
				ops := pick(0, 1, 4, 10)
				if e.Thorough {
					ops = pick(0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12)
				}
				two(e, sched, ops, ptGlobal, e.Pick(60, 200))
			}},
			{"two preemptions at every pair of function entries", func(e *Emit) {
				two(e, sched, []string{short, "pdatabase d; x"}, ptFunc, e.Pick(40, 400))
				if e.Thorough {
					two(e, sched, pick(0, 1, 10), ptFunc, 150)
				}
			}},
			{"three parses, two preemptions at function entries", func(e *Emit) {
				ops := pick(1, 4, 0)
				stepA := e.Pick(8, 2)
				for i := range ops {
					a, b, c := ops[i], ops[(i+1)%3], ops[(i+2)%3]
					na, nb := schedCount(a, ptFunc), schedCount(b, ptFunc)
					for k := 1; k <= na; k += stepA {
						for l := 1; l <= nb; l += stepA {
							for _, rev := range []bool{false, true} {
								sched(e, "sched", Sched{Ops: []string{a, b, c}, Mask: ptFunc, Plan: [][3]int{{0, k, 1}, {1, l, 2}}, Rev: rev})
							}
						}
					}
				}
			}},
			{"many parses at once, each hands over to the next inside", func(e *Emit) {
				// all of them are inside at the same time, in one place or in places further and further on
				for _, n := range []int{4, 5, 8, 9, 16, 17, 32, 33, 60} {
					for at := 0; at < e.Pick(10, 60); at++ {
						for _, mixed := range []bool{false, true} {
							for _, rev := range []bool{false, true} {
								s := Sched{Mask: ptFunc, Rev: rev}
								for i := 0; i < n; i++ {
									op := "p" + histSources[3]
									if mixed {
										op = string("ptl"[i%3]) + histSources[(i+at)%len(histSources)]
									}
									s.Ops = append(s.Ops, op)
									if i > 0 {
										p := schedCount(s.Ops[i-1], ptFunc)
										s.Plan = append(s.Plan, [3]int{i - 1, 1 + p*at/e.Pick(10, 60), i})
									}
								}
								sched(e, "sched", s)
							}
						}
					}
				}
			}},
			{"fresh process: one preemption at every statement up to the first token", func(e *Emit) {
				for _, ops := range [][]string{{short, short}, {short, "pdatabase d; x"}} {
					n := coldCount(ops[0], ptFunc|ptStmt|ptGlobal)
					for k := 0; k <= n; k++ {
						sched(e, "sched-cold", Sched{Ops: ops, Mask: ptFunc | ptStmt | ptGlobal, Plan: [][3]int{{0, k, 1}}})
					}
				}
			}},
			{"fresh process: every pair of operations starts together, rejected and accepted", func(e *Emit) {
				// the first to run is interrupted where it has got furthest and at every k-th statement of the
				// packages of the repository, so that both do for the first time what is done once per process
				few := []string{short, "pdatabase d; x", "pdatabase d; ?", "pdatabase d; action a() { b(); }", "pdatabase d; table t { a text minlen(1), #i index(b) }", "p" + histSources[3], "p" + histSources[7], "l" + histSources[10], "tdatabase d; x"}
				m := ptFunc | ptStmt | ptGlobal
				for i, a := range few {
					n := coldCount(a, m)
					for j, b := range few {
						max := e.Pick(12, 120)
						if i == j {
							max = e.Pick(60, 400)
						}
						for k := 1; k <= n; k += 1 + (n-1)/max {
							sched(e, "sched-cold", Sched{Ops: []string{a, b}, Mask: m, Plan: [][3]int{{0, k, 1}}})
						}
					}
				}
			}},
			{"fresh process: every pair of operations, one preemption at every statement that mentions package-level variables", func(e *Emit) {
				few := []string{"pdatabase d; x", "pdatabase d; ?", "pdatabase d; action a() { b(); }", "p" + histSources[3], "t" + histSources[10], "ldatabase d; table t { a text minlen(1), #i index(b) }"}
				for _, a := range few {
					n := coldCount(a, ptGlobal)
					for _, b := range few {
						for k := 1; k <= n; k += e.Pick(1+(n-1)/40, 1) {
							sched(e, "sched-cold", Sched{Ops: []string{a, b}, Mask: ptGlobal, Plan: [][3]int{{0, k, 1}}})
						}
					}
				}
			}},
			{"fresh process: two preemptions at statements that mention package-level variables", func(e *Emit) {
				n := coldCount(short, ptGlobal)
				for k := 1; k <= n; k++ {
					for l := 1; l <= n; l++ {
						sched(e, "sched-cold", Sched{Ops: []string{short, short}, Mask: ptGlobal, Plan: [][3]int{{0, k, 1}, {1, l, 0}}})
					}
				}
			}},
			{"fresh process: three parses started together", func(e *Emit) {
				n := coldCount(short, ptGlobal)
				for k := 1; k <= n; k++ {
					for l := 0; l <= n; l += e.Pick(2, 1) {
						sched(e, "sched-cold", Sched{Ops: []string{short, short, "pdatabase d; x"}, Mask: ptGlobal, Plan: [][3]int{{0, k, 1}, {1, l, 2}}})
					}
				}
			}},
		}})
}

// two enumerates pairs of points, thinned to at most max values each.
func two(e *Emit, sched func(*Emit, string, Sched), ops []string, mask, max int) {
	for _, a := range ops {
		na := schedCount(a, mask)
		for _, b := range ops {
			nb := schedCount(b, mask)
			for k := 1; k <= na; k += 1 + (na-1)/max {
				for l := 1; l <= nb; l += 1 + (nb-1)/max {
					sched(e, "sched", Sched{Ops: []string{a, b}, Mask: mask, Plan: [][3]int{{0, k, 1}, {1, l, 0}}})
				}
			}
		}
	}
}

// coldCount counts the points of an operation in a fresh process.
func coldCount(op string, mask int) int {
	b, _ := json.Marshal(Sched{Ops: []string{op}, Mask: mask})
	cmd := exec.Command(self(), "schedcount")
	cmd.Stdin = strings.NewReader(string(b))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	o, err := cmd.Output()
	n := 0
	if err == nil {
		fmt.Sscan(string(o), &n)
	}
	return n
}

func schedCountMain() {
	runtime.GOMAXPROCS(1)
	var s Sched
	must(json.NewDecoder(os.Stdin).Decode(&s))
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	var g Got
	n, _, _ := vsched.Run([]func(){schedOp(s.Ops[0], &g)}, s.Mask, nil, false)
	fmt.Fprintln(out, n[0])
}

func unquoteAll(q []string) {
	for i := range q {
		q[i], _ = strconv.Unquote(q[i])
	}
}
