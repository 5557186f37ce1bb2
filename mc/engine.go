package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifmc/ref"
)

// A Case is one explored behaviour: an oracle applied to an input.
type Case struct {
	O string
	S string
	X []string
}

// Strings may hold any bytes, so they are stored Go-quoted.
type caseJSON struct {
	O string   `json:"oracle"`
	S string   `json:"input"`
	X []string `json:"extra,omitempty"`
}

func (c Case) MarshalJSON() ([]byte, error) {
	j := caseJSON{O: c.O, S: strconv.Quote(c.S)}
	for _, x := range c.X {
		j.X = append(j.X, strconv.Quote(x))
	}
	return json.Marshal(j)
}

func (c *Case) UnmarshalJSON(b []byte) error {
	var j caseJSON
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	s, err := strconv.Unquote(j.S)
	if err != nil {
		return err
	}
	*c = Case{O: j.O, S: s}
	for _, x := range j.X {
		y, err := strconv.Unquote(x)
		if err != nil {
			return err
		}
		c.X = append(c.X, y)
	}
	return nil
}

// An Oracle executes the implementation on a case and compares it with the
// reference. It returns a message when the property fails, and a short label
// of what happened (for the histogram of observed outcomes).
type Oracle func(c *Case) (violation, outcome string)

var oracles = map[string]Oracle{}

// A Space enumerates cases, simplest first.
type Space struct {
	Name string
	Gen  func(e *Emit)
}

// Emit receives the cases of a space.
type Emit struct {
	w        *worker
	Thorough bool
	as       string           // oracle to use instead of the named one
	hook     func(src string) // takes the sources instead
}

// Case offers one case to the explorer.
func (e *Emit) Case(oracle, src string, extra ...string) {
	if e.hook != nil {
		e.hook(src)
		return
	}
	if e.as != "" {
		oracle = e.as
	}
	e.w.offer(&Case{oracle, src, extra})
}

// Pick returns q in the quick tier and t in the thorough tier.
func (e *Emit) Pick(q, t int) int {
	if e.Thorough {
		return t
	}
	return q
}

// Prop is a property with its explored spaces, or with its own runner.
type Prop struct {
	ID      string
	Spaces  []Space
	Rule    string
	Probes  []Case // cases executed each in its own process, with a time limit
	Custom  func(r *Run)
	Prepare func(r *Run) // before any case: builds, environment
	Assume  []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// SpaceStat is what one space covered.
type SpaceStat struct {
	Cases int64 `json:"cases"`
	Done  bool  `json:"enumerated_completely"`
}

// Found is a violation as first observed.
type Found struct {
	Case  Case   `json:"case"`
	Msg   string `json:"message"`
	Space string `json:"space"`
	Seq   int64  `json:"seq"`
	Shard string `json:"shard,omitempty"`
}

// Result is what a worker (or a custom runner) measured.
type Result struct {
	Cases       int64                 `json:"cases"`
	Transitions int64                 `json:"transitions"`
	States      []uint64              `json:"states"` // hashes of the distinct reference model states visited
	Outcomes    map[string]int64      `json:"outcomes"`
	Spaces      map[string]*SpaceStat `json:"spaces"`
	Samples     []string              `json:"samples"`
	Violations  []Found               `json:"violations"`
	Capped      string                `json:"capped,omitempty"`
}

func newResult() *Result {
	return &Result{Outcomes: map[string]int64{}, Spaces: map[string]*SpaceStat{}}
}

type stopT struct{}

type worker struct {
	res      *Result
	shard, n uint64
	seen     map[uint64]struct{}
	shm      []byte
	deadline time.Time
	space    string
	stat     *SpaceStat
	maxViol  int
	known    map[string]string
}

const shmSize = 64 << 20

func (w *worker) offer(c *Case) {
	k := c.hash()
	if w.n > 1 && (k>>17)%w.n != w.shard {
		return
	}
	w.take(k, c)
}

func (c *Case) hash() uint64 {
	h := fnv.New64a()
	h.Write([]byte(c.O))
	h.Write([]byte{0})
	h.Write([]byte(c.S))
	for _, x := range c.X {
		h.Write([]byte{0})
		h.Write([]byte(x))
	}
	return h.Sum64()
}

// take runs a case of this shard unless it was seen before.
func (w *worker) take(k uint64, c *Case) {
	if _, dup := w.seen[k]; dup {
		return
	}
	w.seen[k] = struct{}{}
	if w.res.Cases&63 == 0 && time.Now().After(w.deadline) {
		w.res.Capped = "time limit reached in space " + w.space
		panic(stopT{})
	}
	w.post(c)
	viol, out := runOracle(c)
	w.res.Cases++
	w.stat.Cases++
	w.res.Outcomes[out]++
	if w.stat.Cases <= 1 || w.stat.Cases == 100 {
		w.res.Samples = append(w.res.Samples, clip(w.space+": "+c.O+": "+strconv.Quote(c.S), 400)+" => "+clip(out, 80))
	}
	if viol != "" {
		w.res.Violations = append(w.res.Violations, Found{Case: *c, Msg: viol, Space: w.space, Seq: w.res.Cases})
		if _, ok := w.known[c.S]; ok {
			return
		}
		if w.maxViol--; w.maxViol <= 0 {
			w.res.Capped = "stopped after violations"
			panic(stopT{})
		}
	}
}

// post records the case in flight, so that the parent can name it after a crash or hang.
func (w *worker) post(c *Case) {
	if w.shm == nil {
		return
	}
	n := 8
	put := func(s string) bool {
		if n+4+len(s) > len(w.shm) {
			return false
		}
		binary.LittleEndian.PutUint32(w.shm[n:], uint32(len(s)))
		n += 4 + copy(w.shm[n+4:], s)
		return true
	}
	ok := put(c.O) && put(c.S) && put(strconv.Itoa(len(c.X)))
	for _, x := range c.X {
		ok = ok && put(x)
	}
	binary.LittleEndian.PutUint64(w.shm, uint64(w.res.Cases+1))
}

func readPosted(path string) (seq uint64, c *Case) {
	f, err := os.Open(path)
	if err != nil {
		return 0, nil
	}
	defer f.Close()
	var b8 [8]byte
	if _, err := f.ReadAt(b8[:], 0); err != nil {
		return 0, nil
	}
	seq = binary.LittleEndian.Uint64(b8[:])
	off := int64(8)
	get := func() string {
		var l [4]byte
		f.ReadAt(l[:], off)
		b := make([]byte, binary.LittleEndian.Uint32(l[:]))
		f.ReadAt(b, off+4)
		off += 4 + int64(len(b))
		return string(b)
	}
	c = &Case{O: get(), S: get()}
	n, _ := strconv.Atoi(get())
	for i := 0; i < n; i++ {
		c.X = append(c.X, get())
	}
	return seq, c
}

func runOracle(c *Case) (viol, out string) {
	o := oracles[c.O]
	if o == nil {
		return "", "no such oracle " + c.O
	}
	return o(c)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// workerMain explores one shard of a property's spaces.
func workerMain(id, tier string, shard, n int, shmPath, resPath string, limit time.Duration, only string) {
	p := props[id]
	w := &worker{res: newResult(), shard: uint64(shard), n: uint64(n), seen: map[uint64]struct{}{},
		deadline: time.Now().Add(limit), maxViol: 3, known: loadKnown(id)}
	if shmPath != "" {
		f, err := os.OpenFile(shmPath, os.O_RDWR|os.O_CREATE, 0o644)
		must(err)
		must(f.Truncate(shmSize))
		w.shm, err = syscall.Mmap(int(f.Fd()), 0, shmSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		must(err)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopT); !ok {
					panic(r)
				}
			}
		}()
		for _, sp := range p.Spaces {
			if only != "" && sp.Name != only {
				continue
			}
			w.space = sp.Name
			w.stat = &SpaceStat{}
			w.res.Spaces[sp.Name] = w.stat
			sp.Gen(&Emit{w: w, Thorough: tier == "thorough"})
			w.stat.Done = true
		}
	}()
	w.res.Transitions = ref.Steps + touchedSteps
	w.res.States = append(w.res.States, ref.StateHashes()...)
	for h := range touched {
		w.res.States = append(w.res.States, h)
	}
	b, err := json.Marshal(w.res)
	must(err)
	must(os.WriteFile(resPath, b, 0o644))
}

// touch records a model state reached by an oracle that does not use the
// reference automaton, and the transitions that led to it.
var touched = map[uint64]struct{}{}
var touchedSteps int64

func touch(state string, steps int64) {
	h := fnv.New64a()
	h.Write([]byte(state))
	touched[h.Sum64()] = struct{}{}
	touchedSteps += steps
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Run is one check run.
type Run struct {
	Prop   *Prop
	Tier   string
	Dir    string // scratch
	Start  time.Time
	Res    *Result
	Extra  map[string]any // further coverage facts
	Traces int64          // executions of the implementation, when not one per case
	States int64          // model states, when not one per case
	Assume []string
	Limit  time.Duration
	states map[uint64]struct{}
	lost   []string // shards whose process ended early
}

func (r *Run) left() time.Duration { return r.Limit - time.Since(r.Start) }

func self() string {
	s, err := os.Executable()
	must(err)
	return s
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 2 {
		n = 2
	}
	return n
}

func quiet(c *exec.Cmd) *exec.Cmd {
	c.Stdin, c.Stdout, c.Stderr = nil, nil, nil // the null device
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200")
	return c
}

// sharded explores the property's spaces in parallel worker processes.
func (r *Run) sharded() {
	n := workers()
	type proc struct {
		cmd      *exec.Cmd
		shm, res string
		seq      uint64
		since    time.Time
		done     chan error
		fin      bool
	}
	limit := r.left() - 5*time.Second
	ps := make([]*proc, n)
	for i := range ps {
		p := &proc{shm: filepath.Join(r.Dir, fmt.Sprint("shm", i)), res: filepath.Join(r.Dir, fmt.Sprint("res", i)), since: time.Now(), done: make(chan error, 1)}
		p.cmd = quiet(exec.Command(self(), "worker", r.Prop.ID, r.Tier, fmt.Sprint(i), fmt.Sprint(n), p.shm, p.res, limit.String(), ""))
		must(p.cmd.Start())
		go func() { p.done <- p.cmd.Wait() }()
		ps[i] = p
	}
	var suspects []Found
	for {
		running := false
		for i, p := range ps {
			if p.fin {
				continue
			}
			select {
			case err := <-p.done:
				p.fin = true
				if b, rerr := os.ReadFile(p.res); rerr == nil {
					var w Result
					must(json.Unmarshal(b, &w))
					for k := range w.Violations {
						w.Violations[k].Shard = fmt.Sprintf("%d/%d", i, n)
					}
					r.merge(&w)
				} else {
					seq, c := readPosted(p.shm)
					r.lost = append(r.lost, fmt.Sprintf("%d/%d", i, n))
					if c == nil || seq == 0 {
						c, seq = &Case{O: "(start)"}, 0
					}
					suspects = append(suspects, Found{Case: *c, Seq: int64(seq), Msg: fmt.Sprint("the process executing the code ended: ", err), Space: "(crash)", Shard: fmt.Sprintf("%d/%d", i, n)})
				}
				continue
			default:
			}
			running = true
			seq, c := readPosted(p.shm)
			if seq != p.seq {
				p.seq, p.since = seq, time.Now()
			} else if time.Since(p.since) > 60*time.Second && c != nil && seq > 0 {
				p.cmd.Process.Kill()
				<-p.done
				p.fin = true
				r.lost = append(r.lost, fmt.Sprintf("%d/%d", i, n))
				suspects = append(suspects, Found{Case: *c, Seq: int64(seq), Msg: "no result within 60 s", Space: "(hang)", Shard: fmt.Sprintf("%d/%d", i, n)})
			}
		}
		if !running {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	r.Res.Violations = append(r.Res.Violations, suspects...)
}

func (r *Run) merge(w *Result) {
	t := r.Res
	t.Cases += w.Cases
	t.Transitions += w.Transitions
	for _, h := range w.States {
		r.states[h] = struct{}{}
	}
	for k, v := range w.Outcomes {
		t.Outcomes[k] += v
	}
	for k, v := range w.Spaces {
		if t.Spaces[k] == nil {
			t.Spaces[k] = &SpaceStat{Done: true}
		}
		t.Spaces[k].Cases += v.Cases
		t.Spaces[k].Done = t.Spaces[k].Done && v.Done
	}
	for _, s := range w.Samples {
		if len(t.Samples) < 12 {
			t.Samples = append(t.Samples, s)
		}
	}
	t.Violations = append(t.Violations, w.Violations...)
	if w.Capped != "" && t.Capped == "" {
		t.Capped = w.Capped
	}
}

// confirm re-executes a suspected violation in fresh processes. It returns a
// replay document when the violation shows again.
func (r *Run) confirm(f *Found) map[string]any {
	doc := map[string]any{"property": r.Prop.ID, "case": f.Case, "message": f.Msg, "space": f.Space,
		"how": "mc replay FILE re-executes the case against the code built from /repo and prints what fails"}
	cf := filepath.Join(r.Dir, "confirm.json")
	b, _ := json.Marshal(doc)
	must(os.WriteFile(cf, b, 0o644))
	timeout := 90 * time.Second
	cmd := quiet(exec.Command(self(), "one", cf, filepath.Join(r.Dir, "confirm.out")))
	os.Remove(filepath.Join(r.Dir, "confirm.out"))
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		out, rerr := os.ReadFile(filepath.Join(r.Dir, "confirm.out"))
		if rerr != nil {
			doc["message"] = fmt.Sprint("the process executing the code ended: ", err, "\n", clip(raceReport(), 2500))
			return doc
		}
		if len(out) > 0 {
			doc["message"] = string(out)
			return doc
		}
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		doc["message"] = fmt.Sprint("no result within ", timeout)
		return doc
	}
	// not reproducible alone: re-run the history of the shard that showed it
	if f.Shard != "" && r.left() > 20*time.Second {
		var i, n int
		fmt.Sscanf(f.Shard, "%d/%d", &i, &n)
		res := filepath.Join(r.Dir, "rerun.res")
		os.Remove(res)
		cmd := quiet(exec.Command(self(), "worker", r.Prop.ID, r.Tier, fmt.Sprint(i), fmt.Sprint(n), "", res, (r.left() - 10*time.Second).String(), ""))
		must(cmd.Start())
		ended := make(chan error, 1)
		go func() { ended <- cmd.Wait() }()
		var err error
		select {
		case err = <-ended:
		case <-time.After(r.left() - 5*time.Second):
			cmd.Process.Kill()
			err = <-ended
		}
		doc["history"] = map[string]any{"tier": r.Tier, "shard": i, "shards": n, "seq": f.Seq}
		if b, rerr := os.ReadFile(res); rerr != nil {
			doc["message"] = fmt.Sprint(f.Msg, "; executing the same cases again, the process ended again: ", err)
			return doc
		} else {
			var w Result
			json.Unmarshal(b, &w)
			for k, l := range r.lost {
				if l == f.Shard { // the lost part, explored after all
					r.lost = append(r.lost[:k], r.lost[k+1:]...)
					r.merge(&w)
					break
				}
			}
			for _, v := range w.Violations {
				if v.Case.S == f.Case.S && v.Case.O == f.Case.O {
					doc["message"] = f.Msg
					return doc
				}
			}
			if len(w.Violations) > 0 { // the same history fails again, in another of its cases
				v := w.Violations[0]
				doc["case"], doc["space"] = v.Case, v.Space
				doc["message"] = fmt.Sprintf("%s; the same cases executed again in one process failed at another case (first at %s: %s)", v.Msg, clip(strconv.Quote(f.Case.S), 200), clip(f.Msg, 300))
				return doc
			}
		}
	}
	return nil
}

// probe executes the property's probes, each in its own process.
func (r *Run) probe() []Found {
	var out []Found
	res := make(chan *Found, len(r.Prop.Probes))
	for i := range r.Prop.Probes {
		go func(i int) {
			c := r.Prop.Probes[i]
			b, _ := json.Marshal(map[string]any{"case": c})
			in, o := filepath.Join(r.Dir, fmt.Sprint("probe", i)), filepath.Join(r.Dir, fmt.Sprint("probe-out", i))
			must(os.WriteFile(in, b, 0o644))
			cmd := quiet(exec.Command(self(), "one", in, o))
			must(cmd.Start())
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			f := &Found{Case: c, Space: "(probe)"}
			select {
			case err := <-done:
				if m, rerr := os.ReadFile(o); rerr != nil {
					f.Msg = fmt.Sprint("the process executing the code ended: ", err)
				} else if len(m) == 0 {
					f = nil
				} else {
					f.Msg = string(m)
				}
			case <-time.After(60 * time.Second):
				cmd.Process.Kill()
				<-done
				f.Msg = "no result within 60 s"
			}
			res <- f
		}(i)
	}
	for range r.Prop.Probes {
		if f := <-res; f != nil {
			out = append(out, *f)
		}
	}
	return out
}

// loadKnown reads the committed known findings of a property: lines
// "finding: property=<id> key=<text of the failing input, Go-quoted> <what>".
func loadKnown(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+id+" key=")
		if !ok {
			continue
		}
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		k, _ := strconv.Unquote(q)
		out[k] = strings.TrimSpace(rest[len(q):])
	}
	return out
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// checkMain runs one check and returns its exit status.
func checkMain(id, tier string) int {
	p := props[id]
	if p == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	dir, err := os.MkdirTemp("", "mc-"+id+"-")
	must(err)
	defer os.RemoveAll(dir)
	r := &Run{Prop: p, Tier: tier, Dir: dir, Start: time.Now(), Res: newResult(), Extra: map[string]any{}, states: map[uint64]struct{}{}, Limit: 270 * time.Second}
	if tier == "thorough" {
		r.Limit = 780 * time.Second
	}
	if s := os.Getenv("MC_LIMIT"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			r.Limit = d
		}
	}
	if p.Prepare != nil {
		p.Prepare(r)
	}
	if d := os.Getenv("MC_SCHED"); d != "" {
		defer os.RemoveAll(d)
	}
	probes := make(chan []Found, 1)
	go func() { probes <- r.probe() }()
	if p.Custom != nil {
		p.Custom(r)
	} else {
		r.sharded()
	}
	r.Res.Violations = append(r.Res.Violations, <-probes...)
	// judge
	known := loadKnown(id)
	sort.SliceStable(r.Res.Violations, func(a, b int) bool {
		return len(r.Res.Violations[a].Case.S) < len(r.Res.Violations[b].Case.S)
	})
	rep := filepath.Join(verifDir(), "evidence", "replays")
	os.MkdirAll(rep, 0o755)
	if old, _ := filepath.Glob(filepath.Join(rep, id+"-*.json")); old != nil {
		for _, o := range old {
			os.Remove(o)
		}
	}
	viols, unconfirmed := 0, 0
	for i := 0; i < len(r.Res.Violations); i++ { // confirm may append
		f := &r.Res.Violations[i]
		if what, ok := known[f.Case.S]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
			continue
		}
		if viols >= 3 || f.Space == "(hang)" && viols > 0 {
			break
		}
		var doc map[string]any
		if p.Custom != nil || f.Space == "(probe)" {
			doc = map[string]any{"property": id, "case": f.Case, "message": f.Msg, "space": f.Space}
		} else if doc = r.confirm(f); doc == nil {
			unconfirmed++
			fmt.Fprintf(os.Stderr, "not reproducible, not counted: %s %s\n", f.Space, clip(f.Msg, 300))
			continue
		}
		viols++
		path := filepath.Join(rep, fmt.Sprintf("%s-%d.json", id, viols))
		b, _ := json.MarshalIndent(doc, "", " ")
		must(os.WriteFile(path, b, 0o644))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  space %s, input %s\n  %s\n", f.Space, clip(strconv.Quote(f.Case.S), 600), clip(fmt.Sprint(doc["message"]), 1500))
	}
	if len(r.lost) > 0 {
		r.Res.Capped = fmt.Sprint("worker processes ended early: ", r.lost)
	}
	r.evidence(viols, unconfirmed)
	if viols > 0 {
		return 1
	}
	capd := ""
	if r.Res.Capped != "" {
		capd = " (" + r.Res.Capped + ")"
	}
	fmt.Printf("ok %s %s: %d cases, %d transitions, %.1f s%s\n", id, tier, r.Res.Cases, r.Res.Transitions, time.Since(r.Start).Seconds(), capd)
	return 0
}

func (r *Run) evidence(viols, unconfirmed int) {
	states, traces := int64(len(r.states)), r.Res.Cases
	if r.States > 0 {
		states = r.States
	}
	if r.Traces > 0 {
		traces = r.Traces
	}
	exhaustive := r.Res.Capped == ""
	for _, s := range r.Res.Spaces {
		exhaustive = exhaustive && s.Done
	}
	if len(r.Res.Samples) == 0 {
		r.Res.Samples = []string{"(none)"}
	}
	cov := map[string]any{
		"states": states, "transitions": r.Res.Transitions, "traces_validated_against_impl": traces,
		"samples": r.Res.Samples, "outcomes": topOutcomes(r.Res.Outcomes), "spaces": r.Res.Spaces,
		"exhaustive": exhaustive, "rule": r.Prop.Rule, "unconfirmed": unconfirmed,
	}
	if r.Res.Capped != "" {
		cov["capped"] = r.Res.Capped
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{"property": r.Prop.ID, "tier": r.Tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": append(append([]string{}, r.Prop.Assume...), r.Assume...), "wall_s": time.Since(r.Start).Seconds(), "violations": viols}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	must(os.WriteFile(filepath.Join(dir, r.Prop.ID+".json"), append(b, '\n'), 0o644))
}

func topOutcomes(m map[string]int64) map[string]int64 {
	type kv struct {
		k string
		v int64
	}
	var l []kv
	for k, v := range m {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(a, b int) bool { return l[a].v > l[b].v || l[a].v == l[b].v && l[a].k < l[b].k })
	out := map[string]int64{}
	for i, x := range l {
		if i == 40 {
			break
		}
		out[x.k] = x.v
	}
	return out
}

// oneMain re-executes one recorded case up to 300 times and writes what failed, if anything.
func oneMain(file, out string) {
	b, err := os.ReadFile(file)
	must(err)
	var doc struct {
		Case Case `json:"case"`
	}
	must(json.Unmarshal(b, &doc))
	start := time.Now()
	for i := 0; i < 300 && (i == 0 || time.Since(start) < 10*time.Second); i++ {
		if v, _ := runOracle(&doc.Case); v != "" {
			must(os.WriteFile(out, []byte(v), 0o644))
			return
		}
	}
	must(os.WriteFile(out, nil, 0o644))
}
