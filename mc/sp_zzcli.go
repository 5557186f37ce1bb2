package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The command line program (C21, C22, C23 and the option part of C27) as a state
// machine: the state is the content of a scratch directory, an operation is one
// run of the program, a fault is an environment answer to one run.

// A Step is one run of the program.
type Step struct {
	In    string   // input path, relative to the scratch directory
	Out   string   // output directory; "" for the default
	Style int      // how the options are written
	Args  []string // verbatim arguments instead, when not nil
	Fault string   // "", "fsize N", "nofile N", "inject SYSCALL ERRNO K", "tmpfs N", "stderr closed", "stdout full", "pipe N"
	Trace bool
	User  bool `json:",omitempty"` // run by an unprivileged user
	Loose bool `json:",omitempty"` // whether the output can be replaced depends on how it is written: both ends are right
	Code  int  `json:",omitempty"` // with the permissions of the scenario, the run ends with this status
}

// A Scenario is an initial directory and a sequence of runs.
type Scenario struct {
	Files map[string]string // path -> content
	Links map[string]string `json:",omitempty"` // path -> target
	Dirs  []string          `json:",omitempty"`
	Modes []Mode            `json:",omitempty"` // permissions, set in this order after everything is there
	Ages  map[string]int64  `json:",omitempty"` // path -> time of the last change
	Steps []Step
}

type Mode struct {
	Path string
	Perm uint32
}

func (s Scenario) String() string {
	b, err := json.Marshal(s)
	must(err)
	return string(b)
}

// cliBinary is the program built from /repo by the parent process (or now).
func cliBinary() string {
	if b := os.Getenv("MC_CLI"); b != "" {
		return b
	}
	dir, err := os.MkdirTemp("", "mc-cli-")
	must(err)
	buildCLI(filepath.Join(dir, "kuneiform"))
	return os.Getenv("MC_CLI")
}

func repoDir() string {
	if d := os.Getenv("MC_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func buildCLI(to string) {
	cmd := exec.Command("go", "build", "-o", to, ".")
	cmd.Dir = repoDir()
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "the program does not build: %v\n%s", err, out)
		os.Exit(2)
	}
	os.Setenv("MC_CLI", to)
}

// args writes the command line of a step in one of several equivalent styles.
func (s *Step) args() []string {
	if s.Args != nil {
		return s.Args
	}
	var o []string
	if s.Out != "" {
		o = [][]string{{"-o", s.Out}, {"--output", s.Out}, {"--output=" + s.Out}, {"-o" + s.Out}, {"-o=" + s.Out}}[s.Style%5]
	}
	if s.Trace {
		o = append([][]string{{"-t"}, {"--trace"}, {"--trace=true"}}[s.Style%3], o...)
	}
	if s.Style/5%2 == 0 {
		return append(o, s.In)
	}
	return append([]string{s.In}, o...)
}

// expected result of a fault-free step, as the model sees it.
type verdict struct {
	code   int    // -1: any failure
	target string // written path when code is 0
	json   string
}

func (s *Step) verdict(fs map[string]string, dirs map[string]bool) verdict {
	if s.Args != nil {
		return verdict{code: -1}
	}
	if s.Code != 0 && !s.Loose {
		return verdict{code: s.Code}
	}
	out := s.Out
	if out == "" {
		out = "build"
	}
	out = filepath.Clean(out)
	for p := out; p != "."; p = filepath.Dir(p) {
		if _, isFile := fs[p]; isFile {
			return verdict{code: 3}
		}
	}
	src, ok := fs[filepath.Clean(s.In)]
	if !ok {
		return verdict{code: 4}
	}
	g := parse(src)
	if g.Kind != "" {
		return verdict{code: 5}
	}
	b, err := g.Schema.ToJSON()
	if err != nil {
		return verdict{code: 6}
	}
	base := filepath.Base(s.In)
	if i := strings.LastIndexByte(base, '.'); i >= 0 {
		base = base[:i]
	}
	t := filepath.Join(out, base+".json")
	if dirs[t] {
		return verdict{code: 7}
	}
	return verdict{code: 0, target: t, json: string(b)}
}

// snapshot reads the content of every regular file under dir, links resolved by hand.
func snapshot(dir string) (files map[string]string, dirs map[string]bool) {
	files, dirs = map[string]string{}, map[string]bool{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case info.IsDir():
			dirs[rel] = true
		case info.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			files[rel] = string(b)
		case info.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			st, err := os.Stat(p)
			switch {
			case err == nil && st.IsDir() && !strings.HasPrefix(t, "/"):
				dirs[rel] = true // and what is below it
				list, _ := os.ReadDir(p)
				for _, x := range list {
					if b, err := os.ReadFile(filepath.Join(p, x.Name())); err == nil && x.Type().IsRegular() {
						files[filepath.Join(rel, x.Name())] = string(b)
					}
				}
			case err == nil && st.Mode().IsRegular() && !strings.HasPrefix(t, "/"):
				b, _ := os.ReadFile(p)
				files[rel] = string(b)
			default:
				files[rel] = "-> " + t
			}
		}
		return nil
	})
	return
}

type ran struct {
	code           int
	stdout, stderr string
	note           string
}

// run executes one step in the scratch directory.
func (s *Step) run(dir string) (r ran) {
	bin := cliBinary()
	argv := append([]string{bin}, s.args()...)
	f := strings.Fields(s.Fault)
	kind := ""
	if len(f) > 0 {
		kind = f[0]
	} else if s.User {
		kind = "user"
	}
	switch kind {
	case "fsize", "nofile":
		argv = append([]string{self(), "limited", f[0], f[1]}, argv...)
	case "user":
		argv = append([]string{self(), "limited", "user", "65534"}, argv...)
	case "inject":
		argv = append([]string{"strace", "-f", "-qq", "-o", filepath.Join(dir, "..", "strace.out"), "-P", filepath.Join(dir, f[4]), "-e", "trace=" + f[1], "-e", "inject=" + f[1] + ":error=" + f[2] + ":when=" + f[3]}, argv...)
	case "tmpfs":
		q := make([]string, len(argv))
		for i, a := range argv {
			q[i] = "'" + strings.ReplaceAll(a, "'", `'\''`) + "'"
		}
		// runs the program on a small file system and keeps only a marker of what it left there
		argv = []string{"unshare", "-Urm", "sh", "-c", "mount -t tmpfs -o size=" + f[1] + " none '" + filepath.Join(dir, f[2]) + "' || exit 99; " + strings.Join(q, " ") + "; rc=$?; cat '" + filepath.Join(dir, f[3]) + "' > '" + filepath.Join(dir, "..", "left") + "' 2>/dev/null; exit $rc"}
	}
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/sbin:/usr/bin:/sbin:/bin", "HOME=" + filepath.Join(dir, "..", "home"), "TMPDIR=" + filepath.Join(dir, "..", "tmp"), "GOMAXPROCS=1"}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	switch s.Fault {
	case "stdout full":
		cmd.Stdout, _ = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	case "stderr full":
		cmd.Stderr, _ = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	case "both closed":
		argv = append([]string{"-c", `exec "$@" >&- 2>&-`, "sh"}, argv...)
		c := exec.Command("sh", argv...)
		c.Dir, c.Env = cmd.Dir, cmd.Env
		cmd = c
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return ran{code: -2, note: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(50 * time.Second):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		r.note = "no result within 50 s"
	}
	r.code = cmd.ProcessState.ExitCode()
	r.stdout, r.stderr = so.String(), se.String()
	return r
}

const success = "Successfully"

// runScenario executes a scenario and checks one aspect after every step.
func runScenario(sc *Scenario, aspect string) (viol, out string) {
	top, err := os.MkdirTemp(os.Getenv("MC_SCRATCH"), "cli-")
	must(err)
	defer os.RemoveAll(top)
	dir := filepath.Join(top, "w")
	for _, d := range append([]string{"home", "tmp", "w"}, prefixAll("w/", sc.Dirs)...) {
		must(os.MkdirAll(filepath.Join(top, d), 0o755))
	}
	put := func(p, content string) {
		p = filepath.Join(dir, p)
		os.MkdirAll(filepath.Dir(p), 0o755)
		must(os.WriteFile(p, []byte(content), 0o644))
	}
	for p, c := range sc.Files {
		put(p, c)
	}
	var names []string
	for p := range sc.Links {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		os.MkdirAll(filepath.Dir(filepath.Join(dir, p)), 0o755)
		must(os.Symlink(sc.Links[p], filepath.Join(dir, p)))
	}
	if len(sc.Modes) > 0 {
		os.Chmod(os.Getenv("MC_SCRATCH"), 0o711)
		os.Chmod(top, 0o711)
		os.Chmod(dir, 0o777)
		for _, m := range sc.Modes {
			must(os.Chmod(filepath.Join(dir, m.Path), os.FileMode(m.Perm)))
		}
	}
	for p, t := range sc.Ages {
		must(os.Chtimes(filepath.Join(dir, p), time.Unix(t, 0), time.Unix(t, 0)))
	}
	for i := range sc.Steps {
		st := &sc.Steps[i]
		fs, dirs := snapshot(dir)
		want := st.verdict(fs, dirs)
		if strings.HasPrefix(st.Fault, "tmpfs") {
			os.MkdirAll(filepath.Join(dir, st.Out), 0o755)
		}
		touch(fmt.Sprint(fs, len(dirs)), 1)
		r := st.run(dir)
		after, _ := snapshot(dir)
		out += sp("%d", r.code)
		where := sp("run %d (%q%s): ", i, st.args(), map[bool]string{true: ", " + st.Fault}[st.Fault != ""])
		if r.note != "" {
			return where + r.note, out
		}
		if st.User && r.code == 98 {
			return "", "no unprivileged user here"
		}
		if st.Loose && r.code != 0 && want.code == 0 {
			want = verdict{code: r.code}
		}
		if st.User && st.Fault == "" && aspect == "fault" {
			if v := st.judgeFault(dir, top, want, r); v != "" {
				return where + v, out
			}
			continue
		}
		if aspect == "trace" && st.Fault != "" { // the trace makes no difference, whatever happens to what is printed
			q := *st
			q.Trace = false
			r2 := q.run(dir)
			again, _ := snapshot(dir)
			if r2.code != r.code {
				return where + sp("exit status %d with the trace option, %d without", r.code, r2.code), out
			}
			if d := diffFS(after, again, nil); d != "" {
				return where + "the output differs with the trace option: " + d, out
			}
			continue
		}
		if st.Fault != "" {
			if r.code == 99 && strings.HasPrefix(st.Fault, "tmpfs") || st.Fault != "" && strings.HasPrefix(st.Fault, "inject") && strings.Contains(r.stderr, "strace:") {
				return "", "the fault cannot be produced here"
			}
			v := st.judgeFault(dir, top, want, r)
			if v != "" {
				return where + v, out
			}
			continue
		}
		v := ""
		switch aspect {
		case "store":
			v = judgeStore(st, want, r, fs, after)
		case "keep":
			v = judgeKeep(want, r, fs, after)
		case "trace":
			v = judgeStore(st, want, r, fs, after)
			if v == "" && st.Trace && want.code != 3 && want.code != 4 && want.code != -1 {
				q := *st
				q.Trace = false
				r2 := q.run(dir)
				again, _ := snapshot(dir)
				switch {
				case r2.code != r.code:
					v = sp("exit status %d with the trace option, %d without", r.code, r2.code)
				case diffFS(after, again, nil) != "":
					v = "the output differs with the trace option: " + diffFS(after, again, nil)
				case len(r.stdout)+len(r.stderr) <= len(r2.stdout)+len(r2.stderr):
					v = "the trace option prints no diagnostics"
				}
			}
		}
		if v != "" {
			return where + v, out
		}
	}
	return "", "exit " + clip(out, 12)
}

func prefixAll(p string, l []string) []string {
	var out []string
	for _, x := range l {
		out = append(out, p+x)
	}
	return out
}

// diffFS compares two snapshots; except lists paths left out.
func diffFS(a, b map[string]string, except map[string]bool) string {
	for p, c := range a {
		if d, ok := b[p]; !except[p] && !ok {
			return p + " is gone"
		} else if !except[p] && c != d {
			return sp("%s held %q, now %q", p, clip(c, 200), clip(d, 200))
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok && !except[p] {
			return p + " is new"
		}
	}
	return ""
}

func judgeStore(st *Step, want verdict, r ran, before, after map[string]string) string {
	switch {
	case want.code == -1 && r.code == 0:
		return "exit status 0"
	case want.code >= 0 && r.code != want.code:
		return sp("exit status %d, want %d; it printed %q", r.code, want.code, clip(r.stdout+r.stderr, 300))
	case want.code != 0:
		return ""
	}
	if got, ok := after[want.target]; !ok || got != want.json {
		return sp("%s holds %q, want %q", want.target, clip(got, 600), clip(want.json, 600))
	}
	same := map[string]bool{want.target: true}
	for p, c := range before { // other names of the same file
		if c == before[want.target] && after[p] == want.json {
			same[p] = true
		}
	}
	for p, c := range before {
		if !same[p] && after[p] != c {
			return sp("another file, %s, held %q, now %q", p, clip(c, 200), clip(after[p], 200))
		}
	}
	return ""
}

func judgeKeep(want verdict, r ran, before, after map[string]string) string {
	if want.code == 0 {
		return ""
	}
	if r.code == 0 {
		return sp("the input cannot be compiled, but the exit status is 0; it printed %q", clip(r.stdout+r.stderr, 300))
	}
	if d := diffFS(before, after, nil); d != "" {
		return "the failed run changed a file: " + d
	}
	return ""
}

// judgeFault: success may only be reported when the output is completely stored.
func (st *Step) judgeFault(dir, top string, want verdict, r ran) string {
	said := strings.Contains(r.stdout+r.stderr, success)
	if r.code != 0 {
		if said {
			return sp("exit status %d, but it printed %q", r.code, clip(r.stdout+r.stderr, 300))
		}
		return ""
	}
	if want.code != 0 {
		return "exit status 0 for an input that cannot be compiled or stored"
	}
	p := filepath.Join(dir, want.target)
	if strings.HasPrefix(st.Fault, "tmpfs") {
		p = filepath.Join(top, "left")
	}
	if t, err := os.Readlink(p); err == nil && strings.HasPrefix(t, "/dev/") {
		return "exit status 0, but the output went to " + t
	}
	b, err := os.ReadFile(p)
	if err != nil || string(b) != want.json {
		return sp("exit status 0, but the output file holds %q (%v), want %q", clip(string(b), 300), err, clip(want.json, 300))
	}
	return ""
}

// limitedMain sets a resource limit and becomes the program.
func limitedMain(args []string) {
	n, _ := strconv.ParseUint(args[1], 10, 64)
	if args[0] == "user" {
		runtime.LockOSThread()
		if syscall.Setgroups(nil) != nil || syscall.Setgid(int(n)) != nil || syscall.Setuid(int(n)) != nil {
			os.Exit(98)
		}
		must(syscall.Exec(args[2], args[2:], os.Environ()))
	}
	res := syscall.RLIMIT_FSIZE
	if args[0] == "nofile" {
		res = syscall.RLIMIT_NOFILE
	}
	must(syscall.Setrlimit(res, &syscall.Rlimit{Cur: n, Max: n}))
	must(syscall.Exec(args[2], args[2:], os.Environ()))
}

// --- the enumerated scenarios ---

var (
	cliLong  = "database db; table t { a int primary, b text notnull minlen(1) maxlen(9), c blob default('x'), #i index(a, b) } action a($p) public { select 1; a($p); } init() { select 2; }"
	cliShort = "database db; table t { a int }"
	cliOther = "database db; action b() view { select '" + strings.Repeat("é\"\\\\", 40) + "'; }"
	cliHuge  = "database db; " + numbered(60, " ", func(i int) string { return sp("table t%d { a int, b text default('%s') }", i, strings.Repeat("v", 90)) })
	cliBad   = []string{"database db; table t { a int ", "database db; table t { a int } table t { b int }", "", "database db; action a() { select random(); }", "database db; action a() public public { select 1; }", "database db; action a() { b(); }"}
)

func cliPrepare(r *Run) {
	buildCLI(filepath.Join(r.Dir, "kuneiform"))
	os.Setenv("MC_SCRATCH", r.Dir)
}

func cliCase(e *Emit, aspect string, sc Scenario) { e.Case("cli-"+aspect, sc.String()) }

func init() {
	for _, a := range []string{"store", "keep", "fault", "trace"} {
		a := a
		oracles["cli-"+a] = func(c *Case) (string, string) {
			var sc Scenario
			if err := json.Unmarshal([]byte(c.S), &sc); err != nil {
				return "", "unreadable scenario"
			}
			return runScenario(&sc, a)
		}
	}
	inputs := func() (map[string]string, []string) {
		f := map[string]string{"d1/db.kf": cliLong, "d2/db.kf": cliShort, "d3/db.kf": cliBad[0], "d5/db.kf": cliBad[1], "d1/other.kf": cliOther}
		return f, []string{"d1/db.kf", "d2/db.kf", "d3/db.kf", "d4/db.kf", "d5/db.kf", "d1/other.kf"}
	}
	old := []string{"", "x", "{}", strings.Repeat("old ", 500), "JSON", "JSONtail", "JSO"}
	histories := func(aspect string) Space {
		return Space{"every sequence of up to 3 runs over inputs that share a base name, and two output directories", func(e *Emit) {
			f, ins := inputs()
			outs := []string{"o1", "o2/sub"}
			seqs(len(ins)*2, 1, e.Pick(2, 3), func(x []int) {
				sc := Scenario{Files: f}
				for i, k := range x {
					sc.Steps = append(sc.Steps, Step{In: ins[k/2], Out: outs[k%2], Style: (k + i) % 10})
				}
				cliCase(e, aspect, sc)
			})
			// sources and outputs of one size, that differ in one name
			same := map[string]string{}
			var names []string
			for i, s := range []string{"database db; table t { a int }", "database db; table u { a int }", "database db; table t { b int }", "database dc; table t { a int }", "database db; table t { a int;}"} {
				names = append(names, sp("s%d/db.kf", i))
				same[names[i]] = s
			}
			seqs(len(names), 2, 3, func(x []int) {
				for _, out := range []string{"o1", ""} {
					sc := Scenario{Files: same}
					for i, k := range x {
						sc.Steps = append(sc.Steps, Step{In: names[k], Out: out, Style: i, Trace: len(x) == 2 && k == 1})
					}
					cliCase(e, aspect, sc)
				}
			})
			seqs(len(ins), 3, 3, func(x []int) {
				sc := Scenario{Files: f}
				for _, k := range x {
					sc.Steps = append(sc.Steps, Step{In: ins[k], Out: "o1"})
				}
				cliCase(e, aspect, sc)
			})
		}}
	}
	previous := func(aspect string) Space {
		return Space{"every previous content of the output directory, every input", func(e *Emit) {
			f, ins := inputs()
			for i, b := range cliBad {
				in := sp("bad/b%d/db.kf", i)
				f[in] = b
				ins = append(ins, in)
			}
			f["d6/db.kf"] = cliHuge
			ins = append(ins, "d6/db.kf")
			for _, in := range ins {
				g := parse(f[in])
				js := "{\n}"
				if g.Kind == "" {
					b, _ := g.Schema.ToJSON()
					js = string(b)
				}
				for _, o := range old {
					o = strings.Replace(o, "JSON", js, 1)
					if o == "JSO" {
						o = js[:len(js)-1]
					}
					g := map[string]string{}
					for k, v := range f {
						g[k] = v
					}
					g["out/db.json"], g["out/other.json"], g["out/db.json.tmp"], g["out/db"], g["build/db.json"] = o, "keep", "keep2", "keep3", o
					for _, out := range []string{"out", ""} {
						cliCase(e, aspect, Scenario{Files: g, Steps: []Step{{In: in, Out: out}}})
						cliCase(e, aspect, Scenario{Files: g, Steps: []Step{{In: in, Out: out}, {In: "d2/db.kf", Out: out}, {In: in, Out: out}}})
					}
				}
			}
		}}
	}
	naming := func(aspect string) Space {
		return Space{"every shape of input path, output directory and option style", func(e *Emit) {
			names := []string{"db.kf", "db", "a.b.kf", "a.json", ".kf", "db.", "a b.kf", "é世.kf", "-x.kf", "db.tar.gz.kf", "D B/c.d/db.kf", "./db.kf", "x/../db.kf", "%s.kf", "a'b.kf", "x.KF", "a..kf", "x.kf/db", "a.b/c", "d.kf/e.kf", "db.d/x", ".kf/.kf", "x.kf/y.kf/z", "a.b/c.d/.e", "db.kf/db.kf", "..a/b", "a b.c/d", strings.Repeat("n", 200) + ".kf",
				"$a.kf", "${a}/b.kf", "$HOME.kf", "~.kf", "~/db.kf", "*.kf", "a?.kf", "[a].kf", "{a,b}.kf", "a%20b.kf", "a+b.kf", "a#b.kf", "a&b.kf", "a;b.kf", "a\\b.kf", "a:b.kf", "C:/db.kf", "http:/db.kf", "a\"b.kf", "a\nb.kf", " a.kf", "a.kf ", "a.KF.kf", "a_b-c.kf", "A.kf", "@a.kf", "=a.kf", "a=b.kf", ",.kf", "build.kf", "con.kf", "db.kf~", ".db.kf", "...kf", "...", "db.kf.", "a.sql", "a.b", "help", "completion", "version", "\xffa.kf", "-"}
			outs := []string{"", "o", "o/", "./o", "o/p/q", "o/../r", "o p", "é", "o.json", "o.kf", "o.d/p", "db.json", ".o", ".", "$o", "${HOME}", "$", "~", "~/o", "*", "o?", "[o]", "a:b", "o,p", "%o", "%s", "o\np", " o", "o ", "o=p", "=o", "=", "o;p", "true", "0", "BUILD", "a\\b", "o/.", "o/./p", "o//p", "./", "-o", "--", "-", "deep/" + strings.Repeat("d/", 30)}
			for _, n := range names {
				for i, o := range outs {
					for st := 0; st < 10; st++ {
						if st%5 == 4 && o == "" || strings.HasPrefix(n, "-") && n != "-" || strings.HasPrefix(o, "=") && st%5 == 3 || e.Pick(1, 0) == 1 && (st+i)%3 != 0 {
							continue
						}
						cliCase(e, aspect, Scenario{Files: map[string]string{filepath.Clean(n): cliLong}, Dirs: []string{"x"}, Steps: []Step{{In: n, Out: o, Style: st}}})
					}
				}
			}
			for _, l := range []map[string]string{{"o/db.json": "../real.json"}, {"o": "elsewhere"}, {"link.kf": "db.kf"}} {
				sc := Scenario{Files: map[string]string{"db.kf": cliLong, "real.json": strings.Repeat("z", 3000), "elsewhere/db.json": "old"}, Links: l, Steps: []Step{{In: "db.kf", Out: "o"}, {In: "db.kf", Out: "o", Style: 6}}}
				if l["link.kf"] != "" {
					sc.Steps[0].In = "link.kf"
				}
				cliCase(e, aspect, sc)
			}
		}}
	}
	blocks := func(aspect string) Space {
		return Space{"outputs whose sizes lie around every multiple of a block size", func(e *Emit) {
			src := func(n int) string {
				return "database db; table t { a text default('" + strings.Repeat("x", n) + "') }"
			}
			g := parse(src(0))
			b, _ := g.Schema.ToJSON()
			ks := []int{512, 1000, 1024, 2048, 4096, 8192, 10000, 12288, 16384, 32768, 65536, 98304, 131072, 262144, 1 << 20}
			if e.Thorough {
				ks = append(ks, 1536, 2560, 3072, 24576, 40960, 49152, 81920, 100000, 196608, 1<<21, 1<<22, 1<<23)
			}
			for _, k := range ks {
				for d := -2; d <= 2; d++ {
					if n := k + d - len(b); n >= 0 {
						f := map[string]string{"db.kf": src(n), "s/db.kf": src(n / 2)}
						cliCase(e, aspect, Scenario{Files: f, Steps: []Step{{In: "db.kf", Out: "out", Style: k % 10}}})
						cliCase(e, aspect, Scenario{Files: f, Steps: []Step{{In: "s/db.kf", Out: "out"}, {In: "db.kf", Out: "out"}, {In: "s/db.kf", Out: "out"}}})
					}
				}
			}
		}}
	}
	permissions := func(aspect string) Space {
		return Space{"every permission of input, directory and output, an unprivileged user", func(e *Emit) {
			for _, base := range []string{"out", "", "o/p"} {
				d := base
				if d == "" {
					d = "build"
				}
				for _, bad := range []bool{false, true} {
					in := "in/db.kf"
					if bad {
						in = "bad/db.kf"
					}
					for _, old := range []string{"-", "", "x", strings.Repeat("old ", 400)} {
						for _, dm := range []uint32{0o777, 0o555, 0o666, 0o000, 0o733} {
							for _, om := range []uint32{0o666, 0o444, 0o222, 0o000} {
								for _, im := range []uint32{0o644, 0o000, 0o200, 0o111} {
									if old == "-" && om != 0o666 || aspect == "trace" && im != 0o644 {
										continue
									}
									f := map[string]string{"in/db.kf": cliLong, "bad/db.kf": cliBad[0], d + "/keep": "keep"}
									modes := []Mode{{in, im}}
									if old != "-" {
										f[d+"/db.json"] = old
										modes = append(modes, Mode{d + "/db.json", om})
									}
									modes = append(modes, Mode{d, dm})
									code := 0
									enter := dm&1 == 1
									switch {
									case im&4 == 0:
										code = 4
									case bad:
										code = 5
									case !enter || old == "-" && dm&2 == 0 || old != "-" && om&2 == 0:
										code = 7
									}
									st := Step{In: in, Out: base, User: true, Code: code, Trace: aspect == "trace"}
									// in place, or through a new file in the directory
									st.Loose = code%7 == 0 && enter && old != "-" && dm&2 != om&2
									sc := Scenario{Files: f, Modes: modes, Steps: []Step{st}}
									cliCase(e, aspect, sc)
									if old == "x" || old == "-" {
										sc.Steps = []Step{st, {In: in, Out: "fresh", User: true, Code: code * (1 - code/7)}, st}
										if old == "-" && code == 0 || im&4 == 0 || aspect == "trace" {
											sc.Steps = []Step{{In: "in/db.kf", Out: "other", Code: 0}, st, st}
										}
										cliCase(e, aspect, sc)
									}
								}
							}
						}
					}
				}
			}
			// the output directory cannot be made
			for _, dm := range []uint32{0o555, 0o000, 0o444, 0o666} {
				for _, out := range []string{"o/new", "o/new/deep"} {
					for _, in := range []string{"in/db.kf", "bad/db.kf"} {
						cliCase(e, aspect, Scenario{Files: map[string]string{"in/db.kf": cliLong, "bad/db.kf": cliBad[0], "o/keep": "keep"}, Modes: []Mode{{"o", dm}}, Steps: []Step{{In: in, Out: out, User: true, Code: 3, Trace: aspect == "trace"}}})
					}
				}
			}
		}}
	}
	failing := func(aspect string) Space {
		return Space{"every kind of failure: paths, directories, arguments", func(e *Emit) {
			f := map[string]string{"db.kf": cliLong, "file": "x", "out/db.json": "old", "out/keep.json": "keep", "build/db.json": "old", "d/empty/db.kf": "", "e/db.kf": cliLong + "}"}
			steps := []Step{{In: "missing.kf", Out: "out"}, {In: "d/db.kf", Out: "out"}, {In: "d/db.kf/", Out: ""}, {In: "d/db.kf/keep.kf", Out: "out"}, {In: "d/keep", Out: "out"}, {In: "d/empty/db.kf", Out: "out"}, {In: "e/db.kf", Out: "out", Trace: true}, {In: "dir.kf", Out: "out"}, {In: "db.kf/x", Out: "out"}, {In: "missing/db.kf", Out: "out"}, {In: "db.kf", Out: "file"}, {In: "db.kf", Out: "file/sub"}, {In: "db.kf", Out: "db.kf"},
				{In: "db.kf", Out: "taken"}, {Args: []string{}}, {Args: []string{"-o", "out"}}, {Args: []string{"db.kf", "db.kf"}}, {Args: []string{"db.kf", "missing.kf", "-o", "out"}}, {Args: []string{"--nope", "db.kf"}}, {Args: []string{"-x", "db.kf"}}, {Args: []string{"-o"}},
				{Args: []string{"db.kf", "-o"}}, {Args: []string{"--output"}}, {Args: []string{"--trace=perhaps", "db.kf"}}, {Args: []string{""}}, {Args: []string{"-o", "out", ""}}, {Args: []string{"--", "missing.kf"}}, {Args: []string{"--version=x", "db.kf"}}, {Args: []string{"-o", "", "missing.kf"}}}
			for _, a := range steps {
				sc := Scenario{Files: f, Dirs: []string{"dir.kf", "taken/db.json", "d/db.kf", "d/keep"}, Steps: []Step{a}}
				cliCase(e, aspect, sc)
				sc.Steps = []Step{{In: "db.kf", Out: "out"}, a, {In: "db.kf", Out: "out"}, a}
				cliCase(e, aspect, sc)
				for _, b := range steps {
					cliCase(e, aspect, Scenario{Files: f, Dirs: []string{"dir.kf", "taken/db.json", "d/db.kf", "d/keep"}, Steps: []Step{a, b}})
				}
			}
		}}
	}
	sources := func(aspect string, trace bool) Space {
		return Space{"every kitchen source one deviation away, after a good run", func(e *Emit) {
			k := kitchen()
			n := 0
			deviate(k, 1, func(ch []int) {
				n++
				src := assemble(k, ch)
				steps := []Step{{In: "a/db.kf", Out: "out"}, {In: "b/db.kf", Out: "out", Trace: trace, Style: n % 10}}
				if n%4 == 0 {
					steps = append(steps, Step{In: "a/db.kf", Out: "out", Trace: trace})
				}
				cliCase(e, aspect, Scenario{Files: map[string]string{"a/db.kf": cliLong, "b/db.kf": src}, Steps: steps})
			})
			for _, b := range append(append([]string{}, basePrograms...), append(layoutBases, histSources...)...) {
				cliCase(e, aspect, Scenario{Files: map[string]string{"a/db.kf": cliLong, "b/db.kf": b, "c/db.kf": b + "\n"}, Steps: []Step{{In: "a/db.kf", Out: "out", Trace: trace}, {In: "b/db.kf", Out: "out", Trace: trace, Style: 1}, {In: "c/db.kf", Out: "out", Trace: trace, Style: 2}}})
			}
			for _, b := range []string{"\xff", "database d; // \xff\n", "database d; action a() { select '\xff'; }", "database d;\x00"} {
				cliCase(e, "keep", Scenario{Files: map[string]string{"b/db.kf": b, "out/db.json": "old"}, Steps: []Step{{In: "b/db.kf", Out: "out", Trace: trace}}})
			}
		}}
	}
	register(&Prop{ID: "C21", Prepare: cliPrepare, Rule: "the state is a scratch directory, an operation is one run of the program: every sequence of runs, previous content, path shape and failure of the listed spaces; exit status and files compared with the model",
		Assume: []string{"permissions are those an unprivileged user meets; as root none of them applies"},
		Spaces: []Space{histories("store"), previous("store"), naming("store"), blocks("store"), permissions("store"), failing("store"), sources("store", false)}})
	register(&Prop{ID: "C23", Prepare: cliPrepare, Rule: "every failing run of the listed spaces on every prior state; all files under the scratch directory must stay as they were",
		Spaces: []Space{histories("keep"), previous("keep"), permissions("keep"), failing("keep"), sources("keep", false), {"every truncation of a good source, after its good run", func(e *Emit) {
			for i := 0; i < len(cliLong); i++ {
				cliCase(e, "keep", Scenario{Files: map[string]string{"a/db.kf": cliLong, "b/db.kf": cliLong[:i]}, Steps: []Step{{In: "a/db.kf", Out: "out"}, {In: "b/db.kf", Out: "out"}}})
			}
		}}}})

	faults := []Space{
		{"the storage ends at every byte", func(e *Emit) {
			for _, src := range []string{cliShort, cliLong, cliOther} {
				g := parse(src)
				b, _ := g.Schema.ToJSON()
				for n := 0; n <= len(b)+2; n++ {
					for _, prev := range []string{"-", "", strings.Repeat("old ", 400)} {
						if prev != "-" && !e.Thorough && n%7 != 0 {
							continue
						}
						f := map[string]string{"db.kf": src}
						if prev != "-" {
							f["out/db.json"] = prev
						}
						cliCase(e, "fault", Scenario{Files: f, Steps: []Step{{In: "db.kf", Out: "out", Fault: sp("fsize %d", n)}}})
						if n%16 == 3 {
							cliCase(e, "fault", Scenario{Files: f, Steps: []Step{{In: "db.kf", Out: "out"}, {In: "db.kf", Out: "out", Trace: true, Fault: sp("fsize %d", n)}, {In: "db.kf", Out: "", Fault: sp("fsize %d", n)}}})
						}
					}
				}
			}
			g := parse(cliHuge)
			b, _ := g.Schema.ToJSON()
			for n := 0; n <= len(b)+64; n += e.Pick(512, 64) {
				cliCase(e, "fault", Scenario{Files: map[string]string{"db.kf": cliHuge}, Steps: []Step{{In: "db.kf", Out: "out", Fault: sp("fsize %d", n)}}})
			}
			for d := -3; d <= 3; d++ {
				cliCase(e, "fault", Scenario{Files: map[string]string{"db.kf": cliHuge}, Steps: []Step{{In: "db.kf", Out: "out", Fault: sp("fsize %d", len(b)+d)}}})
			}
		}},
		{"full file systems and devices", func(e *Emit) {
			for _, src := range []string{cliShort, cliLong, cliHuge} {
				for _, p := range []string{"4k", "8k", "12k", "16k", "64k", "1m"} {
					cliCase(e, "fault", Scenario{Files: map[string]string{"db.kf": src}, Dirs: []string{"out"}, Steps: []Step{{In: "db.kf", Out: "out", Fault: "tmpfs " + p + " out out/db.json"}}})
				}
				for st := 0; st < 10; st++ {
					cliCase(e, "fault", Scenario{Files: map[string]string{"db.kf": src}, Links: map[string]string{"out/db.json": "/dev/full"}, Steps: []Step{{In: "db.kf", Out: "out", Style: st, Fault: "device"}}})
				}
				cliCase(e, "fault", Scenario{Files: map[string]string{"db.kf": src}, Links: map[string]string{"out/db.json": "nowhere/x/db.json"}, Steps: []Step{{In: "db.kf", Out: "out", Fault: "dangling"}}})
				cliCase(e, "fault", Scenario{Files: map[string]string{"db.kf": src}, Links: map[string]string{"out/db.json": "db.json"}, Steps: []Step{{In: "db.kf", Out: "out", Fault: "loop"}}})
				cliCase(e, "fault", Scenario{Files: map[string]string{"db.kf": src}, Dirs: []string{"out/db.json"}, Steps: []Step{{In: "db.kf", Out: "out", Fault: "directory"}}})
				cliCase(e, "fault", Scenario{Files: map[string]string{"db.kf": src, "out/db.json/x": "y"}, Steps: []Step{{In: "db.kf", Out: "out", Fault: "directory"}}})
				for _, f := range []string{"stdout full", "stderr full", "both closed"} {
					cliCase(e, "fault", Scenario{Files: map[string]string{"db.kf": src}, Steps: []Step{{In: "db.kf", Out: "out", Fault: f}}})
				}
				for n := 0; n <= 24; n++ {
					cliCase(e, "fault", Scenario{Files: map[string]string{"db.kf": src}, Steps: []Step{{In: "db.kf", Out: "out", Fault: sp("nofile %d", n)}}})
					cliCase(e, "fault", Scenario{Files: map[string]string{"db.kf": src, "out/db.json": "old"}, Steps: []Step{{In: "db.kf", Out: "out", Fault: sp("nofile %d", n)}}})
				}
			}
			long := strings.Repeat("n", 251)
			cliCase(e, "fault", Scenario{Files: map[string]string{long + ".kf": cliShort}, Steps: []Step{{In: long + ".kf", Out: "out", Fault: "name too long"}}})
		}},
		{"every system call on the output file fails, with every error", func(e *Emit) {
			for _, src := range []string{cliShort, cliHuge} {
				for _, prev := range []string{"-", "old"} {
					f := map[string]string{"db.kf": src}
					if prev != "-" {
						f["out/db.json"] = prev
					}
					for _, sc := range []string{"openat", "write", "pwrite64", "writev", "close", "fsync", "fdatasync", "ftruncate", "truncate", "rename", "renameat", "renameat2", "linkat", "copy_file_range", "sendfile", "fallocate"} {
						for _, errno := range []string{"EIO", "ENOSPC", "EDQUOT", "EACCES", "EROFS", "EPERM"} {
							for _, k := range []string{"1", "2", "1+"} {
								if !e.Thorough && (k == "2" || errno == "EDQUOT" || errno == "EPERM" || errno == "EROFS") {
									continue
								}
								cliCase(e, "fault", Scenario{Files: f, Dirs: []string{"out"}, Steps: []Step{{In: "db.kf", Out: "out", Fault: "inject " + sc + " " + errno + " " + k + " out/db.json"}}})
							}
						}
					}
				}
			}
		}},
	}
	register(&Prop{ID: "C22", Prepare: cliPrepare, Rule: "every byte at which the storage can end, every full or unusable target, every failing system call on the output file: a run that reports success must have stored the complete output",
		Assume: []string{"kernel faults are produced by resource limits, devices, small file systems and strace's error injection; where the sandbox refuses one of these, its cases are counted as not producible"},
		Spaces: append(faults, permissions("fault"))})
	props["C27"].Prepare = cliPrepare
	props["C27"].Spaces = append([]Space{sources("trace", true), histories2()}, props["C27"].Spaces...)
}

// histories2: sequences of runs with and without the trace option.
func histories2() Space {
	return Space{"every sequence of up to 3 runs with and without the trace option", func(e *Emit) {
		f := map[string]string{"d1/db.kf": cliLong, "d2/db.kf": cliShort, "d3/db.kf": cliBad[0], "d5/db.kf": cliBad[1]}
		ins := []string{"d1/db.kf", "d2/db.kf", "d3/db.kf", "d5/db.kf"}
		seqs(len(ins)*2, 1, e.Pick(2, 3), func(x []int) {
			for k := 0; k < 3 && len(x) <= 2; k++ {
				sc := Scenario{Files: f}
				for i, k2 := range x {
					sc.Steps = append(sc.Steps, Step{In: ins[k2/2], Out: "o", Trace: k2%2 == 1, Fault: []string{"stdout full", "stderr full", "both closed"}[(k+i)%3]})
				}
				cliCase(e, "trace", sc)
			}
			for _, out := range []string{"o", "", "build", ".", "o/p"} {
				for st := 0; st < 10; st += 5 - 4*min(1, 2/len(x)) {
					if st%5 == 4 && out == "" {
						continue
					}
					sc := Scenario{Files: f}
					for i, k := range x {
						sc.Steps = append(sc.Steps, Step{In: ins[k/2], Out: out, Trace: k%2 == 1, Style: st + i})
					}
					cliCase(e, "trace", sc)
				}
			}
		})
	}}
}
