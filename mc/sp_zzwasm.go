package main

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
	"unicode/utf8"
)

// The browser binding (C24): the wasm build of /repo/wasm runs in node, driven
// through globalThis.parseKuneiform, compared with the library.

//go:embed wasm_host.js
var wasmHost []byte

func buildWasm(dir string) {
	out := filepath.Join(dir, "kuneiform.wasm")
	cmd := exec.Command("go", "build", "-o", out, "./wasm")
	cmd.Dir = repoDir()
	cmd.Env = append(os.Environ(), "GOOS=js", "GOARCH=wasm")
	if b, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "the wasm package does not build: %v\n%s", err, b)
		os.Exit(2)
	}
	must(os.WriteFile(filepath.Join(dir, "host.js"), wasmHost, 0o644))
	b, err := exec.Command("go", "env", "GOROOT").Output()
	must(err)
	os.Setenv("MC_WASM", dir)
	os.Setenv("MC_WASM_EXEC", filepath.Join(strings.TrimSpace(string(b)), "lib", "wasm", "wasm_exec.js"))
}

// A WCall is one call: its arguments, strings or {"v": name of a special value}.
type WCall []any

// A WScenario is a sequence of calls on one instance.
type WScenario struct {
	Fresh    bool    `json:"fresh"`
	Pause    bool    `json:"pause"`              // let the event loop turn between calls
	Scribble bool    `json:"scribble,omitempty"` // the page overwrites every answer it gets
	Calls    []WCall `json:"calls"`
}

type wAnswer struct {
	Kind, Text, JSON, Error string
	Keys                    []string
}

type nodeProc struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	lines chan string
	fresh int
}

var node *nodeProc

func startNode() *nodeProc {
	if os.Getenv("MC_WASM") == "" {
		dir, err := os.MkdirTemp("", "mc-wasm-")
		must(err)
		buildWasm(dir)
	}
	d := os.Getenv("MC_WASM")
	p := &nodeProc{cmd: exec.Command("node", filepath.Join(d, "host.js"), filepath.Join(d, "kuneiform.wasm"), os.Getenv("MC_WASM_EXEC")), lines: make(chan string, 4)}
	p.in, _ = p.cmd.StdinPipe()
	out, err := p.cmd.StdoutPipe()
	must(err)
	must(p.cmd.Start())
	go func() {
		rd := bufio.NewReader(out)
		for {
			l, err := rd.ReadString('\n')
			if err != nil {
				close(p.lines)
				return
			}
			p.lines <- l
		}
	}()
	return p
}

func (p *nodeProc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func (s *WScenario) run() (answers []wAnswer, problem string) {
	if node != nil && s.Fresh && node.fresh >= 40 {
		node.stop()
		node = nil
	}
	if node == nil {
		node = startNode()
	}
	if s.Fresh {
		node.fresh++
	}
	b, err := json.Marshal(s)
	must(err)
	if _, err := node.in.Write(append(b, '\n')); err != nil {
		node.stop()
		node = nil
		return nil, "the host ended: " + err.Error()
	}
	select {
	case l, ok := <-node.lines:
		if !ok {
			node.stop()
			node = nil
			return nil, "the host ended during the calls"
		}
		must(json.Unmarshal([]byte(l), &answers))
	case <-time.After(50 * time.Second):
		node.stop()
		node = nil
		return nil, "no answer within 50 s"
	}
	return answers, ""
}

func init() {
	oracles["wasm"] = func(c *Case) (string, string) {
		var s WScenario
		if json.Unmarshal([]byte(c.S), &s) != nil {
			return "", "unreadable scenario"
		}
		return s.judge()
	}
	// the same input alphabet as the other checks, one call on a long-lived instance
	oracles["wasm-text"] = func(c *Case) (string, string) {
		if !utf8.ValidString(c.S) {
			return "", "not a JavaScript string"
		}
		s := WScenario{Calls: []WCall{{c.S}}}
		return s.judge()
	}
	register(&Prop{ID: "C24", Prepare: func(r *Run) { buildWasm(r.Dir) },
		Rule:   "the wasm build runs in node; every listed input and every sequence of good, bad and malformed calls up to the bound is called through globalThis.parseKuneiform; each answer is compared with the library's",
		Assume: []string{"node's WebAssembly engine and Go's wasm_exec.js stand for the browser", "inputs are JavaScript strings without lone surrogates"},
		Spaces: wasmSpaces()})
}

func (s *WScenario) judge() (string, string) {
	answers, problem := s.run()
	hist := ""
	for i, c := range s.Calls {
		touch(fmt.Sprint(hist, s.Fresh), 1)
		where := sp("call %d of %d: ", i+1, len(s.Calls))
		if i >= len(answers) {
			if problem == "" {
				problem = "not answered"
			}
			return where + problem, hist
		}
		a := answers[i]
		if a.Kind == "throw" || a.Kind == "ended" {
			return where + a.Kind + " " + a.Text, hist
		}
		if len(c) != 1 {
			if a.Kind != "string" || a.Text == "" {
				return where + sp("%d arguments were answered with %s", len(c), clip(fmt.Sprint(a), 300)), hist
			}
			hist += "n"
			continue
		}
		if a.Kind != "object" {
			return where + sp("answered with %s", clip(fmt.Sprint(a), 300)), hist
		}
		src, isText := c[0].(string)
		if !isText {
			if a.JSON != "" || a.Error == "" {
				return where + sp("an argument that is no string was answered with %s", clip(fmt.Sprint(a), 300)), hist
			}
			hist += "t"
			continue
		}
		g := parse(src)
		if g.Kind != "" {
			switch {
			case a.JSON != "":
				return where + sp("the library rejects the input (%v), the binding returns JSON %s", g.Err, clip(a.JSON, 300)), hist
			case a.Error == "":
				return where + sp("the library rejects the input (%v), the binding returns no error", g.Err), hist
			case g.Kind != "panic" && !strings.Contains(a.Error, g.Err.Error()):
				return where + sp("the library's error is %q, the binding's %q", clip(g.Err.Error(), 300), clip(a.Error, 300)), hist
			}
			hist += "b"
			continue
		}
		b, err := g.Schema.ToJSON()
		if err != nil {
			return "", "not serialisable"
		}
		if a.Error != "" {
			return where + sp("the library accepts the input, the binding's error is %q", clip(a.Error, 300)), hist
		}
		if a.JSON != string(b) {
			return where + sp("the library's JSON is %s, the binding's %s", clip(string(b), 400), clip(a.JSON, 400)), hist
		}
		hist += "g"
	}
	return "", "calls " + clip(hist, 8)
}

func wasmSpaces() []Space {
	wcase := func(e *Emit, s WScenario) {
		b, err := json.Marshal(s)
		must(err)
		e.Case("wasm", string(b))
	}
	v := func(n string) any { return map[string]any{"v": n} }
	specials := []string{"undefined", "null", "nan", "one", "yes", "no", "object", "array", "function", "symbol", "boxed", "date", "tostring"}
	return []Space{
		{"every source of the shared alphabet, alone", func(e *Emit) {
			var l []string
			l = append(append(append(l, histSources...), basePrograms...), layoutBases...)
			l = append(l, "", " ", "\x00", "é", "\U0001F600", "database d", "database é;", "database d; // 世", "database d; action a() { select '世\U0001F600\u2028'; }", "\ufeffdatabase d;", "database d;\ufeff",
				"database d; table t { a text default('"+strings.Repeat("é\"\\\\", 300)+"') }", cliHuge, "database d; "+strings.Repeat("// x\n", 3000))
			for _, s := range l {
				e.Case("wasm-text", s)
				wcase(e, WScenario{Fresh: true, Calls: []WCall{{s}}})
				wcase(e, WScenario{Fresh: true, Calls: []WCall{{s}, {s}, {s}}})
			}
		}},
		{"every kitchen source up to 1 (2) deviations", func(e *Emit) {
			k := kitchen()
			deviate(k, e.Pick(1, 2), func(ch []int) { e.Case("wasm-text", assemble(k, ch)) })
		}},
		{"every statement in every spelling, and every sequence of 2 (3) declarations", func(e *Emit) {
			for _, s := range mixStmts {
				for _, v := range respell(s) {
					e.Case("wasm-text", "database d; use x as e; action a ($p, $q) { "+v+" }")
					e.Case("wasm-text", "database d;\nuse x as e;\n\ninit() {\n\tselect 1;\n\t"+v+"\n}\n")
					e.Case("wasm-text", "database d; use x as e; action a ($p, $q) { select 1;"+v)
				}
			}
			for _, s := range append(append([]string{}, sqlForbidden...), sqlBroken...) {
				for _, sep := range []string{" ", "\n", "\r\n", "\n\n"} {
					e.Case("wasm-text", "database d; action a ($p) { "+strings.ReplaceAll(s, " ", sep)+"; }")
				}
				for i := range s {
					if s[i] == ' ' && e.Thorough {
						e.Case("wasm-text", "database d; action a ($p) { "+s[:i]+"\n"+s[i:]+"; }")
					}
				}
			}
			seqs(len(mixDecls), 1, e.Pick(2, 3), func(x []int) {
				e.Case("wasm-text", "database db; use x {k: 'v'} as e;\n"+pick(mixDecls, x, "\n"))
			})
			for _, p := range mixPrograms {
				t := texts(lexOK(p))
				for i := range t {
					for _, sep := range []string{" ", "\n"} {
						e.Case("wasm-text", joinTexts(append(append([]string{}, t[:i]...), t[i+1:]...), sep))
						e.Case("wasm-text", joinTexts(append(append(append([]string{}, t[:i]...), t[i]), t[i:]...), sep))
					}
				}
			}
		}},
		{"every truncation of the example sources", func(e *Emit) {
			for _, s := range append(append([]string{}, basePrograms...), histSources...) {
				for i := range s {
					e.Case("wasm-text", s[:i])
				}
			}
		}},
		{"every sequence of up to 4 (5) calls, good, bad and malformed, on a fresh instance", func(e *Emit) {
			al := []WCall{{histSources[3]}, {histSources[7]}, {histSources[1]}, {histSources[9]}, {"database"}, {}, {histSources[3], histSources[3]}, {v("undefined")}}
			seqs(len(al), 1, e.Pick(3, 4), func(x []int) {
				s := WScenario{Fresh: true, Pause: len(x)%2 == 0}
				for _, i := range x {
					s.Calls = append(s.Calls, al[i])
				}
				s.Calls = append(s.Calls, WCall{histSources[0]}, WCall{"database d; x"})
				wcase(e, s)
			})
			seqs(4, 4, e.Pick(4, 6), func(x []int) {
				s := WScenario{Fresh: true}
				for _, i := range x {
					s.Calls = append(s.Calls, []WCall{al[0], al[3], al[5], al[6]}[i])
				}
				wcase(e, s)
			})
		}},
		{"every number of arguments, every value that is no string, before and after good and bad calls", func(e *Emit) {
			good, bad := WCall{histSources[5]}, WCall{histSources[4]}
			var odd []WCall
			for _, n := range []int{0, 2, 3, 4, 10, 50} {
				var a, b WCall
				for i := 0; i < n; i++ {
					a, b = append(a, histSources[3]), append(b, v("one"))
				}
				odd = append(odd, a, b)
			}
			odd = append(odd, WCall{histSources[3], v("undefined")}, WCall{v("undefined"), histSources[3]}, WCall{"", ""})
			for _, n := range specials {
				odd = append(odd, WCall{v(n)})
			}
			for _, o := range odd {
				if o == nil {
					o = WCall{}
				}
				for _, fresh := range []bool{true, false} {
					wcase(e, WScenario{Fresh: fresh, Calls: []WCall{o}})
					wcase(e, WScenario{Fresh: fresh, Calls: []WCall{o, good, o, bad, o, good}})
					wcase(e, WScenario{Fresh: fresh, Calls: []WCall{good, o, good}})
					wcase(e, WScenario{Fresh: fresh, Pause: true, Calls: []WCall{bad, o, bad, good}})
				}
			}
		}},
		{"long runs of failing calls", func(e *Emit) {
			for _, n := range []int{8, 64, e.Pick(200, 3000)} {
				for _, f := range []WCall{{"database"}, {histSources[9]}, {}, {"a", "b"}, {histSources[10]}, {v("null")}} {
					s := WScenario{Fresh: true}
					for i := 0; i < n; i++ {
						s.Calls = append(s.Calls, f)
					}
					s.Calls = append(s.Calls, WCall{histSources[3]}, f, WCall{histSources[5]})
					wcase(e, s)
				}
			}
		}},
	}
}
