package main

import (
	"strings"

	"verifmc/ref"
)

// Spaces of C06, C07, C16, C17: syntax.

// A graph of the reference recogniser: states reachable within a nesting bound,
// with a shortest token string leading to each and one completing each.
type graph struct {
	ids    []int             // reached states, in breadth-first order
	prefix map[int][]ref.Tok // shortest way in
	suffix map[int][]ref.Tok // shortest way to acceptance, EOF excluded
	succ   map[int]map[ref.Tok]int
	trans  int
}

var graphs = map[int]*graph{}

func buildGraph(maxDepth int) *graph {
	if g := graphs[maxDepth]; g != nil {
		return g
	}
	g := &graph{prefix: map[int][]ref.Tok{0: {}}, suffix: map[int][]ref.Tok{}, succ: map[int]map[ref.Tok]int{}}
	g.ids = []int{0}
	for i := 0; i < len(g.ids); i++ {
		id := g.ids[i]
		g.succ[id] = map[ref.Tok]int{}
		st := ref.StateByID(id)
		for _, k := range st.Viable() {
			n := ref.StateNext(id, k)
			g.succ[id][k] = n
			g.trans++
			if _, ok := g.prefix[n]; ok || k == ref.EOF || ref.StateByID(n).Depth() > maxDepth {
				continue
			}
			g.prefix[n] = append(append([]ref.Tok{}, g.prefix[id]...), k)
			g.ids = append(g.ids, n)
		}
	}
	// shortest completions, by relaxation
	for changed := true; changed; {
		changed = false
		for _, id := range g.ids {
			for k := ref.Tok(0); int(k) < ref.NumToks; k++ {
				n, ok := g.succ[id][k]
				if !ok {
					continue
				}
				var cand []ref.Tok
				if k == ref.EOF {
					cand = []ref.Tok{}
				} else if s, ok := g.suffix[n]; ok {
					cand = append([]ref.Tok{k}, s...)
				} else {
					continue
				}
				if old, ok := g.suffix[id]; !ok || len(cand) < len(old) {
					g.suffix[id] = cand
					changed = true
				}
			}
		}
	}
	graphs[maxDepth] = g
	return g
}

func render(kinds []ref.Tok, sep string) string {
	p := make([]string, 0, len(kinds))
	for _, k := range kinds {
		if k != ref.EOF {
			p = append(p, ref.Sample(k))
		}
	}
	return strings.Join(p, sep)
}

func cat(xs ...[]ref.Tok) []ref.Tok {
	var out []ref.Tok
	for _, x := range xs {
		out = append(out, x...)
	}
	return out
}

// maxDepth is the deepest state needed: found by the nesting of one call argument in parentheses.
const depthQuick, depthThorough = 13, 17

// base programs: token material for edits; every construct, in several sizes.
var basePrograms = []string{
	"database db;",
	"database db; use x as e; use y {a: 1, b: 'v'} as f;",
	"database db; table t { a int primary, b text notnull minlen(1) maxlen(9), c blob default('x'), #i index(a, b), fk (a) ref u (x) on_update do cascade on_delete set_null, } table u { x int unique min(0) max(5) }",
	"database db; @n(k=1, s='a') @m(z='') action a ($p, $q) public view owner { select 1; $r, $s = e.m(1, 'x', $p, @caller); b(); }",
	"database db; action b() private { insert into t values (1); update t set a=1; delete from t; with c as (select 1) select * from c; } init() { select 2; }",
	"database db; action c($x) { f(not $x and 1 or -2 * (3 + abs($x)) <= 4, lower('A') = 'a', abs(*), +1 - -1 / 2 % 3, 1 <> 2, 1 != 2, 1 < 2, 1 > 2, 1 >= 2, ~1 | 2 & 3 << 1 >> 2 || 'z' == 4); }",
	"database db; table t { " + numbered(12, ", ", func(i int) string { return sp("c%d int notnull", i) }) + ", " + numbered(6, ", ", func(i int) string { return sp("#i%d unique(c%d, c%d)", i, i, i+1) }) + " }",
	"database db; " + numbered(8, " ", func(i int) string { return sp("action a%d($p%d) public { select %d; a%d($p%d); }", i, i, i, i, i) }) + " init() { a0(1); }",
}

func lexOK(s string) []ref.Token {
	toks, bad := ref.Lex(s)
	if bad != nil {
		panic("base program: " + s)
	}
	return toks[:len(toks)-1]
}

func joinTexts(toks []string, sep string) string { return strings.Join(toks, sep) }

var allToks = func() []ref.Tok {
	var out []ref.Tok
	for k := ref.Tok(1); int(k) < ref.NumToks; k++ {
		out = append(out, k)
	}
	return out
}()

func graphSpace(o string, seps []string) Space {
	return Space{"every reachable grammar position, every token: following, missing, extra, wrong, last", func(e *Emit) {
		g := buildGraph(e.Pick(depthQuick, depthThorough))
		em := func(k []ref.Tok) {
			for _, s := range seps {
				e.Case(o, render(k, s))
			}
		}
		for _, id := range g.ids {
			pre, suf := g.prefix[id], g.suffix[id]
			if _, ok := g.suffix[id]; !ok {
				continue
			}
			em(pre)
			em(cat(pre, suf))
			for _, t := range allToks {
				if n, ok := g.succ[id][t]; ok {
					if s, ok := g.suffix[n]; ok {
						em(cat(pre, []ref.Tok{t}, s))
					}
					continue
				}
				em(cat(pre, []ref.Tok{t}, suf)) // extra
				em(cat(pre, []ref.Tok{t}))      // last
				if len(suf) > 0 {
					em(cat(pre, []ref.Tok{t}, suf[1:])) // wrong
				}
				for _, v := range allToks { // wrong, for every other way on
					if n, ok := g.succ[id][v]; ok {
						if s, ok := g.suffix[n]; ok {
							em(cat(pre, []ref.Tok{t}, s))
						}
					}
				}
			}
		}
	}}
}

func pairSpace(o string) Space {
	return Space{"every reachable grammar position, every two tokens the grammar allows, every third token", func(e *Emit) {
		g := buildGraph(depthQuick)
		for _, id := range g.ids {
			for _, t := range allToks {
				n, ok := g.succ[id][t]
				if !ok {
					continue
				}
				for _, u := range allToks {
					m, ok := g.succ[n][u]
					if !ok {
						continue
					}
					p := cat(g.prefix[id], []ref.Tok{t, u})
					if s, ok := g.suffix[m]; ok {
						e.Case(o, render(cat(p, s), " "))
						if e.Thorough {
							for _, v := range allToks {
								if m2, ok := g.succ[m][v]; ok {
									if s2, ok := g.suffix[m2]; ok {
										e.Case(o, render(cat(p, []ref.Tok{v}, s2), " "))
									}
								} else {
									e.Case(o, render(cat(p, []ref.Tok{v}, s), " "))
								}
							}
						}
					}
				}
			}
		}
	}}
}

// tokenEdits applies every single-token edit to the base programs.
func tokenEdits(o string, seps []string, dbl bool) Space {
	return Space{"base programs: every token deleted, doubled, swapped, replaced and preceded by every token", func(e *Emit) {
		for _, b := range basePrograms {
			toks := lexOK(b)
			t := texts(toks)
			em := func(parts ...[]string) {
				var all []string
				for _, p := range parts {
					all = append(all, p...)
				}
				for _, s := range seps {
					e.Case(o, joinTexts(all, s))
				}
			}
			em(t)
			for i := range t {
				em(t[:i])
				em(t[:i], t[i+1:])
				em(t[:i], t[i:i+1], t[i:])
				if i+1 < len(t) {
					em(t[:i], []string{t[i+1], t[i]}, t[i+2:])
					em(t[:i], t[i+2:])
				}
				for _, k := range allToks {
					w := ref.Sample(k)
					em(t[:i], []string{w}, t[i:])
					em(t[:i], []string{w}, t[i+1:])
				}
				if dbl && e.Thorough {
					for j := i + 1; j < len(t); j++ {
						em(t[:i], t[i+1:j], t[j+1:])
						em(t[:i], t[j:j+1], t[i+1:j], t[i:i+1], t[j+1:])
					}
				}
			}
		}
	}}
}

var asciiAndMore = func() []string {
	var out []string
	for r := rune(0); r < 128; r++ {
		out = append(out, string(r))
	}
	for _, r := range []rune{0x80, 0x85, 0xa0, 0xe9, 0x3b1, 0x2028, 0x3000, 0xfeff, 0xff1b, 0x1f600} {
		out = append(out, string(r))
	}
	return out
}()

func charEdits(o string, programs []string, rep bool) Space {
	return Space{"base programs: every character deleted, and every ASCII and some other characters inserted or put in its place", func(e *Emit) {
		for _, b := range programs {
			for i := 0; i <= len(b); i++ {
				e.Case(o, b[:i])
				if i < len(b) {
					e.Case(o, b[:i]+b[i+1:])
				}
				for _, c := range asciiAndMore {
					e.Case(o, b[:i]+c+b[i:])
					if rep && i < len(b) {
						e.Case(o, b[:i]+c+b[i+1:])
					}
				}
			}
		}
	}}
}

// foreign texts are ones a program might take out, expand, or stop at before it parses.
var foreign = []string{"#!/bin/kf\n", "#!x", "# x\n", "#\n", "-- x\n", "--", "; x\n", "%YAML 1.2\n", "---\n", "...", "<?xml?>", "<!-- x -->", "<!--", "-->", "#include <x>\n", "//go:build x\n", "\\\n", "\\\r\n", "\\", "\\n", "\\u0020", "&nbsp;", "&#32;", "%20", "+", "``", "`x`", "```\n", "\"x\"", "\"\"\"", "\u201c", "\u2019", "\uff1b", "\uff0c", "\uff08", "\u3000", "\u00a0", "\u2003", "\u200b", "\u200d", "\u2028", "\u2029", "\u0085", "\u00ad", "\ufeff", "\ufffe", "\ufffd", "\xef\xbb\xbf", "\xef\xbb", "\xff\xfe", "\xc0\x80", "\x00", "\x04", "\x1a", "\x1b[0m", "\x7f", "\b", "\a", "\v", "\f", "\r", "\r\n", "\n\r", "__END__\n", "\n__END__\nx", "EOF", "\nEOF\n", "<EOF>", "<<<<<<< x\n", "=======\n", ">>>>>>> x\n", "REM x\n", "begin;", "end", "{{x}}", "{%x%}", "${x}", "$(x)", "$x", "@x", "@import x;", "'use strict';", "use strict;", "import x;", "version 1;", "null", "0", ";", ";;", "{}", "()", "[]", "[x]", "...", "?", "!", "~", "^", "|", "&", "&&", "||", "==", "=>", "->", ":", "::", ":=", "<", ">", "\t\t", "\u0430", "\U0001F600"}

func foreignSpace(o string, ctx string) Space {
	return Space{"texts a program might take out, expand or stop at, " + ctx, func(e *Emit) {
		for _, b := range basePrograms[:6] {
			toks := lexOK(b)
			base := layout(toks, func(int) string { return " " })
			for _, f := range foreign {
				if ctx == "in comments" {
					f = strings.ReplaceAll(strings.ReplaceAll(f, "\n", ""), "\r", "")
				}
				for i := 0; i <= len(toks); i++ {
					for k, w := range []string{f, " " + f + " ", "\n" + f + "\n"} {
						if k > 0 && !e.Thorough && (i+k)%3 != 0 {
							continue
						}
						switch ctx {
						case "in comments":
							w = []string{"//" + f + "\n", "/*" + f + "*/", " // " + f + " " + f + "\n"}[k]
							if k == 1 && strings.Contains(f, "*/") {
								continue
							}
							e.Case(o, layout(toks, func(at int) string {
								if at == i {
									return w
								}
								return " "
							}), base)
							continue
						}
						e.Case(o, layout(toks, func(at int) string {
							if at == i {
								return w
							}
							return " "
						}))
					}
				}
				if ctx != "in comments" {
					e.Case(o, f)
					e.Case(o, f+f)
					e.Case(o, f+b)
					e.Case(o, b+f)
					e.Case(o, b+"\n"+f+b)
					e.Case(o, f+b+f)
					e.Case(o, "\n"+f+b)
					e.Case(o, " "+f+b)
					e.Case(o, f+"\n"+b)
				}
			}
		}
	}}
}

func lexSpaces(o string) []Space {
	return []Space{
		{"string literals: every content over a small alphabet, in every literal position", func(e *Emit) {
			al := []string{"a", "'", "\\", "\n", "\r", "\"", ";", "}", "é", " "}
			frames := []string{"database d; table t { a text default('%') }", "database d; use x {k: '%'} as e;", "database d; @n(k='%') action a() { select 1; }", "database d; action a() { a('%', 1); }"}
			seqs(len(al), 0, e.Pick(4, 5), func(x []int) {
				s := pick(al, x, "")
				for i, f := range frames {
					if len(x) <= 3 || i == len(x)%4 {
						e.Case(o, strings.Replace(f, "%", s, 1))
					}
				}
			})
		}},
		{"numbers and names: every short spelling", func(e *Emit) {
			al := []string{"0", "9", "a", "Z", "_", "-", "+", ".", "$", "#", "@", "é", " "}
			seqs(len(al), 1, e.Pick(3, 4), func(x []int) {
				s := pick(al, x, "")
				for _, f := range []string{"database %;", "database d; table % { a int }", "database d; table t { % int }", "database d; table t { a int default(%) }", "database d; table t { a int, #% index(a) }",
					"database d; table t { a int min(%) }", "database d; action a($%) { select 1; }", "database d; action %() { select 1; }", "database d; @% (k=1) action a() { select 1; }", "database d; use % as e;", "database d; use x as %;", "database d; action a() { %; }", "database d; action a() { a(%); }"} {
					e.Case(o, strings.Replace(f, "%", s, 1))
				}
			})
		}},
		{"sql text boundaries", func(e *Emit) {
			al := []string{"1", " ", ";", "}", "'", "/", "*", "\n", "select", "-"}
			seqs(len(al), 0, e.Pick(4, 5), func(x []int) {
				s := pick(al, x, "")
				e.Case(o, "database d; action a() { select"+s+"; }")
				e.Case(o, "database d; action a() { select 1"+s+"; f(); }")
			})
		}},
		{"keywords: every letter case of every keyword, in every keyword's place", func(e *Emit) {
			for _, b := range basePrograms[:6] {
				toks := lexOK(b)
				t := texts(toks)
				for i, tk := range toks {
					if tk.Kind < ref.KDATABASE || tk.Kind > ref.KOR {
						continue
					}
					for _, v := range caseVariants(tk.Text) {
						c := append([]string{}, t...)
						c[i] = v
						e.Case(o, joinTexts(c, " "))
					}
				}
			}
			for _, k := range ref.SQLKeywords() {
				for _, v := range caseVariants(k) {
					for _, w := range []string{" 1", "\t1", "\n1", "(1)", "", "x 1", "_ 1", " ", "  "} {
						e.Case(o, "database d; action a() { "+v+w+"; }")
					}
				}
			}
		}},
		{"long lists, one of them broken at every place", func(e *Emit) {
			for _, n := range sizes(e) {
				for _, brk := range []string{"", ";", ",", "x", "table"} {
					for _, at := range []int{0, n / 2, n - 1} {
						w := func(i int) string {
							if i == at {
								return brk + " "
							}
							return ""
						}
						e.Case(o, dbWith("table t { "+numbered(n, ", ", func(i int) string { return sp("c%d %sint", i, w(i)) })+" }"))
						e.Case(o, dbWith("table t { a int, #i index("+numbered(n, ", ", func(i int) string { return w(i) + "a" })+") }"))
						e.Case(o, dbWith("use x {"+numbered(n, ", ", func(i int) string { return w(i) + "a: 1" })+"} as e;"))
						e.Case(o, dbWith(numbered(n, " ", func(i int) string { return "use x " + w(i) + "as e;" })))
						e.Case(o, dbWith("action a("+numbered(n, ", ", func(i int) string { return w(i) + "$a" })+") { select 1; }"))
						e.Case(o, dbWith("action a() { "+numbered(n, " ", func(i int) string { return "f(1" + w(i) + ");" })+" }"))
						e.Case(o, dbWith("action a() { f("+numbered(n, ", ", func(i int) string { return "1 +" + w(i) + " 2" })+"); }"))
						e.Case(o, dbWith(numbered(n, " ", func(i int) string { return "@n(k=1" + w(i) + ")" })+" action a() { select 1; }"))
						e.Case(o, dbWith(numbered(n, " ", func(i int) string { return sp("table t%d { a int%s }", i, w(i)) })))
						e.Case(o, dbWith("action a() "+strings.Repeat("owner ", n)+w(at)+" { select 1; }"))
						if n <= 48 {
							e.Case(o, dbWith("action a() { f("+strings.Repeat("(", n)+"1"+w(at)+strings.Repeat(")", n)+"); }"))
							e.Case(o, dbWith("action a() { f("+strings.Repeat("(", n)+"1"+strings.Repeat(")", n-1)+"); }"))
							e.Case(o, dbWith("action a() { f("+strings.Repeat("(", n)+"1"+strings.Repeat(")", n+1)+"); }"))
							e.Case(o, dbWith("action a() { f("+strings.Repeat("g(", n)+w(at)+strings.Repeat(")", n)+"); }"))
						}
					}
				}
			}
		}},
	}
}

func caseVariants(w string) []string {
	up := strings.ToUpper(w)
	out := []string{w, up, up[:1] + w[1:], w[:len(w)-1] + up[len(w)-1:], w + "_", w + "x", w + "1", "x" + w, "_" + w, w[:len(w)-1]}
	if len(w) > 3 {
		out = append(out, w[:2]+up[2:3]+w[3:])
	}
	return out
}

// --- C07: layout ---

var trivia = []string{"", " ", "  ", "\t", "\n", "\r\n", "\r", " \n\t", "// c\n", "// c\r\n", "//\n", "/**/", "/* c */", "/***/", "/* ' */", "// '\n", "/* \n */", "// ; } { ) \n", "/* // */", "// /* \n", "/* ; */", "//* x\n", "/*/ */", "// */\n", "/* é */", "/* \" */", "/* * / */", "//select 1;\n", "/* action z() { select 1; } */"}

func mergeFree(a, b ref.Token) bool {
	toks, bad := ref.Lex(a.Text + b.Text)
	return bad == nil && len(toks) == 3 && toks[0].Text == a.Text && toks[1].Text == b.Text && toks[0].Kind == a.Kind && toks[1].Kind == b.Kind
}

// layout joins tokens with chosen trivia; gap i precedes token i, the last gap
// follows the last token. No trivia goes between SQL text and its semicolon.
func layout(toks []ref.Token, gap func(i int) string) string {
	var b strings.Builder
	for i := 0; i <= len(toks); i++ {
		g := gap(i)
		switch {
		case i > 0 && toks[i-1].Kind == ref.SQLSTMT:
			g = ""
		case i > 0 && i < len(toks) && g == "" && !mergeFree(toks[i-1], toks[i]):
			g = " "
		case i > 0 && strings.HasPrefix(g, "/") && (toks[i-1].Kind == ref.DIV):
			g = " " + g
		}
		b.WriteString(g)
		if i < len(toks) {
			b.WriteString(toks[i].Text)
		}
	}
	return b.String()
}

var layoutBases = []string{
	"database db; use x as e; use y {a: 1, b: 'v // w'} as f; table t { a int primary, b text notnull minlen(1) default('/* q */'), #i index(a, b), fk (a) ref u (x) on_update do cascade on_delete set_null, } table u { x int }",
	"database db; use x as e; table t {a int} @n(k=1, s='a  b') @m(z='//') action a ($p, $q) public view owner { select  1 -- c\n ; $r, $s = e.m(1, 'x  y', $p, @caller); b(); } action b() private { insert into t values (1); } init() { b(); select 'a'; }",
	"database db; use x as e; action a($x, $y) { a(not $x and 1 or -2 * (3 + abs($x)) <= 4, lower('A') = 'a', +1 - -1 / 2 % 3, 1 <> 2 ); e.m($x or $y); }",
	"database db; action a() public public { select 1; }",
	"database db; table t { a int } table t { b int }",
	"database db; action a() { nope($z); }",
	"database db; table t { a int, #i index(b) }",
	"database db; action a() { select from where; }",
	"database db; table t { a int b text }",
	"database db table t { a int }",
}

func init() {
	// C07 compares with the plain layout of the same tokens.
	oracles["layout"] = func(c *Case) (string, string) {
		base := parse(c.X[0])
		g := parse(c.S)
		out := g.label()
		if g.Kind != base.Kind {
			return sp("layout changes the result: with plain layout %s, here %s", base.String(), g.String()), out
		}
		if g.Kind == "" {
			a, _ := base.Schema.ToJSON()
			b, _ := g.Schema.ToJSON()
			if string(a) != string(b) {
				return sp("layout changes the schema: %s versus %s", a, b), out
			}
		}
		return "", out
	}
	layoutSpaces := []Space{
		{"one gap at a time: every trivia in every gap", func(e *Emit) {
			for _, b := range layoutBases {
				toks := lexOK(b)
				base := layout(toks, func(int) string { return " " })
				for i := 0; i <= len(toks); i++ {
					for _, t := range trivia {
						for _, rest := range []string{" ", "", "\n"} {
							if rest != " " && !e.Thorough && i%3 != len(rest) {
								continue
							}
							e.Case("layout", layout(toks, func(k int) string {
								if k == i {
									return t
								}
								return rest
							}), base)
						}
					}
				}
				// trivia without a final newline, at the end of the source
				for _, t := range []string{"//", "// end", "/* end */", "\t", "//\r"} {
					e.Case("layout", base+t, base)
					e.Case("layout", base+"\n"+t, base)
				}
			}
		}},
		{"the same trivia in all gaps, and in all gaps but one", func(e *Emit) {
			for _, b := range layoutBases {
				toks := lexOK(b)
				base := layout(toks, func(int) string { return " " })
				for _, t := range trivia {
					e.Case("layout", layout(toks, func(int) string { return t }), base)
					for _, u := range trivia {
						e.Case("layout", layout(toks, func(i int) string {
							if i%2 == 0 {
								return t
							}
							return u
						}), base)
					}
					for i := 0; i <= len(toks); i++ {
						e.Case("layout", layout(toks, func(k int) string {
							if k == i {
								return ""
							}
							return t
						}), base)
					}
				}
			}
		}},
		{"two gaps: every pair of places, every pair of trivia", func(e *Emit) {
			ts := []string{"", "// c\n", "/* ' */", "\r\n", "/* } */", "// '\n"}
			if e.Thorough {
				ts = trivia
			}
			for _, b := range layoutBases[:3] {
				toks := lexOK(b)
				base := layout(toks, func(int) string { return " " })
				for i := 0; i <= len(toks); i++ {
					for j := i + 1; j <= len(toks); j++ {
						if !e.Thorough && j > i+3 && (i+j)%5 != 0 {
							continue
						}
						for _, t := range ts {
							for _, u := range ts {
								e.Case("layout", layout(toks, func(k int) string {
									switch k {
									case i:
										return t
									case j:
										return u
									}
									return " "
								}), base)
							}
						}
					}
				}
			}
		}},
		{"comments: every short content", func(e *Emit) {
			al := []string{"*", "/", "'", "\\", "a", "\n", "\r", ";", "}", "\""}
			toks := lexOK(layoutBases[0])
			base := layout(toks, func(int) string { return " " })
			seqs(len(al), 0, e.Pick(4, 5), func(x []int) {
				s := pick(al, x, "")
				if !strings.Contains(s+"*/", "*/") || strings.Index(s+"*/", "*/") == len(s) {
					for _, at := range []int{0, 7, len(toks) - 1} {
						e.Case("layout", layout(toks, func(k int) string {
							if k == at {
								return "/*" + s + "*/"
							}
							return " "
						}), base)
					}
				}
				if !strings.ContainsAny(s, "\n\r") {
					e.Case("layout", layout(toks, func(k int) string {
						if k == 9 {
							return "//" + s + "\n"
						}
						return " "
					}), base)
				}
			})
			for r := rune(1); r < 0x250; r++ {
				if r == '\n' || r == '\r' {
					continue
				}
				e.Case("layout", layout(toks, func(k int) string {
					if k%5 == 2 {
						return "//" + string(r) + "\n/*" + string(r) + "*/"
					}
					return " "
				}), base)
			}
		}},
		{"long trivia", func(e *Emit) {
			for _, b := range layoutBases[:3] {
				toks := lexOK(b)
				base := layout(toks, func(int) string { return " " })
				for _, n := range sizes(e) {
					for _, t := range []string{strings.Repeat(" ", n), strings.Repeat("\n", n), strings.Repeat("// c\n", n), strings.Repeat("/* c */", n), "/*" + strings.Repeat("*", n) + "*/", "//" + strings.Repeat("x", n*20) + "\n"} {
						for _, at := range []int{0, 5, len(toks) / 2, len(toks)} {
							e.Case("layout", layout(toks, func(k int) string {
								if k == at {
									return t
								}
								return " "
							}), base)
						}
					}
				}
			}
		}},
		{"comment-like text inside strings stays text", func(e *Emit) {
			al := []string{"/", "*", "//", "/*", "*/", " ", "x", "--"}
			seqs(len(al), 0, 4, func(x []int) {
				s := pick(al, x, "")
				e.Case("full", "database d; use x {k: '"+s+"'} as e; table t { a text default('"+s+"') } @n(k='"+s+"') action a() { a('"+s+"', 1); select '"+s+"'; }")
			})
		}},
	}
	layoutSpaces = append(layoutSpaces, Space{"layout characters inside literals stay as they are", func(e *Emit) {
		al := []string{" ", "\t", "\n", "\r", "a", "'", "\u00a0", "\u2028", "\f", "\v", "\u200b", "\ufeff", "\x01", "\x7f", "\\"}
		seqs(len(al), 0, e.Pick(3, 4), func(x []int) {
			s := strings.ReplaceAll(pick(al, x, ""), "'", "\\'")
			if strings.HasSuffix(s, "\\") && !strings.HasSuffix(s, "\\\\") {
				s += "z"
			}
			e.Case("full", "database d; use x {k: '"+s+"'} as e; table t { a text default('"+s+"') } @n(k='"+s+"') action a() { a('"+s+"', 1); }")
			if !strings.Contains(s, "\\") {
				e.Case("full", "database d; action a() { select '"+s+"' ; a('x"+s+"y'); }")
			}
		})
	}})
	layoutSpaces = append(layoutSpaces, foreignSpace("layout", "in comments"), Space{"texts a program might take out, expand or stop at, in literals", func(e *Emit) {
		for _, f := range foreign {
			f = strings.ReplaceAll(strings.ReplaceAll(f, "\\", "\\\\"), "'", "\\'")
			for _, s := range []string{f, "a" + f + "b", f + f, " " + f, f + " ", "\n" + f + "\n", "x\n" + f} {
				e.Case("full", "database d; use x {k: '"+s+"'} as e; table t { a text default('"+s+"') } @n(k='"+s+"') action a() { a('"+s+"', 1); }")
				if !strings.ContainsAny(s, "\\;") {
					e.Case("full", "database d; action a() { select '"+s+"' ; a('x"+s+"y'); }")
					e.Case("full", "database d; init() { select 1 /* "+s+" */ ; delete from t; }")
				}
			}
		}
	}})
	register(&Prop{ID: "C07", Spaces: layoutSpaces, Rule: "every layout of the listed spaces; the result must be the one of the same tokens separated by single spaces"})

	syn := []Space{graphSpace("syntax", []string{" "}), pairSpace("syntax"), tokenEdits("syntax", []string{" "}, true), charEdits("syntax", basePrograms[:6], false)}
	syn = append(syn, lexSpaces("syntax")...)
	syn = append(syn, kitchenSpace("two deviations from a source using every construct", "syntax", 1, 2))
	syn = append(syn, foreignSpace("syntax", "in every gap"), identSpace("syntax"), itemSpace("syntax"), Space{"base programs without blanks: every token deleted, repeated once and twice, every two tokens put in every place", func(e *Emit) {
		for _, b := range basePrograms[:6] {
			toks := lexOK(b)
			em := func(t []ref.Token) { e.Case("syntax", layout(t, func(int) string { return "" })) }
			for i := range toks {
				ins := func(w ...ref.Token) {
					em(append(append(append([]ref.Token{}, toks[:i]...), w...), toks[i:]...))
				}
				em(append(append([]ref.Token{}, toks[:i]...), toks[i+1:]...))
				ins(toks[i])
				ins(toks[i], toks[i])
				for _, w := range []string{",", ";", "{", "}", "(", ")", "a", "1", "''", "#a", "$a", "@", ".", "="} {
					for _, v := range []string{"", ",", ";", "{", "}", "(", ")", "a", "1"} {
						lx, bad := ref.Lex(w + " " + v)
						if bad == nil {
							ins(lx[:len(lx)-1]...)
						}
					}
				}
			}
		}
	}})
	register(&Prop{ID: "C06", Spaces: syn, Rule: "every reference automaton state within the nesting bound combined with every token; every edit of the base programs; syntax verdict compared with the reference grammar"})
}
