package main

import (
	"strings"

	"verifmc/ref"
)

// Spaces of C14 (SQL vetting), C16 (totality) and C17 (causes and positions).

// SQL the checker accepts.
var sqlGood = []string{
	"select 1", "SELECT * FROM t", "select a, b as c from t where a = $p and b <> 'x' order by a desc limit 1", "insert into t values (1, $p)",
	"insert into t (a, b) values ($p, 'x'), (2, @caller)", "update t set a = 2 where b = $p", "delete from t", "delete from t where a in (1, 2)",
	"with c as (select 1) select * from c", "select * from t join u on t.a = u.b", "select * from t left join u on t.a = u.b", "select abs(a), lower(b) from t",
	"select a from t union select b from u", "insert into t values (1, 2) on conflict do nothing", "insert into t values (1, 2) on conflict (a) do update set b = 1",
	"select count(*) from t group by a having a > 1", "select case when a = 1 then 2 else 3 end from t", "select 'random()'", "select a -- random()\n from t", "select a /* drop table t */ from t",
	"Select 1", "DELETE from t", "Update t set a = 1", "INSERT into t values (1)", "With c as (select 1) select * from c",
}

// SQL the checker rejects, the documented restrictions first.
var sqlForbidden = []string{
	"select random()", "select a from t where a = random()", "insert into t values (random())", "update t set a = random()", "delete from t where a = random()",
	"with c as (select random()) select * from c", "select (select random())", "select RANDOM()", "select abs(random())", "select 1 + random()", "select a from t order by random()",
	"select date('now')", "select datetime('now')", "select time('now')", "select julianday('now')", "select unixepoch('now')", "select strftime('%Y', 'now')", "select randomblob(1)", "select changes()",
	"select last_insert_rowid()", "select total_changes()", "select acos(1)", "select acosh(1)", "select asin(1)", "select asinh(1)", "select atan(1)", "select atan2(1, 2)", "select atanh(1)",
	"select ceil(1)", "select ceiling(1)", "select cos(1)", "select cosh(1)", "select degrees(1)", "select exp(1)", "select floor(1)", "select ln(1)", "select log(1)", "select log10(1)", "select log2(1)",
	"select mod(1, 2)", "select pi()", "select pow(1, 2)", "select power(1, 2)", "select radians(1)", "select sin(1)", "select sinh(1)", "select sqrt(1)", "select tan(1)", "select tanh(1)", "select trunc(1)",
	"select * from a cross join b", "select * from a natural join b", "select * from a, b", "select * from a join b on TRUE", "select * from a join b on a.x < b.x", "select * from a join b on a.x = b.x and a.y = b.y", "select * from a join b",
	"with c as (select 1) create table t (a int)", "with c as (select 1) drop table t", "select 1 from t natural left join u",
}

var sqlBroken = []string{
	"select from", "insert into", "update t", "delete t", "with c select 1", "select * from", "select 1 1 1", "insert into t values", "update set a = 1", "select (1", "select 1)", "select , 1", "select * from t where",
	"insert t values (1)", "delete from", "select 'a' 'b' c d", "select a b c from t", "with c as select 1", "select * fro t", "insert into t values (1", "select 1 from t join u", "select nofunc(1)", "select $", "select @", "delete from t where a == ",
}

// The three documented keywords that the checker takes for column names (see known-findings.txt).
var sqlUnchecked = []string{"select current_time", "select current_date", "select current_timestamp"}

func textSpaces() {
	bad := append(append([]string{}, sqlForbidden...), sqlBroken...)
	mark := func(s string) string {
		for _, f := range sqlForbidden {
			if f == s {
				return "forbidden"
			}
		}
		return ""
	}
	mods := []string{"", " public", " private", " view", " owner", " public view owner", " private view"}
	register(&Prop{ID: "C14", Rule: "every statement of the lists in every action, init and position, with every modifier; every token sequence over a small SQL alphabet; the verdict is the SQL checker's own, forbidden constructs must be rejected", Spaces: []Space{
		{"the documented keywords", func(e *Emit) {
			for _, s := range sqlUnchecked {
				e.Case("sql", "database d; action a() { "+s+"; }", "forbidden")
			}
		}},
		{"every statement alone, under every modifier, in actions and init, after and before others", func(e *Emit) {
			for _, s := range append(append([]string{}, bad...), sqlGood...) {
				x := mark(s)
				for _, m := range mods {
					e.Case("sql", "database d; action a($p)"+m+" { "+s+"; }", x)
					e.Case("sql", "database d; @n(k=1) action a($p)"+m+" { select 1; "+s+" ; } table t { a int }", x)
				}
				e.Case("sql", "database d; init() { "+s+"; }", x)
				e.Case("sql", "database d; init() { select 1; "+s+"; } action a() { select 1; }", x)
				e.Case("sql", "database d; use x as e; action a($p) { $r = e.m($p); "+s+"; a($r); }", x)
				e.Case("sql", "database d; action a() { a(); "+s+"; "+s+"; }", x)
				for _, sep := range []string{"\n", "\t", "\r\n", "  ", " /* c */ ", " -- c\n"} {
					e.Case("sql", "database d; action a($p) { "+strings.Replace(s, " ", sep, 1)+"; }", x)
					e.Case("sql", "database d; action a($p) { "+strings.ReplaceAll(s, " ", sep)+"; }", x)
				}
				w, rest, _ := strings.Cut(s, " ")
				for _, v := range []string{strings.ToUpper(w), strings.ToLower(w), strings.ToUpper(w[:1]) + strings.ToLower(w[1:]), strings.ToLower(w[:1]) + strings.ToUpper(w[1:])} {
					e.Case("sql", "database d; action a($p) { "+v+" "+rest+"; }", x)
				}
			}
		}},
		{"one bad statement among good ones: every action, every place", func(e *Emit) {
			g := []string{"select 1;", "a0($p);", "insert into t values (1, $p);", "$r = e.m(1);", "delete from t;", "a1(2);", "update t set a = 1;"}
			frame := func(na, ns int, init bool, at, pos int, s string) string {
				b := "database d; use x as e; "
				for a := 0; a < na; a++ {
					b += sp("action a%d($p) {", a)
					if init && a == na-1 {
						b += " select 0; } init() {"
					}
					for i := 0; i < ns; i++ {
						st := g[(a*ns+i)%len(g)]
						if init && a == na-1 {
							st = strings.ReplaceAll(st, "$p", "7")
						}
						if a == at && i == pos {
							st = s + ";"
						}
						b += " " + st
					}
					b += " }"
				}
				return b
			}
			some := append(append([]string{}, sqlForbidden[:6]...), "select * from a, b", "select * from a natural join b", "select from", "delete t", "with c select 1", "select abs() from t", "select * from a join b on 1 = 1", "select 1", "with c as (select 1) drop table t")
			max := e.Pick(4, 6)
			for _, s := range some {
				for na := 2; na <= max; na++ {
					for ns := 1; ns <= max; ns++ {
						for at := 0; at < na; at++ {
							for pos := 0; pos < ns; pos++ {
								e.Case("sql", frame(na, ns, false, at, pos, s), mark(s))
								e.Case("sql", frame(na, ns, true, at, pos, s), mark(s))
							}
						}
					}
				}
			}
		}},
		{"bodies: every sequence of statements", func(e *Emit) {
			al := []string{"select 1;", "select random();", "delete t;", "a();", "$r = e.m();", "SELECT a FROM t;", "with c as (select 1) select * from c;", "select * from a, b;", "a($zz);"}
			seqs(len(al), 1, e.Pick(4, 5), func(x []int) {
				b := pick(al, x, " ")
				e.Case("sql", "database d; use x as e; action a() { "+b+" }")
				if len(x) <= 3 {
					e.Case("sql", "database d; use x as e; action a() { select 2; } init() { "+b+" }")
					e.Case("sql", "database d; use x as e; action a() view { "+b+" } action b() { select 3; }")
				}
			})
		}},
		{"statements: every token sequence over a small SQL alphabet", func(e *Emit) {
			al := []string{"1", "a", "*", "from", "where", "=", "(", ")", ",", "$p", "'x'", "random", "join", "on", "abs", "not", "t.a", "and"}
			lead := []string{"select", "insert into", "update", "delete from", "with c as (select 1) select", "select a from", "select a from t", "update t set", "insert into t values", "insert into t ("}
			seqs(len(al), 0, e.Pick(3, 4), func(x []int) {
				if len(x) == 4 && x[0]%2 == 1 {
					return
				}
				s := pick(al, x, " ")
				for _, l := range lead {
					e.Case("sql", "database d; action a($p) { "+l+" "+s+"; }")
				}
			})
		}},
		{"long bodies and many actions", func(e *Emit) {
			for _, n := range sizes(e) {
				for _, s := range []string{"select random()", "select from", "select 1", "select abs() from t", "select * from a join b on 1 = 1"} {
					for _, at := range []int{0, n / 2, n - 1} {
						one := func(i int) string {
							if i == at {
								return s + ";"
							}
							return "select 1;"
						}
						e.Case("sql", "database d; action a() { "+numbered(n, " ", one)+" }", mark(s))
						e.Case("sql", "database d; action b() { select 2; } init() { "+numbered(n, " ", one)+" }", mark(s))
						e.Case("sql", "database d; "+numbered(n, " ", func(i int) string { return sp("action a%d() { select 2; ", i) + one(i) + " }" }), mark(s))
						e.Case("sql", "database d; "+numbered(n, " ", func(i int) string { return sp("action a%d() { a%d(); ", i, (i+1)%n) + one(i) + " }" })+" init() { select 3; }", mark(s))
					}
				}
				e.Case("sql", "database d; action a() { select "+strings.Repeat("1 + ", n)+"1; }")
				e.Case("sql", "database d; action a() { select "+strings.Repeat("1 + ", n)+"random(); }", "forbidden")
				e.Case("sql", "database d; action a() { select "+strings.Repeat("1, ", n)+"random(); }", "forbidden")
				for _, m := range []int{n, n * 10, n * 50} {
					for _, bad := range []string{"random()", "abs()", "nofunc(1)", ", 1", "1 from a join b on 1 = 1", "1 from a natural join b"} {
						e.Case("sql", "database d; action a() { select '"+strings.Repeat("x", m)+"', "+bad+"; }")
						e.Case("sql", "database d; action a() { select 1; select 2, '"+strings.Repeat("x", m)+"', "+bad+"; } init() { select 3; }")
						e.Case("sql", "database d; action a($p) { select 1; } init() { insert into t values (1"+strings.Repeat(", 1", m)+", "+strings.Split(bad, " ")[0]+"); }")
					}
				}
				e.Case("sql", "database d; action a() { select "+strings.Repeat("abs(", n)+"random()"+strings.Repeat(")", n)+"; }", "forbidden")
				e.Case("sql", "database d; action a() { select"+strings.Repeat(" ", n*40)+"random(); }", "forbidden")
				e.Case("sql", "database d; action a() { select /*"+strings.Repeat("x", n*40)+"*/ random(); }", "forbidden")
			}
		}},
		kitchenSpace("deviations from a source using every construct", "sql", 1, 2),
	}})

	// --- C16 ---
	big := strings.Repeat("(", 24) + "1" + strings.Repeat(")", 24)
	register(&Prop{ID: "C16", Rule: "every string, token sequence and edit of the listed spaces; the result must be a usable schema or a non-empty error, without panic, crash or hang",
		Probes: []Case{{O: "total", S: "database d; action a() { select " + big + "; }"}},
		Assume: []string{"a case that has no result within 60 s counts as hanging"},
		Spaces: []Space{
			{"every short string", func(e *Emit) {
				al := []string{"a", "database ", "0", ";", "{", "}", "(", ")", "'", "\"", "\\", "/", "*", "#", "$", "@", "-", ",", " ", "\n", "\r", "é", "\xff", "\x00", "table ", "select ", "_"}
				seqs(len(al), 0, e.Pick(3, 4), func(x []int) { e.Case("total", pick(al, x, "")) })
				seqs(len(al), 0, e.Pick(2, 3), func(x []int) {
					s := pick(al, x, "")
					for _, f := range []string{"database d; %", "database d; table t { a int, % }", "database d; action a() { select %; }", "database d; action a() { f(%); }", "database d; @n(%) action a() {select 1;}", "database d; use x {%} as e;", "database d; table t { a int default(%) }", "database d; action a() { % }", "database d; action a() { $r = % ; }"} {
						e.Case("total", strings.Replace(f, "%", s, 1))
					}
				})
				for c := 0; c < 256; c++ {
					for _, f := range []string{"%", "database d%;", "database d; % table t { a int }", "database d; table t { a text default('%') }", "database d; action a() { select '%'; }", "database d; action a() { select 1 % 2; }", "database d; @n(k='%') action a() { select 1; }", "database d; // %", "database d; /* % */", "database d; action a() { a('%'); }", "database d; action a() { select 1; -- %\n }"} {
						e.Case("total", strings.Replace(f, "%", string([]byte{byte(c)}), 1))
						e.Case("total", strings.Replace(f, "%", string([]byte{0xe4, byte(c)}), 1))
					}
				}
			}},
			{"every code point alone, and in every kind of place", func(e *Emit) {
				for r := 0; r < 0x110000; r += 0x100 {
					e.Case("total-runes", sp("%x", r), "%")
				}
				for r := 0; r < e.Pick(0x3000, 0x110000); r += 0x100 {
					for _, f := range []string{"%database d;", "database d;%", "database d%;", "database d; action a() { select %; }", "database d; action a() { a(%); }", "database d; action a() { a('%'); }", "database d; @n(k='%') action a() { select '%'; }", "database d; table t { a text default('%') }", "database d; // %", "database d; use x {k: '%'} as e;"} {
						e.Case("total-runes", sp("%x", r), f)
					}
				}
			}},
			{"every short token sequence", func(e *Emit) {
				tuples3 := func(l int) {
					tuples(len(allToks), l, func(x []int) {
						k := make([]ref.Tok, l)
						for i := range x {
							k[i] = allToks[x[i]]
						}
						s := render(k, " ")
						e.Case("total", s)
						e.Case("total", "database d; "+s)
						if l < 3 {
							e.Case("total", "database d; action a() { "+s)
							e.Case("total", "database d; table t { a "+s)
							e.Case("total", "database d; action a() { f("+s+"); }")
							e.Case("total", "database d; table t { a int } "+s+" action a() { select 1; }")
						}
					})
				}
				for l := 1; l <= 3; l++ {
					tuples3(l)
				}
			}},
			graphSpace("total", []string{" "}),
			tokenEdits("total", []string{" ", ""}, false),
			charEdits("total", basePrograms[:6], true),
			{"base programs: prefixes, suffixes and middles; bytes no text contains", func(e *Emit) {
				for _, b := range append(append([]string{}, basePrograms...), layoutBases...) {
					for i := range b {
						e.Case("total", b[:i])
						e.Case("total", b[i:])
						for _, c := range []string{"\xff", "\xc3", "\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x00", "\ufeff", "\u2028", "\U0010ffff"} {
							e.Case("total", b[:i]+c+b[i:])
						}
						for j := i + 1; j < len(b) && j < i+60; j += e.Pick(5, 2) {
							e.Case("total", b[:i]+b[j:])
						}
					}
				}
			}},
			{"nesting and length", func(e *Emit) {
				ns := sizes(e)
				ns = append(ns, 1000, e.Pick(1500, 4000))
				for _, n := range ns {
					r := func(s string) string { return strings.Repeat(s, n) }
					for _, s := range []string{"a(" + r("(") + "1" + r(")") + ")", "a(" + r("(") + ")", "a(" + r("- ") + "1)", "a(" + r("not ") + "1)", "a(" + r("abs(") + "1" + r(")") + ")", "a(1" + r("+1") + ")", "a(1" + r(",1") + ")",
						"select " + r("abs(") + "1" + r(")"), "select 1" + r("+1"), "select '" + r("x''") + "'", "select " + r("(select ") + "1" + r(")"), "select " + r("-"), "select " + r("'"), "a(" + r("'\\'' + ") + "1)", "a" + r("a") + "()", "$" + r("r") + " = e.m()", "select 1" + r(" and 1"), "select 1 from t where " + r("not ") + "1"} {
						e.Case("total", "database d; action a() { "+s+"; }")
						e.Case("total", "database d; action a() { "+s)
					}
					e.Case("total", "database "+r("x")+";")
					e.Case("total", r("database d; "))
					e.Case("total", "database d; "+r("{"))
					e.Case("total", "database d; "+r("}"))
					e.Case("total", "database d; "+r("table t { a int } "))
					e.Case("total", "database d; "+r("@n(k=1) "))
					e.Case("total", "database d; "+r("/*"))
					e.Case("total", "database d; "+r("/* *"))
					e.Case("total", "database d; "+r("'"))
					e.Case("total", "database d; "+r("'\\"))
					e.Case("total", r("?"))
					e.Case("total", r("\xff"))
					e.Case("total", "database d; table t { a int default("+r("9")+") }")
					e.Case("total", "database d; table t { a int "+r("notnull ")+"}")
					e.Case("total", "database d; table t { a int, "+r("#i index(a), ")+"}")
					e.Case("total", "database d; table t { a int"+r(",")+"}")
					e.Case("total", "database d; action a("+r("$a,")+") { select 1; }")
					e.Case("total", "database d; use x {"+r("a: 1,")+"} as e;")
				}
				for n := 1; n <= e.Pick(6, 8); n++ {
					e.Case("total", "database d; action a() { select "+strings.Repeat("(", n)+"1"+strings.Repeat(")", n)+"; }")
				}
			}},
			{"statement lists of every short sequence of statement-like fragments", func(e *Emit) {
				al := []string{"select 1;", "a();", "a(;", "$r = e.m(1);", "$r", "= a();", "@caller;", "e.m(a());", "delete", "a(1,);", ";", "e.();", "a(nofunc(1));", "a($q);", "}", "{", "init() {", "a('x' || 1);", "a(~1 & 2);"}
				seqs(len(al), 1, e.Pick(3, 4), func(x []int) {
					e.Case("total", "database d; use x as e; action a($p) { "+pick(al, x, " ")+" }")
				})
			}},
			{"expressions of every short token sequence", func(e *Emit) {
				al := []string{"1", "'x'", "$p", "@caller", "@x", "abs", "(", ")", ",", "+", "-", "*", "/", "%", "not", "and", "or", "=", "==", "<", "||", "~", "&", "<<", "format", "f"}
				seqs(len(al), 1, e.Pick(3, 4), func(x []int) {
					if len(x) == 4 && (x[0]+x[3])%3 != 0 {
						return
					}
					e.Case("total", "database d; action a($p) { a("+pick(al, x, " ")+"); }")
				})
			}},
			kitchenSpace("deviations from a source using every construct", "total", 1, 2),
		}})

	// --- C17 ---
	seps := []string{" ", "\n", "\r\n", "\t", " /* x\n y */ ", " // é世\n", "/*😀*/"}
	one := []Space{
		graphSpace("position", []string{" ", "\n"}),
		tokenEdits("position", []string{" ", "\r\n", " /* x\n y */ ", "/*😀*/"}, true),
		charEdits("position", basePrograms[:6], true),
		{"every layout around one deviation", func(e *Emit) {
			for _, b := range basePrograms[:6] {
				t := texts(lexOK(b))
				for i := range t {
					for _, s := range seps {
						for _, lead := range []string{"", "\n\n", "// c\r\n", "é", "/* \n\n */\t"} {
							if lead == "é" {
								lead = "/* é */"
							}
							for _, d := range [][]string{append(append([]string{}, t[:i]...), t[i+1:]...), append(append(append([]string{}, t[:i]...), ";"), t[i:]...), append(append(append([]string{}, t[:i]...), "?"), t[i:]...), t[:i], append(append(append([]string{}, t[:i]...), "'é\n'"), t[i:]...)} {
								e.Case("position", lead+joinTexts(d, s))
							}
						}
					}
				}
			}
		}},
	}
	one = append(one, lexSpaces("position")...)
	var cause []Space
	for _, id := range []string{"C09", "C10", "C11", "C12", "C13", "C15"} {
		for _, s := range props[id].Spaces {
			s := s
			if strings.HasPrefix(s.Name, mixTag) {
				continue
			}
			if strings.HasPrefix(s.Name, "every depth and position") && id == "C13" {
				continue
			}
			cause = append(cause, Space{id + ": " + s.Name, func(e *Emit) { s.Gen(&Emit{w: e.w, Thorough: e.Thorough, as: "cause"}) }})
		}
	}
	cause = append(cause, kitchenSpace("two rules broken at once in a source using every construct", "cause", 2, 2))
	register(&Prop{ID: "C17", Rule: "every single deviation of the listed spaces, in several layouts: the reported line and column are the reference recogniser's; every source of the rule checks: the reported error is a rule the source breaks", Spaces: append(append(append(one, cause...), mixSpaces("cause", stmtSpace)...), foreignSpace("position", "in every gap"))})
}

func init() {
	textSpaces()
	props["C14"].Spaces = append(props["C14"].Spaces, Space{"two statements that differ in one token, in every layout, in one body, two actions, and an action and init", func(e *Emit) {
		// one token of the pool in place of, or before, each token of a good statement, or none
		pool := []string{"", "random()", "abs()", "abs(1, 2)", "nofunc(1)", ",", "'x'", "natural", "cross", "on 1 = 1", "= 2", "distinct", "RANDOM()", "from"}
		for _, g := range []string{"select 1 , abs( a ) from t", "select * from t join u on t.a = u.b where t.a = 1", "insert into t values ( 1 , abs( $p ) )", "update t set a = 1 , b = abs( 2 ) where b = 3", "delete from t where a = 1 and b = abs( 1 )", "with c as ( select 1 , 2 ) select abs( 1 ) from c order by 1"} {
			toks := strings.Split(g, " ")
			for i := range toks {
				for _, w := range pool {
					for k := 0; k < 2; k++ {
						v := append(append(append([]string{}, toks[:i]...), w), toks[i+1-k:]...)
						if k == 1 && w == "" {
							continue
						}
						for _, sep := range []string{" ", "\n", "\n\t"} {
							a, b := strings.Join(toks, sep), strings.Join(v, sep)
							if sep == " " {
								// one line break, before the place
								a, b = strings.Join(toks[:i], " ")+"\n"+strings.Join(toks[i:], " "), strings.Join(v[:i], " ")+"\n"+strings.Join(v[i:], " ")
								e.Case("sql", "database d; action a($p) { "+strings.Join(toks, " ")+"; "+strings.Join(v, " ")+"; }")
							}
							e.Case("sql", "database d; action a($p) { "+a+"; "+b+"; }")
							if !e.Thorough && sep != " " {
								continue
							}
							e.Case("sql", "database d; action a($p) { "+b+"; "+a+"; }")
							e.Case("sql", "database d; action a($p) { "+a+"; } action b($p) { select 1; "+b+"; }")
							e.Case("sql", "database d; init() { "+b+"; } action b($p) { "+a+"; }")
							e.Case("sql", "database d; init() { "+a+"; } action b($p) { "+b+"; }")
							e.Case("sql", "database d; action a($p) { "+a+"; "+a+"; "+b+"; "+a+"; }")
						}
					}
				}
			}
		}
	}})
	props["C14"].Spaces = append(props["C14"].Spaces, mixSpaces("sql", stmtSpace)...)
	props["C16"].Spaces = append(props["C16"].Spaces, append(mixSpaces("total", stmtSpace, bigSpace), foreignSpace("total", "in every gap"))...)
}
