package main

import (
	"strings"

	"verifmc/ref"
)

// Spaces of C08–C15 and C30: names and consistency rules.

// nameFrames puts a name in each naming position; every occurrence of % is the name.
var nameFrames = []string{
	"database %; table t { a int }",
	"database d; use % as e; action a() { e.m(); }",
	"database d; use x as %; action a() { %.m(); }",
	"database d; use x {%: 1} as e;",
	"database d; use x {k: 'v', %: 'w'} as e;",
	"database d; table % { a int, fk (a) ref % (a) } table t2 { b int, fk (b) ref % (a) }",
	"database d; table t { % int notnull }",
	"database d; table t { a text, % int, #i index(%), #j unique(a, %), fk (%) ref t (%) }",
	"database d; table t { a int, #% index(a) }",
	"database d; table t { a int, #% primary(a), #zz index(a) }",
	"database d; @%(k=1) action a() { select 1; }",
	"database d; @n(%=1) action a() { select 1; }",
	"database d; @n(j='x', %='1') action a() { select 1; }",
	"database d; action %() public { select 1; }",
	"database d; action %($p) { %($p); } action b() { %(1); }",
	"database d; action a($%) { select 1; }",
	"database d; use x as e; action a($%, $p0) { a($%, -$%); $z = e.m($p0, $%); }",
	"database d; use x as e; action a() { $% = e.m(); e.m($%); }",
	"database d; use x as e; action a() { $r, $% = e.%(); }",
	"database d; use x as e; action a() { e.%(1); } init() { e.%(); }",
	"database %; use % as x0; use x0 {%: 1} as %; table % { % int, #i0 index(%), fk (%) ref % (%) } @%(%=1) action %($%) { %.%($%); %($%); $z, $%q = %.m(); }",
}

// Words that mean something in other languages, or that an engine may keep for itself.
var reservedElsewhere = strings.Fields(`sqlite_master sqlite_x sqlite pg_x pg_catalog kwil kwil_x kwild information_schema sys system dual rowid oid ctid xmin master temp temp_x tmp_x _x
	add all alter and any array as asc autoincrement begin between bigint blobs boolean by case cast char check coalesce collate commit constraint create cross cursor date decimal deferred desc distinct do double drop each else end escape except exists explain
	filter first float following for foreign_keys full function generated glob group having identity if ignore immediate in indexed inner integer intersect into is isnull join last left like limit match natural no nothing now null_ numeric of offset only or order others outer over
	partition plan pragma preceding procedure query raise range real recursive references_ regexp reindex release rename replace returning right rollback row rows savepoint schema serial sequence session smallint some table1 temporary then ties time timestamp to trigger truncate
	unbounded union user using vacuum varchar varying virtual when where window without xor
	abstract arguments async await break byte catch class const constructor continue debugger def default1 del delete1 elif enum eval export extends final finally fn fun func go goto implements import instanceof interface lambda let long map mod module mut native new none nonlocal not1 object package pass
	proc protected prototype pub raise1 record ref1 ret return self short static str struct super switch synchronized template throw throws trait transient try type typedef typeof undefined union1 unsafe var void volatile while yield true1 inf nan infinity epsilon
	owner1 name names columns tables actions extensions indexes foreign_key1 child_keys parent_keys parent_table inputs mutability auxiliaries statements attributes annotations argument value config alias con prn aux com1 lpt1 main init1 test caller block_height txid
	a_very_long_name_with_many_parts_in_it x_ x__ x__x aA Aa AA a1b2c3 l1I O0o`)

func ruleSpaces() {
	// --- C08 ---
	kws := append(ref.Keywords(), ref.SQLKeywords()...)
	names := func(e *Emit, f func(string)) {
		al := []string{"a", "Z", "0", "_"}
		seqs(len(al), 1, e.Pick(4, 6), func(x []int) {
			if x[0] < 2 {
				f(pick(al, x, ""))
			}
		})
		for c := 'A'; c <= 'z'; c++ {
			if c <= 'Z' || c >= 'a' {
				f(string(c))
				f("x" + string(c))
				f(string(c) + "9_" + string(c))
			}
		}
		for c := '0'; c <= '9'; c++ {
			f("n" + string(c))
		}
		for _, k := range kws {
			for _, v := range caseVariants(k) {
				f(v)
			}
			f(k + k)
			f(k + "_" + k)
			f("a_" + k)
			for i := 1; i < len(k); i++ {
				f(k[:i])
				f(k[:i] + strings.ToUpper(k[i:i+1]) + k[i+1:])
				f(k[:i] + "_" + k[i:])
			}
		}
		for _, n := range sizes(e) {
			f(strings.Repeat("n", n))
			f("x" + strings.Repeat("9", n))
			f("T" + strings.Repeat("_", n))
		}
		for _, w := range []string{"null", "true", "false", "from", "where", "values", "current", "caller", "set", "column", "string", "float", "bool", "uuid", "this", "nil", "main", "foreign", "key", "on", "No", "abs", "count", "max1", "min_"} {
			f(w)
		}
		for _, w := range reservedElsewhere {
			f(w)
			f(strings.ToUpper(w))
			f(strings.ToUpper(w[:1]) + w[1:])
			f(w + "s")
		}
	}
	bad := []string{"", "0a", "9", "_a", "_", "a-b", "a.b", "a b", "é", "aé", "éa", "a$", "a#", "$a", "#a", "@a", "'a'", "\"a\"", "`a`", "[a]", "a,b", "a!", "a:", "ａ", "a\u00a0b", "a\x00", "1_", "a\\", "a/**/b", "-a", "А"}
	register(&Prop{ID: "C08", Rule: "every name of the listed forms in every naming position; compared with the reference", Spaces: []Space{
		{"every name, in every naming position", func(e *Emit) {
			names(e, func(n string) {
				for _, f := range nameFrames {
					e.Case("names", strings.ReplaceAll(f, "%", n))
				}
			})
		}},
		{"what is not a name, in every naming position", func(e *Emit) {
			for _, n := range bad {
				for _, f := range nameFrames {
					e.Case("names", strings.ReplaceAll(f, "%", n))
				}
			}
			for _, c := range asciiAndMore {
				for _, f := range nameFrames {
					e.Case("names", strings.ReplaceAll(f, "%", c+"a"))
					e.Case("names", strings.ReplaceAll(f, "%", "a"+c))
					e.Case("names", strings.ReplaceAll(f, "%", "a"+c+"a"))
				}
			}
		}},
		{"names differing only in letter case, or in one character, are different names", func(e *Emit) {
			vs := []string{"ab", "aB", "Ab", "AB", "a_b", "ab_", "ab1", "ab2", "abc", "a"}
			pf := []string{"database d; table % { a int } table & { a int, fk (a) ref % (a) }", "database d; table t { % int, & text, #i index(%), #j index(&, %) }", "database d; table t { % int, #& index(%) }", "database d; table t { z int, #% index(z), #& unique(z) }",
				"database d; use x as %; use x as &; action a() { %.m(); &.m(); }", "database d; action % () { &(); } action & () { %(); }", "database d; action a ($%, $&) { a($%, $&); }",
				"database d; use x as e; action a () { $%, $& = e.m(); a($&, $%); }", "database d; use x {%: 1, &: 2} as e;", "database d; @%(k=1) @&(k=2) action a() { select 1; }",
				"database d; table t { % int, #i index(&) }", "database d; table % { a int, fk (a) ref & (a) }", "database d; action % () { &(); }", "database d; use x as %; action a() { &.m(); }", "database d; action a ($%) { a($&); }", "database d; table t { % int, fk (%) ref t (&) }"}
			for _, v := range vs {
				for _, w := range vs {
					for _, f := range pf {
						e.Case("names", strings.ReplaceAll(strings.ReplaceAll(f, "%", v), "&", w))
					}
				}
			}
			base := "abcdefghijklmnopqrstuvwxyz0123456789"
			for i := range base {
				for _, c := range "AZ_0q" {
					w := base[:i] + string(c) + base[i+1:]
					if i == 0 && (c == '_' || c == '0') {
						continue
					}
					for _, f := range pf {
						e.Case("names", strings.ReplaceAll(strings.ReplaceAll(f, "%", base), "&", w))
					}
				}
			}
		}},
	}})
	oracles["names"] = func(c *Case) (string, string) {
		a := analyse(c.S)
		g := parse(c.S)
		out := outcome(a, &g)
		switch {
		case g.Kind == "panic" || g.Kind == "nothing":
			return g.String(), out
		case !a.Syntax && g.Kind == "":
			return "a source with something that is not a name where a name belongs is accepted", out
		case a.Syntax && len(a.Broken) == 0 && g.Kind != "":
			return "a source whose names are all well-formed is " + g.String(), out
		case a.Syntax && len(a.Broken) > 0 && g.Kind == "":
			return sp("different names are taken for the same: a source that breaks %v is accepted", brokenList(a)), out
		case a.Syntax && g.Kind == "":
			return cmpAll(a.Src, g.Schema), out
		}
		return "", out
	}

	// --- C09 ---
	abc := []string{"a", "b", "c"}
	register(&Prop{ID: "C09", Rule: "every sequence of names over small alphabets in every namespace, every pair of places in long lists, every combination across namespaces", Spaces: []Space{
		{"all name sequences in one namespace", func(e *Emit) {
			seqs(3, 1, e.Pick(5, 6), func(x []int) {
				n := func(sep, f string) string {
					return numbered(len(x), sep, func(i int) string { return strings.ReplaceAll(f, "%", abc[x[i]]) })
				}
				for _, s := range []string{
					n(" ", "table % { q int }"), n(" ", "action % () { select 1; }"), n(" ", "use x as %;"), n(" ", "use % as %x;"),
					"table t { " + n(", ", "% int") + " }", "table t { q int, " + n(", ", "#% index(q)") + " }", "table t { q int, " + n(", ", "#% unique(q), fk (q) ref t (q)") + " }",
					"action z (" + n(", ", "$%") + ") { select 1; }", "use x as e; action z () { " + n(", ", "$%") + " = e.m(); }",
					"use x as e; action z () { " + n(" ", "$% = e.m();") + " }", "action z () { " + n(", ", "$%") + " = z(); }",
					"use x {" + n(", ", "%: 1") + "} as e;", "@n(" + n(", ", "%=1") + ") action z () { select 1; }", n(" ", "@%(k=1)") + " action z () { select 1; }",
					"table t { a int, b int, c int, #i index(" + n(",", "%") + ") }", "table t { a int, b int, c int, fk (" + n(",", "%") + ") ref t (" + n(",", "%") + ") }"} {
					e.Case("dups", dbWith(s))
				}
				// columns and indexes of one table share a namespace
				for k := 1; k < len(x); k++ {
					c := "table t { " + numbered(k, ", ", func(i int) string { return abc[x[i]] + " int" })
					e.Case("dups", dbWith(c+", "+numbered(len(x)-k, ", ", func(i int) string { return "#" + abc[x[k+i]] + " index(" + abc[x[0]] + ")" })+" }"))
				}
			})
		}},
		{"all constraint lists of up to 4", func(e *Emit) {
			cons := []string{"primary", "notnull", "unique", "default(1)", "min(1)", "max(2)", "minlen(3)", "maxlen(4)", "default('x')", "min(9)"}
			for _, typ := range []string{"int", "text", "blob"} {
				seqs(len(cons), 0, e.Pick(4, 5), func(x []int) {
					e.Case("dups", dbWith("table t { a "+typ+" "+pick(cons, x, " ")+" }"))
					if len(x) <= 3 {
						e.Case("dups", dbWith("table t { z int unique, a "+typ+" "+pick(cons, x, " ")+", b int default(5) }"))
					}
					if len(x) == 2 || len(x) == 3 { // spread over two columns: never a duplicate
						e.Case("dups", dbWith("table t { a blob "+cons[x[0]]+", b blob "+pick(cons, x[1:], " ")+" }"))
					}
				})
			}
		}},
		{"all foreign key rule lists of up to 4, on one and on two keys", func(e *Emit) {
			rs := []string{"on_update cascade", "on_delete cascade", "on_update do set_null", "on_delete do restrict", "on_delete no_action"}
			seqs(len(rs), 0, e.Pick(4, 6), func(x []int) {
				e.Case("dups", dbWith("table t { a int, fk (a) ref t (a) "+pick(rs, x, " ")+" }"))
				e.Case("dups", dbWith("table u { b int } table t { a int, #i index(a), fk (a) ref u (b), fk (a) ref u (b) "+pick(rs, x, " ")+", #j index(a) }"))
				for k := 0; k <= len(x); k++ {
					e.Case("dups", dbWith("table t { a int, fk (a) ref t (a) "+pick(rs, x[:k], " ")+", fk (a) ref t (a) "+pick(rs, x[k:], " ")+" }"))
				}
			})
		}},
		{"equal names in different namespaces", func(e *Emit) {
			// each place holds name n or a name of its own: all 2^k choices of equality
			frame := "use #0 {#1: 1} as #2; use #3 as #4; table #5 { #6 int, #7 text, ##8 index(#6), fk (#6) ref #9 (#10) } table #9 { #10 int, ##11 unique(#10) } @#12(#13=1) action #14 ($#15) { $#16 = #2.#17($#15); #18(); } action #18 ($#19) { $#20, $#21 = #4.#17(); }"
			places := 22
			em := func(eq map[int]bool) {
				s := frame
				for i := places - 1; i >= 0; i-- {
					n := sp("u%d", i)
					if eq[i] {
						n = "same"
					}
					s = strings.ReplaceAll(s, sp("#%d", i), n)
				}
				e.Case("dups", dbWith(s))
			}
			em(nil)
			all := map[int]bool{}
			for i := 0; i < places; i++ {
				all[i] = true
				for j := 0; j < i; j++ {
					em(map[int]bool{i: true, j: true})
					for k := 0; k < j; k++ {
						em(map[int]bool{i: true, j: true, k: true})
						for l := 0; l < k; l++ {
							em(map[int]bool{i: true, j: true, k: true, l: true})
						}
					}
				}
			}
			for i := 0; i < places; i++ {
				x := map[int]bool{}
				for j := range all {
					x[j] = j != i
				}
				em(x)
				for j := 0; j < i; j++ {
					y := map[int]bool{}
					for k := range x {
						y[k] = x[k] && k != j
					}
					em(y)
				}
			}
		}},
		{"one duplicate pair at every two places of a long list", func(e *Emit) {
			n := e.Pick(24, 60)
			frames := []func(nm func(i int) string) string{
				func(nm func(i int) string) string {
					return numbered(n, " ", func(i int) string { return "table " + nm(i) + " { q int }" })
				},
				func(nm func(i int) string) string {
					return numbered(n, " ", func(i int) string { return "action " + nm(i) + " () { select 1; }" })
				},
				func(nm func(i int) string) string {
					return numbered(n, " ", func(i int) string { return sp("use x%d as ", i) + nm(i) + ";" })
				},
				func(nm func(i int) string) string {
					return "table t { " + numbered(n, ", ", func(i int) string { return nm(i) + " int" }) + " }"
				},
				func(nm func(i int) string) string {
					return "table t { q int, " + numbered(n, ", ", func(i int) string { return "#" + nm(i) + " index(q)" }) + " }"
				},
				func(nm func(i int) string) string {
					return "action a (" + numbered(n, ", ", func(i int) string { return "$" + nm(i) }) + ") { select 1; }"
				},
				func(nm func(i int) string) string {
					return "use x as e; action a () { " + numbered(n, ", ", func(i int) string { return "$" + nm(i) }) + " = e.m(); }"
				},
				func(nm func(i int) string) string {
					return "table t { " + numbered(n/2, ", ", func(i int) string { return nm(i) + " int" }) + ", " + numbered(n-n/2, ", ", func(i int) string { return "#" + nm(n/2+i) + " index(" + nm(0) + ")" }) + " }"
				},
				func(nm func(i int) string) string { // different tables: never duplicates
					return numbered(n, " ", func(i int) string {
						return sp("table t%d { ", i) + nm(i) + " int, #k" + nm(i) + " index(" + nm(i) + ") }"
					})
				},
				func(nm func(i int) string) string {
					return "use x as e; action a () { " + numbered(n, " ", func(i int) string { return "$" + nm(i) + " = e.m();" }) + " }"
				},
			}
			for _, f := range frames {
				e.Case("dups", dbWith(f(func(i int) string { return sp("n%d", i) })))
				for i := 0; i < n; i++ {
					for j := 0; j < i; j++ {
						e.Case("dups", dbWith(f(func(k int) string {
							if k == i {
								k = j
							}
							return sp("n%d", k)
						})))
					}
				}
			}
		}},
		kitchenSpace("two deviations from a source using every construct", "dups", 2, 3),
	}})

	// --- C10 ---
	register(&Prop{ID: "C10", Rule: "every reference target over small sets of tables, columns and index names", Spaces: []Space{
		{"all index column lists", func(e *Emit) {
			cols := []string{"a", "b", "zz", "i", "j", "A", "o", "t"}
			seqs(len(cols), 1, e.Pick(3, 4), func(x []int) {
				for _, k := range []string{"index", "unique", "primary"} {
					l := pick(cols, x, ", ")
					e.Case("refs", dbWith("table o { o int, #j index(o) } table t { a int, b int, #j unique(a), #i "+k+"("+l+") }"))
					e.Case("refs", dbWith("table t { a int, b int, #i "+k+"("+l+"), #j "+k+"(a) } table o { o int, zz int }"))
					e.Case("refs", dbWith("table t { a int, #i "+k+"(a), b text, #k "+k+"("+l+") }"))
				}
			})
		}},
		{"all foreign keys", func(e *Emit) {
			child := []string{"a", "b", "zz", "i", "x", "A"}
			tabs := []string{"t", "u", "v", "zz", "T", "a", "e", "act"}
			parent := []string{"x", "y", "zz", "j", "a", "X"}
			for _, tb := range tabs {
				seqs(len(child), 1, 2, func(c []int) {
					cl := pick(child, c, ",")
					seqs(len(parent), 1, 2, func(p []int) {
						fk := "fk (" + cl + ") ref " + tb + " (" + pick(parent, p, ",") + ")"
						e.Case("refs", dbWith("table t { a int, b int, #i index(a), "+fk+" } table u { x int, y int, #j index(x) } table v { a int, b int }"))
						if len(c) == 1 || len(p) == 1 {
							e.Case("refs", dbWith("use q as e; table v { zz int } table u { x int, y int, #j index(x), #k unique(y) } table t { b int, a int, "+fk+" on_update cascade, #i primary(b) } action act() { select 1; }"))
						}
					})
				})
			}
		}},
		{"references between three tables, in every direction and order", func(e *Emit) {
			// each of three tables has two keys, each naming one of 4 tables and one of 3 columns
			tabs := []string{"t0", "t1", "t2", "t9"}
			seqs(12, 3, 3, func(x []int) {
				em := func(order []int) {
					e.Case("refs", dbWith(numbered(3, " ", func(k int) string {
						i := order[k]
						return sp("table t%d { c%d int, d int, #i%d index(d), fk (c%d) ref %s (%s) }", i, i, i, i, tabs[x[i]/3], []string{"d", sp("c%d", x[i]/3), sp("i%d", x[i]/3)}[x[i]%3])
					})))
				}
				em([]int{0, 1, 2})
				em([]int{2, 0, 1})
				em([]int{2, 1, 0})
			})
		}},
		{"one broken reference at every place of a long list", func(e *Emit) {
			for _, n := range sizes(e) {
				cols := numbered(n, ", ", func(i int) string { return sp("c%d int", i) })
				for _, at := range []int{-1, 0, 1, n / 2, n - 2, n - 1} {
					if at >= n {
						continue
					}
					nm := func(i int) string {
						if i == at {
							return "zz"
						}
						return sp("c%d", i)
					}
					l := numbered(n, ", ", nm)
					good := numbered(n, ", ", func(i int) string { return sp("c%d", i) })
					e.Case("refs", dbWith("table t { "+cols+", #i index("+l+") }"))
					e.Case("refs", dbWith("table t { "+cols+", fk ("+l+") ref t ("+good+") }"))
					e.Case("refs", dbWith("table t { "+cols+", fk ("+good+") ref t ("+l+") }"))
					e.Case("refs", dbWith("table t { "+cols+", "+numbered(n, ", ", func(i int) string { return sp("#i%d unique(%s)", i, nm(i)) })+" }"))
					e.Case("refs", dbWith("table t { "+cols+", "+numbered(n, ", ", func(i int) string { return sp("fk (%s) ref t (c%d)", nm(i), i) })+" }"))
					e.Case("refs", dbWith("table t { "+cols+", "+numbered(n, ", ", func(i int) string { return sp("fk (c%d) ref t (%s)", i, nm(i)) })+" }"))
					e.Case("refs", dbWith(numbered(n, " ", func(i int) string {
						tn := sp("t%d", (i+1)%n)
						if i == at {
							tn = "zz"
						}
						return sp("table t%d { c%d int, fk (c%d) ref %s (c%d) }", i, i, i, tn, (i+1)%n)
					})))
					e.Case("refs", dbWith(numbered(n, " ", func(i int) string {
						cn := sp("c%d", (i+1)%n)
						if i == at {
							cn = sp("c%d", (i+2)%(n+1))
						}
						return sp("table t%d { c%d int, #k index(c%d), fk (c%d) ref t%d (%s) }", i, i, i, i, (i+1)%n, cn)
					})))
				}
			}
		}},
		kitchenSpace("two deviations from a source using every construct", "refs2", 2, 3),
	}})
	oracles["refs2"] = rules(false, ref.TableNotFound, ref.ColNotFound)

	// --- C11 ---
	register(&Prop{ID: "C11", Rule: "every constraint list of up to 4 (5) on every type, alone and among other columns", Spaces: []Space{
		{"every constraint list on every type", func(e *Emit) {
			cons := []string{"primary", "notnull", "unique", "default(1)", "min(1)", "max(2)", "minlen(3)", "maxlen(4)"}
			seqs(len(cons), 0, e.Pick(5, 6), func(x []int) {
				seen := map[int]bool{}
				for _, k := range x {
					if seen[k] {
						return
					}
					seen[k] = true
				}
				for _, typ := range []string{"int", "text", "blob"} {
					c := "a " + typ + " " + pick(cons, x, " ")
					e.Case("attrs", dbWith("table t { "+c+" }"))
					if len(x) <= 4 {
						e.Case("attrs", dbWith("table t { z text minlen(1), "+c+" }"))
						e.Case("attrs", dbWith("table t { "+c+", z int max(1) }"))
						e.Case("attrs", dbWith("table s { y blob maxlen(1) } table t { z blob min(1), "+c+", y int }"))
					}
				}
			})
		}},
		{"every literal", func(e *Emit) {
			for _, typ := range []string{"int", "text", "blob"} {
				for _, k := range []string{"min", "max", "minlen", "maxlen", "default"} {
					for _, n := range numLits {
						e.Case("attrs", dbWith("table t { a "+typ+" "+k+"("+n+") }"))
						e.Case("attrs", dbWith("table t { a "+typ+" notnull "+k+"("+n+") unique }"))
					}
				}
				for _, s := range strLits {
					e.Case("attrs", dbWith("table t { a "+typ+" default("+s+") notnull }"))
				}
			}
		}},
		{"one misplaced bound at every column of a long table and every table of a long source", func(e *Emit) {
			for _, n := range sizes(e) {
				for _, at := range []int{-1, 0, n / 2, n - 1} {
					for _, badc := range []string{"int minlen(1)", "int maxlen(2)", "text min(1)", "text max(2)", "blob min(1) maxlen(3)", "text notnull unique default('x') max(0)"} {
						col := func(i int) string {
							if i == at {
								return sp("c%d ", i) + badc
							}
							return sp("c%d %s", i, []string{"int min(0) max(9)", "text minlen(0) maxlen(9)", "blob min(1) max(2) minlen(3) maxlen(4)"}[i%3])
						}
						e.Case("attrs", dbWith("table t { "+numbered(n, ", ", col)+" }"))
						e.Case("attrs", dbWith(numbered(n, " ", func(i int) string { return sp("table t%d { ", i) + col(i) + " }" })))
					}
				}
			}
		}},
		kitchenSpace("two deviations from a source using every construct", "attrs2", 2, 3),
	}})
	oracles["attrs2"] = rules(false, ref.AttrNotAllow)

	// --- C12 ---
	register(&Prop{ID: "C12", Rule: "every call target over small sets of actions, tables, extension names and aliases", Spaces: []Space{
		{"every target from every body", func(e *Emit) {
			tg := []string{"a", "b", "c", "zz", "t", "x", "e", "A", "f1", "g", "a_", "abs"}
			calls := []string{}
			for _, t := range tg {
				calls = append(calls, t+"();", "$r = "+t+"(1);", "$r, $s = "+t+"();")
				for _, m := range []string{"m", "a", "e", "x"} {
					calls = append(calls, t+"."+m+"();", "$r = "+t+"."+m+"(1);")
				}
			}
			pre := []string{"use x as e; use e as g;", "use x {k: 1} as e;", "", "use a as b; use t as x;"}
			for _, p := range pre {
				for _, c := range calls {
					for _, d := range []string{"action a () { % } table t { q int } action b ($z) { select 1; }", "action b () { select 1; % } action a () public { b(); } action c () { select 3; }", "action a () { select 1; } init () { % }", "init () { % a(); } action a () { a(); }", "action zz () { select 1; % a(); } action a () { zz(); }"} {
						e.Case("targets", dbWith(p+strings.Replace(d, "%", c, 1)))
					}
				}
			}
			tuples(len(calls), 2, func(x []int) {
				if !e.Thorough && (x[0]+x[1])%3 != 0 {
					return
				}
				e.Case("targets", dbWith("use x as e; use y as g; action a () { "+calls[x[0]]+calls[x[1]]+" } action b () { "+calls[x[1]]+" }"))
			})
		}},
		{"sets of actions calling each other", func(e *Emit) {
			// three actions, each with two calls to one of five targets; every presence of the actions
			names := []string{"a0", "a1", "a2", "zz", "e"}
			seqs(5, 4, 4, func(x []int) {
				e.Case("targets", dbWith(sp("use q as e; action a0 () { %s(); %s(); } action a1 () { %s(); } action a2 () { select 1; } init() { %s(); }", names[x[0]], names[x[1]], names[x[2]], names[x[3]])))
				e.Case("targets", dbWith(sp("use q as e; init() { %s.m(); } action a2 () { %s(); $r = %s(1); } action a0 () { e.m(); %s(); }", names[x[3]], names[x[0]], names[x[1]], names[x[2]])))
			})
		}},
		{"one broken call at every place of a long source", func(e *Emit) {
			for _, n := range sizes(e) {
				for _, at := range []int{-1, 0, n / 2, n - 1} {
					tgt := func(i int) string {
						if i == at {
							return "zz"
						}
						return sp("a%d", (i*3+1)%n)
					}
					ext := func(i int) string {
						if i == at {
							return sp("x%d", i)
						}
						return sp("e%d", (i*3+1)%n)
					}
					exts := numbered(n, " ", func(i int) string { return sp("use x%d as e%d;", i, i) })
					e.Case("targets", dbWith(numbered(n, " ", func(i int) string { return sp("action a%d () { %s(); }", i, tgt(i)) })))
					e.Case("targets", dbWith(numbered(n, " ", func(i int) string { return sp("action a%d () { select 1; }", i) })+" init() { "+numbered(n, " ", func(i int) string { return tgt(i) + "(1);" })+" }"))
					e.Case("targets", dbWith(exts+" action a () { "+numbered(n, " ", func(i int) string { return sp("$r%d = ", i) + ext(i) + ".m();" })+" }"))
					e.Case("targets", dbWith(exts+numbered(n, " ", func(i int) string { return sp("action a%d () { select 1; ", i) + ext(i) + ".m(2); }" })))
				}
			}
		}},
		{"names that differ slightly", func(e *Emit) {
			vs := []string{"ab", "aB", "Ab", "AB", "a_b", "ab_", "ab1", "abc", "a", "b"}
			for _, v := range vs {
				for _, w := range vs {
					e.Case("targets", dbWith("action "+v+" () { "+w+"(); }"))
					e.Case("targets", dbWith("use x as "+v+"; action q () { "+w+".m(); }"))
					e.Case("targets", dbWith("use "+v+" as "+w+"; action "+v+" () { "+v+"(); "+w+".m(); }"))
					e.Case("targets", dbWith("use "+v+" as x; action "+w+" () { "+v+".m(); }"))
				}
			}
		}},
		kitchenSpace("two deviations from a source using every construct", "targets2", 2, 3),
	}})
	oracles["targets2"] = rules(false, ref.ActNotFound, ref.ExtNotFound)

	// --- C13 ---
	register(&Prop{ID: "C13", Rule: "the set of defined variables is a state machine over statements: every sequence of defining and using statements up to a depth, every expression position of a use", Spaces: []Space{
		{"every sequence of statements", func(e *Emit) {
			st := []string{"f($p);", "f($r);", "f($s);", "$r = e.m();", "$s = e.m($r);", "$r = f();", "$r, $s = e.m($p);", "e.m($s, $q);", "select $r;", "f(@caller);", "f(@block);", "$q = e.m(abs($r));"}
			seqs(len(st), 1, e.Pick(4, 5), func(x []int) {
				e.Case("vars", dbWith("use x as e; action f ($z) { select 1; } action a ($p) { "+pick(st, x, " ")+" }"))
				if len(x) <= 2 {
					e.Case("vars", dbWith("use x as e; action f ($q, $r) { select 1; } action a ($p) { "+pick(st, x, " ")+" } action b ($s) { f($s); }"))
				}
			})
			seqs(len(st), 2, 3, func(x []int) {
				for k := 1; k < len(x); k++ {
					e.Case("vars", dbWith("use x as e; action f ($p) { select 1; } action a ($p) { "+pick(st, x[:k], " ")+" } action b ($q) { "+pick(st, x[k:], " ")+" }"))
					e.Case("vars", dbWith("use x as e; action b () { "+pick(st, x[:k], " ")+" } init () { "+pick(st, x[k:], " ")+" } action f ($p, $q, $r, $s) { select 1; }"))
				}
			})
		}},
		{"every depth and position of a use in an expression", func(e *Emit) {
			bin := []string{"*", "/", "%", "+", "-", "<", "<=", ">", ">=", "=", "!=", "<>", "and", "or"}
			wraps := []string{"%", "(%)", "-%", "+%", "not %", "abs(%)", "format('x', 1, %)", "coalesce(%, 1)", "-(%)", "not (%)"}
			for _, b := range bin {
				wraps = append(wraps, "% "+b+" 1", "1 "+b+" %", "(1 "+b+" %)", "(% "+b+" 1) "+b+" 2", "$p "+b+" %", "1 "+b+" 2 "+b+" %", "% "+b+" 1 "+b+" 2")
			}
			for _, v := range []string{"$x", "$p", "@caller", "@other", "$P", "$pp", "@Caller", "@caller1"} {
				for i, w := range wraps {
					one := strings.Replace(w, "%", v, 1)
					args := []string{one, "1, " + one, one + ", $p", "1, 'x', " + one + ", 2"}
					for _, a := range args {
						e.Case("vars", dbWith("use x as e; action a ($p) { a("+a+"); }"))
						e.Case("vars", dbWith("use x as e; action a ($p) { $r = e.m("+a+"); }"))
						e.Case("vars", dbWith("use x as e; init () { e.m("+strings.ReplaceAll(a, "$p", "1")+"); }"))
					}
					for j, w2 := range wraps {
						two := strings.Replace(w2, "%", one, 1)
						e.Case("vars", dbWith("use x as e; action a ($p) { a("+two+"); }"))
						if e.Thorough || (i+j)%8 == 0 {
							for _, w3 := range wraps {
								e.Case("vars", dbWith("use x as e; action a ($p) { e.m(1, "+strings.Replace(w3, "%", two, 1)+"); }"))
							}
						}
					}
				}
			}
		}},
		{"parameters, receivers and uses with similar names", func(e *Emit) {
			vs := []string{"$a", "$A", "$aa", "$a1", "$b", "$a_"}
			for _, v := range vs {
				for _, w := range vs {
					for _, u := range vs {
						e.Case("vars", dbWith("use x as e; action z ("+v+") { "+w+" = e.m("+v+"); z("+u+"); }"))
						e.Case("vars", dbWith("use x as e; action z () { "+v+" = e.m(1); $q, "+w+" = e.n("+u+"); }"))
						e.Case("vars", dbWith("use x as e; action y ("+v+") { e.m("+v+"); } action z ("+w+") { e.m("+u+"); }"))
						e.Case("vars", dbWith("use x as e; action y ("+v+") { "+w+" = e.m(); } action z () { e.m("+u+"); }"))
						e.Case("vars", dbWith("use x as e; action z () { e.m("+u+"); } action y ("+v+") { "+w+" = e.m(); e.m("+w+"); }"))
					}
				}
			}
		}},
		{"long bodies: one use before, at or after its definition", func(e *Emit) {
			for _, n := range sizes(e) {
				body := func(def, use int) string {
					return numbered(n, " ", func(i int) string {
						s := []string{"select 1;", sp("$y%d = e.m(1);", i), "a(1, 2);"}[i%3]
						if i == use {
							s = "e.k(1, abs($v)); " + s
						}
						if i == def {
							s += " $v = e.d();"
						}
						return s
					})
				}
				for _, d := range []int{0, n / 2, n - 1} {
					for _, u := range []int{0, n / 2, n - 1, d + 1} {
						e.Case("vars", dbWith("use x as e; action a () { "+body(d, u)+" }"))
					}
				}
				for _, at := range []int{0, n / 2, n - 1} {
					e.Case("vars", dbWith("action a ("+numbered(n, ",", func(i int) string { return sp("$p%d", i) })+") { a("+numbered(n, ",", func(i int) string {
						if i == at {
							return "$zz"
						}
						return sp("$p%d", n-1-i)
					})+"); }"))
					e.Case("vars", dbWith("use x as e; action a () { "+numbered(n, ",", func(i int) string { return sp("$p%d", i) })+" = e.m(); a("+numbered(n, " + ", func(i int) string {
						if i == at {
							return "$zz"
						}
						return sp("$p%d", n-1-i)
					})+"); }"))
					e.Case("vars", dbWith("use x as e; "+numbered(n, " ", func(i int) string {
						if i == at && n > 1 {
							return sp("action a%d ($p%d) { e.m($p%d); }", i, i, (i+1)%n)
						}
						return sp("action a%d ($p%d) { e.m($p%d); }", i, i, i)
					})))
				}
				if n <= 60 {
					e.Case("vars", dbWith("action a ($p) { a("+strings.Repeat("(", n)+"$p"+strings.Repeat(")", n)+"); }"))
					e.Case("vars", dbWith("action a ($p) { a("+strings.Repeat("(", n)+"$q"+strings.Repeat(")", n)+"); }"))
					e.Case("vars", dbWith("action a ($p) { a("+strings.Repeat("abs(", n)+"$q"+strings.Repeat(")", n)+"); }"))
					e.Case("vars", dbWith("action a ($p) { a("+strings.Repeat("-(1 + ", n)+"$q"+strings.Repeat(")", n)+"); }"))
				}
			}
		}},
		kitchenSpace("two deviations from a source using every construct", "vars", 2, 3),
	}})

	// --- C15 ---
	register(&Prop{ID: "C15", Rule: "every sequence of modifiers up to a length, on one action and on neighbouring actions", Spaces: []Space{
		{"every sequence of modifiers", func(e *Emit) {
			m := []string{"public", "private", "view", "owner"}
			seqs(4, 0, e.Pick(6, 8), func(x []int) {
				e.Case("modifiers", dbWith("action a () "+pick(m, x, " ")+" { select 1; }"))
			})
			seqs(4, 0, 4, func(x []int) {
				ms := pick(m, x, " ")
				e.Case("modifiers", dbWith("@n(k=1) action z ($p) public owner view { select 0; } action a ($a, $b) "+ms+" { select 1; a(1); } action b () private owner { select 2; } init() { select 3; }"))
				e.Case("modifiers", dbWith("action a ($a) "+strings.ReplaceAll(ms, " ", "/* x */\n")+"{select 1;} table owner1 { public_ int }"))
			})
			seqs(4, 0, 3, func(x []int) {
				xs := pick(m, x, " ")
				seqs(4, 0, 3, func(y []int) {
					e.Case("modifiers", dbWith("action a () "+xs+" { select 1; } action b () "+pick(m, y, " ")+" { select 1; }"))
				})
			})
		}},
		{"long sequences", func(e *Emit) {
			for _, n := range sizes(e) {
				for _, k := range []string{"public", "private", "view", "owner"} {
					e.Case("modifiers", dbWith("action a () "+strings.Repeat(k+" ", n)+"{ select 1; }"))
				}
				for _, at := range []int{-1, 0, n / 2, n - 1} {
					for _, b := range []string{"public public", "private view public", "owner view owner", "view owner view"} {
						e.Case("modifiers", dbWith(numbered(n, " ", func(i int) string {
							ms := validMods[i%len(validMods)]
							if i == at {
								ms = b
							}
							return sp("action a%d () %s { select 1; }", i, ms)
						})))
					}
				}
			}
		}},
		kitchenSpace("two deviations from a source using every construct", "modifiers2", 2, 3),
	}})
	oracles["modifiers2"] = rules(false, ref.VisibilitySet, ref.MutabilitySet, ref.AuxiliarySet)

	// --- C30 ---
	register(&Prop{ID: "C30", Rule: "every permutation of the declarations of each source; verdict and contents must not depend on the order", Spaces: []Space{
		{"all permutations of up to 6 declarations", func(e *Emit) {
			pool := [][]string{
				{"table a { x int, fk (x) ref b (y) }", "table b { y int, fk (y) ref c (z) on_delete cascade }", "table c { z int, #i index(z) }", "action f () { g(); }", "action g () public { h(1); }"},
				{"table a { x int }", "action f ($p) view { g($p); }", "action g ($q) owner { f($q); }", "init () { f(1); g('x'); }", "@n(k=1) action h () { select 1; }", "table b { y int, fk (y) ref a (x) }"},
				{"table a { x int, fk (x) ref b (y) }", "table b { z int }", "action f () { select 1; }", "init() { f(); }"},
				{"table a { x int, fk (x) ref zz (y) }", "table b { z int }", "action f () { select 1; }"},
				{"table a { x int }", "table a { y int }", "action f () { select 1; }", "init() { f(); }"},
				{"action f () { g(); }", "action h () { select 1; }", "table t { a int }", "init() { select 2; }"},
				{"action f () { select 1; }", "action f () { select 2; }", "table f { f int }", "init() { f(); }"},
				{"table a { x int minlen(1) }", "table b { y text }", "action f () public { select 1; }", "init() { select 3; }"},
				{"init() { select 1; }", "init() { select 2; }", "table b { y text }", "action f () { select 1; }"},
				{"action f ($a) { select 1; }", "action g ($b) { f($b); }", "action h ($c) { g($b); }", "table t { q int }"},
				{"action f () { select bad bad bad; }", "action g () { select 1; }", "table t { q int }", "init () { g(); }"},
				{"action f () public private { select 1; }", "action g () { f(); }", "table t { q int, #q index(q) }"},
				{"table a { x int, #i unique(i) }", "table b { i int }", "action i () { select 1; }"},
				{"table t1 { a int }", "table t2 { a int, fk (a) ref t1 (a), fk (a) ref t3 (a) }", "table t3 { a int, fk (a) ref t2 (a) }", "table t4 { a int, fk (a) ref t4 (a) }", "table t5 { b int, #a index(b), fk (b) ref t1 (a) }", "action t1 () { t1(); }"},
			}
			for _, decls := range pool {
				perms(len(decls), func(x []int) {
					e.Case("order", dbWith(pick(decls, x, " ")), dbWith(strings.Join(decls, " ")))
				})
			}
			exts := [][]string{{"use a as b;", "use b as c;", "use a {k: 1} as d;", "use x as e;", "use x {q: 'z', r: 2} as f;"}, {"use a as b;", "use c as b;", "use d as e;"}, {"use a as b;", "use b as a;", "use a as c;"}}
			for _, ds := range exts {
				perms(len(ds), func(x []int) {
					e.Case("order", dbWith(pick(ds, x, " ")+" action z () { b.m(); }"), dbWith(strings.Join(ds, " ")+" action z () { b.m(); }"))
				})
			}
		}},
		{"all permutations of the declarations of sources with up to two defects", func(e *Emit) {
			d := []slot{{"table a { x int, fk (x) ref b (y) }", "table a { x int, fk (x) ref b (z) }", "table b { x int }", "table a { x int max(1) maxlen(2) }"},
				{"table b { y int, #k index(y) }", "table b { y int, #k index(k) }", "table c { y int }"},
				{"action f ($p) { g($p); }", "action f ($p) { g($q); }", "action f ($p, $p) { g(1); }", "action g () { select 1; }"},
				{"action g ($q) public { e.m($q); }", "action g () view view { e.m(1); }", "action h () { x.m(); }", "action g ($q) { select nope nope; }"},
				{"init () { f(1); }", "init () { zz(1); }", ""}}
			deviate(d, e.Pick(2, 5), func(ch []int) {
				var decls []string
				for i, c := range ch {
					if d[i][c] != "" {
						decls = append(decls, d[i][c])
					}
				}
				base := dbWith("use x as e; " + strings.Join(decls, " "))
				perms(len(decls), func(x []int) { e.Case("order", dbWith("use x as e; "+pick(decls, x, " ")), base) })
			})
		}},
		{"every kind of reference from every kind of place, all permutations", func(e *Emit) {
			rules := []string{"", "on_update cascade", "on_delete set_null", "on_delete cascade on_update set_default", "on_update restrict on_delete no_action", "on_update do set_default", "on_delete do cascade on_update do no_action"}
			rules = append(rules, "on_delete restrict", "on_update no_action", "on_delete set_default", "on_update set_null", "on_update restrict", "on_delete cascade")
			cols := []string{"x int", "x int primary", "x text notnull unique default('d') maxlen(3)", "x blob, #i unique(x)", "x int min(1) max(2), y text, #i index(x, y), #j primary(y)"}
			run := func(ds ...string) {
				perms(len(ds), func(p []int) { e.Case("order", dbWith(pick(ds, p, " ")), dbWith(strings.Join(ds, " "))) })
			}
			for _, r := range rules {
				for _, c := range cols {
					for _, kw := range []string{"fk (x) ref", "foreign_key (x) references"} {
						run("table a { "+c+", "+kw+" b (x) "+r+" }", "table b { "+c+" }")
						run("table a { "+c+", "+kw+" a (x) "+r+", "+kw+" b (x) }", "table b { "+c+", "+kw+" a (x) "+r+" }", "action a () { b(); }", "action b () { a(); }")
						run("table a { "+c+", "+kw+" b (x) "+r+" }", "table b { "+c+", "+kw+" c (x) "+r+" }", "table c { "+c+", "+kw+" a (x) "+r+" }", "init () { c(1); }", "action c ($p) { select 1; }")
					}
				}
			}
			heads := []string{"", "public", "private view", "owner", "view owner public"}
			bodies := []string{"g();", "select 1; g();", "g(); h(1);", "$p = e.m(1); h($p);", "g(@caller);", "h(1 + (2 * $a)); g();", "h('g();');"}
			for _, h := range heads {
				for _, b := range bodies {
					for _, an := range []string{"", "@n(k=1) ", "@n(k='init () {') @m(z=0) "} {
						run(an+"action f ($a) "+h+" { "+b+" }", "action g () "+h+" { f(1); }", "action h ($b) "+h+" { g(); f($b); }", "init () { f(1); g(); h('x'); }")
						run(an+"action f ($a) "+h+" { "+b+" }", "action g () { f(1); }", "table f { g int, fk (g) ref h (g) }", "table h { g int }", "init () { g(); }")
					}
				}
			}
			exts := []string{"use a as b;", "use a {b: ''} as b;", "use b {k: 1} as c;", "use b {b: 'c', k: 2} as a;", "use c as d;"}
			seqs(len(exts), 2, 3, func(x []int) {
				ds := make([]string, len(x))
				for i, k := range x {
					ds[i] = exts[k]
				}
				perms(len(ds), func(p []int) {
					for _, t := range []string{"", " action z ($v) { $r = b.m($v); c.m($r); }", " action z () { a.m(); }"} {
						e.Case("order", dbWith(pick(ds, p, " ")+t), dbWith(strings.Join(ds, " ")+t))
					}
				})
			})
		}},
		{"long sources: reversed, rotated, one moved", func(e *Emit) {
			for _, n := range sizes(e) {
				if n < 3 || n > 150 {
					continue
				}
				decl := func(i int) string {
					switch i % 3 {
					case 0:
						return sp("table t%d { a%d int, fk (a%d) ref t%d (a%d) }", i, i, i, (i+3)%(n-n%3), (i+3)%(n-n%3))
					case 1:
						return sp("action f%d ($p) { f%d($p); }", i, (i+3)%(n-n%3))
					}
					return sp("@n(k=%d) action g%d () public { select %d; }", i, i, i)
				}
				m := n - n%3
				base := dbWith(numbered(m, " ", decl))
				e.Case("order", dbWith(numbered(m, " ", func(i int) string { return decl(m - 1 - i) })), base)
				for _, r := range []int{1, m / 2, m - 1} {
					e.Case("order", dbWith(numbered(m, " ", func(i int) string { return decl((i + r) % m) })), base)
				}
				e.Case("order", dbWith(numbered(m, " ", func(i int) string { return decl((i * 2) % (m | 1) % m) })), dbWith(numbered(m, " ", func(i int) string { return decl((i * 2) % (m | 1) % m) })))
			}
		}},
	}})
	oracles["order"] = func(c *Case) (string, string) {
		g, b := parse(c.S), parse(c.X[0])
		out := g.label()
		if (g.Kind == "") != (b.Kind == "") {
			return sp("the order of declarations decides: %s here, but %s in the order %s", g.String(), b.String(), clip(c.X[0], 500)), out
		}
		if g.Kind == "" {
			a := analyse(c.S)
			if !a.Syntax {
				return "", out
			}
			// the contents: as many of everything, in declared order, each equal to the other order's
			if len(a.Src.Tables) != len(g.Schema.Tables) || len(b.Schema.Tables) != len(g.Schema.Tables) || len(b.Schema.Actions) != len(g.Schema.Actions) || len(b.Schema.Extensions) != len(g.Schema.Extensions) {
				return "the number of recorded declarations depends on their order", out
			}
			part := func(x interface{ ToJSON() ([]byte, error) }) string { j, _ := x.ToJSON(); return string(j) }
			other := map[string]string{}
			for i := range b.Schema.Tables {
				other["t "+b.Schema.Tables[i].Name] = part(&b.Schema.Tables[i])
			}
			for i := range b.Schema.Actions {
				other["a "+b.Schema.Actions[i].Name] = part(&b.Schema.Actions[i])
			}
			for i := range b.Schema.Extensions {
				other["e "+b.Schema.Extensions[i].Alias] = part(&b.Schema.Extensions[i])
			}
			for i := range g.Schema.Tables {
				x := &g.Schema.Tables[i]
				if a.Src.Tables[i].Name != x.Name {
					return sp("table %d is %s, declared %s", i, x.Name, a.Src.Tables[i].Name), out
				}
				if other["t "+x.Name] != part(x) {
					return sp("table %s depends on the order of declarations: %s versus %s", x.Name, part(x), other["t "+x.Name]), out
				}
			}
			acts := append(append([]ref.Action{}, a.Src.Actions...), a.Src.Inits...)
			for i := range g.Schema.Actions {
				x := &g.Schema.Actions[i]
				if acts[i].Name != x.Name {
					return sp("action %d is %s, declared %s", i, x.Name, acts[i].Name), out
				}
				if other["a "+x.Name] != part(x) {
					return sp("action %s depends on the order of declarations: %s versus %s", x.Name, part(x), other["a "+x.Name]), out
				}
			}
			for i := range g.Schema.Extensions {
				x := &g.Schema.Extensions[i]
				if a.Src.Exts[i].Alias != x.Alias || other["e "+x.Alias] != part(x) {
					return sp("extension %d (%s) depends on the order of declarations", i, x.Alias), out
				}
			}
		}
		return "", out
	}
}

func init() {
	ruleSpaces()
	for id, o := range map[string]string{"C08": "names", "C09": "dups", "C10": "refs", "C11": "attrs", "C12": "targets", "C13": "vars", "C15": "modifiers2"} {
		props[id].Spaces = append(props[id].Spaces, mixSpaces(o, stmtSpace)...)
	}
}
