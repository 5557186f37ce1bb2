package main

import (
	"strings"
)

// Spaces of C01–C05: what the schema records.

var validCons = map[string][]string{
	"int":  {"primary", "notnull", "unique", "default(%)", "min(#)", "max(#)"},
	"text": {"primary", "notnull", "unique", "default(%)", "minlen(#)", "maxlen(#)"},
	"blob": {"primary", "notnull", "unique", "default(%)", "min(#)", "max(#)", "minlen(#)", "maxlen(#)"},
}

// consLists enumerates every list of at most max distinct constraints of a type.
func consLists(typ string, max int, f func([]string)) {
	all := validCons[typ]
	var cur []string
	used := make([]bool, len(all))
	var rec func()
	rec = func() {
		f(cur)
		if len(cur) == max {
			return
		}
		for i, c := range all {
			if !used[i] {
				used[i] = true
				cur = append(cur, c)
				rec()
				cur = cur[:len(cur)-1]
				used[i] = false
			}
		}
	}
	rec()
}

func fillCons(c []string, lit, num string) string {
	s := strings.Join(c, " ")
	// distinct numbers per position, so that swapped arguments show
	out := ""
	k := 0
	for _, r := range s {
		switch r {
		case '%':
			out += lit
		case '#':
			out += num + sp("%d", k)
			k++
		default:
			out += string(r)
		}
	}
	return out
}

func dbWith(body string) string { return "database db; " + body }

var fkRuleTexts = func() []string {
	out := []string{""}
	dos := []string{"no_action", "cascade", "set_null", "set_default", "restrict"}
	for _, do := range []string{"", "do "} {
		for _, d := range dos {
			out = append(out, " on_update "+do+d, " on_delete "+do+d)
			for _, d2 := range dos {
				out = append(out, " on_update "+do+d+" on_delete "+d2, " on_delete "+do+d+" on_update do "+d2)
			}
		}
	}
	return out
}()

func tableSpaces(o string) []Space {
	return []Space{
		{"columns: every type and every list of up to 4 distinct constraints, every literal", func(e *Emit) {
			for _, typ := range []string{"int", "text", "blob"} {
				consLists(typ, e.Pick(4, 5), func(c []string) {
					e.Case(o, dbWith("table t { c "+typ+" "+fillCons(c, "'d'", "1")+" }"))
					e.Case(o, dbWith("table t { a int, c "+typ+" "+fillCons(c, "7", "0")+", z text unique }"))
				})
				for _, l := range lits() {
					e.Case(o, dbWith("table t { c "+typ+" default("+l+") }"))
					e.Case(o, dbWith("table t { c "+typ+" notnull default("+l+") unique, d int default(0) }"))
				}
				for _, n := range numLits {
					for _, k := range validCons[typ][4:] {
						e.Case(o, dbWith("table t { c "+typ+" "+strings.Replace(k, "#", n, 1)+" }"))
					}
				}
			}
		}},
		{"columns: all sequences of up to 3 column shapes", func(e *Emit) {
			shapes := []string{"int", "text", "blob", "int primary", "text notnull", "blob unique", "int default(5)", "text default('x')", "int min(1) max(9)", "text minlen(2) maxlen(8)", "int notnull unique default(0)"}
			seqs(len(shapes), 1, e.Pick(3, 4), func(x []int) {
				e.Case(o, dbWith("table t { "+numbered(len(x), ", ", func(i int) string { return sp("c%d ", i) + shapes[x[i]] })+" }"))
			})
		}},
		{"table items: all sequences of indexes and foreign keys", func(e *Emit) {
			items := []string{"#i% index(a)", "#i% unique(b)", "#i% primary(a,b)", "#i% index(b,a)", "#i% unique(c, a, b)",
				"fk (a) ref u (x)", "foreign_key (b) references u (y)", "fk (a, b) ref u (x, y) on_update cascade", "fk (b, a) ref u (y, x) on_delete do set_null on_update restrict", "fk (c) ref t (a)"}
			seqs(len(items), 0, e.Pick(4, 5), func(x []int) {
				b := "table t { a int, b text, c blob"
				for i, k := range x {
					b += ", " + strings.Replace(items[k], "%", sp("%d", i), 1)
				}
				if len(x)%2 == 1 {
					b += ","
				}
				e.Case(o, dbWith(b+" } table u { x int, y text }"))
			})
		}},
		{"foreign keys: every rule list, keyword form, key lists up to 3", func(e *Emit) {
			for _, rt := range fkRuleTexts {
				for _, kw := range []string{"fk", "foreign_key"} {
					for _, ref := range []string{"ref", "references"} {
						e.Case(o, dbWith("table t { a int, "+kw+" (a) "+ref+" u (x)"+rt+" } table u { x int }"))
						e.Case(o, dbWith("table u { x int } table t { a int, b int, "+kw+" (a) "+ref+" u (x)"+rt+", "+kw+" (b) "+ref+" t (a), #k index(b) }"))
					}
				}
			}
			seqs(3, 1, 3, func(x []int) {
				xs := append([]int{}, x...)
				seqs(3, 1, 3, func(y []int) {
					cols := []string{"a", "b", "c"}
					pcols := []string{"x", "y", "z"}
					e.Case(o, dbWith("table t { a int, b int, c int, fk ("+pick(cols, xs, ",")+") ref u ("+pick(pcols, y, ", ")+") } table u { x int, y int, z int }"))
					e.Case(o, dbWith("table u { x int, y int, z int, #a index("+pick(pcols, y, ",")+"), #b unique("+pick(pcols, xs, " , ")+") }"))
				})
			})
			for i := range fkRuleTexts {
				for j := range fkRuleTexts {
					if i%7 == 0 || j%7 == 0 || e.Thorough {
						e.Case(o, dbWith("table t { a int, b int, fk (a) ref t (b)"+fkRuleTexts[i]+", fk (b) ref t (a)"+fkRuleTexts[j]+" }"))
					}
				}
			}
		}},
		{"tables: all sequences of up to 4 declarations", func(e *Emit) {
			decls := []string{"table t% { a int }", "table t% { b text notnull, a int, #k unique(b) }", "table t% { a blob default('q'), fk (a) ref t0x (a) on_delete cascade }",
				"table t% { a int, fk (a) ref t% (a), #z primary(a) }", "action a% ($x) public { select 1; }", "init() { delete from t0x; }", "@an(k=1) action b% () owner { update t0x set a = 1; }"}
			seqs(len(decls), 0, e.Pick(4, 5), func(x []int) {
				inits := 0
				for _, k := range x {
					if k == 5 {
						inits++
					}
				}
				if inits > 1 {
					return
				}
				for _, pos := range []int{0, 1} {
					b := ""
					if pos == 0 {
						b = "table t0x { a int } "
					}
					for i, k := range x {
						b += strings.ReplaceAll(decls[k], "%", sp("%d", i)) + " "
					}
					if pos == 1 {
						b += "table t0x { a int }"
					}
					e.Case(o, dbWith(b))
				}
			})
		}},
		{"long lists", func(e *Emit) {
			types := []string{"int", "text", "blob"}
			for _, n := range sizes(e) {
				e.Case(o, dbWith(numbered(n, " ", func(i int) string {
					return sp("table t%d { c%d %s default(%d), #x%d index(c%d), fk (c%d) ref t%d (c%d) }", i, i, types[i%3], i, i, i, i, n-1-i, n-1-i)
				})))
				e.Case(o, dbWith("table t { "+numbered(n, ", ", func(i int) string {
					return sp("c%d %s %s", i, types[i%3], []string{"", "notnull", "default(" + sp("%d", i) + ")", "unique"}[i%4])
				})+" }"))
				cols := numbered(n, ",", func(i int) string { return sp("c%d int", i) })
				e.Case(o, dbWith("table t { "+cols+", "+numbered(n, ",", func(i int) string {
					return sp("#x%d %s(c%d,c%d)", i, []string{"index", "unique", "primary"}[i%3], i, (i*7)%n)
				})+" }"))
				e.Case(o, dbWith("table t { "+cols+", "+numbered(n, ",", func(i int) string {
					return sp("fk (c%d) ref t (c%d) %s", i, (i*5)%n, []string{"", "on_update cascade", "on_delete restrict"}[i%3])
				})+" }"))
				e.Case(o, dbWith("table t { "+cols+", "+numbered(n, ",", func(i int) string {
					if i%2 == 0 {
						return sp("#x%d index(c%d)", i, n-1-i)
					}
					return sp("fk (c%d) ref t (c%d)", i, n-1-i)
				})+" }"))
				names := numbered(n, ",", func(i int) string { return sp("c%d", n-1-i) })
				up := numbered(n, ",", func(i int) string { return sp("c%d", i) })
				e.Case(o, dbWith("table t { "+cols+", #big unique("+names+"), fk ("+names+") ref t ("+up+") }"))
				e.Case(o, dbWith("table t { a int default("+strings.Repeat("9", n)+"), b text default('"+strings.Repeat("z", n)+"') }"))
			}
		}},
		kitchenSpace("two deviations from a source using every construct", o, 2, 3),
	}
}

var validMods = func() []string {
	out := []string{}
	m := []string{"public", "private", "view", "owner"}
	seqs(4, 0, 3, func(x []int) {
		n := map[int]int{}
		for _, k := range x {
			if k == 1 {
				n[0]++
			} else {
				n[k]++
			}
		}
		for _, v := range n {
			if v > 1 {
				return
			}
		}
		out = append(out, pick(m, x, " "))
	})
	return out
}()

func headerSpaces(o string) []Space {
	anns := []string{"", "@a(k=1)", "@b(s='x, y', n=22)", "@a(k=1) @c(z='(')", "@table(t='')"}
	params := []string{"", "$a", "$a, $b", "$b, $a", ",$a", "$A, $a, $a1", "$a_b"}
	return []Space{
		{"modifiers: every legal order on three neighbouring actions", func(e *Emit) {
			for _, m := range validMods {
				e.Case(o, dbWith("action a ($x) "+m+" { select 1; }"))
			}
			tuples(len(validMods), 2, func(x []int) {
				e.Case(o, dbWith("action a ($x) "+validMods[x[0]]+" { select 1; } action b ($y) "+validMods[x[1]]+" { select 2; }"))
			})
			tuples(len(validMods), 3, func(x []int) {
				e.Case(o, dbWith(numbered(3, " ", func(i int) string { return sp("action a%d () %s { select %d; }", i, validMods[x[i]], i) })))
			})
		}},
		{"annotations, parameters and modifiers in every combination on two actions", func(e *Emit) {
			ms := []string{"", "public", "private view", "owner view public"}
			for _, a1 := range anns {
				for _, p1 := range params {
					for _, m1 := range ms {
						for _, a2 := range anns {
							for _, p2 := range params {
								for _, m2 := range ms {
									if !e.Thorough && len(a1)%3 != len(p2)%3 && len(m1)%2 == len(m2)%2 {
										continue
									}
									e.Case(o, dbWith(a1+" action x ("+p1+") "+m1+" { select 1; } table t { a int } "+a2+" action y ("+p2+") "+m2+" { select 2; }"))
								}
							}
						}
					}
				}
			}
		}},
		{"annotations, parameters, modifiers, statements and the place of one action", func(e *Emit) {
			as := []string{"@a(k=1)", "@a(k=1) @b(s='x', n=2)", "@z(s='q')\n@b(k=1)\n@a(k=2, l='m', n=3)"}
			ps := []string{"", "$a", "$b, $a", "$c, $a, $b"}
			ss := []string{"select 1;", "select 1; select 2;", "delete from t; select 1; select 3;"}
			places := []string{"%", "action z ($q) public { select 9; } %", "% action z ($q) public { select 9; }", "% init () { select 8; }", "init () { select 8; } @y(k=1) action z () { select 9; } %", "table t { a int } % table u { b int }", "use x as y; %"}
			for _, an := range append([]string{""}, as...) {
				for _, p := range ps {
					for _, m := range validMods {
						for _, s := range ss {
							for _, at := range places {
								e.Case(o, dbWith(strings.Replace(at, "%", an+" action x ("+p+") "+m+" { "+s+" }", 1)))
							}
						}
					}
				}
			}
		}},
		{"annotation attribute lists and literals", func(e *Emit) {
			for _, l := range lits() {
				e.Case(o, dbWith("@n(k="+l+") action a () { select 1; }"))
				e.Case(o, dbWith("@n(j = 1, k = "+l+", l='e') @m(k="+l+") action a ($p) public { select 1; }"))
			}
			ls := []string{"1", "''", "'a'", "'b,c=1'"}
			seqs(len(ls), 1, e.Pick(4, 5), func(x []int) {
				e.Case(o, dbWith("@n("+numbered(len(x), ", ", func(i int) string { return sp("k%d=%s", i, ls[x[i]]) })+") action a () { select 1; }"))
			})
			seqs(len(anns), 0, 4, func(x []int) { e.Case(o, dbWith(pick(anns, x, "\n")+" action a ($q) view { select 1; }")) })
		}},
		{"parameter lists", func(e *Emit) {
			ps := []string{"$a", "$b", "$c", "$aa", "$A", "$select", "$a_1"}
			perms(len(ps), func(x []int) {
				for n := 0; n <= len(ps); n++ {
					e.Case(o, dbWith("action a ("+pick(ps, x[:n], ",")+") { select 1; } action b () public { select 2; }"))
				}
			})
		}},
		{"long lists", func(e *Emit) {
			for _, n := range sizes(e) {
				e.Case(o, dbWith("action a ("+numbered(n, ",", func(i int) string { return sp("$p%d", i) })+") { select 1; }"))
				e.Case(o, dbWith(numbered(n, " ", func(i int) string {
					return sp("@t%d(k=%d) action a%d ($p%d) %s { select %d; }", i, i, i, i, validMods[i%len(validMods)], i)
				})))
				e.Case(o, dbWith(numbered(n, " ", func(i int) string { return sp("@t%d(k=%d,j='%d')", i, i, n-i) })+" action a () { select 1; }"))
				e.Case(o, dbWith("@t("+numbered(n, ",", func(i int) string { return sp("k%d=%d", i, n-i) })+") action a () { select 1; }"))
				e.Case(o, dbWith("action "+strings.Repeat("n", n)+" ($"+strings.Repeat("p", n)+") { select 1; }"))
			}
		}},
		{"actions among other declarations", func(e *Emit) {
			decls := []string{"action a% ($x) public { select 1; }", "action b% ($y, $z) view { select 2; }", "@n(k=%) action c% () owner private { select 3; }", "table t% { a int }", "init () { select 4; }"}
			seqs(len(decls), 0, e.Pick(5, 6), func(x []int) {
				n := 0
				b := ""
				for i, k := range x {
					if k == 4 {
						n++
					}
					b += strings.ReplaceAll(decls[k], "%", sp("%d", i)) + " "
				}
				if n <= 1 {
					e.Case(o, dbWith(b))
				}
			})
		}},
		kitchenSpace("two deviations from a source using every construct", o, 2, 3),
	}
}

var sqlTexts = []string{"select 1;", "SELECT  *  FROM t ;", "sElEcT a, b from t where a = 'x y' order by b limit 1;", "insert into t (a, b) values ($p, @caller);",
	"INSERT INTO t VALUES ('a''b', 2) on conflict do nothing;", "update t set a = 1, b = 'q' where c = $p ;", "Update\tt\nset a = 2;", "delete from t where a = 1;", "DELETE\r\nFROM t;",
	"with c as (select 1) select * from c;", "WITH c AS (SELECT a FROM t) SELECT * FROM c;", "select /* c1 */ 1 -- c2\n , 2;", "select 'é世😀';", "select '//x', '/* y */';", "select  1  ;", "select\n1\n;", "select \"a\" from \"t\";",
	"select 1 + 2 * 3, not a and b or c from t;", "select abs(-1);", "select count(*) from t group by a having a > 1;", "select t1.a from t as t1 inner join t as t2 on t1.a = t2.a;", "insert into t select * from t;", "select case when a = 1 then 2 else 3 end from t;", "select a from t union select b from t;", "select 1, $p, $longer_name, @caller;",
	"select (1);", "select * from t where a in (1, 2, 3) and b like 'x%' escape '!';", "select a from (select a from t) as s;", "select null;", "select * from t where a is not null;"}

var callTexts = []string{"f();", "f(1);", "f('a b');", "f($p);", "f(@caller);", "f(1, 'x', $p, @caller);", "f(, 1);", "$r = f();", "$r, $s = e.m($p, 1);", "$r=e.m();", "e.m(1 + 2, 3 * 4);", "e.m(1 - -2);", "e.m((1 + 2) * 3);",
	"f(not 1);", "f(not $p and 1 or @caller);", "f(1 and 2);", "f(abs(1), lower('X'));", "f(abs($p) + abs(-1));", "f(1 <= 2, 1 >= 2, 1 < 2, 1 > 2);", "f(1 = 2, 1 != 2, 1 <> 2);", "f(-$p, +1);", "f(not abs(1));", "f(not (1 and $p));", "f(length('a') % 2);", "f(1 or not 0);", "f($p or $p);", "f(not not 1);", "f(format('%s', 'a', 1));", "f('');", "f('it\\'s');", "f('a  b');", "f('//x');", "f(00012);", "f(7 / 2);", "f(@caller and @caller);", "f(((1)));"}

func bodySpaces(o string) []Space {
	pre := "use x as e; table t { a int, b text, c int } action f ($p, $q) { select 1; } "
	all := append(append([]string{}, sqlTexts...), callTexts...)
	atoms := []string{"1", "'a b'", "$p", "@caller", "abs(1)"}
	bin := []string{"*", "/", "%", "+", "-", "<", "<=", ">", ">=", "=", "!=", "<>", "and", "or"}
	un := []string{"", "-", "+", "not "}
	return []Space{
		{"every statement alone, in an action, in init, first, middle and last", func(e *Emit) {
			for _, s := range all {
				e.Case(o, dbWith(pre+"action a ($p) { "+s+" }"))
				e.Case(o, dbWith(pre+"action a ($p) {"+s+"}"))
				e.Case(o, dbWith(pre+"action a ($p) { select 0; "+s+" $z = f(9); }"))
				e.Case(o, dbWith(pre+"init() { "+s+" "+s+" }"))
				e.Case(o, dbWith(pre+"action a ($p) {\n\t// c\n\t"+s+" /* d */\n\t"+s+"\n}"))
			}
		}},
		{"all statement sequences", func(e *Emit) {
			pickS := []string{"select 1;", "SELECT 'q' ;", "insert into t values ($p, 2, 3);", "delete from t;", "f();", "$r = f(1 and $p);", "$r, $s = e.m('a b', @caller);", "e.m(not $p);", "update t set a = 1;", "with c as (select 1) select * from c;"}
			seqs(len(pickS), 1, e.Pick(4, 5), func(x []int) {
				e.Case(o, dbWith(pre+"action a ($p) { "+pick(pickS, x, " ")+" }"))
			})
			seqs(len(pickS), 2, 3, func(x []int) {
				for cut := 1; cut < len(x); cut++ {
					e.Case(o, dbWith(pre+"action a ($p) {"+pick(pickS, x[:cut], "")+"} action b ($p) public {"+pick(pickS, x[cut:], "\n")+"}"))
				}
			})
		}},
		{"pairs of all statements", func(e *Emit) {
			tuples(len(all), 2, func(x []int) { e.Case(o, dbWith(pre+"action a ($p) { "+pick(all, x, " ")+" }")) })
		}},
		{"call arguments: every expression tree of two operators", func(e *Emit) {
			em := func(x string) { e.Case(o, dbWith(pre+"action a ($p) { f("+x+"); }")) }
			for _, a := range atoms {
				for _, u := range un {
					em(u + a)
					em(u + "(" + a + ")")
					for _, u2 := range un {
						em(u + u2 + a)
						em("abs(" + u + a + ", " + u2 + a + ")")
					}
				}
			}
			for _, b := range bin {
				for _, x := range atoms {
					for _, y := range atoms {
						for _, u := range un {
							for _, v := range un {
								em(u + x + " " + b + " " + v + y)
								em("(" + u + x + " " + b + " " + v + y + ")")
							}
						}
					}
				}
				for _, b2 := range bin {
					for _, x := range atoms {
						em("$p " + b + " " + x + " " + b2 + " 1")
						em("($p " + b + " " + x + ") " + b2 + " 1")
						em("$p " + b + " (" + x + " " + b2 + " 'a')")
						em("not $p " + b + " " + x + " " + b2 + " not $p")
						em("abs($p " + b + " " + x + ") " + b2 + " -" + x)
					}
				}
			}
		}},
		{"call arguments: every token string the grammar allows", func(e *Emit) {
			toks := []string{"1", "'s'", "$p", "@caller", "abs", "(", ")", ",", "-", "not", "and", "<="}
			var rec func(cur []string, depth, left int, operand bool)
			rec = func(cur []string, depth, left int, operand bool) {
				if operand && depth == 0 {
					e.Case(o, dbWith(pre+"action a ($p) { f("+strings.Join(cur, " ")+"); }"))
				}
				if left == 0 {
					return
				}
				for _, t := range toks {
					n := append(cur[:len(cur):len(cur)], t)
					isOp := t == "-" || t == "and" || t == "<="
					switch {
					case t == ")":
						if operand && depth > 0 {
							rec(n, depth-1, left-1, true)
						}
					case t == "(":
						if !operand {
							rec(n, depth+1, left-1, false)
						}
					case t == "abs":
						if !operand && left > 2 {
							rec(append(n, "("), depth+1, left-2, false)
						}
					case t == ",":
						if operand {
							rec(n, depth, left-1, false)
						}
					case t == "not":
						if !operand {
							rec(n, depth, left-1, false)
						}
					case isOp:
						if operand || t == "-" {
							rec(n, depth, left-1, false)
						}
					default:
						if !operand {
							rec(n, depth, left-1, true)
						}
					}
				}
			}
			rec(nil, 0, e.Pick(6, 7), false)
		}},
		{"receivers and literals", func(e *Emit) {
			rs := []string{"$a", "$b", "$ab", "$and", "$or1", "$not"}
			seqs(len(rs), 0, 4, func(x []int) {
				seen := map[int]bool{}
				for _, k := range x {
					if seen[k] {
						return
					}
					seen[k] = true
				}
				r := pick(rs, x, ", ")
				if r != "" {
					r += " = "
				}
				e.Case(o, dbWith(pre+"action z ($p) { "+r+"e.m($p); "+r+"f(1); }"))
				e.Case(o, dbWith(pre+"action z ($p) { "+strings.ReplaceAll(r, " ", "")+"e.m($p);"+strings.ReplaceAll(r, " ", "")+"f(1);}"))
			})
			for _, l := range lits() {
				if strings.HasPrefix(l, "'") || l == "0" || true {
					e.Case(o, dbWith(pre+"action z ($p) { f("+l+"); e.m(1, "+l+" , abs("+l+")); }"))
				}
			}
			vars := []string{"$a", "$android", "$or", "$not1", "$a_b", "$A", "$z9"}
			for _, v := range vars {
				for _, w := range vars {
					if v != w {
						e.Case(o, dbWith(pre+"action z ("+v+","+w+") { f("+v+" and "+w+"); f("+v+" or not "+w+", "+w+"+"+v+"); f(not "+v+"); "+v+","+w+"=e.m("+w+"); }"))
					}
				}
			}
		}},
		{"sql text: every character in every place", func(e *Emit) {
			for r := rune(1); r < 0x180; r++ {
				if r == '\'' || r == ';' || r == '}' {
					continue
				}
				c := string(r)
				e.Case(o, dbWith("action z () { select '"+c+"'; select 1, 'a"+c+"b' ; }"))
				e.Case(o, dbWith("action z () { select 1 /* "+c+" */; }"))
			}
			for _, w := range []string{" ", "  ", "\t", "\n", "\r\n", "\n\n", " \n\t "} {
				for _, x := range []string{"", " ", "\n", "\t", "\r\n"} {
					for _, k := range []string{"select", "SELECT", "Select", "insert", "delete", "update", "with"} {
						body := map[string]string{"select": "1", "insert": "into" + w + "t values" + w + "(1)", "delete": "from" + w + "t", "update": "t" + w + "set a" + x + "=" + x + "1", "with": "c as (select" + w + "1) select * from c"}[strings.ToLower(k)]
						e.Case(o, dbWith("action z () {"+x+k+w+body+x+";"+x+"}"))
						e.Case(o, dbWith("action z () {"+k+w+body+x+";"+k+w+body+w+";}"))
					}
				}
			}
		}},
		{"long lists", func(e *Emit) {
			for _, n := range sizes(e) {
				e.Case(o, dbWith(pre+"action a ($p) { "+numbered(n, " ", func(i int) string {
					return []string{sp("select %d;", i), sp("f(%d);", i), sp("$r%d = e.m(%d and $p);", i, i)}[i%3]
				})+" }"))
				e.Case(o, dbWith(pre+"action a ($p) { f("+numbered(n, ", ", func(i int) string { return sp("%d", i) })+"); }"))
				e.Case(o, dbWith(pre+"action a ($p) { f("+numbered(n, " and ", func(i int) string { return []string{"$p", "not $p", "1", "'x y'"}[i%4] })+"); }"))
				e.Case(o, dbWith(pre+"action a ($p) { "+numbered(n, ", ", func(i int) string { return sp("$r%d", i) })+" = e.m(1); }"))
				e.Case(o, dbWith(pre+"action a ($p) { select '"+strings.Repeat("q", n*7)+"'; select"+strings.Repeat(" ", n)+"2; }"))
				if n <= 60 {
					e.Case(o, dbWith(pre+"action a ($p) { f("+strings.Repeat("(", n)+"$p or 1"+strings.Repeat(")", n)+"); }"))
				}
			}
		}},
		kitchenSpace("two deviations from a source using every construct", o, 2, 3),
	}
}

func initSpaces(o string) []Space {
	return []Space{
		{"all sequences of declarations with any number of inits", func(e *Emit) {
			decls := []string{"init() { select 0; }", "action a% ($p) public owner { select %; }", "table t% { a int }", "init() { insert into t values (1); select %; }", "@n(k=1) action b% () view { b%(); }"}
			seqs(len(decls), 0, e.Pick(6, 7), func(x []int) {
				b := ""
				for i, k := range x {
					b += strings.ReplaceAll(decls[k], "%", sp("%d", i)) + " "
				}
				e.Case(o, dbWith(b))
			})
		}},
		{"init bodies", func(e *Emit) {
			pre := "use x as e; table t { a int, b text, c int } action f ($p, $q) public view owner { select 1; } "
			for _, s := range append(append([]string{}, sqlTexts...), callTexts...) {
				if strings.Contains(s, "$p") && !strings.HasPrefix(strings.ToLower(s), "s") {
					s = strings.ReplaceAll(s, "$p", "1")
				}
				e.Case(o, dbWith(pre+"init() { "+s+" }"))
				e.Case(o, dbWith("init() {"+s+" select 2; "+s+"} "+strings.Replace(pre, "use x as e; ", "", 1)))
				e.Case(o, dbWith(pre+"init() { select 1;"+s+"} action g () view { select 3; }"))
			}
		}},
		{"long lists", func(e *Emit) {
			for _, n := range sizes(e) {
				acts := func(from, to int) string {
					b := ""
					for i := from; i < to; i++ {
						b += sp("action a%d ($p) %s { select %d; } ", i, validMods[i%len(validMods)], i)
					}
					return b
				}
				for _, k := range []int{0, n / 2, n} {
					e.Case(o, dbWith(acts(0, k)+"init() { "+numbered(n, "", func(i int) string { return sp("select %d;", i) })+" } "+acts(k, n)))
					e.Case(o, dbWith(acts(0, k)+"init() { select 1; } "+acts(k, n)+" init() { select 1; }"))
				}
			}
		}},
		kitchenSpace("two deviations from a source using every construct", o, 2, 3),
	}
}

func extSpaces(o string) []Space {
	return []Space{
		{"all sequences of extension shapes", func(e *Emit) {
			shapes := []string{"use x as e%;", "use y as e%;", "use x {a: 1} as e%;", "use y {b: 'v', a: 2} as e%;", "use x { a: 'w', a: '', c: 3 } as e%;", "use e0 {x: 'e0'} as x%;"}
			seqs(len(shapes), 0, e.Pick(5, 6), func(x []int) {
				b := ""
				for i, k := range x {
					b += strings.ReplaceAll(shapes[k], "%", sp("%d", i)) + " "
				}
				e.Case(o, dbWith(b))
				if len(x) <= 3 {
					e.Case(o, dbWith(b+"table t { a int } action a () { select 1; } init() { select 2; }"))
				}
			})
		}},
		{"configuration lists over all literals", func(e *Emit) {
			L := lits()
			seqs(len(L), 1, 2, func(x []int) {
				e.Case(o, dbWith("use x {"+numbered(len(x), ", ", func(i int) string { return sp("k%d: %s", i, L[x[i]]) })+"} as e; use y {q:1} as f;"))
				e.Case(o, dbWith("use z as w; use x {"+numbered(len(x), ",", func(i int) string { return sp("k:%s", L[x[i]]) })+"} as e; action a () { e.m(); }"))
			})
			small := []string{"1", "'a'", "''", "'b, c: 2'"}
			seqs(len(small), 3, e.Pick(5, 6), func(x []int) {
				e.Case(o, dbWith("use x {"+numbered(len(x), ", ", func(i int) string { return sp("k%d: %s", i, small[x[i]]) })+"} as e;"))
			})
		}},
		{"long lists", func(e *Emit) {
			for _, n := range sizes(e) {
				e.Case(o, dbWith(numbered(n, " ", func(i int) string {
					if i%3 == 0 {
						return sp("use x%d as e%d;", i, i)
					}
					return sp("use x%d {k%d: %d, l: 'v%d'} as e%d;", i, i, i, n-i, i)
				})))
				e.Case(o, dbWith("use x {"+numbered(n, ",", func(i int) string { return sp("k%d:%d", i, n-i) })+"} as e; use y {"+numbered(n, ",", func(i int) string { return sp("k%d:'%d'", n-i, i) })+"} as f;"))
				e.Case(o, dbWith("use "+strings.Repeat("x", n)+" {"+strings.Repeat("k", n)+": '"+strings.Repeat("v", n)+"', j: "+strings.Repeat("4", n)+"} as "+strings.Repeat("e", n)+";"))
			}
		}},
		kitchenSpace("two deviations from a source using every construct", o, 2, 3),
	}
}

func init() {
	register(&Prop{ID: "C01", Spaces: append(tableSpaces("tables"), mixSpaces("tables", bigSpace)...), Rule: "every source of the listed spaces; the tables of each accepted schema are compared with the reference parser's"})
	register(&Prop{ID: "C02", Spaces: append(headerSpaces("headers"), mixSpaces("headers", bigSpace)...), Rule: "every source of the listed spaces; action headers are compared with the reference parser's"})
	register(&Prop{ID: "C03", Spaces: append(bodySpaces("bodies"), mixSpaces("bodies", stmtSpace, bigSpace)...), Rule: "every source of the listed spaces; statement lists are compared with the reference parser's tokens and with the engine's own reading"})
	register(&Prop{ID: "C04", Spaces: append(initSpaces("init"), mixSpaces("init", stmtSpace, bigSpace)...), Rule: "every source of the listed spaces; the init action is compared with the reference"})
	register(&Prop{ID: "C05", Spaces: append(extSpaces("exts"), mixSpaces("exts", bigSpace)...), Rule: "every source of the listed spaces; extensions are compared with the reference parser's"})
}
