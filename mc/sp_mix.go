package main

import (
	"strings"

	"verifmc/ref"
)

// Spaces shared by many properties: programs with several of everything whose
// names, literals, statements and list items are made equal to each other,
// moved, repeated and dropped in every place.

var mixPrograms = []string{
	"database db; use zx {k: 'v', a: 1, m: 'w'} as e1; use ax as e2; use mx {b: 2} as e3; action m ($z, $a, $q) public view { $r, $b = e1.f($z, 'x y', @caller); z($r, 1 + (2 * $a)); select 1; } " +
		"@t(k=1, a='x', b=2) @u(b=3) action z ($a, $b) owner { m(1, 2, $a); $c = e2.f($b); $d = e3.g($c); e2.h($d, -$a); } init () { m('', 'q', ''); insert into a values (1, 'x'); $s = e1.k(); z($s, 4); }",
	"database db; table m { z int notnull min(1) max(2), a text default('d') unique, q blob, #p1 primary(z), #z1 index(z, a), #a1 unique(q, a, z), fk (z) ref y (b, c) on_update cascade on_delete set_null, fk (a, q) ref m (z) on_delete restrict } " +
		"table y { c int primary, b text minlen(3) maxlen(4), d int default(5) } table n { k int, x text, #k1 index(k), fk (k) ref y (d), fk (x) ref n (k) on_update do no_action }",
	"database a; use a {a: 1} as a; table a { a int, b int, #c index(a), fk (a) ref b (b) } table b { b text, a int, #d unique(a, b), fk (b) ref a (a) } @a(a=1) action a ($a, $b) { b($a); $c = a.b($a, $b); a($c, 2); } action b ($b) public { a($b, 1); select 1; } init() { b('a'); a.a(1); }",
}

// mixWords are names that a program might treat specially.
var mixWords = []string{"init", "INIT", "Init", "null", "NULL", "main", "owner1", "Public", "VIEW", "caller", "database1", "a", "A", "a_", "b1"}

const mixTag = "mixed: "

// slotClass groups the tokens that may stand for each other.
func slotClass(k ref.Tok) int {
	switch k {
	case ref.IDENT, ref.INDEXNAME, ref.VAR:
		return 1
	case ref.NUMBER, ref.STRING:
		return 2
	case ref.KINT, ref.KTEXT, ref.KBLOB, ref.KPRIMARY, ref.KNOTNULL, ref.KUNIQUE, ref.KINDEX, ref.KCASCADE, ref.KRESTRICT, ref.KSETNULL, ref.KSETDEFAULT, ref.KNOACTION, ref.KPUBLIC, ref.KPRIVATE, ref.KVIEW, ref.KOWNER, ref.KONUPDATE, ref.KONDELETE, ref.KMIN, ref.KMAX, ref.KMINLEN, ref.KMAXLEN:
		return 3
	case ref.SQLSTMT:
		return 4
	}
	return 0
}

// bare splits a name token into its sigil and its name.
func bare(s string) (string, string) {
	if s != "" && strings.ContainsRune("$#", rune(s[0])) {
		return s[:1], s[1:]
	}
	return "", s
}

// identSpace: every content token replaced by (variants of) every other one of its class.
func identSpace(o string) Space {
	return Space{mixTag + "every name, literal, keyword and SQL text made equal to every other, or equal but for case, its end or one character", func(e *Emit) {
		for _, p := range mixPrograms {
			toks := lexOK(p)
			t := texts(toks)
			with := func(i int, w string) {
				c := append([]string{}, t...)
				c[i] = w
				e.Case(o, joinTexts(c, " "))
			}
			for i, tk := range toks {
				cl := slotClass(tk.Kind)
				if cl == 0 {
					continue
				}
				seen := map[string]bool{t[i]: true}
				try := func(w string) {
					if !seen[w] {
						seen[w] = true
						with(i, w)
					}
				}
				sig, own := bare(t[i])
				if cl == 1 {
					for _, w := range mixWords {
						try(sig + w)
					}
				}
				for j, u := range toks {
					if slotClass(u.Kind) != cl {
						continue
					}
					switch cl {
					case 1:
						_, n := bare(t[j])
						for _, v := range []string{n, strings.ToUpper(n), n + "_", n + "1", n + "x", n + "s", n + "_id", n + own, n + "_" + own, n[:len(n)-1]} {
							if v != "" {
								try(sig + v)
							}
						}
					case 2:
						try(t[j])
						try(strings.ToUpper(t[j]))
						try("'" + strings.Trim(t[j], "'") + "'")
						try("' " + strings.Trim(t[j], "'") + "'")
					default:
						try(t[j])
					}
					// both by a third
					if e.Thorough && j > i && cl <= 2 {
						for k, w := range toks {
							if slotClass(w.Kind) == cl && k != i && k != j {
								c := append([]string{}, t...)
								_, n := bare(t[k])
								sj, _ := bare(t[j])
								c[i], c[j] = sig+n, sj+n
								e.Case(o, joinTexts(c, " "))
							}
						}
					}
				}
			}
		}
	}}
}

// renameSpace: all occurrences of one name get another name.
func renameSpace(o string) Space {
	return Space{mixTag + "every name changed throughout, to every other name and its variants", func(e *Emit) {
		for _, p := range mixPrograms {
			toks := lexOK(p)
			var names []string
			seen := map[string]bool{}
			for _, tk := range toks {
				if slotClass(tk.Kind) == 1 {
					if _, n := bare(tk.Text); !seen[n] {
						seen[n] = true
						names = append(names, n)
					}
				}
			}
			for _, n := range names {
				to := append(append([]string{}, mixWords...), names...)
				for _, m := range names {
					to = append(to, strings.ToUpper(m), m+"_", m+"1")
				}
				for _, w := range to {
					c := make([]string, len(toks))
					for i, tk := range toks {
						c[i] = tk.Text
						if s, b := bare(tk.Text); slotClass(tk.Kind) == 1 && b == n {
							c[i] = s + w
						}
					}
					e.Case(o, joinTexts(c, " "))
				}
			}
		}
	}}
}

// groups finds the bracketed lists of a token list: for each, the ranges of its comma-separated items.
func groups(t []string) [][][2]int {
	var out [][][2]int
	var stack []int
	var items [][][2]int
	for i, s := range t {
		switch s {
		case "(", "{":
			stack = append(stack, i+1)
			items = append(items, nil)
		case ",":
			if n := len(stack); n > 0 {
				items[n-1] = append(items[n-1], [2]int{stack[n-1], i})
				stack[n-1] = i + 1
			}
		case ")", "}":
			n := len(stack)
			l := items[n-1]
			if stack[n-1] < i {
				l = append(l, [2]int{stack[n-1], i})
			}
			if len(l) > 0 {
				out = append(out, l)
			}
			stack, items = stack[:n-1], items[:n-1]
		}
	}
	return out
}

// itemSpace: list items dropped, repeated, swapped, and put in place of, or before, the items of every list.
func itemSpace(o string) Space {
	return Space{mixTag + "every list item dropped, repeated, swapped with another, and put in place of and before every item of every list", func(e *Emit) {
		for _, p := range mixPrograms {
			t := texts(lexOK(p))
			gs := groups(t)
			em := func(parts ...[]string) {
				var all []string
				for _, x := range parts {
					all = append(all, x...)
				}
				e.Case(o, joinTexts(all, " "))
			}
			for gi, g := range gs {
				for a, x := range g {
					it := t[x[0]:x[1]]
					if a+1 < len(g) {
						em(t[:x[0]], t[g[a+1][0]:])
					} else if a > 0 {
						em(t[:g[a-1][1]], t[x[1]:])
					} else {
						em(t[:x[0]], t[x[1]:])
					}
					em(t[:x[1]], []string{","}, t[x[0]:])
					em(t[:x[1]], []string{",", ","}, t[x[1]:])
					em(t[:x[1]], []string{","}, t[x[1]:])
					for _, y := range g[a+1:] {
						em(t[:x[0]], t[y[0]:y[1]], t[x[1]:y[0]], it, t[y[1]:])
						em(t[:y[1]], []string{","}, it, t[y[1]:])
					}
					for gj, h := range gs {
						for _, y := range h {
							if gj == gi || y[0] <= x[0] && x[1] <= y[1] || x[0] <= y[0] && y[1] <= x[1] {
								continue
							}
							em(t[:y[0]], it, t[y[1]:])
							em(t[:y[0]], it, []string{","}, t[y[0]:])
						}
					}
				}
			}
		}
	}}
}

var mixDecls = []string{
	"table t { a int primary, b text notnull, #i index(a, b) }",
	"table t { a int }",
	"table u { a int, b text, fk (a) ref t (a) on_delete cascade, #i unique(b) }",
	"table T { a blob, #a1 primary(a), fk (a) ref T (a) }",
	"action a ($p) public { select 1; a($p); $r = e.m($p); b($r); }",
	"action b ($p, $q) view { insert into t values (1); update t set a = 1; delete from t; b(1, $q); }",
	"action a () { select 1; }",
	"@n(k=1, l='x') @m(z=2) action c () private owner { a(1); $r, $s = e.m(); c(); b($s); }",
	"init () { select 1; }",
	"init () { a(1); insert into t values (1, 'x'); $r = e.m(); b($r, 2); }",
	"init () { select 'x'; select 'y'; select 'z'; a('w'); }",
	"action INIT ($p) public owner { select 1; }",
	"action d ($p) { a($undefined); }",
	"action e ($p) public public { select 1; select 2; select 3; }",
	"table v { a int maxlen(1), b text max(2) }",
	"table w { a int, #i index(zz), fk (a) ref zz (a) }",
}

// declSpace: every sequence of rich declarations.
func declSpace(o string) Space {
	return Space{mixTag + "every sequence of up to 3 (4) declarations from a pool of sound and faulty ones", func(e *Emit) {
		seqs(len(mixDecls), 0, e.Pick(3, 4), func(x []int) {
			e.Case(o, "database db; use x {k: 'v'} as e; "+pick(mixDecls, x, " "))
		})
	}}
}

// respell gives the same or nearly the same statement in other spellings.
func respell(s string) []string {
	out := []string{s, strings.ToUpper(s), strings.ReplaceAll(s, " ", "  "), strings.ReplaceAll(s, " ", "\n"), strings.ReplaceAll(s, ",", ",\n"), strings.ReplaceAll(s, "'", "' "), strings.ReplaceAll(s, "x", "X"), strings.ReplaceAll(s, "1", "2")}
	if b, ok := strings.CutSuffix(s, ";"); ok && slotClass(ref.SQLSTMT) > 0 {
		out = append(out, b+" ;", b+"\n;", b+" -- c\n;", b+" /* c */;")
	}
	return out
}

var mixStmts = []string{"select 'x', 1;", "insert into t (a, b) values (1, 'x y');", "update t set a = 1, b = 'x' where a = $p;", "delete from t where a in (1, 2);", "with c as (select 1) select abs(1), 'x' from c;",
	"select abs(1, 2), 1;", "select * from t join u on 1 = 1;", "select 1 from;", "a('x y', 1);", "$r = e.m('x', $p);", "$r, $s = e.m(1, $p and 1);", "e.m($r);", "zz(1);", "$p = e.m($p);", "$n = e.m($n);", "$n, $m = e.m(1, $m);"}

// stmtSpace: every pair of a statement and a respelling of itself or another, in one body, two actions, and an action and init.
func stmtSpace(o string) Space {
	return Space{mixTag + "every two statements, the second one respelled, in one body, in two actions, in an action and init", func(e *Emit) {
		for i, s := range mixStmts {
			for j, t := range mixStmts {
				for k, v := range respell(t) {
					if i != j && k > 3 && !e.Thorough {
						continue
					}
					pre := "database db; use x as e; "
					e.Case(o, pre+"action a ($p, $q) { "+s+" "+v+" }")
					e.Case(o, pre+"action a ($p, $q) { "+s+" } action b ($p) { "+v+" }")
					e.Case(o, pre+"init() { "+v+" } action a ($p, $q) { "+s+" }")
					e.Case(o, pre+"init() { "+s+" } action a ($p, $q) { "+v+" "+s+" }")
					if i == j {
						e.Case(o, pre+"action a ($p, $q) { "+v+" "+s+" }")
						e.Case(o, pre+"action a ($p, $q) { "+s+" "+s+" "+v+" "+s+" }")
						e.Case(o, pre+"action a ($p, $q) { "+s+" } action b () { select 1; } action c ($p) { "+v+" "+s+" }")
					}
					if k < 4 || e.Thorough {
						// no parameters: an action like init
						e.Case(o, pre+"action a () { "+s+" } init() { "+v+" }")
						e.Case(o, pre+"init() { "+s+" } action a () { "+v+" }")
						e.Case(o, pre+"action a () { select 0; } action b () { "+s+" } init() { "+v+" } action c () { "+s+" }")
						e.Case(o, pre+"action a () { "+s+" } action b () { "+v+" } init() { "+s+" "+v+" }")
						e.Case(o, pre+"action a () { "+s+" "+v+" } init() { "+v+" "+s+" }")
					}
				}
			}
		}
	}}
}

// bigSpace: one long literal, name or statement with everything in it that a careless copy would lose.
func bigSpace(o string) Space {
	return Space{mixTag + "one long literal, name, statement or list with blanks, quotes and brackets in it, every size", func(e *Emit) {
		ns := append(sizes(e), 300, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 4096, 4097)
		if e.Thorough {
			ns = append(ns, 65535, 65536, 65537)
		}
		for _, n := range ns {
			for _, pat := range []string{"ab  c\t(", "x\n y;{", "\\'# $a ", "é世 😀--"} {
				r := []rune(strings.Repeat(pat, n/len([]rune(pat))+1))[:n]
				if r[n-1] == '\\' {
					r[n-1] = 'z'
				}
				s := string(r)
				e.Case(o, "database db; use x {k: '"+s+"', l: 1} as e; use y {k: 2} as f; table t { a text default('"+s+"') notnull, b int }")
				e.Case(o, "database db; use x as e; @n(k='"+s+"', l=1) @m(k=2) action a ($p, $q) { a('"+s+"', $p and $q); $r, $p1 = e.m($p, '"+s+"'); a($r or 1, 'x  y'); }")
				if !strings.ContainsAny(pat, ";\\'") {
					e.Case(o, "database db; action a ($p) { select '"+s+"', 1; select 2; }")
					e.Case(o, "database db; action a ($p) { select 1; } init() { select 1, '"+s+"' ; a('"+s+"'); }")
				}
			}
			if n <= 1100 {
				long := strings.Repeat("n", n)
				e.Case(o, sp("database %s; use %s as e%s; table t%s { c%s int, #i%s index(c%s), fk (c%s) ref t%s (c%s) } action a%s ($p%s) { a%s($p%s and $p%s); $r%s = e%s.m(1, 'x  y'); select 1; }", long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long))
			}
		}
	}}
}

func mixSpaces(o string, more ...func(string) Space) []Space {
	out := []Space{}
	for _, f := range append([]func(string) Space{identSpace, renameSpace, itemSpace, declSpace, twinSpace, splitSpace, longTwins}, more...) {
		out = append(out, f(o))
	}
	return out
}

// splitDecls cuts a source into its database directive, its use directives and its other declarations; false if it cannot.
func splitDecls(src string) (db string, uses, decls []string, ok bool) {
	toks, bad := ref.Lex(src)
	if bad != nil {
		return "", nil, nil, false
	}
	var cur []string
	depth := 0
	for _, tk := range toks {
		t := tk.Text
		cur = append(cur, t)
		switch t {
		case "(", "{":
			depth++
		case ")", "}":
			depth--
		}
		if depth != 0 || t != ";" && t != "}" {
			continue
		}
		d := strings.Join(cur, " ")
		switch {
		case t == ";" && cur[0] == "database" && db == "":
			db = d
		case t == ";" && cur[0] == "use":
			uses = append(uses, d)
		case t == "}" && cur[0] == "use":
			continue // its configuration
		default:
			decls = append(decls, d)
		}
		cur = nil
	}
	return db, uses, decls, db != "" && len(cur) == 0
}

// orderSpace: the declarations of every source of another space reversed, rotated, and with one moved to the front.
func orderSpace(from func(string) Space) Space {
	s := from("")
	return Space{s.Name + ": the declarations in other orders", func(e *Emit) {
		n := uint64(0)
		s.Gen(&Emit{w: e.w, Thorough: e.Thorough, hook: func(src string) {
			if n++; e.w.n > 1 && n%e.w.n != e.w.shard {
				return
			}
			db, uses, decls, ok := splitDecls(src)
			if !ok {
				return
			}
			em := func(u, d []string) {
				if len(u) == len(uses) && len(d) == len(decls) {
					c := &Case{"order", db + " " + strings.Join(append(append([]string{}, u...), d...), " "), []string{src}}
					e.w.take(c.hash(), c)
				}
			}
			rev := func(l []string) []string {
				out := []string{}
				for i := len(l) - 1; i >= 0; i-- {
					out = append(out, l[i])
				}
				return out
			}
			rot := func(l []string, k int) []string {
				if len(l) == 0 {
					return l
				}
				k %= len(l)
				return append(append([]string{}, l[k:]...), l[:k]...)
			}
			em(rev(uses), rev(decls))
			em(rot(uses, 1), rot(decls, 1))
			for k := 2; e.Thorough && k < len(decls); k++ {
				em(rot(uses, k), rot(decls, k))
				em(uses, append([]string{decls[k]}, append(append([]string{}, decls[:k]...), decls[k+1:]...)...))
			}
		}})
	}}
}

// mixMore attaches the spaces that need every property registered.
func mixMore() {
	more := []Space{{mixTag + "every order of every 3 declarations of the pool", func(e *Emit) {
		seqs(len(mixDecls), 3, e.Pick(3, 4), func(x []int) {
			for i := 1; i < len(x); i++ {
				if x[i] < x[i-1] {
					return
				}
			}
			base := "database db; use x {k: 'v'} as e; " + pick(mixDecls, x, " ")
			perms(len(x), func(p []int) {
				ds := make([]string, len(x))
				for i := range p {
					ds[i] = mixDecls[x[p[i]]]
				}
				e.Case("order", "database db; use x {k: 'v'} as e; "+strings.Join(ds, " "), base)
			})
		})
	}}}
	for _, f := range []func(string) Space{identSpace, renameSpace, itemSpace, twinSpace, splitSpace} {
		more = append(more, orderSpace(f))
	}
	props["C30"].Spaces = append(props["C30"].Spaces, more...)
	props["C20"].Spaces = append(props["C20"].Spaces, mixSpaces("json", stmtSpace, bigSpace)...)
}

// twins are pairs of words that careless keys confuse: equal but for case, one place, order of letters, an end, a prefix of 8 or 16.
var twins = [][2]string{{"abc", "aXc"}, {"abc", "abC"}, {"abc", "Abc"}, {"abc", "acb"}, {"abc", "ab"}, {"abc", "bc"}, {"a_b", "ab"}, {"a_b", "aab"}, {"a1", "a01"}, {"a1", "a2"}, {"a_", "a__"}, {"Aa", "BB"}, {"AaAa", "BBBB"},
	{"abcdefgh", "abcdefgi"}, {"abcdefghi", "abcdefgh"}, {"abcdefghijklmnop", "abcdefghijklmnoq"}, {"abcdefghijklmnopq", "abcdefghijklmnop"}, {"aaaaaaaaaaaaaaaab", "aaaaaaaaaaaaaaabb"}, {"costarring", "liquid"}, {"declinate", "macallums"}, {"altarage", "zinke"}, {"plumless", "buckeroo"}}

// twinSpace: every two names of a source become twins.
func twinSpace(o string) Space {
	return Space{mixTag + "every two names become two words that weak keys confuse", func(e *Emit) {
		for _, p := range mixPrograms {
			toks := lexOK(p)
			var names []string
			seen := map[string]bool{}
			for _, tk := range toks {
				if slotClass(tk.Kind) == 1 {
					if _, n := bare(tk.Text); !seen[n] {
						seen[n] = true
						names = append(names, n)
					}
				}
			}
			for i, a := range names {
				for j, b := range names {
					if i == j || !e.Thorough && i > j {
						continue
					}
					for _, tw := range twins {
						c := make([]string, len(toks))
						for k, tk := range toks {
							c[k] = tk.Text
							s, n := bare(tk.Text)
							switch {
							case slotClass(tk.Kind) != 1:
							case n == a:
								c[k] = s + tw[0]
							case n == b:
								c[k] = s + tw[1]
							}
						}
						e.Case(o, joinTexts(c, " "))
					}
				}
			}
		}
		// literals, SQL texts and whole items alike but for the twins
		for _, tw := range twins {
			for _, w := range [][2]string{tw, {tw[1], tw[0]}} {
				r := strings.NewReplacer("%a", w[0], "%b", w[1])
				for _, t := range []string{
					"use x {k: '%a', l: '%b'} as e; use x {k: '%b', l: '%a'} as f; use x {%a: 1, %b: 2} as g; use %a as h; use %b as i;",
					"table t { a text default('%a') notnull, b text default('%b') } table u { a text default('%b'), b text default('%a') notnull }",
					"@n(k='%a', l='%b') action a ($p) { select '%a'; a('%a'); a('%b'); } @n(k='%b', l='%a') action b ($p) { select '%b'; a('%b'); } init() { select '%b'; select '%a'; a('%a'); }",
					"@%a(k=1) @%b(k=2) action a ($%a) { a($%a); } @%b(k=1) @%a(k=2) action b ($%b) { b($%b); } @n(%a=1, %b=2) action c ($%a, $%b) { a($%b); b($%a); }",
					"table t { %a int, %b int, #%a index(%a), #%b index(%a, %b) }", "table t { %a int, %b int, #i index(%b), #j unique(%a) } table u { %b text, #i index(%b), fk (%b) ref t (%a) }",
					"table %a { x int, fk (x) ref %b (y) } table %b { y int, fk (y) ref %a (x) }", "table %a { x int } table %b { y int, fk (y) ref %a (y) }",
					"action %a ($x) public { %b($x, 1); select %b from %a; } action %b ($x, $y) { %a($y); select %a from %b; }", "action %a ($x) { $%a = e.m($x); a1($%a, $%b); } action a1 ($x) { a1($x); }",
				} {
					e.Case(o, "database d; use z as e; "+r.Replace(t))
				}
			}
		}
	}}
}

// splitSpace: pairs of names whose texts, written one after the other, are equal.
func splitSpace(o string) Space {
	return Space{mixTag + "declarations whose names, written together, are equal", func(e *Emit) {
		for _, w := range []string{"abcdef", "a_b_c_d", "aaaa", "a1b1c1", "ab_ab_ab"} {
			var cuts [][2]string
			for i := 1; i < len(w); i++ {
				for j := i; j <= i+1 && j < len(w); j++ { // with or without an underscore between
					if j == i && letter(w[j]) || j == i+1 && w[i] == '_' && letter(w[j]) {
						cuts = append(cuts, [2]string{w[:i], w[j:]})
					}
				}
			}
			for _, x := range cuts {
				for _, y := range cuts {
					r := strings.NewReplacer("%a", x[0], "%b", x[1], "%c", y[0], "%d", y[1], "%w", w)
					for _, t := range []string{
						"table %a { %b int, z1 text } table %c { %d int, z2 text }",
						"table %a { %b int, #%b1 index(%b), fk (%b) ref %c (%d) } table %c { %d int, #%d1 index(%d), fk (%d) ref %a (%b) }",
						"table %a { %b int, z1 int } table %c { z2 int, fk (z2) ref %c (%d) }", "table %a { %b int, z1 int } table %c { z2 int, #i index(%d) }", "table %a { %b int, fk (%d) ref %a (%b) } table %c { z3 int }",
						"table %a { z1 int, #%b index(z1) } table %c { z2 int, #%d index(z2) }", "table %a { %b int } table %c { %b int } table %w { %b int }", "table %w { x1 int } table %a { %b int } table %c { %d int }",
						"use %a as %b; use %c as %d; action q1 () { %b.%a(); %d.%c(); }", "use %a {%b: '%c%d'} as e1; use %c {%d: '%a'} as e2;", "use %a as %b; action q1 () { %d.%c(); }", "use x as %a; use x as %c; action q1 () { %a.%b(); %c.%d(); }",
						"action %a ($%b) public { %c($%b); } action %c ($%d) { %a($%d); }", "action %a ($%b) { select 1; } action %c ($z1) { %a($%d); }", "action %a ($%b, $%d) { %a($%b); } action %c () { %a($%b); }",
						"table %a { %b int } action %c ($%d) { %c($%d); } use %a as %b;", "@%a(%b=1) @%c(%d=1) action q1 () { select 1; }", "@%a(%b='x', %d='y') action %c ($%d) { select 1; }",
						"table %a { %b int, %d int, #%w index(%b, %d), #%c1 index(%d, %b) }", "table %a { %b int, %d int, fk (%b, %d) ref %a (%d, %b) }", "action %a () { %b.%c(); } use q as %b;", "action q1 () { $%a = %b.%c($%d); } use q as %b;",
					} {
						e.Case(o, "database db; "+r.Replace(t))
					}
				}
			}
		}
	}}
}

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

// longTwins: two long texts that differ in one place only.
func longTwins(o string) Space {
	return Space{mixTag + "two long names, literals, statements or lists that differ in one place, every size", func(e *Emit) {
		for _, n := range append(sizes(e), 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097) {
			if n < 4 {
				continue
			}
			for _, at := range []int{0, n / 2, n - 2, n - 1} {
				b := []byte(strings.Repeat("ab", n/2+1))[:n]
				x := string(b)
				b[at] = 'c'
				y := string(b)
				r := strings.NewReplacer("%a", x, "%b", y)
				for k, t := range []string{
					"database d; use x {k: '%a', l: 1} as e; use x {k: '%b', l: 1} as f; table t { a text default('%a') unique, b text default('%b') } table u { a text default('%b') unique }",
					"database d; use x as e; @n(k='%a', l=1) action a ($p) { a('%a', $p and 1); $r = e.m('%a'); } @n(k='%b', l=1) action b ($p) { a('%b', $p and 1); $r = e.m('%b'); a('%a', $p and 1); }",
					"database d; action a ($p) { select '%a', $p; select '%b', $p; } action b ($p) { select '%b', $p; } init() { select '%a', 1; select '%b', 1; }",
					"database d; action a ($p) { select '%a', 1; } action b ($p) { select '%b', random(); }", "database d; action a ($p) { a('%a', $p); } action b ($q) { a('%b', $p); }",
					"database d; table %a { x int, #%a index(x) } table %b { x text, #%b unique(x), fk (x) ref %a (x) } action %a ($%a) public { %b($%a); } action %b ($%b) { %a($%b); }",
					"database d; use x as %a; use x as %b; table t { %a int, %b text, #i%a index(%a, %b), #i%b unique(%b), fk (%a, %b) ref t (%b, %a) } action a ($%a, $%b) { $r%a, $r%b = %a.m($%a); a($%b, $r%a and $r%b); }",
					"database d; table t { %a int, fk (%a) ref t (%b) }", "database d; table %a { x int } table u { y int, fk (y) ref %b (x) }", "database d; action %a ($x) { %b($x); }", "database d; action a ($%a) { a($%b); }", "database d; use x as %a; action a () { %b.m(); }",
				} {
					if k >= 5 && n > 1100 {
						continue
					}
					e.Case(o, r.Replace(t))
				}
			}
		}
	}}
}
