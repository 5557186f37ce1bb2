package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"verifmc/ref"
)

// Pairs of nearly equal declarations, every loop of the grammar, values serialised again after a change.

// A pairItem is a declaration that is written twice, the second time with tokens replaced.
type pairItem struct {
	kind string // column, item (index or foreign key), ext, action
	text string
}

var pairItems = []pairItem{
	{"column", "p int min(1) max(2) notnull"},
	{"column", "p text minlen(1) maxlen(2) default('x')"},
	{"column", "p blob unique default('x') primary"},
	{"item", "#p index(a, b)"},
	{"item", "#p unique(a, b, c)"},
	{"item", "fk (a, b) ref t (a, b)"},
	{"item", "fk (a, b) ref u (a, b) on_update cascade on_delete set_null"},
	{"item", "fk (a) ref u (a) on_delete do restrict"},
	{"ext", "use x {k: 1, l: 'v'} as p;"},
	{"ext", "use p as e;"},
	{"action", "@n(k=1, j='x') action p ($a, $b) public view { select 1; }"},
	{"action", "@n(k=1) @m(k=1) action p ($a) private owner { q($a); }"},
	{"action", "action p ($a) { $r = e.m($a); q($r); }"},
}

// Words that take each other's place.
var pairGroups = [][]string{
	{"p", "q", "P", "pp"},
	{"a", "b", "c", "z", "A", "i"},
	{"t", "u", "v"},
	{"x", "y"}, {"k", "l"}, {"n", "m"}, {"e", "f"},
	{"$a", "$b", "$c"},
	{"$r", "$s"},
	{"#p", "#q", "#P", "#a"},
	{"int", "text", "blob"},
	{"index", "unique", "primary"},
	{"min", "max", "minlen", "maxlen", "default"},
	{"notnull", "primary", "unique"},
	{"1", "2", "01"}, {"'x'", "'y'", "'X'", "'x '"}, {"'v'", "'w'", "1"},
	{"on_update", "on_delete"},
	{"cascade", "restrict", "set_null", "no_action", "set_default"},
	{"public", "private", "view", "owner"},
	{"@n", "@m", "@N"},
}

// respelled lists the texts that differ from s in up to two tokens. Equal words of s change together or alone.
func respelled(s string, two bool) []string {
	toks := texts(lexOK(s))
	alt := func(t string) []string {
		for _, g := range pairGroups {
			for _, w := range g {
				if w == t {
					return g
				}
			}
		}
		return nil
	}
	out := []string{s}
	seen := map[string]bool{s: true}
	add := func(t []string) {
		if x := strings.Join(t, " "); !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	put := func(t []string, i int, w string) []string {
		n := append([]string{}, t...)
		n[i] = w
		return n
	}
	for i := range toks {
		for _, w := range alt(toks[i]) {
			one := put(toks, i, w)
			add(one)
			if two {
				for j := i + 1; j < len(toks); j++ {
					for _, v := range alt(toks[j]) {
						add(put(one, j, v))
					}
				}
			}
		}
	}
	// a pair of neighbours of a list changed places, one left out
	for i := 0; i+2 < len(toks); i++ {
		if toks[i+1] == "," {
			add(put(put(toks, i, toks[i+2]), i+2, toks[i]))
			add(append(append([]string{}, toks[:i]...), toks[i+2:]...))
			add(append(append([]string{}, toks[:i+1]...), toks[i+3:]...))
		}
	}
	return out
}

// twinDecls: every item together with every respelling of it.
func twinDecls(o string, kinds string) Space {
	return Space{mixTag + "every declaration next to itself with up to two words changed, in one table, in two tables, first and second", func(e *Emit) {
		for _, it := range pairItems {
			if !strings.Contains(kinds, it.kind) {
				continue
			}
			for k, r := range respelled(it.text, true) {
				for turn := 0; turn < 2; turn++ {
					a, b := it.text, r
					if turn == 1 {
						if !e.Thorough && k%2 == 0 {
							continue
						}
						a, b = r, it.text
					}
					switch it.kind {
					case "column", "item":
						cols := "a int, b int, c text"
						e.Case(o, "database d; table t { "+cols+", "+a+", "+b+" } table u { a int, b int, z int, #i index(a) }")
						e.Case(o, "database d; table t { "+cols+", "+a+" } table u { a int, b text, z int, "+b+" }")
						if e.Thorough {
							e.Case(o, "database d; table u { a int, b int, z int } table t { "+cols+", "+a+", #i index(b), fk (a) ref u (z), "+b+" }")
						}
					case "ext":
						e.Case(o, "database d; "+a+" "+b+" action a() { p.m(1); }")
						e.Case(o, "database d; use w as v; "+a+" use x {k: 1} as z; "+b)
					case "action":
						e.Case(o, "database d; use x as e; "+a+" "+b+" action q ($z) { select 1; }")
						e.Case(o, "database d; use x as e; action q ($z) { select 1; } "+a+" action w () { select 2; } "+b+" init() { select 3; }")
					}
				}
			}
		}
	}}
}

// loopSpace: every repeatable part of the grammar repeated up to n times, each alternative alone and all in turn.
func loopSpace(o string) Space {
	type loop struct {
		pre, post, sep string
		alts           []string
	}
	loops := []loop{
		{"", "", " ", []string{"use x as e#;", "use x {k: 1} as e#;"}},
		{"", "", " ", []string{"table t# { a int }", "action a#() { select 1; }", "init() { select 1; }", "@n(k=1) action a#() { select 1; }"}},
		{"use x {", "} as e;", ", ", []string{"k#: 1", "k#: 'v'", "k: 1"}},
		{"", "action a() { select 1; }", " ", []string{"@n(k=1)", "@n#(k='v', l=2)"}},
		{"@n(", ") action a() { select 1; }", ", ", []string{"k#=1", "k#='v'", "k=1"}},
		{"table t { ", " }", ", ", []string{"c# int", "c# text notnull", "c# blob unique default('x')"}},
		{"table t { a int, ", " }", ", ", []string{"#i# index(a)", "#i# unique(a, a)", "fk (a) ref t (a)", "foreign_key (a) references t (a) on_update cascade"}},
		{"table t { a int ", " }", " ", []string{"primary", "notnull", "unique", "default(1)", "default('x')", "min(1)", "max(1)", "minlen(1)", "maxlen(1)"}},
		{"table t { a int, #i index(", ") }", ", ", []string{"a", "b#"}},
		{"table t { a int, fk (", ") ref t (a) }", ", ", []string{"a", "b#"}},
		{"table t { a int, fk (a) ref t (", ") }", ", ", []string{"a", "b#"}},
		{"table t { a int, fk (a) ref t (a) ", " }", " ", []string{"on_update cascade", "on_delete cascade", "on_update do set_null", "on_delete do set_default", "on_delete restrict", "on_update do no_action"}},
		{"action a(", ") { select 1; }", ", ", []string{"$p#", "$p"}},
		{"action a() ", " { select 1; }", " ", []string{"public", "private", "view", "owner"}},
		{"action a() { ", " }", " ", []string{"select 1;", "a();", "$x# = a();", "$x = e.m(1);", "delete from t;"}},
		{"init() { ", " }", " ", []string{"select 1;", "a();", "$x# = a();", "e.m(1);"}},
		{"action a() { a(", "); }", ", ", []string{"1", "'x'", "$p", "@caller", "not 1", "-1", "(1)", "abs(1)", "1 + 2"}},
		{"action a() { a(abs(", ")); }", ", ", []string{"1", "'x'", "$p", "@caller"}},
		{"action a() { ", " = e.m(); }", ", ", []string{"$p#", "$p"}},
		{"action a() { a(1 ", "); }", " ", []string{"+ 1", "* 2", "and 1", "or not 1", "= 1", "|| 'x'", "<= -1", "and 1 or 2"}},
		{"action a() { a(", " 1); }", " ", []string{"not", "-", "+", "~", "not -"}},
		{"action a() { a(", "1); }", "", []string{"("}},
	}
	return Space{"every repeatable part repeated, every alternative alone, two in turn, all in turn, one another behind many", func(e *Emit) {
		for _, l := range loops {
			em := func(n int, pick func(i int) string) {
				e.Case(o, "database d; "+l.pre+numbered(n, l.sep, func(i int) string { return strings.ReplaceAll(pick(i), "#", fmt.Sprint(i)) })+l.post)
			}
			hash := func(s string) string { // "#i#" keeps its first mark
				return strings.Replace(s, "#i#", "\x00i#", 1)
			}
			fix := func(n int, pick func(i int) string) {
				e.Case(o, "database d; "+l.pre+numbered(n, l.sep, func(i int) string {
					return strings.ReplaceAll(strings.ReplaceAll(hash(pick(i)), "#", fmt.Sprint(i)), "\x00", "#")
				})+l.post)
			}
			if strings.Contains(strings.Join(l.alts, ""), "#i#") {
				em = fix
			}
			for n := 0; n <= e.Pick(12, 40); n++ {
				for i, a := range l.alts {
					em(n, func(int) string { return a })
					for j, b := range l.alts {
						if i == j {
							continue
						}
						em(n, func(k int) string { return l.alts[[]int{i, j}[k%2]] })
						em(n+1, func(k int) string {
							if k == n {
								return b
							}
							return a
						})
						em(n+1, func(k int) string {
							if k == 0 {
								return b
							}
							return a
						})
					}
				}
				for s := range l.alts {
					em(n, func(k int) string { return l.alts[(k+s)%len(l.alts)] })
				}
			}
		}
	}}
}

// jsonChange: a part is serialised, changed in place in every one of its values and list lengths, and serialised again.
func jsonChange(c *Case) (string, string) {
	var v jsoner
	if strings.HasPrefix(c.S, "database") {
		g := parse(c.S)
		if g.Kind != "" {
			return "", g.label()
		}
		v = g.Schema
	} else {
		p, ok := buildPart(c.S)
		if !ok {
			return "", "no such place"
		}
		v = p
	}
	if m := checkJSON(v); m != "" {
		return m, "changed"
	}
	n := 0
	m := changes(reflect.ValueOf(v).Elem(), func() string { n++; touch(c.S, 1); return checkJSON(v) })
	if m != "" {
		m = "after a change in place: " + m
	}
	return m, sp("%d changes", min(n/10*10, 200))
}

// changes makes every single change to a value in turn, and takes it back.
func changes(v reflect.Value, check func() string) string {
	switch v.Kind() {
	case reflect.String:
		old := v.String()
		for _, s := range []string{old + "+", swapEnds(old), "", old} {
			if s == old && len(s) > 0 && s != "" {
				v.SetString(s)
				continue
			}
			v.SetString(s)
			if m := check(); m != "" {
				return m
			}
		}
		v.SetString(old)
	case reflect.Bool:
		v.SetBool(!v.Bool())
		m := check()
		v.SetBool(!v.Bool())
		return m
	case reflect.Interface:
		old := reflect.ValueOf(v.Interface())
		for _, x := range []any{"other", "", false, nil} {
			if x == nil {
				v.SetZero()
			} else {
				v.Set(reflect.ValueOf(x))
			}
			if m := check(); m != "" {
				return m
			}
		}
		if old.IsValid() {
			v.Set(old)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if m := changes(v.Field(i), check); m != "" {
				return m
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if m := changes(v.Index(i), check); m != "" {
				return m
			}
		}
		if n := v.Len(); n > 0 {
			old := reflect.ValueOf(v.Interface())
			v.Set(old.Slice(0, n-1))
			if m := check(); m != "" {
				return m
			}
			v.Set(old)
			if n > 1 {
				rev := reflect.MakeSlice(v.Type(), n, n)
				for i := 0; i < n; i++ {
					rev.Index(i).Set(old.Index(n - 1 - i))
				}
				v.Set(rev)
				if m := check(); m != "" {
					return m
				}
				v.Set(old)
			}
		} else {
			v.Set(reflect.MakeSlice(v.Type(), 1, 1))
			if m := check(); m != "" {
				return m
			}
			v.SetZero()
		}
	}
	return ""
}

// swapEnds keeps the length and the multiset of characters.
func swapEnds(s string) string {
	r := []rune(s)
	if len(r) < 2 {
		return s + "\u00e9"
	}
	r[0], r[len(r)-1] = r[len(r)-1], r[0]
	return string(r)
}

func init() {
	for _, x := range [][3]string{{"C01", "tables", "column item"}, {"C02", "headers", "action"}, {"C05", "exts", "ext"}, {"C09", "dups", "column item ext action"}, {"C10", "refs", "item"},
		{"C11", "attrs", "column"}, {"C12", "targets", "ext action"}, {"C13", "vars", "action"}, {"C15", "modifiers", "action"}, {"C17", "cause", "column item ext action"}, {"C28", "accept", "column item action"}} {
		props[x[0]].Spaces = append(props[x[0]].Spaces, twinDecls(x[1], x[2]))
	}
	for id, o := range map[string]string{"C01": "tables", "C02": "headers", "C04": "init", "C05": "exts", "C06": "syntax", "C09": "dups", "C10": "refs", "C11": "attrs", "C15": "modifiers", "C16": "total", "C17": "cause", "C27": "trace", "C29": "listener"} {
		props[id].Spaces = append(props[id].Spaces, loopSpace(o))
	}

	// C20
	oracles["json-change"] = jsonChange
	props["C20"].Spaces = append([]Space{{"every part serialised, changed in place in one value, and serialised again, for every value", func(e *Emit) {
		for _, p := range parts {
			for n := 0; n <= e.Pick(3, 6); n++ {
				for _, f := range []string{"true", "false"} {
					e.Case("json-change", sp("%s place 0 string 0 lists %d flag %s", p, n, f))
				}
			}
		}
		for _, s := range histSources {
			if strings.HasPrefix(s, "database") {
				e.Case("json-change", s)
			}
		}
		seqs(len(mixDecls), 1, 2, func(x []int) { e.Case("json-change", "database db; use x {k: 'v'} as e; "+pick(mixDecls, x, " ")) })
		k := kitchen()
		e.Case("json-change", assemble(k, make([]int, len(k))))
	}}}, props["C20"].Spaces...)

	// C19
	props["C19"].Spaces = append(props["C19"].Spaces, Space{"fresh process: sources of every construct and every kind of rejection, with themselves and in one order with each other", func(e *Emit) {
		srcs := append([]string{}, histSources...)
		for _, s := range []string{
			"database d; action a($x) { a(@caller, $x, -1, not $x and 1 or 2 = 3, abs(1), 'x' || 'y', 1 < 2, 1 + 2 * 3 % 4, (5)); }",
			"database d; action a() { a(@other); }", "database d; action a() { a(nope(1)); }",
			"database d; use x as e; use y as e;", "database d; table t { a int } table t { a int }", "database d; table t { a int, a int }", "database d; table t { a int, #a index(a) }",
			"database d; table t { a int unique unique }", "database d; table t { a text min(1) }", "database d; table t { a int, fk (b) ref t (a) }", "database d; table t { a int, fk (a) ref t (b) }",
			"database d; table t { a int, fk (a) ref t (a) on_delete cascade on_delete cascade }", "database d; action a() { select 1; } action a() { select 1; }", "database d; action a($p, $p) { select 1; }",
			"database d; use x as e; action a() { $r, $r = e.m(); }", "database d; action a() view view { select 1; }", "database d; action a() owner owner { select 1; }",
			"database d; action a() { with c as (select 1) select * from c; insert into t values (1) on conflict do nothing; update t set a = 1; delete from t; }",
			"database d; action a() { select * from t join u on 1=1; }", "database d; action a() { select from; }",
		} {
			srcs = append(srcs, s)
		}
		k := kitchen()
		srcs = append(srcs, assemble(k, make([]int, len(k))))
		em := func(a, b string) {
			j, err := json.Marshal(Sched{Ops: []string{a, b}})
			must(err)
			e.Case("sched-cold", string(j))
		}
		for i, s := range srcs {
			for _, m := range []string{"p", "t", "l"} {
				em(m+s, m+s)
			}
			for j := range srcs {
				if j != i && (e.Thorough || (i+j)%7 == 0) {
					em("p"+s, "p"+srcs[j])
				}
			}
		}
	}})
}

var _ = ref.Keywords
