package main

import (
	"fmt"
	"strings"
)

// seqs calls f with every sequence of at most max numbers below n, shortest first.
func seqs(n, min, max int, f func([]int)) {
	for l := min; l <= max; l++ {
		tuples(n, l, f)
	}
}

func tuples(n, l int, f func([]int)) {
	x := make([]int, l)
	for {
		f(x)
		i := l - 1
		for i >= 0 && x[i] == n-1 {
			x[i] = 0
			i--
		}
		if i < 0 {
			return
		}
		x[i]++
	}
}

// perms calls f with every permutation of 0..n-1.
func perms(n int, f func([]int)) {
	x := make([]int, n)
	for i := range x {
		x[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(x)
			return
		}
		for i := k; i < n; i++ {
			x[k], x[i] = x[i], x[k]
			rec(k + 1)
			x[k], x[i] = x[i], x[k]
		}
	}
	rec(0)
}

// sizes lists the list lengths used to pump lists: all small ones, and the neighbourhoods of powers of two.
func sizes(e *Emit) []int {
	var out []int
	for i := 1; i <= e.Pick(40, 140); i++ {
		out = append(out, i)
	}
	for _, p := range []int{64, 100, 128, 256, 512} {
		for d := -1; d <= 1; d++ {
			if p+d > out[len(out)-1] && (p <= 256 || e.Thorough) {
				out = append(out, p+d)
			}
		}
	}
	return out
}

// numbered joins f(0)..f(n-1).
func numbered(n int, sep string, f func(i int) string) string {
	p := make([]string, n)
	for i := range p {
		p[i] = f(i)
	}
	return strings.Join(p, sep)
}

func pick(alpha []string, idx []int, sep string) string {
	p := make([]string, len(idx))
	for i, k := range idx {
		p[i] = alpha[k]
	}
	return strings.Join(p, sep)
}

var strLits = []string{"''", "'a'", "'a b'", "' '", `'it\'s'`, `'\\'`, "'//x'", "'/* x */'", "'--'", "'\"'", "'é世😀'", "'a,b'", "')'", "'('", "'}'", "';'", "'{'", "'='", "'#'", "'$a'", "'@a'", `'\n'`, "'\\\n'", "'\t'", "'null'", "'7'", "'database x;'", "' a '"}
var numLits = []string{"0", "1", "7", "00", "007", "42", "2147483648", "9223372036854775807", "9223372036854775808", "18446744073709551616", "123456789012345678901234567890"}

func lits() []string { return append(append([]string{}, numLits...), strLits...) }

// A slotted source: text pieces with alternatives; deviations from the default
// alternative (index 0) are bounded.
type slot []string

// deviate enumerates all choices with at most k slots away from their default.
func deviate(slots []slot, k int, f func(choice []int)) {
	ch := make([]int, len(slots))
	for n := 0; n <= k; n++ {
		var rec func(from, left int)
		rec = func(from, left int) {
			if left == 0 {
				f(ch)
				return
			}
			for i := from; i <= len(slots)-left; i++ {
				for a := 1; a < len(slots[i]); a++ {
					ch[i] = a
					rec(i+1, left-1)
				}
				ch[i] = 0
			}
		}
		rec(0, n)
	}
}

func assemble(slots []slot, ch []int) string {
	var b strings.Builder
	for i, s := range slots {
		b.WriteString(s[ch[i]])
	}
	return b.String()
}

// kitchen is a source using every construct, cut into slots with alternatives.
// Every combination of alternatives is syntactically valid.
func kitchen() []slot {
	L := lits()
	withDefault := func(d string, more []string) slot { return append(slot{d}, more...) }
	cons := []string{"", "primary", "notnull", "unique", "default(5)", "default('x')", "min(1)", "max(2)", "minlen(3)", "maxlen(4)",
		"notnull unique", "unique notnull", "primary notnull default(0)", "default('a b') notnull", "min(0) max(10)", "max(10) min(0)", "minlen(1) maxlen(2) unique"}
	var consSp []string
	for _, c := range cons {
		consSp = append(consSp, " "+c)
	}
	fkRules := []string{"", " on_update cascade", " on_delete set_null", " on_update do restrict", " on_delete do no_action on_update set_default",
		" on_update do cascade on_delete do set_null", " on_delete set_default on_update restrict"}
	mods := []string{" public", "", " private", " view", " owner", " public view", " view public", " owner public", " private owner view", " view owner", " owner view public", " owner owner", " public private", " view view"}
	stmts := []string{"select 1;", "SELECT * FROM t1;", "insert into t1 values (1, $p);", "update t1 set a = 2 where b = 'x';", "delete from t1 ;", "with c as (select 1) select * from c;",
		"a2(1, 'x');", "$r = a2($p);", "$r, $s = e1.m($p, @caller);", "e2.m(1 + 2, -$p, not 1 and 2);", "a1($p);", "init2();", "nope();", "nope.m();", "a2($undef);", "select bad syntax here;", "select random();"}
	exts := []string{"use x1 as e1;", "use x1 {k: 1} as e1;", "use x1 {k: 'v', k2: 22} as e1;", "use x2 {k: 'a b', k: 3, z: ''} as e1;", ""}
	s := []slot{
		{"database db;"},
		withDefault("use x0 {a: ", nil), withDefault("1", L), {"} as e0;"},
		exts,
		{"use x2 as e2;", "use x1 as e2;", "use x2 {q: 0} as e2;", "use e1 as x1; use y as e2;", "use x2 as e1;"},
		{"table t1 { a int", "table t1 { a text", "table t1 { a blob"}, consSp,
		{", b text", ", b int", ", B text", ", a text", ", b int primary"}, consSp,
		{", c int default(", ", c text default(", ", c blob default("}, withDefault("3", L), {")"},
		{", #i1 index(a)", ", #i1 unique(a, b)", ", #i1 primary(b, a)", ", #b index(a)", "", ", #i1 index(zz)", ", #I1 index(b)"},
		{"", ", #i2 unique(b)", ", #i1 unique(b)", ", #i2 primary(a, c, b)"},
		{", fk (a) ref t2 (x)", ", foreign_key (a) references t2 (x)", ", fk (a, b) ref t2 (x, y)", ", fk (b) ref t1 (a)", "", ", fk (zz) ref t2 (x)", ", fk (a) ref t9 (x)", ", fk (a) ref t2 (zz)", ", fk (a) ref t2 (j1)"},
		{"", ", #i3 index(c)", ", fk (c) ref t2 (y) on_delete cascade"},
		{"}", ",}"},
		{"", "init() { insert into t1 values (1, 'i'); }"},
		{"table t2 { x int, y text, #j1 index(y)", "table T1 { x int, y int", "table t1 { x int, y text"}, {"", ", fk (y) references t1 (b)"}, fkRules, {"}"},
		{"", "@ann(k = 1) ", "@kgw(a = 'b, c', d = 2) @two(x = '')", "@a(b = ')') "}, {"action a1 ($p", "action a1 (", "action a1 ($p, $q", "action a1 ($q, $p, $r", "action a1 ($p, $p"}, {")"}, mods, {" { "},
		stmts, stmts[:], {"}"},
		{"action a2 () ", "action A1 ($z) ", "action a1 () ", "@n(v = 3) action a2 ($p) "}, mods, {" {"}, stmts, {"}"},
		{"", "table t3 { q blob notnull }"},
		{"", " init() { select 9; }", " init() { a2(@caller); e1.m(); }"},
		{"action init2 () private { select 5; }", "action init2 ($a, $b) view { update t1 set a = $a; select $b; }", ""},
	}
	// a slot whose default would break a rule with other defaults: fk rules need the fk slot; keep them valid
	return fixKitchen(s)
}

// fixKitchen keeps rule suffixes attached to a foreign key.
func fixKitchen(s []slot) []slot {
	for i := range s {
		if len(s[i]) > 1 && s[i][0] == "" && s[i][1] == ", fk (y) references t1 (b)" && i+1 < len(s) {
			var comb slot
			comb = append(comb, "")
			for _, r := range s[i+1] {
				comb = append(comb, s[i][1]+r)
			}
			s[i] = comb
			s = append(s[:i+1], s[i+2:]...)
			break
		}
	}
	return s
}

func kitchenSpace(name, oracle string, q, t int) Space {
	return Space{name, func(e *Emit) {
		k := kitchen()
		deviate(k, e.Pick(q, t), func(ch []int) { e.Case(oracle, assemble(k, ch)) })
	}}
}

func sp(format string, a ...any) string { return fmt.Sprintf(format, a...) }
