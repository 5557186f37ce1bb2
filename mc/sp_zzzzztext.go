package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kwil-db/parse/sql/tree"
)

// Every short text in literals and comments, comments in SQL, inputs of more than a megabyte.

// litUnits are what the text of a literal can consist of: every ASCII character, the escapes, and characters of two to four bytes.
func litUnits() []string {
	var l []string
	for r := rune(1); r < 0x7f; r++ {
		if r != '\'' && r != '\\' && r >= ' ' {
			l = append(l, string(r))
		}
	}
	return append(l, `\'`, `\\`, "é", "世", "😀")
}

// litSpecial are those of them that mean something to some program.
var litSpecial = []string{" ", "a", "0", ",", "=", ":", ";", "(", ")", "{", "}", "/", "*", "-", "\"", "`", "#", "@", "$", "%", "\\n", `\'`, `\\`, "n", "é"}

// litTextSpace puts texts, many at a time, in every place a literal can stand.
func litTextSpace(o string, quick int) Space {
	return Space{"every short text of a literal", func(e *Emit) {
		units := litUnits()
		var l []string
		batch := 0
		flush := func() {
			if batch++; len(l) > 0 && (quick <= 1 || e.Thorough || batch%quick == 0) {
				lits := make([]string, len(l))
				for i, x := range l {
					lits[i] = "'" + x + "'"
				}
				var conf, cols, attrs []string
				for i, x := range lits {
					conf, cols, attrs = append(conf, sp("k%d: ", i)+x), append(cols, sp("c%d text default(", i)+x+")"), append(attrs, sp("k%d=", i)+x)
				}
				all := strings.Join(lits, ", ")
				e.Case(o, "database d; use x {"+strings.Join(conf, ", ")+"} as e; table t { "+strings.Join(cols, ", ")+" } @n("+strings.Join(attrs, ", ")+") action a($p) { a("+all+"); $r = e.m("+all+", $p); a($r = "+lits[0]+"); }")
			}
			l = l[:0]
		}
		add := func(s string) {
			if l = append(l, s); len(l) == 50 {
				flush()
			}
		}
		for _, a := range units {
			add(a)
			for _, b := range units {
				add(a + b)
			}
		}
		flush()
		for c := rune(1); c < 0x7f; c++ {
			if c >= ' ' {
				for _, b := range []string{"", "a", " ", `\'`, ","} {
					add(`\` + string(c) + b)
					add(b + `\` + string(c))
					add("x" + b + `\` + string(c) + b + "y")
				}
			}
		}
		flush()
		seqs(len(litSpecial), 3, e.Pick(3, 4), func(x []int) {
			if len(x) < 4 || x[3]%4 == x[0]%4 {
				add(pick(litSpecial, x, ""))
			}
		})
		flush()
	}}
}

// sqlGap are the comments that can stand between the words of a statement.
var sqlGap = []string{"/**/", "/* c */", " /*c*/ ", "/* ' */", "/*;*/", "/* select 1 from t */", "--\n", "-- c\n", " -- ' \n", "\n--c\r\n", "/*/ */", "/***/", "/* -- */", "-- /*\n"}

func init() {
	for _, x := range []struct {
		id, o string
		quick int
	}{{"C01", "tables", 1}, {"C02", "headers", 1}, {"C03", "bodies", 1}, {"C05", "exts", 1}, {"C06", "syntax", 1}, {"C16", "total", 2}, {"C20", "json", 1}, {"C25", "annotation", 1}, {"C27", "trace", 2}, {"C24", "wasm-text", 12}, {"C28", "accept", 3}} {
		props[x.id].Spaces = append(props[x.id].Spaces, litTextSpace(x.o, x.quick))
	}

	comment := []string{" ", "/", "*", "}", "{", ";", "'", "\"", "\n", "a", "\\", "-", "é", "\r"}
	props["C07"].Spaces = append(props["C07"].Spaces, Space{"every short text of a comment, in every place", func(e *Emit) {
		for _, b := range []string{"database d; table t { a int } action a($p) { a($p); }", "database d;"} {
			toks := texts(lexOK(b))
			join := func(i int, c string) string {
				return strings.Join(toks[:i], " ") + c + strings.Join(toks[i:], " ")
			}
			seqs(len(comment), 0, e.Pick(3, 4), func(x []int) {
				s := pick(comment, x, "")
				line := !strings.ContainsAny(s, "\n\r")
				places := []int{0, 3, len(toks)}
				if len(x) < 3 || e.Thorough && len(x) == 3 {
					places = places[:0]
					for i := range append(toks, "") {
						places = append(places, i)
					}
				}
				for _, i := range places {
					if line {
						e.Case("layout", join(i, "//"+s+"\n"), b)
						e.Case("layout", join(i, "\n//"+s+"\n"), b)
						if i == len(toks) {
							e.Case("layout", join(i, "//"+s), b)
							e.Case("layout", join(i, "\n//"+s), b)
							e.Case("layout", join(i, "\n //"+s), b)
							e.Case("layout", join(i, "\r\n//"+s+"\r"), b)
						}
					}
					if strings.Index(s+"*/", "*/") < len(s) {
						continue
					}
					e.Case("layout", join(i, "/*"+s+"*/"), b)
					e.Case("layout", join(i, "\n/*"+s+"*/\n"), b)
				}
			})
		}
	}})

	props["C14"].Spaces = append(props["C14"].Spaces, Space{"comments in every gap of a statement", func(e *Emit) {
		for k, s := range append(append(append([]string{}, sqlForbidden...), sqlBroken...), sqlGood...) {
			x := ""
			if k < len(sqlForbidden) {
				x = "forbidden"
			}
			words := strings.Split(s, " ")
			for i := 1; i <= len(words); i++ {
				for n, c := range sqlGap {
					if strings.Contains(c, ";") || !e.Thorough && (n+k+i)%3 != 0 && i < len(words) && i > 1 {
						continue
					}
					e.Case("sql", "database d; action a($p) { "+strings.Join(words[:i], " ")+c+strings.Join(words[i:], " ")+"; }", x)
				}
				for j := i + 1; j <= len(words); j++ {
					if !e.Thorough && (i*j+k)%7 != 0 {
						continue
					}
					e.Case("sql", "database d; action a($p) { "+strings.Join(words[:i], " ")+"/* a */"+strings.Join(words[i:j], " ")+"/* b */"+strings.Join(words[j:], " ")+"; }", x)
				}
			}
		}
	}})
	props["C03"].Spaces = append(props["C03"].Spaces, Space{"comments in every gap of an SQL statement", func(e *Emit) {
		for _, s := range sqlGood {
			words := strings.Split(s, " ")
			for i := 1; i <= len(words); i++ {
				for _, c := range sqlGap {
					if !strings.Contains(c, ";") {
						e.Case("bodies", "database d; action a($p) { "+strings.Join(words[:i], " ")+c+strings.Join(words[i:], " ")+"; }")
						e.Case("bodies", "database d; action a($p) { select 1; "+strings.Join(words[:i], " ")+c+strings.Join(words[i:], " ")+";a(); } init() { select 2 "+c+"; }")
					}
				}
			}
		}
	}})

	props["C25"].Spaces = append(props["C25"].Spaces, Space{"names, literals and lists of every length", func(e *Emit) {
		sizes := []int{}
		for n := 1; n <= e.Pick(300, 1200); n++ {
			sizes = append(sizes, n)
		}
		for k := 10; k <= e.Pick(17, 20); k++ {
			sizes = append(sizes, 1<<k-1, 1<<k, 1<<k+1)
		}
		for _, n := range sizes {
			for _, c := range []string{"n", "N", "_", "0", "n1", "zy"} {
				name := "a" + strings.Repeat(c, n)
				e.Case("annotation", "database d; @n("+name+"=1) action a() { select 1; }")
				e.Case("annotation", "database d; @"+name+"(k=1, "+name+"='x', j='y') action a() { select 1; }")
			}
			for _, c := range []string{"x", "0", " ", ")", `\'`, `\\`, "=1", "k=2, ", "é"} {
				e.Case("annotation", "database d; @n(k='"+strings.Repeat(c, n)+"') action a() { select 1; }")
				e.Case("annotation", "database d; @n(k=1, j='"+strings.Repeat(c, n)+"', l='') action a() { select 1; }")
			}
			e.Case("annotation", "database d; @n(k=1"+strings.Repeat("0", n)+", j=2) action a() { select 1; }")
			e.Case("annotation", "database d; @n(k = "+strings.Repeat(" ", n)+"1 "+strings.Repeat("\n", n)+", j=2) action a() { select 1; }")
			if n <= 1200 {
				e.Case("annotation", "database d; @n("+numbered(n, ", ", func(i int) string { return sp("k%d='%d'", i, i) })+") action a() { select 1; }")
				e.Case("annotation", "database d; "+numbered(n, " ", func(i int) string { return sp("@n%d(k=%d)", i, i) })+" action a() { select 1; }")
			}
		}
	}})
	kinds := []schema.AttributeType{schema.AttrPrimaryKey, schema.AttrUnique, schema.AttrNotNull, schema.AttrDefault, schema.AttrMin, schema.AttrMax, schema.AttrMinLength, schema.AttrMaxLength}
	types := []schema.ColumnType{schema.ColInt, schema.ColText, schema.ColBlob}
	values := func() []any {
		l := append([]any{}, anyValues...)
		for k, n := 0, 1; k < 10; k, n = k+1, n*10 {
			for _, m := range []int{n - 1, n, n + 1, -n} {
				l = append(l, m, int64(m), float64(m), float64(m)+0.5, json.Number(sp("%d", m)), sp("%d", m), sp("'%d'", m))
			}
		}
		return l
	}
	// build gives the schema of a case: values of every kind in one or all constraints of a column, on every type.
	build := func(n int) (*schema.Schema, bool) {
		v := values()
		x := v[n%len(v)]
		n /= len(v)
		t := types[n%3]
		n /= 3
		c := schema.Column{Name: "a", Type: t}
		legal := func(k schema.AttributeType) bool {
			return !(t == schema.ColInt && (k == schema.AttrMinLength || k == schema.AttrMaxLength) || t == schema.ColText && (k == schema.AttrMin || k == schema.AttrMax))
		}
		ok := true
		switch {
		case n < len(kinds):
			c.Attributes = []schema.Attribute{{Type: kinds[n], Value: x}}
			ok = legal(kinds[n])
		case n == len(kinds):
			for _, k := range kinds {
				if legal(k) {
					c.Attributes = append(c.Attributes, schema.Attribute{Type: k, Value: x})
				}
			}
		}
		return &schema.Schema{Name: "d", Tables: []schema.Table{{Name: "t", Columns: []schema.Column{c, {Name: "b", Type: t}}}, {Name: "u", Columns: []schema.Column{{Name: "b", Type: "text"}, c}}}}, ok
	}
	props["C28"].Spaces = append(props["C28"].Spaces, Space{"attribute values of every Go type and size", func(e *Emit) {
		for n := 0; n < len(values())*3*(len(kinds)+1); n++ {
			e.Case("accept-values", sp("%d", n))
		}
	}})
	oracles["accept-values"] = func(c *Case) (string, string) {
		n, _ := strconv.Atoi(c.S)
		s, ok := build(n)
		dump := func() string { return fmt.Sprintf("%#v", *s) }
		before := dump()
		for i := 0; i < 2; i++ {
			err := s.Accept(schema.NewCtxValidator())
			switch {
			case (err == nil) != ok:
				return sp("validating gives %v, sound: %v: %s", err, ok, clip(before, 300)), "value"
			case err != nil && !errors.Is(err, schema.ErrAttributeNotAllow):
				return sp("validating gives %v", err), "value"
			case dump() != before:
				return sp("validating turned %s into %s", clip(before, 300), clip(dump(), 300)), "value"
			}
		}
		b, err := s.ToJSON()
		if err != nil {
			return "serialising fails: " + err.Error(), "value"
		}
		var back schema.Schema
		if err := json.Unmarshal(b, &back); err != nil {
			return "decoding fails: " + err.Error(), "value"
		}
		s = &back
		if before, err = dump(), s.Accept(schema.NewCtxValidator()); (err == nil) != ok || dump() != before {
			return sp("after JSON, validating gives %v, sound: %v; before %s, after %s", err, ok, clip(before, 300), clip(dump(), 300)), "value"
		}
		return "", sp("value, sound: %v", ok)
	}
	// one pool of names for all kinds of declarations, every number of each
	crossed := func(o string) Space {
		return Space{"one pool of names for every kind of declaration, every number of each", func(e *Emit) {
			n := func(i int) string { return string(rune('a' + i%5)) }
			m := e.Pick(3, 4)
			sizes := []int{m + 1, m + 1, m + 1, m, 3}
			total := 1
			for _, k := range sizes {
				total *= k
			}
			for x := 0; x < total; x++ {
				v := make([]int, len(sizes))
				for i, y := 0, x; i < len(sizes); i++ {
					v[i], y = y%sizes[i], y/sizes[i]
				}
				for shift := 0; shift < e.Pick(2, 4); shift++ {
					exts := numbered(v[0], " ", func(i int) string { return sp("use %s as %s;", n(i+1), n(i)) })
					tabs := numbered(v[1], " ", func(i int) string {
						return "table " + n(i) + " { " + numbered(1+(v[3]+i*shift)%3, ", ", func(j int) string { return n(i+j) + " int" }) + sp(", #z%s index(%s), fk (%s) ref %s (%s) }", n(i), n(i), n(i), n(i), n(i))
					})
					if shift%2 == 0 {
						tabs = strings.ReplaceAll(tabs, "#z", "#zz")
					}
					acts := numbered(v[2], " ", func(i int) string {
						call := ""
						if v[0] > 0 {
							call = sp(" $%s = %s.%s($%s);", n(i+shift), n(i%v[0]), n(i), n(i))
						}
						return sp("action %s($%s) {", n(i+v[4]), n(i)) + call + sp(" %s($%s); }", n(i%v[2]+v[4]), n(i))
					})
					e.Case(o, "database a; "+exts+" "+tabs+" "+acts)
					e.Case(o, "database a; "+exts+" "+acts+" "+tabs+" init() { select 1; }")
					plain := numbered(v[1], " ", func(i int) string {
						return "table " + n(i) + " { " + numbered(1+(v[3]+i*shift)%3, ", ", func(j int) string { return n(i+j) + " int" }) + " }"
					})
					e.Case(o, "database a; "+exts+" "+plain+" "+acts)
				}
			}
		}}
	}
	for id, o := range map[string]string{"C01": "tables", "C02": "headers", "C03": "bodies", "C04": "init", "C05": "exts", "C08": "names", "C09": "dups", "C10": "refs", "C12": "targets", "C13": "vars", "C20": "json", "C27": "trace", "C28": "accept"} {
		props[id].Spaces = append(props[id].Spaces, crossed(o))
	}
	props["C13"].Spaces = append(props["C13"].Spaces, Space{"every short name of a variable and a block variable, at every depth", func(e *Emit) {
		names := append(append(allNames("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", "", 1), allNames("abC", "ab_1", e.Pick(3, 4))...), allNames("c", "aclers", 3)...)
		names = append(names, "caller", "callers", "calle", "Caller", "CALLER", "caller_", "caller1", "xcaller", "block_height", "init", "action", "table", "public", "not", "and", "int")
		for _, n := range names {
			for _, f := range []string{"%", "1 + %", "-%", "abs(%)", "% * 2", "1 = %", "abs(-(% + 1))", "'x', %", "%, %"} {
				for _, v := range []string{"$" + n, "@" + n} {
					a := strings.ReplaceAll(f, "%", v)
					e.Case("vars", "database d; action a($zz) { a("+a+"); }")
					e.Case("vars", "database d; use x as e; action a($zz) { $r = e.m("+a+"); e.m($r); }")
					if n != "zz" {
						e.Case("vars", "database d; action a($"+n+") { a("+a+"); } action b() { a("+a+"); }")
					}
				}
			}
		}
	}}, Space{"every function, every number of arguments, a use in every place", func(e *Emit) {
		var funcs []string
		for f := range tree.SQLFunctions {
			funcs = append(funcs, f)
		}
		sort.Strings(funcs)
		for k, f := range funcs {
			for n := 1; n <= e.Pick(9, 20); n++ {
				if k%9 != n%9 && n > 5 && !e.Thorough {
					continue
				}
				for i := 0; i < n; i++ {
					for _, v := range []string{"$p", "$q", "@caller", "@q", "-$q", "abs(1, $q)"} {
						args := numbered(n, ", ", func(j int) string {
							if j == i {
								return v
							}
							return []string{"$p", "1", "'x'"}[j%3]
						})
						e.Case("vars", "database d; action a($p) { a("+f+"("+args+")); }")
						if k%9 == n%9 {
							e.Case("vars", "database d; use x as e; action a($p) { $r = e.m(1, 2 * ("+f+"("+args+") + 1)); }")
							e.Case("vars", "database d; use x as e; action a($p) { a("+args+"); } action q($q) { e.m("+args+"); a("+args+"); }")
						}
					}
				}
			}
		}
	}})
	props["C14"].Spaces = append(props["C14"].Spaces, Space{"statements of every order of magnitude", func(e *Emit) {
		for k := 6; k <= e.Pick(18, 20); k++ {
			for _, d := range []int{-1, 1} {
				w := strings.Repeat("x", 1<<k+d)
				for _, f := range []string{"select '%', %b", "select %b, '%'", "select 1 /*%*/, %b", "select '%' from t join u on 1 = 1", "select '%' from t, u", "insert into t values ('%', %b)", "update t set a = '%' where b = %b", "delete from t where a = '%' or b = %b", "with c as (select '%') select %b from c", "select % from t where a = %b", "select '%'"} {
					for _, b := range []string{"random()", "nofunc(1)", "abs(1)"} {
						x := ""
						if b == "random()" && strings.Contains(f, "%b") || strings.Contains(f, " join ") || strings.Contains(f, ", u") {
							x = "forbidden"
						}
						e.Case("sql", "database d; table t { a int } action a() { select 2; "+strings.NewReplacer("%b", b, "%", w).Replace(f)+"; }", x)
						if k < 12 {
							e.Case("sql", "database d; init() { "+strings.NewReplacer("%b", b, "%", w).Replace(f)+"; }", x)
						}
					}
				}
			}
		}
	}})
	props["C21"].Spaces = append(props["C21"].Spaces, Space{"inputs of more than a megabyte", func(e *Emit) {
		for k := 18; k <= e.Pick(22, 24); k++ {
			w := strings.Repeat(" ", 1<<k+1)
			cliCase(e, "store", Scenario{Files: map[string]string{"db.kf": "database db;" + w + "table t { a int }"}, Steps: []Step{{In: "db.kf", Out: "out"}}})
			cliCase(e, "store", Scenario{Files: map[string]string{"db.kf": "database db; table t { a int } /*" + w + "*/ }"}, Steps: []Step{{In: "db.kf", Out: "out"}}})
		}
	}})

	// the state of the files that are there before: permissions and times
	for id, aspect := range map[string]string{"C21": "store", "C23": "keep", "C27": "trace"} {
		props[id].Spaces = append(props[id].Spaces, Space{"every permission and age of input and existing output", func(e *Emit) {
			var perms []uint32
			for i := uint32(0); i < 512; i++ {
				if few := i == 0 || i&(i-1) == 0 || i == 0o777 || i == 0o644 || i == 0o755 || i == 0o600 || i == 0o444 || i == 0o111; few || e.Thorough || aspect != "trace" && i%5 == 0 {
					perms = append(perms, i)
				}
			}
			for i, m := range perms {
				for j, in := range []string{"in/db.kf", "bad/db.kf"} {
					f := map[string]string{"in/db.kf": cliLong, "bad/db.kf": cliBad[i%len(cliBad)], "o/db.json": []string{"old", "", "{}", strings.Repeat("{", 5000)}[(i+j)%4], "o/other.json": "x"}
					steps := []Step{{In: in, Out: "o", Trace: aspect == "trace"}, {In: "in/db.kf", Out: "o"}, {In: "bad/db.kf", Out: "o", Trace: aspect == "trace"}}
					cliCase(e, aspect, Scenario{Files: f, Modes: []Mode{{"o/db.json", m}}, Steps: steps})
					cliCase(e, aspect, Scenario{Files: f, Modes: []Mode{{in, m}}, Steps: steps})
					cliCase(e, aspect, Scenario{Files: f, Modes: []Mode{{"o", m}, {"o/other.json", m}}, Steps: steps})
				}
			}
			// the sandbox's clock does not matter: long ago, far ahead, and which of the two is newer
			times := []int64{0, 1, 86400 * 365, 1 << 30, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 33}
			for i, a := range times {
				for j, b := range times {
					if aspect == "trace" && (i+j)%3 != 0 && !e.Thorough {
						continue
					}
					for k, in := range []string{"in/db.kf", "bad/db.kf"} {
						f := map[string]string{"in/db.kf": cliLong, "bad/db.kf": cliBad[(i+j)%len(cliBad)], "o/db.json": []string{"old", ""}[(i+j+k)%2], "o/other.json": "x"}
						steps := []Step{{In: in, Out: "o", Trace: aspect == "trace"}, {In: "in/db.kf", Out: "o"}, {In: "bad/db.kf", Out: "o"}}
						cliCase(e, aspect, Scenario{Files: f, Ages: map[string]int64{in: a, "o/db.json": b}, Steps: steps})
						cliCase(e, aspect, Scenario{Files: f, Ages: map[string]int64{in: a, "o": b, "o/other.json": a}, Steps: steps})
					}
				}
			}
		}})
	}

	// many declarations of one kind with one of another kind before, between or behind them
	many := map[string]func(i int) string{
		"table":  func(i int) string { return sp("table t%d { a int }", i) },
		"action": func(i int) string { return sp("action a%d($p) view { select %d; }", i, i) },
		"body":   func(i int) string { return sp("action a%d() public { ", i) + strings.Repeat("select 1; ", 1+i%3) + "}" },
		"columns": func(i int) string {
			return sp("table t%d { ", i) + numbered(1+i%4, ", ", func(j int) string { return sp("c%d text", j) }) + " }"
		},
	}
	one := []string{"init() { select 0; }", "table zz { a int primary, b text notnull, #i index(a, b), fk (a) ref zz (b) on_delete do cascade }", "@n(k=1) action zz($p, $q) public view owner { select 7; zz($p, $q); }", "action zz() { " + strings.Repeat("select 1; zz(); ", 40) + "}"}
	for id, o := range map[string]string{"C01": "tables", "C02": "headers", "C03": "bodies", "C04": "init", "C05": "exts", "C27": "trace", "C28": "accept"} {
		props[id].Spaces = append(props[id].Spaces, Space{"many declarations of one kind, one or two others between", func(e *Emit) {
			sizes := []int{}
			for n := 1; n <= e.Pick(40, 300); n++ {
				sizes = append(sizes, n)
			}
			sizes = append(sizes, 48, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 299, 300, 500, 511, 512, 513, 1000, 1024, 1025)
			kinds := []string{"table", "action", "body", "columns"}
			for x, n := range sizes {
				for y, k := range kinds {
					for z, d := range one {
						if !e.Thorough && (n > 40 || o == "trace" || o == "accept") && (x+y+z)%4 != 0 && !(z == 0 && o == "init") {
							continue
						}
						d2 := one[(z+1+x%3)%len(one)]
						if strings.Contains(d, " zz(") && strings.Contains(d2, " zz(") {
							d2 = ""
						}
						at := (x*7 + y) % (n + 1)
						mk := func(from, to int) string {
							return numbered(to-from, " ", func(i int) string { return many[k](from + i) })
						}
						exts := numbered(x%3, " ", func(i int) string { return sp("use x {k: %d} as e%d;", i, i) })
						e.Case(o, "database d; "+exts+" "+mk(0, at)+" "+d+" "+mk(at, n))
						e.Case(o, "database d; "+d+" "+mk(0, n)+" "+d2)
						e.Case(o, "database d; "+mk(0, n)+" "+d)
					}
				}
				e.Case(o, "database d; "+numbered(n, " ", func(i int) string { return sp("use x {k: %d} as e%d;", i, i) })+" "+one[x%4]+" "+one[(x+1)%4])
				if o == "exts" || o == "init" {
					e.Case(o, "database d; "+numbered(n, " ", func(i int) string { return sp("use x%d as e%d;", i%5, i) })+" use y {a: 1, b: 'c'} as z; init() { z.m(); }")
				}
			}
		}})
	}
}
