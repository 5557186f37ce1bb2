package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/kwilteam/kuneiform/schema"

	"verifmc/ref"
)

// Further spaces shared by several properties, registered last.

// pieces are all runs of up to 4 tokens of the mixed programs, written with and without blanks.
func pieces() []string {
	var out []string
	seen := map[string]bool{}
	for _, p := range mixPrograms {
		t := texts(lexOK(p))
		for n := 1; n <= 4; n++ {
			for i := 0; i+n <= len(t); i++ {
				for _, sep := range []string{"", " "} {
					if s := strings.Join(t[i:i+n], sep); !seen[s] {
						seen[s] = true
						out = append(out, s)
					}
				}
			}
		}
	}
	for _, s := range []string{")public{", ") public {", "view{", "owner{", "private {", "action", "init(){", "} init () {", "} action z () {", "@n(", "@n(k=1)", "use x as e;", "database d;", "table t {", "} table u { b int }", "//", "/*", "*/", "select 1;", "insert into t values (1);", "'", "''", "\\'", "$r = e.m();", "#i index(a)", "primary", "notnull", "init", "null", "on_update", "do", "cascade"} {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// pieceSpace: every piece of a source as the content of every literal.
func pieceSpace(o string) Space {
	return Space{mixTag + "every piece of a source, of up to 4 tokens, inside every string literal, under every modifier", func(e *Emit) {
		for _, p := range pieces() {
			s := strings.ReplaceAll(strings.ReplaceAll(p, `\`, `\\`), "'", `\'`)
			sql := "'" + strings.NewReplacer(";", "", "'", "''", `\`, "").Replace(p) + "'"
			for _, m := range []string{"", "public", "private", "view", "owner public"} {
				e.Case(o, "database d; use x {k: '"+s+"', l: 1} as e; use y {l: 'x"+s+"', k: '"+s+"y'} as f; table t { a text default('"+s+"') notnull, b int, #i index(a, b), fk (b) ref t (a) } table u { c text default('z"+s+"') unique }"+
					" @n(k='"+s+"', l=1) @m(j='x"+s+"y') action a ($p) "+m+" { a('"+s+"'); select "+sql+"; $r = e.m('"+s+"', $p); } @n(k='"+s+"') action b () "+m+" { select 1 where "+sql+" = "+sql+"; b('x"+s+"', 1); } action c () { b('"+s+"'); } init() { a('"+s+"'); select "+sql+"; }")
				if m != "" {
					e.Case(o, "database d; action a () "+m+" { a('"+s+"'); } @n(k='"+s+"') action b () { select 1; }")
				}
			}
		}
	}}
}

// farSpace: something long in every gap.
func farSpace(o string, n int, deviate bool) Space {
	return Space{sp("%d characters of blanks, lines or comment in every gap", n), func(e *Emit) {
		for bi, b := range []string{basePrograms[1], basePrograms[3], "database db; table t { a int min(1), #i index(a) } init() { select 1; }"} {
			toks := lexOK(b)
			for k, f := range []string{strings.Repeat(" ", n), strings.Repeat("\n", n), strings.Repeat("\t \r\n", n/4), "/*" + strings.Repeat("x", n) + "*/", "//" + strings.Repeat("x ", n/2) + "\n", strings.Repeat("// x\n", n/5), "/*" + strings.Repeat("*\n", n/2) + "*/", "\n\t\n//" + strings.Repeat("x", n) + "\n"} {
				for i := 0; i <= len(toks); i++ {
					if !e.Thorough && (i+k+bi)%4 != 0 {
						continue
					}
					gap := func(at int) string {
						if at == i {
							return f
						}
						return " "
					}
					e.Case(o, layout(toks, gap), layout(toks, func(int) string { return " " }))
					if deviate {
						for d := 0; d <= len(toks); d++ {
							if d < i || d > i+1 && d < len(toks) && !e.Thorough {
								continue
							}
							t := append(append(append([]ref.Token{}, toks[:d]...), ref.Token{Text: "}"}), toks[d:]...)
							e.Case(o, layout(t, gap))
						}
						e.Case(o, layout(toks[:i], gap)+f)
					}
				}
			}
		}
	}}
}

func init() {
	for id, o := range map[string]string{"C01": "tables", "C02": "headers", "C03": "bodies", "C04": "init", "C05": "exts", "C06": "syntax", "C13": "vars", "C16": "total", "C17": "cause", "C20": "json", "C25": "annotation", "C27": "trace"} {
		props[id].Spaces = append(props[id].Spaces, pieceSpace(o))
	}
	for id, o := range map[string]string{"C06": "syntax", "C07": "layout", "C16": "total", "C17": "position", "C29": "listener"} {
		props[id].Spaces = append(props[id].Spaces, farSpace(o, 70000, id != "C07"))
	}

	// C03: the layout of SQL text
	props["C03"].Spaces = append(props["C03"].Spaces, Space{"SQL statements with every white space of up to 3 characters in their gaps and inside their strings", func(e *Emit) {
		al := []string{" ", "\t", "\n", "\r"}
		var ws []string
		seqs(len(al), 0, 3, func(x []int) { ws = append(ws, pick(al, x, "")) })
		for _, a := range ws {
			for _, b := range ws {
				g := a
				if g == "" {
					g = " "
				}
				e.Case("bodies", "database d; action a() { select"+g+"'x"+b+"y'"+a+", 1"+b+"; } init() {"+a+"delete"+g+"from t"+b+"; select '"+a+"'; }")
				if len(a) < 3 && len(b) < 3 {
					for _, c := range ws {
						if len(c) < 3 || e.Thorough {
							e.Case("bodies", "database d; action a() {\n\tselect"+g+"'x"+b+"y',"+c+"2;\n\tselect '"+c+"z"+a+"'"+b+"; }")
							e.Case("bodies", "database d; action a() {\n\tselect"+g+"1,"+c+"2 -- x"+a+"\n"+b+"; select 1 /* "+c+"*/"+a+"; }")
						}
					}
				}
			}
		}
		for _, n := range []int{1, 2, 3, 4} {
			seqs(5, n, n, func(x []int) {
				// lines with indentation
				s := "select"
				for i, k := range x {
					s += sp("\n%s%d,", []string{"", " ", "\t", "\t\t", "    "}[k], i)
				}
				e.Case("bodies", "database d;\naction a() {\n\t"+s+" 'v';\n\t"+s+"'\n\t\tw\n';\n}")
			})
		}
	}})

	// C09, C11: long constraint lists
	cons := []string{"primary", "notnull", "unique", "default(1)", "min(1)", "max(2)", "minlen(3)", "maxlen(4)"}
	longLists := func(o string, dup bool) Space {
		return Space{"constraint lists of more than 5: every subset, rotation and direction, and one more constraint in every place", func(e *Emit) {
			for set := 0; set < 256; set++ {
				var l []string
				for i, c := range cons {
					if set>>i&1 == 1 {
						l = append(l, c)
					}
				}
				if len(l) < 5 {
					continue
				}
				for r := range l {
					for dir := 0; dir < 2; dir++ {
						c := append(append([]string{}, l[r:]...), l[:r]...)
						if dir == 1 {
							for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
								c[i], c[j] = c[j], c[i]
							}
						}
						for _, typ := range []string{"int", "text", "blob"} {
							e.Case(o, "database db; table t { a "+typ+" "+strings.Join(c, " ")+" }")
							if !dup && !e.Thorough {
								continue
							}
							for _, x := range c {
								for at := 0; at <= len(c); at++ {
									if !e.Thorough && (at+r)%3 != 0 {
										continue
									}
									d := append(append(append([]string{}, c[:at]...), x), c[at:]...)
									e.Case(o, "database db; table t { a "+typ+" "+strings.Join(d, " ")+" }")
								}
							}
						}
					}
				}
			}
		}}
	}
	props["C11"].Spaces = append(props["C11"].Spaces, longLists("attrs", false))
	props["C09"].Spaces = append(props["C09"].Spaces, longLists("dups", true))
	props["C01"].Spaces = append(props["C01"].Spaces, longLists("tables", false))

	// C10, C12, C13: names made of other names
	related := func(o string, decl func(a, b, c string) []string) Space {
		return Space{"names made of other names of the source", func(e *Emit) {
			base := []string{"user", "post", "id", "e"}
			var words []string
			for _, a := range base {
				words = append(words, a, a+"s", strings.ToUpper(a[:1])+a[1:])
				for _, b := range base {
					words = append(words, a+b, a+"_"+b, a+strings.ToUpper(b[:1])+b[1:], a+"_"+b+"s")
				}
			}
			for _, a := range words {
				for _, b := range words {
					for _, c := range []string{"id", "user", "e", "user_id", "x"} {
						for _, s := range decl(a, b, c) {
							e.Case(o, s)
						}
					}
				}
			}
		}}
	}
	props["C10"].Spaces = append(props["C10"].Spaces, related("refs", func(a, b, c string) []string {
		return []string{"database d; table user { id int, " + b + "x int, e int } table post { " + c + " int, #i index(" + a + ") }",
			"database d; table user { id int, e int } table post { " + c + " int, fk (" + c + ") ref user (" + a + "), fk (" + b + ") ref user (id) }",
			"database d; table " + b + " { id int, e int } table p { " + c + " int, fk (" + c + ") ref " + a + " (id) }"}
	}))
	props["C12"].Spaces = append(props["C12"].Spaces, related("targets", func(a, b, c string) []string {
		return []string{"database d; use " + c + " as " + b + "; action post () { " + a + "(); }",
			"database d; use " + c + " as " + b + "; action post () { " + a + "." + c + "(); }",
			"database d; use " + c + " as e; action " + b + " () { " + a + "(); } init() { e." + a + "(); }"}
	}))
	props["C13"].Spaces = append(props["C13"].Spaces, related("vars", func(a, b, c string) []string {
		return []string{"database d; use x as e; action post ($" + b + ") { post($" + a + "); }",
			"database d; use x as e; action post ($" + c + ") { $" + b + " = e.m(); post($" + a + "); }",
			"database d; use x as e; table " + a + " { " + b + " int } action " + c + " ($" + b + ") { " + c + "($" + a + ", 1); }"}
	}))

	// C14: a part of a statement inside a comment of another
	props["C14"].Spaces = append(props["C14"].Spaces, Space{"two statements of the same words, a comment of one ending elsewhere", func(e *Emit) {
		for _, g := range []string{"select 1 , abs( a ) from t", "insert into t values ( 1 , abs( $p ) )", "delete from t where a = 1 and b = abs( 1 )", "update t set a = 1 , b = 2 where b = 3"} {
			toks := strings.Split(g, " ")
			for i := 1; i <= len(toks); i++ {
				for _, w := range []string{", random()", "random()", "and random() = 1", "abs()", "x", "from", "join u on 1=1", ", nofunc(1)"} {
					p, s := strings.Join(toks[:i], " "), strings.Join(toks[i:], " ")
					var forms []string
					for _, c := range []string{"", "x "} {
						forms = append(forms, p+" -- "+c+w+"\n"+s, p+" -- "+c+"\n"+w+" "+s, p+" /* "+c+w+" */ "+s, p+" /* "+c+"*/ "+w+" "+s, p+" -- "+c+w+" "+s+"\n", p+" -- "+c+"\n"+w+" "+s+"\n")
					}
					for j, a := range forms {
						for k, b := range forms {
							if j == k || !e.Thorough && j/6 != k/6 {
								continue
							}
							e.Case("sql", "database d; action a($p) { "+a+"; "+b+"; }")
							if j == k^1 {
								e.Case("sql", "database d; action a($p) { "+a+"; } action b($p) { select 1; "+b+"; }")
								e.Case("sql", "database d; action a($p) { "+a+"; } init() { "+b+"; }")
							}
						}
					}
				}
			}
		}
	}})

	// C18: sources that agree in their size and for long stretches
	props["C18"].Spaces = append(props["C18"].Spaces, Space{"long sources of one size that differ in one place only", func(e *Emit) {
		for _, n := range []int{0, 16, 100, 300, 600, 1200, 2100, 4200, 9000} {
			for _, pad := range []string{"/* filler */ ", "\n", "table %s%d { a int } ", "action %s%d () { select 1; } "} {
				fill := func(side string) string {
					if !strings.Contains(pad, "%") {
						return strings.Repeat(pad, n/len(pad)+1)
					}
					return numbered(n/len(pad)+1, "", func(i int) string { return sp(pad, side, i) })
				}
				for _, x := range [][3]string{{"table t { a int min(1) % }", "min(1)", "max(1)"}, {"action a($p) { a($%); }", "p", "q"}, {"table t { a int, #i index(%) }", "a", "z"}, {"action a() { select %; }", "1", "2"}, {"table t { a text default('%') }", "x", "y"}, {"action a() { select abs(%); }", "1", "*"}, {"action a($p) { % }", "a();", "b();"}, {"action a() %{ select 1; }", "view ", "owner "}, {"init() { select 1% }", ";", "}"}} {
					src := func(v string) string {
						return "database d; " + fill("l") + strings.ReplaceAll(x[0], "%", v) + " " + fill("r")
					}
					a, b := src(x[1]), src(x[2])
					for _, m := range []string{"ppp", "xxx", "yyy", "ptp"} {
						if m != "ppp" && n > 1200 && !e.Thorough {
							continue
						}
						e.Case("history", sp("%d %q %q %s", n, pad, x[0], m), m[:1]+a, m[1:2]+b, m[2:]+a)
						e.Case("history", sp("%d %q %q %s back", n, pad, x[0], m), m[:1]+b, m[1:2]+a, m[2:]+b)
					}
				}
			}
		}
	}})

	// C28: one schema value, changed by its owner between validations
	oracles["revalidate"] = func(c *Case) (string, string) {
		a, b := analyse(c.X[0]), analyse(c.X[1])
		if !a.Syntax || !b.Syntax {
			return "", "not sources"
		}
		s := fromSource(a.Src)
		owner := c.S[:1]
		set := func(x *ref.Analysis) string {
			t := fromSource(x.Src)
			t.Owner = owner
			g := accept(t)
			return g.String()
		}
		wantA, wantB := set(a), set(b)
		s.Owner = owner
		step := func(i int, want string) string {
			g := accept(s)
			touch(sp("%s %d %v", c.S, i, c.X), 1)
			if got := g.String(); got != want {
				return sp("validation %d of one value, changed between validations: %s, a value of its own gets %s", i, got, want)
			}
			return ""
		}
		into := func(x *ref.Analysis) {
			t := fromSource(x.Src)
			if c.S[1:] == "deep" {
				// the lists stay where they are where the new ones fit
				s.Tables = append(s.Tables[:0], t.Tables...)
				s.Actions = append(s.Actions[:0], t.Actions...)
				s.Extensions = append(s.Extensions[:0], t.Extensions...)
				s.Name = t.Name
				return
			}
			*s = *t
			s.Owner = owner
		}
		if v := step(1, wantA); v != "" {
			return v, ""
		}
		into(b)
		if v := step(2, wantB); v != "" {
			return v, ""
		}
		into(a)
		return step(3, wantA), "revalidated"
	}
	props["C28"].Spaces = append(props["C28"].Spaces, Space{"one schema value validated, changed in place, validated, changed back, validated", func(e *Emit) {
		pre := "database db; use x {k: 'v'} as e; "
		var srcs []string
		seqs(len(mixDecls), 1, 2, func(x []int) { srcs = append(srcs, pre+pick(mixDecls, x, " ")) })
		srcs = append(srcs, "database db;", "database d2; use x as e; use y as e;", "database db; use y as e; table t { a int }")
		for i, a := range srcs {
			for j, b := range srcs {
				if i == j || !e.Thorough && i >= len(mixDecls) && j >= len(mixDecls) && (i+j)%4 != 0 {
					continue
				}
				e.Case("revalidate", []string{"-deep", "-whole", "odeep", "owhole"}[(i+j)%4], a, b)
			}
		}
	}})

	// C20: combinations of the fields of a part
	props["C20"].Spaces = append(props["C20"].Spaces, Space{"every combination of field values of every part", func(e *Emit) {
		for _, v := range prodValues {
			t := reflect.TypeOf(v).Elem()
			total := 1
			for i := 0; i < t.NumField(); i++ {
				total *= len(choices(t.Field(i)))
			}
			for k := 0; k < total; k++ {
				e.Case("json-product", sp("%s %d", t.Name(), k))
			}
		}
	}})
	oracles["json-product"] = productOracle
}

var prodValues = []jsoner{&schema.Attribute{}, &schema.Column{}, &schema.Index{}, &schema.ForeignKey{}, &schema.Extension{}, &schema.Table{}, &schema.Schema{}, &schema.Action{}}

// anyValues are the values an attribute can have in a program.
var anyValues = []any{nil, "", "1", "'x'", "null", "true", " ", "0", "a", 0, 1, -5, 1.5, true, false, []any{}, []any{"", 0, nil, false}, map[string]any{"k": "", "": 0},
	map[string]any{}, map[string]any{"a": nil}, map[string]any{"a": map[string]any{}, "b": []any{map[string]any{"c": 1}, "<&>", nil}, "type": "x", "value": 2}, []any{[]any{}, []any{1}, map[string]any{}}, []string{}, []string{"a", ""}, []int{1, 2}, map[string]string{"k": "v"}, map[string]int{},
	int8(-1), int16(300), int32(1 << 30), int64(1) << 53, uint8(255), uint64(1) << 50, float32(0.5), 1e21, 1e-9, -0.1, json.Number("12"), json.RawMessage("{\"a\": [1]}"), struct{ A int }{3}, struct{}{}, [2]bool{true, false}, [0]int{}, []byte("bytes"), "<a & b>", "\u2028", "\x00", "é世😀", strings.Repeat("v", 70000)}

// choices are the values a field takes in the products.
func choices(f reflect.StructField) []reflect.Value {
	var out []reflect.Value
	add := func(l ...any) {
		for _, x := range l {
			out = append(out, reflect.ValueOf(x))
		}
	}
	switch f.Type.Kind() {
	case reflect.String:
		l := []string{"", "a", " a ", "null"}
		switch f.Type.Name() {
		case "ColumnType":
			l = []string{"", "int", "text", "blob", "null", "INT", "other"}
		case "AttributeType":
			l = []string{"", "primary_key", "unique", "not_null", "default", "min", "max", "min_length", "max_length", "other"}
		case "IndexType":
			l = []string{"", "btree", "unique_btree", "primary", "BTREE", "other"}
		case "MutabilityType":
			l = []string{"", "update", "view", "other"}
		}
		for _, s := range l {
			v := reflect.New(f.Type).Elem()
			v.SetString(s)
			out = append(out, v)
		}
	case reflect.Bool:
		add(false, true)
	case reflect.Interface:
		for _, x := range anyValues {
			v := reflect.New(f.Type).Elem()
			if x != nil {
				v.Set(reflect.ValueOf(x))
			}
			out = append(out, v)
		}
	case reflect.Slice:
		zero, empty := reflect.Zero(f.Type), reflect.MakeSlice(f.Type, 0, 0)
		one := reflect.MakeSlice(f.Type, 1, 1)
		two := reflect.MakeSlice(f.Type, 2, 2)
		three := reflect.MakeSlice(f.Type, 3, 3)
		for i := 0; i < 3; i++ {
			fill(three.Index(i), "a")
		}
		fill(two.Index(1), "b")
		out = append(out, zero, empty, one, two, three)
	default:
		panic("a field of another kind: " + f.Name)
	}
	return out
}

// fill puts a text in every string of a value.
func fill(v reflect.Value, s string) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(s)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(v.Field(i), s)
		}
	}
}

func productOracle(c *Case) (string, string) {
	name, num, _ := strings.Cut(c.S, " ")
	k, _ := strconv.Atoi(num)
	for _, p := range prodValues {
		t := reflect.TypeOf(p).Elem()
		if t.Name() != name {
			continue
		}
		v := reflect.New(t)
		for i := 0; i < t.NumField(); i++ {
			ch := choices(t.Field(i))
			v.Elem().Field(i).Set(ch[k%len(ch)])
			k /= len(ch)
		}
		touch(fmt.Sprintf("%#v", v.Elem().Interface()), 2)
		return checkJSON(v.Interface().(jsoner)), name
	}
	return "", "no such part"
}
