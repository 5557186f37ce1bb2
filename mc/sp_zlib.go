package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/kwilteam/kuneiform/schema"
)

// A schema value with three of everything, in no sorted order, every field filled.
const fullSource = "database Db; use zx {k: 'v', a: 1, m: 'w'} as e2; use ax as e3; use mx {b: 2, a: 3} as e1;" +
	"table m { z int notnull min(1) max(2), a text default('d') unique, q blob, #z1 index(z, a), #a1 unique(q, a, z), #m1 primary(z), fk (z) ref z (b, c) on_update cascade on_delete set_null, fk (a, z, q) ref m (z) on_delete restrict, fk (q) ref a (x, y) }" +
	"table z { c int primary, b text minlen(1) maxlen(5) notnull, a int unique default(3) }" +
	"table a { y int, x text, z blob, fk (y) ref z (a), fk (x) ref a (y), fk (z) ref m (q) on_update do set_default }" +
	"@z(k=1, a='x') @a(b=2) action m ($z, $a, $q) public view owner { select 1; $r, $b = e1.f($z, 'x y', @caller); z($r, 1 + (2 * $a)); delete from a; }" +
	"action z ($a, $b) private { a(); m(1, 2, 3); insert into z values (1, 'a:b'); } action a () owner public { z(abs(-1), 'q'); e3.g(); update m set z = 1; } init () { m('', '', ''); select 2; a(); }"

// field visits the settable fields of a value, depth first; f gets the path and the field.
func fields(path string, v reflect.Value, f func(string, reflect.Value)) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fields(path+"."+v.Type().Field(i).Name, v.Field(i), f)
		}
		return
	case reflect.Slice:
		f(path, v)
		for i := 0; i < v.Len(); i++ {
			fields(sp("%s[%d]", path, i), v.Index(i), f)
		}
		return
	}
	f(path, v)
}

var fieldEdits = []string{"", " ", "x", "X", "double", "upper", "lower", "pad", "cut", "nil", "empty", "drop first", "drop last", "repeat first", "repeat last", "reverse", "rotate", "swap first", "swap last", "spare", "grow"}

// editField changes one field as a program might have; false when the edit does not apply.
func editField(v reflect.Value, edit string) bool {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
		return edit == ""
	case reflect.Interface:
		switch edit {
		case "", " ", "x":
			v.Set(reflect.ValueOf(edit))
		case "nil":
			v.Set(reflect.Zero(v.Type()))
		case "double":
			v.Set(reflect.ValueOf(7))
		default:
			return false
		}
	case reflect.String:
		s := v.String()
		switch edit {
		case "", " ", "x", "X":
			s = edit
		case "double":
			s += s
		case "upper":
			s = strings.ToUpper(s)
		case "lower":
			s = strings.ToLower(s)
		case "pad":
			s = " " + s + "\n"
		case "cut":
			s = s[:len(s)/2]
		default:
			return false
		}
		v.SetString(s)
	case reflect.Slice:
		n := v.Len()
		c := reflect.MakeSlice(v.Type(), n, n+2)
		reflect.Copy(c, v)
		switch edit {
		case "nil":
			c = reflect.Zero(v.Type())
		case "empty":
			c = c.Slice(0, 0)
		case "spare":
		case "drop first", "drop last", "repeat first", "repeat last":
			if n == 0 {
				return false
			}
			switch edit {
			case "drop first":
				c = c.Slice(1, n)
			case "drop last":
				c = c.Slice(0, n-1)
			case "repeat first":
				c = reflect.Append(c, v.Index(0))
			default:
				c = reflect.Append(c, v.Index(n-1))
			}
		case "grow":
			c = reflect.Append(c, reflect.Zero(v.Type().Elem()))
		case "reverse", "rotate", "swap first", "swap last":
			if n < 2 {
				return false
			}
			for i := 0; i < n; i++ {
				j := i
				switch {
				case edit == "reverse":
					j = n - 1 - i
				case edit == "rotate":
					j = (i + 1) % n
				case edit == "swap first" && i < 2:
					j = 1 - i
				case edit == "swap last" && i >= n-2:
					j = 2*n - 3 - i
				}
				c.Index(i).Set(v.Index(j))
			}
		default:
			return false
		}
		v.Set(c)
	default:
		return false
	}
	return true
}

// pureSpace: every field of the full value changed in every way, alone and in pairs of one kind each.
var pureSpace = Space{"a schema value with three of everything: every field changed in every way a program may have filled it", func(e *Emit) {
	s := fullValue()
	n := 0
	fields("", reflect.ValueOf(s).Elem(), func(string, reflect.Value) { n++ })
	for i := 0; i < n; i++ {
		for _, ed := range fieldEdits {
			e.Case("pure", sp("%d", i), ed)
			for j := 0; j < i && e.Thorough; j++ {
				for _, ed2 := range []string{"", "nil", "reverse", "upper", "x"} {
					e.Case("pure", sp("%d", i), ed, sp("%d", j), ed2)
				}
			}
		}
	}
}}

// permSpace: every list of the full value in every order (a list with a field of its own is one case each).
var permSpace = Space{"a schema value with three of everything: every order of every list", func(e *Emit) {
	s := fullValue()
	n := 0
	fields("", reflect.ValueOf(s).Elem(), func(_ string, v reflect.Value) {
		k := n
		n++
		if v.Kind() == reflect.Slice && v.Len() > 1 {
			perms(v.Len(), func(x []int) { e.Case("pure", sp("%d", k), "order "+strings.Trim(fmt.Sprint(x), "[]")) })
		}
	})
}}

func fullValue() *schema.Schema {
	a := analyse(fullSource)
	if !a.Syntax || len(a.Broken) > 0 {
		panic(sp("the full source is not valid: %v %v", a.Syntax, brokenList(a)))
	}
	return fromSource(a.Src)
}

// pureOracle: validating the changed value twice gives one verdict and leaves every part of it, spare capacity included, as it was.
func pureOracle(c *Case) (string, string) {
	s := fullValue()
	args := append([]string{c.S}, c.X...)
	for i := 0; i+1 < len(args); i += 2 {
		at, ed, n, ok := 0, args[i+1], 0, false
		fmt.Sscan(args[i], &at)
		fields("", reflect.ValueOf(s).Elem(), func(_ string, v reflect.Value) {
			if n++; n-1 != at || ok {
				return
			}
			if p, is := strings.CutPrefix(ed, "order "); is {
				f := strings.Fields(p)
				d := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
				for i := range f {
					j := 0
					fmt.Sscan(f[i], &j)
					d.Index(i).Set(v.Index(j))
				}
				v.Set(d)
				ok = true
				return
			}
			ok = editField(v, ed)
		})
		if !ok {
			return "", "no such field or edit"
		}
	}
	before, spare := fmt.Sprintf("%#v", *s), deepSpare(reflect.ValueOf(s).Elem())
	touch(before, 2)
	g := accept(s)
	h := accept(s)
	out := "value:" + g.label()
	if now := fmt.Sprintf("%#v", *s); now != before {
		i := 0
		for i < len(now) && i < len(before) && now[i] == before[i] {
			i++
		}
		i = max(0, i-60)
		return sp("validating changed the value: ...%s, was ...%s", clip(now[min(i, len(now)):], 200), clip(before[min(i, len(before)):], 200)), out
	}
	if deepSpare(reflect.ValueOf(s).Elem()) != spare {
		return "validating wrote into the value's spare capacity", out
	}
	if g.Kind == "panic" || g.Kind != h.Kind || fmt.Sprint(g.Err) != fmt.Sprint(h.Err) {
		return sp("validating: %s, again: %s", g.String(), h.String()), out
	}
	// the JSON of the value gets the same verdict
	b, err := s.ToJSON()
	var back schema.Schema
	if err != nil || json.Unmarshal(b, &back) != nil {
		return sp("the JSON does not decode: %v", err), out
	}
	if k := accept(&back); k.Kind != g.Kind {
		return sp("validating: %s, the decoded JSON of the value: %s", g.String(), k.String()), out
	}
	return "", out
}

// deepSpare renders what lies behind the ends of the lists.
func deepSpare(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Struct:
		out := ""
		for i := 0; i < v.NumField(); i++ {
			out += deepSpare(v.Field(i))
		}
		return out
	case reflect.Slice:
		out := ""
		if v.Cap() > v.Len() {
			out = fmt.Sprintf("%#v;", v.Slice3(0, v.Cap(), v.Cap()).Interface())
		}
		for i := 0; i < v.Len(); i++ {
			out += deepSpare(v.Index(i))
		}
		return out
	}
	return ""
}

// Registered last: these re-use the spaces of the other properties.
func init() {
	mixMore()
	oracles["pure"] = pureOracle
	traced := []Space{graphSpace("trace", []string{" "}), tokenEdits("trace", []string{" "}, false), kitchenSpace("deviations from a source using every construct", "trace", 1, 2)}
	register(&Prop{ID: "C27", Rule: "every source of the listed spaces parsed in every mode: result, error and listener contents must be equal; the command with and without the option: same output file and exit status",
		Spaces: append(traced, append(mixSpaces("trace", stmtSpace), as("trace", "C09", "C10", "C11", "C12", "C15", "C04")...)...)})

	register(&Prop{ID: "C28", Rule: "the schema every source of the rule checks declares, built by a program and validated with fresh validators, against the reference and against compiling; values must stay unchanged",
		Spaces: append([]Space{kitchenSpace("deviations from a source using every construct", "accept", 2, 2), pureSpace, permSpace}, append(mixSpaces("accept", stmtSpace), as("accept", "C09", "C10", "C11", "C12", "C13", "C14", "C30")...)...)})

	syn := []Space{{"the list alone", func(e *Emit) {
		for n := 0; n <= e.Pick(300, 1200); n++ {
			e.Case("errlist", sp("%d", n))
			e.Case("errlist", sp("%d", n), "same")
		}
		seqs(6, 1, e.Pick(5, 7), func(x []int) {
			w := ""
			for _, i := range x {
				w += string(rune('a' + i))
			}
			e.Case("errlist", sp("%d", len(x)), "word", w)
			if len(x) <= 3 {
				e.Case("errlist", sp("%d", len(x)*40), "word", strings.Repeat(w, 40))
			}
		})
	}}, {"one listener for several sources, and listeners with earlier problems", func(e *Emit) {
		for n := 0; n <= 12; n++ {
			for _, a := range histSources {
				e.Case("used-listener", sp("%d", n), a)
			}
		}
		srcs := append(append([]string{}, histSources...), "database d; ? ! \\", "database d; table t { a int, , b int } action", "table")
		seqs(len(srcs), 2, e.Pick(2, 3), func(x []int) {
			l := make([]string, len(x))
			for i, k := range x {
				l[i] = srcs[k]
			}
			e.Case("used-listener", "0", l...)
			e.Case("used-listener", "2", l...)
		})
		few := []string{srcs[0], srcs[1], srcs[16], srcs[17], srcs[18], srcs[24], srcs[25]}
		seqs(len(few), 3, e.Pick(4, 5), func(x []int) {
			l := make([]string, len(x))
			for i, k := range x {
				l[i] = few[k]
			}
			e.Case("used-listener", "0", l...)
		})
	}}, graphSpace("listener", []string{" "}), tokenEdits("listener", []string{" "}, false), charEdits("listener", basePrograms[:6], true),
		kitchenSpace("deviations from a source using every construct", "listener", 2, 2)}
	syn = append(syn, lexSpaces("listener")...)
	register(&Prop{ID: "C29", Rule: "every source of the listed spaces: the listener's contents are compared with what the generated lexer and parser report to a listener of our own",
		Spaces: append(append(syn, mixSpaces("listener", stmtSpace)...), as("listener", "C09", "C10", "C11", "C12", "C13", "C15")...)})
}
