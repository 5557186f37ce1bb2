package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"verifmc/ref"

	"github.com/antlr4-go/antlr/v4"

	"github.com/kwilteam/kuneiform/kfgrammar"
	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
)

// Spaces of C18, C20, C25, C26, C27 (library part), C28 and C29: the library's surface.

// canonical is everything observable of one parse result.
func canonical(g *Got) string {
	if g.Kind == "panic" {
		return "panic: " + g.Err.Error()
	}
	out := ""
	if g.Schema != nil {
		b, err := json.Marshal(g.Schema)
		out = fmt.Sprintf("schema %s %v %#v ", b, err, g.Schema.Actions == nil)
	}
	if g.Err != nil {
		out += "kind " + g.Kind + " error " + g.Err.Error()
	}
	return out
}

// --- fresh processes ---

// alone returns the canonical result of parsing each source in one fresh process, in order.
func alone(steps []string) []string {
	in, _ := json.Marshal(quoteAll(steps))
	cmd := exec.Command(self(), "history")
	cmd.Stdin = strings.NewReader(string(in))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	b, err := cmd.Output()
	if err != nil {
		return []string{"the process executing the history ended: " + err.Error()}
	}
	var q []string
	if json.Unmarshal(b, &q) != nil {
		return []string{"the process executing the history printed: " + clip(string(b), 200)}
	}
	unquoteAll(q)
	return q
}

func quoteAll(s []string) []string {
	out := make([]string, len(s))
	for i, x := range s {
		out[i] = strconv.Quote(x)
	}
	return out
}

// historyMain is the fresh process: it reads steps and writes their results.
func historyMain() {
	var q []string
	must(json.NewDecoder(os.Stdin).Decode(&q))
	unquoteAll(q)
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0) // trace output
	res, bad := runHistory(q)
	if bad != "" {
		res = append(res, "VIOLATION "+bad)
	}
	json.NewEncoder(out).Encode(quoteAll(res))
}

// runHistory executes steps in this process. A step is a mode letter and a
// source: p parses, t parses in trace mode, l parses with the caller's own
// listener, x parses and then overwrites everything the result can reach;
// k and y do as p and x through the entry point with options.
// Results that were not overwritten must stay as they were.
func runHistory(steps []string) (res []string, bad string) {
	type kept struct {
		g    Got
		want string
	}
	var ks []kept
	for i, st := range steps {
		src := st[1:]
		var g Got
		switch st[0] {
		case 't':
			g = parseMode(src, nil, kfparser.Trace)
		case 'l':
			g = parseMode(src, utils.NewErrorListener(), kfparser.Default)
		case 'k', 'y':
			g = parseMode(src, nil, kfparser.Default)
		default:
			g = parse(src)
		}
		c := canonical(&g)
		res = append(res, c)
		for k := range ks {
			if now := canonical(&ks[k].g); now != ks[k].want {
				return res, fmt.Sprintf("step %d changed an earlier result from %s to %s", i, clip(ks[k].want, 400), clip(now, 400))
			}
		}
		if st[0] == 'x' || st[0] == 'y' {
			scribble(&g)
		} else {
			ks = append(ks, kept{g, c})
		}
	}
	return res, ""
}

// scribble overwrites everything reachable from a result.
func scribble(g *Got) {
	if l, ok := g.Err.(*utils.ErrorList); ok {
		for i := range *l {
			(*l)[i] = fmt.Errorf("scribbled")
		}
		*l = append(*l, fmt.Errorf("scribbled"))
	}
	if g.Schema != nil {
		scribbleValue(reflect.ValueOf(g.Schema))
	}
}

func scribbleValue(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			if v.Kind() == reflect.Interface {
				v.Set(reflect.ValueOf("SCRIBBLED"))
				return
			}
			scribbleValue(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				scribbleValue(v.Field(i))
			}
		}
	case reflect.Slice:
		full := v.Slice(0, v.Cap()) // the spare capacity too
		for i := 0; i < full.Len(); i++ {
			scribbleValue(full.Index(i))
		}
	case reflect.String:
		v.SetString("SCRIBBLED")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	}
}

// The model state of a history is the sequence of operations so far; each operation is a transition.
func countHistory(steps []string) {
	h := ""
	for _, st := range steps {
		h += "\x01" + st
		touch(h, 1)
	}
}

var baseline = map[string]string{}

func aloneOne(src string) string {
	if b, ok := baseline[src]; ok {
		return b
	}
	r := alone([]string{"p" + src})
	baseline[src] = r[len(r)-1]
	return baseline[src]
}

func judgeHistory(steps, res []string, bad string) string {
	if bad != "" {
		return bad
	}
	if len(res) > 0 && strings.HasPrefix(res[len(res)-1], "VIOLATION ") {
		return res[len(res)-1][10:]
	}
	if len(res) != len(steps) {
		return fmt.Sprint("history gave ", len(res), " results: ", res)
	}
	for i, st := range steps {
		if want := aloneOne(st[1:]); res[i] != want {
			return fmt.Sprintf("step %d (%q) gives %s, alone in a fresh process %s", i, st, clip(res[i], 600), clip(want, 600))
		}
	}
	return ""
}

// sources for histories and schedules: pairs that share names, texts, sizes and prefixes but mean different things.
var histSources = []string{
	"database d; action a($x) { a($x); }",
	"database d; action a($y) { a($x); }", // same text, undefined variable
	"database d; use x as e; action a() { $x = e.m(); a($x); }",
	"database d; table t { a int, #i index(a) }",
	"database d; table t { b int, #i index(a) }", // unknown column
	"database d; table t { a int, b text notnull default('x'), fk (a) ref u (k) on_update cascade } table u { k int primary }",
	"database d; table t { a int, fk (a) ref u (k) }", // unknown table
	"database d; action a() public view owner { select 1; }",
	"database d; action a() { select 1; }",
	"database d; action a() { select random(); }",
	"database d; action a() public public { select 1; }", // fails while building the schema
	"database d; action a() public { b(); }",             // unknown action
	"database d; action b() private { b(); } init() { b(); }",
	"database d; init() { select 1; } init() { select 1; }",
	"database d; action a() { e.m(); }", // unknown extension
	"database d; use x {k: 'v', z: 1} as e; action a() { e.m(); }",
	"database d; action a() { select 1; ",  // syntax error at the end
	"database d? action a() { select 1; }", // unrecognisable character
	"",
	"database d; @n(k='a', j=1) action a($p, $q, $r) { a($q); }",
	"database d; table t { a int minlen(1) }",
	"database d; table t { a text minlen(1) }",
	"database d; table T { A int, B blob } table t { a int }",
	"database d; action a() { a('x' 'y'); }",
}

// --- C20: JSON ---

type obj = map[string]any

func list[T any](in []T, f func(T) any) any {
	out := []any{}
	for _, x := range in {
		out = append(out, f(x))
	}
	return out
}

// The documented shape, written out by hand. A key ending in "?" may be left out when its value is empty.
func shape(v any) any {
	str := func(s string) any { return s }
	switch t := v.(type) {
	case *schema.Schema:
		return obj{"owner": t.Owner, "name": t.Name, "tables?": list(t.Tables, func(x schema.Table) any { return shape(&x) }),
			"actions?": list(t.Actions, func(x schema.Action) any { return shape(&x) }), "extensions?": list(t.Extensions, func(x schema.Extension) any { return shape(&x) })}
	case *schema.Extension:
		return obj{"name": t.Name, "alias": t.Alias, "config": list(t.Config, func(x schema.ExtensionConfig) any { return obj{"argument": x.Argument, "value": x.Value} })}
	case *schema.Table:
		return obj{"name": t.Name, "columns?": list(t.Columns, func(x schema.Column) any { return shape(&x) }),
			"indexes?": list(t.Indexes, func(x schema.Index) any { return shape(&x) }), "foreign_keys?": list(t.ForeignKeys, func(x schema.ForeignKey) any { return shape(&x) })}
	case *schema.Column:
		return obj{"name": t.Name, "type": string(t.Type), "attributes?": list(t.Attributes, func(x schema.Attribute) any { return shape(&x) })}
	case *schema.Attribute:
		if t.Value == nil {
			return obj{"type": string(t.Type), "value?": nil}
		}
		return obj{"type": string(t.Type), "value": number(t.Value)}
	case *schema.Index:
		return obj{"name": t.Name, "columns": list(t.Columns, str), "type?": string(t.Type)}
	case *schema.ForeignKey:
		return obj{"child_keys": list(t.ChildKeys, str), "parent_keys": list(t.ParentKeys, str), "parent_table": t.ParentTable,
			"actions": list(t.Actions, func(x schema.ForeignKeyAction) any { return obj{"on": string(x.On), "do": string(x.Do)} })}
	case *schema.Action:
		return obj{"name": t.Name, "annotations?": list(t.Annotations, str), "inputs": list(t.Inputs, str), "public": t.Public, "mutability": string(t.Mutability),
			"auxiliaries": list(t.Auxiliaries, func(x schema.AuxiliaryType) any { return string(x) }), "statements?": list(t.Statements, str)}
	}
	panic("no shape")
}

// number turns the numbers of a value into those the decoder makes.
func number(v any) any {
	switch t := v.(type) {
	case int:
		return float64(t)
	case []any:
		out := []any{}
		for _, x := range t {
			out = append(out, number(x))
		}
		return out
	case map[string]any:
		out := obj{}
		for k, x := range t {
			out[k] = number(x)
		}
		return out
	case nil, string, bool, float64:
		return v
	}
	var back any
	if b, err := json.Marshal(v); err == nil && json.Unmarshal(b, &back) == nil {
		return back
	}
	return v
}

func emptyJSON(v any) bool {
	switch t := v.(type) {
	case nil:
		return true
	case string:
		return t == ""
	case []any:
		return len(t) == 0
	}
	return false
}

// fits compares decoded JSON with the expected shape.
func fits(path string, want, got any) string {
	if emptyJSON(want) && emptyJSON(got) {
		if _, isStr := want.(string); !isStr || got == want {
			return ""
		}
	}
	switch w := want.(type) {
	case obj:
		g, ok := got.(obj)
		if !ok {
			return fmt.Sprintf("%s: want an object, have %v", path, got)
		}
		known := map[string]bool{}
		for k, x := range w {
			name, optional := strings.CutSuffix(k, "?")
			known[name] = true
			y, there := g[name]
			if !there {
				if optional && emptyJSON(x) {
					continue
				}
				return fmt.Sprintf("%s.%s: the key is missing", path, name)
			}
			if v := fits(path+"."+name, x, y); v != "" {
				return v
			}
		}
		for k := range g {
			if !known[k] {
				return fmt.Sprintf("%s.%s: unexpected key", path, k)
			}
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s: want %v, have %v", path, want, got)
		}
		for i := range w {
			if v := fits(fmt.Sprint(path, "[", i, "]"), w[i], g[i]); v != "" {
				return v
			}
		}
		return ""
	}
	if !reflect.DeepEqual(want, got) {
		return fmt.Sprintf("%s: want %#v, have %#v", path, want, got)
	}
	return ""
}

type jsoner interface{ ToJSON() ([]byte, error) }

func checkJSON(v jsoner) string {
	before := fmt.Sprintf("%#v", deref(v))
	a, err := v.ToJSON()
	if err != nil {
		return "serialising fails: " + err.Error()
	}
	first := string(a)
	for i := range a {
		a[i] = 'x' // the caller's bytes are the caller's
	}
	b, err := v.ToJSON()
	if err != nil || string(b) != first {
		return fmt.Sprintf("a second call gives %q, the first gave %q", b, first)
	}
	if now := fmt.Sprintf("%#v", deref(v)); now != before {
		return "serialising modified the value"
	}
	dup, err := keysOnce(first)
	if err != nil || dup != "" {
		return fmt.Sprintf("not one JSON value with distinct keys: %v %s in %q", err, dup, first)
	}
	var g any
	if err := json.Unmarshal([]byte(first), &g); err != nil {
		return fmt.Sprintf("not JSON: %v: %q", err, first)
	}
	if m := fits("$", shape(v), g); m != "" {
		return m + " in " + clip(first, 800)
	}
	if s, ok := v.(*schema.Schema); ok {
		var back schema.Schema
		if err := json.Unmarshal([]byte(first), &back); err != nil {
			return "decoding into a schema fails: " + err.Error()
		}
		if x, y := norm(*s), norm(back); !reflect.DeepEqual(x, y) {
			return fmt.Sprintf("decoding gives %+v, serialised was %+v", y, x)
		}
	}
	return ""
}

func deref(v any) any { return reflect.ValueOf(v).Elem().Interface() }

// keysOnce scans the JSON text: exactly one value, no object with a repeated key.
func keysOnce(s string) (dup string, err error) {
	d := json.NewDecoder(strings.NewReader(s))
	var value func() error
	value = func() error {
		t, err := d.Token()
		if err != nil {
			return err
		}
		switch t {
		case json.Delim('{'):
			seen := map[string]bool{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return err
				}
				if seen[fmt.Sprint(k)] {
					dup = fmt.Sprint(k)
				}
				seen[fmt.Sprint(k)] = true
				if err := value(); err != nil {
					return err
				}
			}
			_, err = d.Token()
			return err
		case json.Delim('['):
			for d.More() {
				if err := value(); err != nil {
					return err
				}
			}
			_, err = d.Token()
			return err
		}
		return nil
	}
	if err = value(); err == nil && d.More() {
		err = fmt.Errorf("trailing text")
	}
	return
}

// norm makes empty and absent lists the same.
func norm(s schema.Schema) schema.Schema {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice:
			if v.Len() == 0 {
				v.Set(reflect.Zero(v.Type()))
				return
			}
			c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			reflect.Copy(c, v)
			v.Set(c)
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Interface:
			if v.Interface() != nil {
				v.Set(reflect.ValueOf(number(v.Interface())))
			}
		}
	}
	walk(reflect.ValueOf(&s).Elem())
	return s
}

// jsonStrings are string contents that encoders get wrong.
var jsonStrings = func() []string {
	out := []string{"", "a", "select * from t where a < 1 and b > 2 & c;", `"`, `\`, `\"`, `\\`, "'", "/", "</script>", "<!--", "\u2028", "\u2029", "\ufffd", "\ufeff", "é", "世界", "😀", "\U0010ffff", "a\nb\tc\r", "null", "true", "0", "1e3", "{}", "[]", `{"a":1}`, " ", " a ", `\u0041`, `\n`, "%s", "%!", "&amp;", "a,b", "a:b", strings.Repeat("x", 5000), strings.Repeat("é\"\\\n", 300)}
	for c := 0; c < 128; c++ {
		out = append(out, string(rune(c)), "a"+string(rune(c))+"b")
	}
	// the escapes of JSON, written out as text, alone and behind a backslash
	for _, c := range []string{"u003c", "u003e", "u0026", "u2028", "u2029", "u0000", "u003C", "u00e9", "ud800", "n", "r", "t", "b", "f", "/", "\"", "x3c", "'", "u", "u00", "&lt;", "&#34;", "%3C"} {
		out = append(out, "\\"+c, "a\\\\"+c+"b<\\"+c)
	}
	return out
}()

// A recipe names one JSON case: which part, which string goes into which place, how long each list is.
var parts []string // of a schema

func buildPart(recipe string) (v jsoner, ok bool) {
	var part string
	var at, str, n int
	var flag bool
	if _, err := fmt.Sscanf(recipe, "%s place %d string %d lists %d flag %t", &part, &at, &str, &n, &flag); err != nil {
		return nil, false
	}
	k := -1
	s := func() string { // successive string places
		k++
		if k == at {
			return jsonStrings[str]
		}
		return fmt.Sprint("s", k)
	}
	strs := func() []string {
		if n < 0 {
			return nil
		}
		out := []string{}
		for i := 0; i < n; i++ {
			out = append(out, s())
		}
		return out
	}
	attr := func() schema.Attribute {
		a := schema.Attribute{Type: schema.AttributeType(s())}
		if flag {
			a.Value = s()
		}
		return a
	}
	col := func() schema.Column {
		c := schema.Column{Name: s(), Type: schema.ColumnType(s())}
		for i := 0; i < n; i++ {
			c.Attributes = append(c.Attributes, attr())
		}
		return c
	}
	idx := func() schema.Index { return schema.Index{Name: s(), Columns: strs(), Type: schema.IndexType(s())} }
	fk := func() schema.ForeignKey {
		f := schema.ForeignKey{ChildKeys: strs(), ParentKeys: strs(), ParentTable: s()}
		if n == 0 {
			f.Actions = []schema.ForeignKeyAction{}
		}
		for i := 0; i < n; i++ {
			f.Actions = append(f.Actions, schema.ForeignKeyAction{On: schema.ForeignKeyActionOn(s()), Do: schema.ForeignKeyActionDo(s())})
		}
		return f
	}
	act := func() schema.Action {
		a := schema.Action{Name: s(), Annotations: strs(), Inputs: strs(), Public: flag, Mutability: schema.MutabilityType(s()), Statements: strs()}
		if n == 0 {
			a.Auxiliaries = []schema.AuxiliaryType{}
		}
		for i := 0; i < n; i++ {
			a.Auxiliaries = append(a.Auxiliaries, schema.AuxiliaryType(s()))
		}
		return a
	}
	ext := func() schema.Extension {
		x := schema.Extension{Name: s(), Alias: s()}
		if n == 0 {
			x.Config = []schema.ExtensionConfig{}
		}
		for i := 0; i < n; i++ {
			x.Config = append(x.Config, schema.ExtensionConfig{Argument: s(), Value: s()})
		}
		return x
	}
	tab := func() schema.Table {
		t := schema.Table{Name: s()}
		if n == 0 {
			t.Columns, t.Indexes, t.ForeignKeys = []schema.Column{}, []schema.Index{}, []schema.ForeignKey{}
		}
		for i := 0; i < n; i++ {
			t.Columns, t.Indexes, t.ForeignKeys = append(t.Columns, col()), append(t.Indexes, idx()), append(t.ForeignKeys, fk())
		}
		return t
	}
	switch part {
	case "attribute":
		x := attr()
		v = &x
	case "column":
		x := col()
		v = &x
	case "index":
		x := idx()
		v = &x
	case "foreign_key":
		x := fk()
		v = &x
	case "action":
		x := act()
		v = &x
	case "extension":
		x := ext()
		v = &x
	case "table":
		x := tab()
		v = &x
	case "schema":
		x := schema.Schema{Owner: s(), Name: s()}
		if n == 0 {
			x.Tables, x.Actions, x.Extensions = []schema.Table{}, []schema.Action{}, []schema.Extension{}
		}
		for i := 0; i < n; i++ {
			x.Tables, x.Actions, x.Extensions = append(x.Tables, tab()), append(x.Actions, act()), append(x.Extensions, ext())
		}
		v = &x
	default:
		return nil, false
	}
	return v, at <= k
}

// --- C28: schema values ---

// fromSource builds, as a program would, the schema a source declares.
func fromSource(s *ref.Source) *schema.Schema {
	out := &schema.Schema{Name: s.Name}
	for _, e := range s.Exts {
		x := schema.Extension{Name: e.Name, Alias: e.Alias}
		for _, c := range e.Config {
			x.Config = append(x.Config, schema.ExtensionConfig{Argument: c.Key, Value: c.Val})
		}
		out.Extensions = append(out.Extensions, x)
	}
	for _, t := range s.Tables {
		u := schema.Table{Name: t.Name}
		for _, c := range t.Columns {
			d := schema.Column{Name: c.Name, Type: schema.ColumnType(c.Type)}
			for _, a := range c.Attrs {
				b := schema.Attribute{Type: schema.AttributeType(a.Type)}
				if a.Val != "" {
					b.Value = a.Val
				}
				d.Attributes = append(d.Attributes, b)
			}
			u.Columns = append(u.Columns, d)
		}
		for _, x := range t.Indexes {
			u.Indexes = append(u.Indexes, schema.Index{Name: x.Name, Type: schema.IndexType(x.Type), Columns: x.Columns})
		}
		for _, f := range t.FKs {
			g := schema.ForeignKey{ChildKeys: f.Child, ParentKeys: f.Parent, ParentTable: f.Table}
			for _, r := range f.Rules {
				g.Actions = append(g.Actions, schema.ForeignKeyAction{On: schema.ForeignKeyActionOn(r.On), Do: schema.ForeignKeyActionDo(r.Do)})
			}
			u.ForeignKeys = append(u.ForeignKeys, g)
		}
		out.Tables = append(out.Tables, u)
	}
	add := func(a *ref.Action, name string) {
		h := a.Header()
		b := schema.Action{Name: name, Inputs: h.Params, Public: h.Public, Mutability: schema.MutabilityType(h.Mutability)}
		for _, x := range h.Aux {
			b.Auxiliaries = append(b.Auxiliaries, schema.AuxiliaryType(x))
		}
		for _, an := range a.Annots {
			b.Annotations = append(b.Annotations, strings.TrimPrefix(ref.Spaced(an.Toks), "@"))
		}
		for _, st := range a.Stmts {
			if st.Call != nil {
				b.Statements = append(b.Statements, ref.Spaced(st.Call.Toks))
			} else {
				b.Statements = append(b.Statements, st.SQL)
			}
		}
		out.Actions = append(out.Actions, b)
	}
	for i := range s.Actions {
		add(&s.Actions[i], s.Actions[i].Name)
	}
	for i := range s.Inits {
		add(&s.Inits[i], "init")
	}
	return out
}

func accept(s *schema.Schema) (g Got) {
	defer func() {
		if r := recover(); r != nil {
			g = Got{Err: fmt.Errorf("panic: %v", r), Kind: "panic"}
		}
	}()
	err := s.Accept(schema.NewCtxValidator())
	return Got{Err: err, Kind: errKind(err)}
}

func init() {
	// C18
	oracles["history"] = func(c *Case) (string, string) {
		countHistory(c.X)
		res, bad := runHistory(c.X)
		return judgeHistory(c.X, res, bad), fmt.Sprint(len(c.X), " steps")
	}
	oracles["fresh-history"] = func(c *Case) (string, string) {
		countHistory(c.X)
		return judgeHistory(c.X, alone(c.X), ""), fmt.Sprint(len(c.X), " steps in a fresh process")
	}
	hist := func(e *Emit, o string, steps ...string) { e.Case(o, strings.Join(steps, " | "), steps...) }
	register(&Prop{ID: "C18", Rule: "every sequence of parses over a set of sources that share names, texts, prefixes and sizes; each result is compared with the one of a fresh process that does nothing else, and earlier results must stay unchanged",
		Assume: []string{"model states are operation sequences; the histories are over the listed sources only"},
		Spaces: []Space{
			{"every pair of sources in every mode, each in a fresh process", func(e *Emit) {
				for _, m := range []string{"pp", "xp", "yk", "kp", "tp", "pt", "lp"} {
					for _, a := range histSources {
						for _, b := range histSources {
							if m == "pp" || m == "xp" || a == b || e.Thorough {
								hist(e, "fresh-history", m[:1]+a, m[1:]+b)
							}
						}
					}
				}
			}},
			{"every sequence of up to 3 sources", func(e *Emit) {
				seqs(len(histSources), 1, 3, func(x []int) {
					var p, q []string
					for _, i := range x {
						p = append(p, "p"+histSources[i])
						q = append(q, "x"+histSources[i])
					}
					hist(e, "history", p...)
					hist(e, "history", q...)
					if len(x) < 3 || x[0] == x[2] {
						for j, i := range x {
							q[j] = "y" + histSources[i]
						}
						hist(e, "history", q...)
					}
				})
			}},
			{"every sequence of 4 (5) operations over few sources and all modes", func(e *Emit) {
				var al []string
				for _, i := range []int{0, 1, 4, 10, 16} {
					al = append(al, "p"+histSources[i], "x"+histSources[i])
				}
				al = append(al, "t"+histSources[5], "l"+histSources[9])
				seqs(len(al), 4, e.Pick(4, 5), func(x []int) {
					var p []string
					for _, i := range x {
						p = append(p, al[i])
					}
					hist(e, "history", p...)
				})
			}},
			{"many different sources, then the first ones again", func(e *Emit) {
				for _, n := range []int{2, 10, 65, 130, 260, 600} {
					for _, first := range histSources {
						steps := []string{"p" + first}
						for i := 0; i < n; i++ {
							steps = append(steps, "p"+sp("database d; action a%d($x) { a%d($x); select %d; } table t { a int, c%d int, #i index(c%d) }", i, i, i, i, i))
						}
						for i := 0; i < 3; i++ {
							steps = append(steps, "p"+sp("database d; action a%d($y) { a%d($x); select %d; } table t { a int, #i index(c%d) }", i, i, i, i))
						}
						steps = append(steps, "p"+first)
						e.Case("history", sp("%d sources around %q", n, first), steps...)
					}
				}
			}},
			{"a source again after every number of parses of another one", func(e *Emit) {
				for i, a := range append(append([]string{}, histSources...), basePrograms...) {
					for j, b := range []string{"database d;", "database d; x", "database d; action a() { select 1; }", "database d; table z { z int }"} {
						if !e.Thorough && j != i%4 && j != 0 {
							continue
						}
						for lo := 0; lo < 280; lo += 70 {
							l := sp("gaps%d.%d", i, j)
							for k := lo; k < lo+70; k++ {
								l += sp(" %d", k)
							}
							e.Case("gap", l, a, b)
						}
						e.Case("gap", sp("gaps%d.%d 509 510 511 512 513 998 999 1000 1001 1021 1022 1023 1024 1025", i, j), a, b)
						if e.Thorough || i == 3 || i == 5 || i == 0 {
							e.Case("gap", sp("gaps%d.%d 2046 2047 2048 4094 4095 4096", i, j), a, b)
						}
						if e.Thorough {
							e.Case("gap", sp("gaps%d.%d 9998 9999 10000 65533 65534 65535 65536", i, j), a, b)
						}
					}
				}
			}},
			{"the same sources again and again", func(e *Emit) {
				n := e.Pick(1100, 20000)
				for i := range histSources {
					for _, d := range []int{0, 1, 5} {
						l := []string{histSources[i]}
						if d > 0 {
							l = append(l, histSources[(i+d)%len(histSources)])
						}
						e.Case("repeat", sp("%d times %q %d", n, histSources[i], d), l...)
					}
				}
				e.Case("repeat", sp("%d times all", n*4), histSources...)
				e.Case("repeat", sp("%d times short", n*10), "database d;", "database e;")
				e.Case("repeat", sp("%d times bad", n*10), "database", "database d; x")
				for _, t := range []string{"database d#;", "database d; use x as e#;", "database d; use x# as e;", "database d; table t# { a int }", "database d; table t { a# text }", "database d; table t { a text default('#') }", "database d; action a () { select #; }", "database d; action a () { a(#, '#'); }", "database d; action a# () { select 1; }",
					"database d; action a ($x#) { a($x#); }", "database d; @n(k='#') action a () { select 1; }", "database d; @n#(k#=1) action a () { b(); }", "database d; x#", "database d; action a () { a($x#); }", "database d; action a () { select # from; }", "database d; init() { select '#'; } // #"} {
					e.Case("distinct", sp("%d sources like %q", e.Pick(1500, 20000), t), t)
				}
			}},
			{"kitchen sources against each other", func(e *Emit) {
				k := kitchen()
				var all []string
				deviate(k, 1, func(ch []int) { all = append(all, assemble(k, ch)) })
				for i := range all {
					for _, d := range []int{1, 7, 30} {
						hist(e, "history", "p"+all[i], "x"+all[(i+d)%len(all)], "p"+all[i])
					}
				}
			}},
		}})

	// C20
	oracles["json-part"] = func(c *Case) (string, string) {
		v, ok := buildPart(c.S)
		if !ok {
			return "", "no such place"
		}
		touch(fmt.Sprintf("%+v", deref(v)), 2)
		return checkJSON(v), strings.Fields(c.S)[0]
	}
	oracles["json"] = func(c *Case) (string, string) {
		if !utf8.ValidString(c.S) {
			return "", "not valid Unicode"
		}
		g := parse(c.S)
		if g.Kind != "" {
			return "", g.label()
		}
		if v := checkJSON(g.Schema); v != "" {
			return v, "accepted"
		}
		a := ref.AnalyseSyntax(c.S)
		if !a.Syntax {
			return "", "accepted"
		}
		b, _ := g.Schema.ToJSON()
		var back schema.Schema
		if err := json.Unmarshal(b, &back); err != nil {
			return "the JSON does not decode: " + err.Error(), "accepted"
		}
		return cmpAll(ref.ParseTokens(a.Toks), &back), "accepted"
	}
	oracles["repeat"] = func(c *Case) (string, string) {
		n, _ := strconv.Atoi(c.S[:strings.IndexByte(c.S, ' ')])
		want := make([]string, len(c.X))
		for i, s := range c.X {
			want[i] = aloneOne(s)
		}
		for i := 0; i < n; i++ {
			k := i % len(c.X)
			g := parse(c.X[k])
			if got := canonical(&g); got != want[k] {
				return sp("parse %d of %q gives %s, alone in a fresh process %s", i+1, c.X[k], clip(got, 600), clip(want[k], 600)), ""
			}
			touch(sp("%s %d", c.S, i), 1)
		}
		return "", "repeated"
	}
	oracles["gap"] = func(c *Case) (string, string) {
		// a source, g parses of another one, and the source again, for every g
		want := []string{aloneOne(c.X[0]), aloneOne(c.X[1])}
		for _, f := range strings.Fields(c.S)[1:] {
			n, _ := strconv.Atoi(f)
			for i := 0; i <= n+1; i++ {
				k := 1
				if i == 0 || i == n+1 {
					k = 0
				}
				g := parse(c.X[k])
				if got := canonical(&g); got != want[k] {
					return sp("parse %d of %q, %d times %q, %q gives %s, alone in a fresh process %s", i+1, c.X[0], n, c.X[1], c.X[0], clip(got, 600), clip(want[k], 600)), ""
				}
			}
			touch(sp("%s %d", c.S, n), int64(n)+2)
		}
		return "", "gaps"
	}
	oracles["distinct"] = func(c *Case) (string, string) {
		// the sources are alike but for one number of six digits, and so must be the results
		first := strings.Replace(c.X[0], "#", "100000", -1)
		want := strings.ReplaceAll(aloneOne(first), "100000", "#")
		n, _ := strconv.Atoi(c.S[:strings.IndexByte(c.S, ' ')])
		for round := 1; round <= 2; round++ {
			for i := 0; i < n; i++ {
				num := strconv.Itoa(100000 + i)
				src := strings.ReplaceAll(c.X[0], "#", num)
				g := parse(src)
				if got := strings.ReplaceAll(canonical(&g), num, "#"); got != want {
					return sp("parse %d of round %d, %q, gives %s, one with another number in a fresh process %s", i+1, round, src, clip(got, 600), clip(want, 600)), ""
				}
				touch(sp("%s %d %d", c.S, round, i), 1)
			}
		}
		return "", "distinct"
	}
	parts = []string{"attribute", "column", "index", "foreign_key", "action", "extension", "table", "schema"}
	register(&Prop{ID: "C20", Rule: "every part of a schema, every string place, every string content of the list, every list length; decoded independently and compared with the documented shape",
		Assume: []string{"strings are valid Unicode; a missing, null and empty list are the same; key order and white space are free"},
		Spaces: append([]Space{
			{"every string content in every place of every part", func(e *Emit) {
				for _, p := range parts {
					for n := 1; n <= e.Pick(1, 2); n++ {
						for at := 0; at < 120; at++ {
							for s := range jsonStrings {
								r := sp("%s place %d string %d lists %d flag %t", p, at, s, n, true)
								if _, ok := buildPart(r); !ok {
									break
								}
								e.Case("json-part", r)
							}
						}
					}
				}
			}},
			{"every list length, every flag, empty and absent lists", func(e *Emit) {
				for _, p := range parts {
					for n := -1; n <= 12; n++ {
						for _, s := range []int{0, 1, 2} {
							for at := 0; at < 40; at++ {
								for _, f := range []string{"true", "false"} {
									r := sp("%s place %d string %d lists %d flag %s", p, at, s, n, f)
									if _, ok := buildPart(r); ok {
										e.Case("json-part", r)
									}
								}
							}
						}
					}
				}
			}},
			{"string literals: every content over a small alphabet, in every literal position", func(e *Emit) {
				lexSpaces("json")[0].Gen(e)
			}},
			kitchenSpace("sources using every construct", "json", 1, 2),
			{"every character in literals and SQL", func(e *Emit) {
				for r := rune(1); r < 0x3000; r++ {
					if r > 0x250 && r%7 != 0 && !e.Thorough {
						continue
					}
					c := string(r)
					if c == "'" || c == "\\" {
						c = "\\" + c
					}
					e.Case("json", "database d; use x {k: '"+c+"'} as e; table t { a text default('"+c+"') } @n(k='"+c+"') action a() { a('"+c+"', 1); select '"+strings.ReplaceAll(c, `\'`, "''")+"'; }")
				}
			}},
		}, as("json", "C01", "C02", "C03", "C05")...)})

	// C25
	oracles["annotation"] = func(c *Case) (string, string) {
		a := ref.AnalyseSyntax(c.S)
		g := parse(c.S)
		if !a.Syntax || g.Kind != "" {
			return "", g.label()
		}
		src := ref.ParseTokens(a.Toks)
		acts, _ := splitActions(src, g.Schema)
		if len(acts) != len(src.Actions) {
			return "", "other actions" // C02
		}
		n := 0
		for i := range acts {
			want := src.Actions[i].Annots
			if len(acts[i].Annotations) != len(want) {
				return sp("action %s: %d annotations written, %d recorded", acts[i].Name, len(want), len(acts[i].Annotations)), "accepted"
			}
			for k, an := range want {
				n++
				for again := 0; again < 2; again++ {
					got, err := decodeAnnotation(acts[i].Annotations[k])
					if err != nil {
						return sp("the recorded annotation %q does not decode: %v", acts[i].Annotations[k], err), "accepted"
					}
					same := got.Target == strings.TrimPrefix(an.Target, "@") && len(got.Attributes) == len(an.Attrs)
					for j := 0; same && j < len(an.Attrs); j++ {
						same = got.Attributes[j].Name == an.Attrs[j].Key && got.Attributes[j].Value == an.Attrs[j].Val
					}
					if !same {
						return sp("written %s, recorded %q, decoded %+v", ref.Spaced(an.Toks), acts[i].Annotations[k], *got), "accepted"
					}
					for j := range got.Attributes {
						got.Attributes[j].Value = "scribbled"
					}
				}
			}
		}
		return "", sp("%d annotations", min(n, 9))
	}
	// any text: an annotation or an error, and no annotation without a parenthesised list
	oracles["annotation-text"] = func(c *Case) (viol, out string) {
		touch(c.S, 1)
		defer func() {
			if r := recover(); r != nil {
				viol = sp("decoding panics: %v", r)
			}
		}()
		got, err := utils.ParseAnnotation(c.S)
		switch {
		case (got == nil) == (err == nil):
			return sp("an annotation and an error, or neither: %v, %v", got, err), "text"
		case err == nil && (!strings.Contains(c.S, "(") || !strings.HasSuffix(c.S, ")")):
			return sp("text without a closed list decodes to %+v", *got), "text"
		case err == nil:
			return "", "decoded"
		case err.Error() == "":
			return "an error without text", "text"
		}
		return "", "refused"
	}
	register(&Prop{ID: "C25", Rule: "every annotation of the listed spaces, compiled, decoded and compared with what the reference parser reads; every short text decoded", Spaces: []Space{
		{"any text", func(e *Emit) {
			al := []string{"a", "(", ")", "=", "'", "1", ",", " ", "\n", `\`, "@", "é", "\xff"}
			seqs(len(al), 0, e.Pick(4, 6), func(x []int) {
				e.Case("annotation-text", pick(al, x, ""))
				if len(x) <= 3 {
					e.Case("annotation-text", "a(k='v', j=1"+pick(al, x, "")+")")
					e.Case("annotation-text", "a("+pick(al, x, "")+"=1)")
				}
			})
			full := `tgt(a=1, b='x(\')y', c='=,\\')`
			for i := range full {
				e.Case("annotation-text", full[:i])
				e.Case("annotation-text", full[i:])
				for j := i + 1; j <= len(full); j++ {
					e.Case("annotation-text", full[:i]+full[j:])
				}
			}
			for _, n := range sizes(e) {
				for _, s := range al {
					e.Case("annotation-text", strings.Repeat(s, n))
					e.Case("annotation-text", "a("+strings.Repeat(s, n)+")")
				}
			}
		}},
		{"string values: every content over a small alphabet", func(e *Emit) {
			al := []string{"a", `\'`, `\\`, "=", ",", "(", ")", " ", "1", "\n", "b=2", "@", "'c'", `"`, "é", "\t", "//", "/*"}
			seqs(len(al), 0, e.Pick(4, 5), func(x []int) {
				if len(x) == 5 && (x[0]+x[4])%3 != 0 {
					return
				}
				s := strings.ReplaceAll(pick(al, x, ""), "'c'", `\'c\'`)
				e.Case("annotation", "database d; @n(k='"+s+"') action a() { select 1; }")
				if len(x) <= 3 {
					e.Case("annotation", "database d; @n(k=1, s='"+s+"', t='"+s+"', u=2) action a() { select 1; }")
					e.Case("annotation", "database d; @n(s='"+s+"') @m( t = '"+s+"' , u = 'x' ) action a() { select 1; } @o(v='y',w='"+s+"') action b() { select 1; }")
				}
			})
		}},
		{"every attribute list", func(e *Emit) {
			al := []string{"a=1", "b='x'", "a = ''", "A='a=1'", "c1_=00", "d9 = 'x, y=2'", `e='\''`, "a ='b'"}
			seqs(len(al), 1, e.Pick(4, 6), func(x []int) {
				if len(x) > 5 && x[0] > 2 {
					return
				}
				for _, sep := range []string{",", ", ", " ,\n", " , /* k=9 */ ", ",// z='q'\n"} {
					if len(x) <= 3 || sep == "," {
						e.Case("annotation", "database d; @n("+pick(al, x, sep)+") action a() { select 1; }")
					}
				}
			})
		}},
		{"names", func(e *Emit) {
			seqs(5, 1, e.Pick(4, 5), func(x []int) {
				n := pick([]string{"a", "Z", "_", "0", "9"}, x, "")
				if x[0] > 1 {
					return
				}
				for _, v := range []string{"1", "'v'", "'" + n + "=1'"} {
					e.Case("annotation", "database d; @n("+n+"="+v+") action a() { select 1; }")
					e.Case("annotation", "database d; @"+n+"("+n+"="+v+", x"+n+" = "+v+") action a() { select 1; }")
				}
			})
			for _, k := range ref.Keywords() {
				e.Case("annotation", "database d; @"+k+"(k=1, s='a') action a() { select 1; }")
				e.Case("annotation", "database d; @x"+k+"("+k+"x=1, _="+"2) action a() { select 1; }")
			}
		}},
		{"numbers, long lists, long values", func(e *Emit) {
			for _, n := range numLits {
				e.Case("annotation", "database d; @n(k="+n+", j='"+n+"') action a() { select 1; }")
			}
			for _, n := range sizes(e) {
				e.Case("annotation", "database d; @n("+numbered(n, ", ", func(i int) string { return sp("k%d = %d, s%d='v%d'", i, i, i, i) })+") action a() { select 1; }")
				e.Case("annotation", "database d; "+numbered(n, " ", func(i int) string { return sp("@n%d(k%d = %d)", i, i, i) })+" action a() { select 1; }")
				e.Case("annotation", "database d; "+numbered(n, " ", func(i int) string { return sp("@n%d(k%d = 'x%d') action a%d() { select 1; }", i, i, i, i) }))
				e.Case("annotation", "database d; @n(k='"+strings.Repeat(`\'=,`, n)+"', j='"+strings.Repeat("x", n*17)+"') action a() { select 1; }")
			}
			for _, l := range strLits {
				for _, m := range strLits {
					e.Case("annotation", "database d; @n(k="+l+", j="+m+") action a() { select 1; }")
				}
			}
			for r := rune(1); r < rune(e.Pick(0x400, 0x3000)); r++ {
				c := string(r)
				if c == "'" || c == "\\" {
					c = "\\" + c
				}
				e.Case("annotation", "database d; @n(k='"+c+"', j = 'a"+c+"b') action a() { select 1; }")
				e.Case("annotation", "database d; @n(k='\\"+string(r)+"', j = 'a') action a() { select 1; }")
			}
		}},
	}})

	// C26
	oracles["typeword"], oracles["typeprefix"] = typeWord, typePrefix
	register(&Prop{ID: "C26", Rule: "every letter case of every keyword, every word within one edit of it, every short word; compared with the types the parser records",
		Spaces: []Space{
			{"every letter case of every keyword", func(e *Emit) {
				for w := range typeWords {
					for m := 0; m < 1<<len(w); m++ {
						b := []byte(w)
						for i := range b {
							if m>>i&1 == 1 {
								b[i] -= 32
							}
						}
						e.Case("typeword", string(b))
					}
				}
			}},
			{"every word within one edit (thorough: two) of a keyword or a recorded type", func(e *Emit) {
				base := []string{"primary_key", "not_null", "min_length", "max_length", "btree", "unique_btree", "UPDATE", "integer", "varchar", "bool", "real", "check"}
				for w := range typeWords {
					base = append(base, w)
				}
				cs := []string{"é", "\u00a0", "ı", "ſ", "K", "\xff"} // with letters that fold to ASCII ones
				for c := 0; c < 128; c++ {
					cs = append(cs, string(rune(c)))
				}
				cs2 := []string{"a", "e", "i", "n", "t", "x", "N", "0", "_", " ", "("}
				edits := func(w string, cs []string, f func(string)) {
					for i := 0; i <= len(w); i++ {
						for _, c := range cs {
							f(w[:i] + c + w[i:])
							if i < len(w) {
								f(w[:i] + c + w[i+1:])
							}
						}
						if i < len(w) {
							f(w[:i] + w[i+1:])
						}
						if i+1 < len(w) {
							f(w[:i] + w[i+1:i+2] + w[i:i+1] + w[i+2:])
						}
						f(w[:i])
						f(w[i:])
					}
				}
				for _, w := range base {
					e.Case("typeword", w)
					edits(w, cs, func(v string) {
						e.Case("typeword", v)
						if e.Thorough {
							edits(v, cs2, func(u string) { e.Case("typeword", u) })
						}
					})
					for v := range typeWords {
						e.Case("typeword", w+v)
						e.Case("typeword", w+" "+v)
						e.Case("typeword", w+"_"+v)
					}
				}
			}},
			{"every word over letters, digits and underscore, of up to 4 (5) characters, by prefix", func(e *Emit) {
				seqs(len(wordAlphabet), 2, e.Pick(2, 3), func(x []int) {
					b := make([]byte, len(x))
					for i := range x {
						b[i] = wordAlphabet[x[i]]
					}
					e.Case("typeprefix", string(b))
				})
			}},
			{"names of types, constraints and indexes in other languages, with and without sizes", func(e *Emit) {
				for _, w := range foreignTypes {
					for _, v := range []string{w, strings.ToUpper(w), strings.Title(w), "_" + w, w + "s", w + "()", w + "(1)", w + "(10,2)", w + "[]", w + "?", w + "!", "*" + w, "[]" + w, w + " null", w + " not null", "not " + w, "un" + w, w + "_key", w + "_length", w + "_btree"} {
						e.Case("typeword", v)
					}
					for n := 0; n <= 256; n++ {
						e.Case("typeword", sp("%s%d", w, n))
					}
				}
			}},
			{"every short word", func(e *Emit) {
				al := "abcdefghijklmnopqrstuvwxyz"
				seqs(26, 0, e.Pick(3, 4), func(x []int) {
					b := make([]byte, len(x))
					for i := range x {
						b[i] = al[x[i]]
					}
					e.Case("typeword", string(b))
					e.Case("typeword", strings.ToUpper(string(b)))
				})
			}},
			{"in sources: the recorded types are the looked-up ones", func(e *Emit) {
				for w := range typeWords {
					for _, v := range caseVariants(w) {
						e.Case("typesource", v)
					}
				}
			}},
		}})
	oracles["typesource"] = typeSource

	// C27, library part
	oracles["trace"] = func(c *Case) (string, string) {
		base := canon3(c.S, kfparser.Default)
		for _, m := range []kfparser.Mode{kfparser.Trace, kfparser.Trace | kfparser.Default, 0} {
			if got := canon3(c.S, m); got != base {
				return sp("in mode %d: %s, by default: %s", m, clip(got, 500), clip(base, 500)), "differs"
			}
		}
		ref.AnalyseSyntax(c.S)
		g := parse(c.S)
		if p := canonical(&g); !strings.HasPrefix(base, p) {
			return sp("without a mode: %s, in the default mode: %s", clip(p, 500), clip(base, 500)), "differs"
		}
		return "", g.label()
	}

	// C28
	oracles["accept"] = func(c *Case) (string, string) {
		a := analyse(c.S)
		if !a.Syntax {
			return "", "syntax error"
		}
		for _, r := range []ref.Rule{ref.VisibilitySet, ref.MutabilitySet, ref.AuxiliarySet, ref.MultiInit} {
			if a.Broken[r] {
				return "", "not expressible"
			}
		}
		s := fromSource(a.Src)
		before := fmt.Sprintf("%#v", *s)
		g := accept(s)
		out := outcome(a, &g)
		if fmt.Sprintf("%#v", *s) != before {
			return "validating modified the schema", out
		}
		if h := accept(s); h.Kind != g.Kind || fmt.Sprint(h.Err) != fmt.Sprint(g.Err) {
			return sp("validating again: %s, before: %s", h.String(), g.String()), out
		}
		switch {
		case len(a.Broken) == 0 && g.Kind != "":
			return "a schema value that breaks no rule is " + g.String(), out
		case len(a.Broken) > 0 && g.Kind == "":
			return sp("a schema value that breaks %v is accepted", brokenList(a)), out
		case g.Kind == "panic":
			return g.String(), out
		case g.Kind != "" && !a.Broken[ref.Rule(g.Kind)] && !a.Broken[ref.BadSQL] && !a.Broken[ref.BadCall]:
			return sp("a schema value that breaks %v is %s", brokenList(a), g.String()), out
		}
		if typed := retyped(c.S); typed != nil {
			if h := accept(typed); (h.Kind == "") != (g.Kind == "") {
				return sp("with its numbers held as numbers instead of text: %s, before: %s", h.String(), g.String()), out
			}
		}
		p := parse(c.S)
		if (p.Kind == "") != (g.Kind == "") {
			return sp("the source is %s, the same schema built by a program is %s", p.String(), g.String()), out
		}
		if p.Kind == "" {
			before := fmt.Sprintf("%#v", *p.Schema)
			if h := accept(p.Schema); h.Kind != "" {
				return "the parsed schema validated again is " + h.String(), out
			}
			if fmt.Sprintf("%#v", *p.Schema) != before {
				return "validating modified the parsed schema", out
			}
			b, _ := p.Schema.ToJSON()
			var back schema.Schema
			if err := json.Unmarshal(b, &back); err != nil {
				return "the JSON does not decode: " + err.Error(), out
			}
			if h := accept(&back); h.Kind != "" {
				return "the decoded JSON of the parsed schema is " + h.String(), out
			}
		}
		return "", out
	}

	// C29
	oracles["listener"] = listenerOracle
	oracles["used-listener"] = usedListener
	oracles["errlist"] = func(c *Case) (viol, out string) {
		defer func() {
			if r := recover(); r != nil {
				viol = sp("using the listener panics: %v", r)
			}
		}()
		n, _ := strconv.Atoi(c.S)
		l := utils.NewErrorListener()
		if l.Err() != nil || len(l.ErrorList) != 0 || l.Unwrap() != nil {
			return "a new listener is not empty", "new"
		}
		if e, o := l.Error(), l.ErrorList.Error(); e != o || strings.ContainsAny(e, "0123456789") {
			return sp("the text of an empty listener is %q, of its list %q", e, o), "new"
		}
		var want []error
		for i := 0; i < n; i++ {
			var err error
			switch {
			case len(c.X) > 1: // the letters of the second argument name the errors
				switch c.X[1][i] {
				case 'a':
					err = schema.ErrTableNotFound
				case 'b':
					err = schema.ErrActionNotFound
				case 'c': // same text, another value
					err = fmt.Errorf("%s", schema.ErrTableNotFound.Error())
				case 'd': // wraps an earlier one
					err = fmt.Errorf("more: %w", schema.ErrTableNotFound)
				case 'e':
					err = errors.New("")
				case 'f':
					err = errors.New("two\nlines 7: %s %d")
				}
			case len(c.X) > 0 && i%2 == 1:
				err = schema.ErrTableNotFound // the same value again and again
			default:
				err = fmt.Errorf("problem <%d> %w", i, utils.ErrInvalidSyntax)
			}
			want = append(want, err)
			l.Add(err)
			if v := listState(l, want); v != "" {
				return v, "added"
			}
		}
		return "", "added"
	}
}

// usedListener parses sources one after another with one listener, which may hold problems
// already: what it holds stays, in front of what the grammar reports about the next source.
func usedListener(c *Case) (viol, out string) {
	defer func() {
		if r := recover(); r != nil {
			viol = sp("using the listener panics: %v", r)
		}
	}()
	l := utils.NewErrorListener()
	n, _ := strconv.Atoi(c.S)
	for i := 0; i < n; i++ {
		l.Add(fmt.Errorf("earlier problem <%d>", i))
	}
	h := sp("used %d", n)
	for i, src := range c.X {
		h += "\x01" + src
		touch(h, 1)
		before := append([]error{}, l.ErrorList...)
		g := parseMode(src, l, kfparser.Default)
		out += g.label() + " "
		if g.Kind == "panic" || g.Kind == "nothing" {
			return sp("parse %d: %s", i, g.String()), out
		}
		if len(l.ErrorList) < len(before) {
			return sp("parse %d: the listener held %d problems and now %d: %v", i, len(before), len(l.ErrorList), l.ErrorList), out
		}
		for j := range before {
			if l.ErrorList[j] != before[j] {
				return sp("parse %d: problem %d was %v and is now %v", i, j, before[j], l.ErrorList[j]), out
			}
		}
		added := l.ErrorList[len(before):]
		want := syntaxProblems(src)
		switch fresh := parse(src); {
		case len(want) > 0 && len(added) != len(want):
			return sp("parse %d: the grammar reports %d problems, %d were added: %v", i, len(want), len(added), l.ErrorList), out
		case len(want) == 0 && (fresh.Kind == "" && len(added) != 0 || len(added) > 1):
			return sp("parse %d (alone %s): %d problems were added: %v", i, fresh.label(), len(added), l.ErrorList), out
		case len(want) == 0 && fresh.Kind != "" && len(before) == 0 && len(added) != 1:
			return sp("parse %d (alone %s): no problem was added", i, fresh.label()), out
		}
		for j, w := range want {
			if !strings.Contains(added[j].Error(), w) {
				return sp("parse %d: problem %d is %q, the grammar reports %q", i, j, added[j], w), out
			}
		}
		if len(l.ErrorList) == 0 {
			if g.Err != nil {
				return sp("parse %d fails with %v, the listener is empty", i, g.Err), out
			}
			continue
		}
		if g.Err != error(&l.ErrorList) {
			return sp("parse %d: the returned error is not the listener's list: %v", i, g.Err), out
		}
		if v := listText(g.Err.Error(), l.Error(), l.ErrorList); v != "" {
			return sp("parse %d: %s", i, v), out
		}
	}
	return "", out
}

// retyped is the schema of a source with the numbers among the attribute values held as Go
// numbers, the way a program that builds a schema writes them; nil when there are none.
func retyped(src string) *schema.Schema {
	s, n := fromSource(analyse(src).Src), 0
	for _, t := range s.Tables {
		for _, c := range t.Columns {
			for i := range c.Attributes {
				a := &c.Attributes[i]
				text, _ := a.Value.(string)
				k, err := strconv.Atoi(text)
				if err != nil {
					continue
				}
				a.Value = []any{k, float64(k), int64(k), json.Number(text)}[n%4]
				n++
			}
		}
	}
	if n == 0 {
		return nil
	}
	return s
}

func listState(l *utils.ErrorListener, want []error) string {
	if len(l.ErrorList) != len(want) {
		return sp("%d problems added, the list has %d", len(want), len(l.ErrorList))
	}
	for i := range want {
		if l.ErrorList[i] != want[i] {
			return sp("problem %d is %v, added was %v", i, l.ErrorList[i], want[i])
		}
	}
	if l.Err() == nil || l.Err() != error(&l.ErrorList) {
		return sp("Err() is %v", l.Err())
	}
	if !errors.Is(l.Err(), want[0]) {
		return sp("errors.Is does not find the first problem %v in %v", want[0], l.Err())
	}
	return listText(l.Err().Error(), l.Error(), want)
}

func listText(text, other string, want []error) string {
	if text != other {
		return sp("the list's text is %q, the listener's %q", text, other)
	}
	first := want[0].Error()
	if !strings.Contains(text, first) {
		return sp("the text %q does not show the first problem %q", text, first)
	}
	rest := strings.Replace(text, first, "", 1)
	if n := len(want) - 1; n > 0 && !hasNumber(rest, n) || n == 0 && strings.ContainsAny(rest, "0123456789") {
		return sp("the text %q does not show that there are %d further problems", clip(text, 300), n)
	}
	return ""
}

func hasNumber(s string, n int) bool {
	for _, f := range strings.FieldsFunc(s, func(r rune) bool { return r < '0' || r > '9' }) {
		if f == strconv.Itoa(n) {
			return true
		}
	}
	return false
}

func canon3(src string, m kfparser.Mode) string {
	l := utils.NewErrorListener()
	g := parseMode(src, l, m)
	out := canonical(&g)
	for _, e := range l.ErrorList {
		out += "\n" + e.Error()
	}
	return out
}

// as re-uses the spaces of other properties under another oracle.
func as(o string, ids ...string) []Space {
	var out []Space
	for _, id := range ids {
		id := id
		out = append(out, Space{"the sources of " + id, func(e *Emit) {
			for _, s := range props[id].Spaces {
				if strings.HasPrefix(s.Name, mixTag) {
					continue
				}
				if id == "C13" && strings.HasPrefix(s.Name, "every depth and position") && !e.Thorough {
					continue
				}
				s.Gen(&Emit{w: e.w, Thorough: false, as: o})
			}
		}})
	}
	return out
}

func decodeAnnotation(s string) (a *utils.Annotation, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	a, err = utils.ParseAnnotation(s)
	if err == nil && a == nil {
		err = fmt.Errorf("no annotation and no error")
	}
	return
}

// typeWords: what each source keyword must resolve to as column type, constraint and index kind.
var typeWords = map[string][3]string{
	"null": {"null", "", ""}, "text": {"text", "", ""}, "int": {"int", "", ""}, "blob": {"blob", "", ""},
	"primary": {"", "primary_key", "primary"}, "unique": {"", "unique", "unique_btree"}, "notnull": {"", "not_null", ""}, "default": {"", "default", ""},
	"min": {"", "min", ""}, "max": {"", "max", ""}, "minlen": {"", "min_length", ""}, "maxlen": {"", "max_length", ""}, "index": {"", "", "btree"},
}

func lookups(w string) [3]string {
	var out [3]string
	a, err := schema.GetColumnType(w)
	out[0] = a.String() + "?" + fmt.Sprint(err == nil)
	b, err := schema.GetAttributeType(w)
	out[1] = b.String() + "?" + fmt.Sprint(err == nil)
	c, err := schema.GetIndexType(w)
	out[2] = c.String() + "?" + fmt.Sprint(err == nil)
	return out
}

const wordAlphabet = "abcdefghijklmnopqrstuvwxyz0123456789_"

var foreignTypes = strings.Fields("int integer tinyint smallint mediumint bigint long short byte bytes bytea binary varbinary blob clob text string str varchar char character nvarchar nchar tinytext mediumtext longtext name citext uuid uint serial bigserial bool boolean bit bits real float double decimal numeric number money date time datetime timestamp timestamptz interval json jsonb xml array map list set enum any none nil null void undefined unknown empty primary primarykey pk key unique uniq notnull not_null nonnull required default def min max minimum maximum minlen maxlen minlength maxlength len length size range check references foreign fk index idx ix btree hash gin gist brin fulltext spatial unique_index primary_index clustered collate generated auto autoincrement autoincr identity rowid oid address hex base64 inet point")

// typePrefix tries every word that adds two characters to a prefix, and the prefix itself.
func typePrefix(c *Case) (string, string) {
	try := func(w string) string {
		want, got := typeWords[strings.ToLower(w)], lookups(w)
		for i, what := range []string{"column type", "constraint", "index kind"} {
			if x := want[i] + "?" + fmt.Sprint(want[i] != ""); got[i] != x {
				return sp("%q as %s resolves to %q, want %q (type?found)", w, what, got[i], x)
			}
		}
		return ""
	}
	n := 0
	for _, a := range "\x00" + wordAlphabet {
		for _, b := range "\x00" + wordAlphabet {
			n += 3
			if v := try(strings.ReplaceAll(c.S+string(a)+string(b), "\x00", "")); v != "" {
				return v, "wrong"
			}
		}
	}
	touch(c.S, int64(n))
	return "", "prefix"
}

func typeWord(c *Case) (string, string) {
	want := typeWords[strings.ToLower(c.S)]
	got := lookups(c.S)
	touch(strings.ToLower(c.S), 3)
	for i, what := range []string{"column type", "constraint", "index kind"} {
		w := want[i] + "?" + fmt.Sprint(want[i] != "")
		if got[i] != w {
			return sp("%q as %s resolves to %q, want %q (type?found)", c.S, what, got[i], w), "wrong"
		}
	}
	return "", strings.Join(want[:], ",")
}

// typeSource compares the looked-up types with the ones the parser records.
func typeSource(c *Case) (string, string) {
	w := c.S
	look := lookups(w)
	check := func(i int, src string, rec func(*schema.Schema) string) string {
		g := parse(src)
		if g.Kind != "" {
			return ""
		}
		if r := rec(g.Schema); look[i] != r+"?true" {
			return sp("the parser records %q for %q, the lookup gives %q", r, w, look[i])
		}
		return ""
	}
	col := func(s *schema.Schema) string { return string(s.Tables[0].Columns[0].Type) }
	att := func(s *schema.Schema) string { return string(s.Tables[0].Columns[0].Attributes[0].Type) }
	idx := func(s *schema.Schema) string { return string(s.Tables[0].Indexes[0].Type) }
	for _, m := range []string{check(0, "database d; table t { a "+w+" }", col), check(1, "database d; table t { a blob "+w+" }", att), check(1, "database d; table t { a blob "+w+"(1) }", att), check(2, "database d; table t { a int, #i "+w+"(a) }", idx)} {
		if m != "" {
			return m, "differs"
		}
	}
	return "", "same"
}

// syntaxList is what a listener of our own hears from the generated lexer and parser.
type syntaxList struct {
	*antlr.DefaultErrorListener
	msgs []string
}

func (s *syntaxList) SyntaxError(_ antlr.Recognizer, _ interface{}, line, col int, msg string, _ antlr.RecognitionException) {
	s.msgs = append(s.msgs, fmt.Sprintf("line %d:%d %s", line, col, msg))
}

func syntaxProblems(src string) (out []string) {
	l := &syntaxList{DefaultErrorListener: antlr.NewDefaultErrorListener()}
	lx := kfgrammar.NewKuneiformLexer(antlr.NewInputStream(src))
	lx.RemoveErrorListeners()
	lx.AddErrorListener(l)
	p := kfgrammar.NewKuneiformParser(antlr.NewCommonTokenStream(lx, antlr.TokenDefaultChannel))
	p.RemoveErrorListeners()
	p.AddErrorListener(l)
	p.Source_unit()
	return l.msgs
}

func listenerOracle(c *Case) (string, string) {
	ref.AnalyseSyntax(c.S)
	l := utils.NewErrorListener()
	g := parseMode(c.S, l, kfparser.Default)
	out := g.label()
	if g.Kind == "panic" || g.Kind == "nothing" {
		return g.String(), out
	}
	if g.Kind == "" {
		if len(l.ErrorList) != 0 || l.Err() != nil {
			return sp("accepted, but the listener holds %v", l.ErrorList), out
		}
		return "", out
	}
	if len(l.ErrorList) == 0 {
		return "rejected, but the listener is empty: " + g.String(), out
	}
	el, ok := g.Err.(*utils.ErrorList)
	if !ok {
		return sp("the returned error is a %T, not the list", g.Err), out
	}
	if len(*el) != len(l.ErrorList) {
		return sp("the returned list has %d problems, the listener %d", len(*el), len(l.ErrorList)), out
	}
	seen := map[error]bool{}
	for i, e := range l.ErrorList {
		if e == nil || e == error(el) || e == error(&l.ErrorList) || (*el)[i] != e {
			return sp("problem %d of the list is %T", i, e), out
		}
		if seen[e] {
			return sp("problem %d appears twice: %v", i, e), out
		}
		seen[e] = true
	}
	want := syntaxProblems(c.S)
	if len(want) == 0 {
		if len(l.ErrorList) != 1 {
			return sp("one rule problem, the listener holds %d: %v", len(l.ErrorList), g.Err), out
		}
	} else {
		if len(l.ErrorList) != len(want) {
			return sp("the grammar reports %d problems %q, the listener holds %d: %v", len(want), clip(strings.Join(want, "; "), 300), len(l.ErrorList), g.Err), out
		}
		for i, w := range want {
			if !strings.Contains(l.ErrorList[i].Error(), w) {
				return sp("problem %d is %q, the grammar reports %q", i, l.ErrorList[i], w), out
			}
		}
		out += "/" + sp("%d problems", min(len(want), 5))
	}
	if v := listText(g.Err.Error(), l.Error(), l.ErrorList); v != "" {
		return v, out
	}
	if h := parse(c.S); fmt.Sprint(h.Err) != g.Err.Error() {
		return sp("without a listener the error is %v, with one %v", h.Err, g.Err), out
	}
	return "", out
}
