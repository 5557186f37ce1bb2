package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"verifmc/ref"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/kfparser/ast"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
	actparser "github.com/kwilteam/kwil-db/parse/action"
	sqlparser "github.com/kwilteam/kwil-db/parse/sql"
)

// Got is what the implementation answered.
type Got struct {
	Schema *schema.Schema
	Err    error
	Kind   string // "" accepted; a ref.Rule; "syntax"; "other"; "panic"; "nothing"
}

var sentinels = []struct {
	rule ref.Rule
	err  error
}{
	{ref.MultiInit, schema.ErrMultiInit}, {ref.VisibilitySet, schema.ErrActionVisibilityAlreadySet},
	{ref.MutabilitySet, schema.ErrActionMutabilityAlreadySet}, {ref.AuxiliarySet, schema.ErrActionAuxiliaryAlreadySet},
	{ref.AttrNotAllow, schema.ErrAttributeNotAllow}, {ref.DupTable, schema.ErrDuplicateTable},
	{ref.DupExtension, schema.ErrDuplicateExtension}, {ref.DupColumn, schema.ErrDuplicateColumn},
	{ref.DupAttribute, schema.ErrDuplicateAttribute}, {ref.DupIndex, schema.ErrDuplicateIndex},
	{ref.DupAction, schema.ErrDuplicateAction}, {ref.DupParam, schema.ErrDuplicateParam},
	{ref.DupFKAction, schema.ErrDupFKAction}, {ref.DupVariable, schema.ErrDuplicateVariable},
	{ref.TableNotFound, schema.ErrTableNotFound}, {ref.ColNotFound, schema.ErrColumnNotFound},
	{ref.ActNotFound, schema.ErrActionNotFound}, {ref.VarNotFound, schema.ErrVariableNotFound},
	{ref.ExtNotFound, schema.ErrExtensionNotFound}, {"not-support-column-type", schema.ErrNotSupportColumnType},
	{"block-variable-not-found", schema.ErrBlockVarNotFound},
}

func errKind(err error) string {
	if err == nil {
		return ""
	}
	if errors.Is(err, utils.ErrInvalidSyntax) {
		return "syntax"
	}
	for _, s := range sentinels {
		if errors.Is(err, s.err) {
			return string(s.rule)
		}
	}
	return "other"
}

// parse runs the library on a source.
func parse(src string) (g Got) {
	return parseWith(func() (ast.Ast, error) { return kfparser.Parse(src) })
}

func parseMode(src string, l *utils.ErrorListener, mode kfparser.Mode) (g Got) {
	return parseWith(func() (ast.Ast, error) { return kfparser.ParseKF(src, l, mode) })
}

func parseWith(f func() (ast.Ast, error)) (g Got) {
	defer func() {
		if r := recover(); r != nil {
			g = Got{Err: fmt.Errorf("panic: %v", r), Kind: "panic"}
		}
	}()
	res, err := f()
	g.Err = err
	g.Kind = errKind(err)
	if s, ok := res.(*schema.Schema); ok {
		g.Schema = s
	}
	if err == nil && g.Schema == nil {
		g.Kind = "nothing"
	}
	return g
}

func (g *Got) String() string {
	if g.Kind == "" {
		return "accepted"
	}
	return "rejected(" + g.Kind + "): " + clip(fmt.Sprint(g.Err), 200)
}

func (g *Got) label() string {
	if g.Kind == "" {
		return "accepted"
	}
	return "rejected:" + g.Kind
}

// The two external checkers, memoised.
var sqlMemo, callMemo = map[string]bool{}, map[string]bool{}

func sqlOK(stmt string) bool {
	if v, ok := sqlMemo[stmt]; ok {
		return v
	}
	ok := sqlVerdict(stmt)
	if len(sqlMemo) < 1<<18 {
		sqlMemo[stmt] = ok
	}
	return ok
}

func sqlVerdict(stmt string) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	t, err := sqlparser.ParseSql(stmt, 1, nil, false)
	if err != nil {
		return false
	}
	_, err = t.ToSQL()
	return err == nil
}

func callOK(stmt string) bool {
	if v, ok := callMemo[stmt]; ok {
		return v
	}
	_, err := actparser.Parse(stmt)
	if len(callMemo) < 1<<18 {
		callMemo[stmt] = err == nil
	}
	return err == nil
}

var checkers = ref.Checkers{SQL: sqlOK, Call: callOK}

func analyse(src string) *ref.Analysis { return ref.Analyse(src, checkers) }

// --- comparison of a schema with the reference source, aspect by aspect ---

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func cmpTables(s *ref.Source, g *schema.Schema) string {
	if len(s.Tables) != len(g.Tables) {
		return fmt.Sprintf("source declares %d tables, schema has %d", len(s.Tables), len(g.Tables))
	}
	for i, t := range s.Tables {
		u := g.Tables[i]
		at := fmt.Sprintf("table %d (%s): ", i, t.Name)
		if t.Name != u.Name {
			return at + "recorded as " + u.Name
		}
		if len(t.Columns) != len(u.Columns) {
			return at + fmt.Sprintf("%d columns declared, %d recorded", len(t.Columns), len(u.Columns))
		}
		for j, c := range t.Columns {
			d := u.Columns[j]
			if c.Name != d.Name || c.Type != string(d.Type) || len(c.Attrs) != len(d.Attributes) {
				return at + fmt.Sprintf("column %d: declared %v, recorded %v", j, c, d)
			}
			for k, a := range c.Attrs {
				b := d.Attributes[k]
				v := b.Value
				if v == nil {
					v = ""
				}
				if a.Type != string(b.Type) || v != any(a.Val) {
					return at + fmt.Sprintf("column %s constraint %d: declared %v, recorded %v", c.Name, k, a, b)
				}
			}
		}
		if len(t.Indexes) != len(u.Indexes) {
			return at + fmt.Sprintf("%d indexes declared, %d recorded", len(t.Indexes), len(u.Indexes))
		}
		for j, x := range t.Indexes {
			y := u.Indexes[j]
			if x.Name != y.Name || x.Type != string(y.Type) || !eqStrs(x.Columns, y.Columns) {
				return at + fmt.Sprintf("index %d: declared %v, recorded %v", j, x, y)
			}
		}
		if len(t.FKs) != len(u.ForeignKeys) {
			return at + fmt.Sprintf("%d foreign keys declared, %d recorded", len(t.FKs), len(u.ForeignKeys))
		}
		for j, x := range t.FKs {
			y := u.ForeignKeys[j]
			same := x.Table == y.ParentTable && eqStrs(x.Child, y.ChildKeys) && eqStrs(x.Parent, y.ParentKeys) && len(x.Rules) == len(y.Actions)
			for k := 0; same && k < len(x.Rules); k++ {
				same = x.Rules[k].On == string(y.Actions[k].On) && x.Rules[k].Do == string(y.Actions[k].Do)
			}
			if !same {
				return at + fmt.Sprintf("foreign key %d: declared %v, recorded %v", j, x, y)
			}
		}
	}
	return ""
}

func cmpExts(s *ref.Source, g *schema.Schema) string {
	if len(s.Exts) != len(g.Extensions) {
		return fmt.Sprintf("source uses %d extensions, schema has %d", len(s.Exts), len(g.Extensions))
	}
	for i, e := range s.Exts {
		f := g.Extensions[i]
		same := e.Name == f.Name && e.Alias == f.Alias && len(e.Config) == len(f.Config)
		for k := 0; same && k < len(e.Config); k++ {
			same = e.Config[k].Key == f.Config[k].Argument && e.Config[k].Val == f.Config[k].Value
		}
		if !same {
			return fmt.Sprintf("extension %d: declared %v, recorded %v", i, e, f)
		}
	}
	return ""
}

// declared returns the schema's actions without init, and init.
func splitActions(s *ref.Source, g *schema.Schema) (acts []schema.Action, inits []schema.Action) {
	for _, a := range g.Actions {
		if a.Name == "init" {
			inits = append(inits, a)
		} else {
			acts = append(acts, a)
		}
	}
	return
}

func auxNames(a []schema.AuxiliaryType) []string {
	var out []string
	for _, x := range a {
		out = append(out, string(x))
	}
	return out
}

func texts(toks []ref.Token) []string {
	var out []string
	for _, t := range toks {
		out = append(out, t.Text)
	}
	return out
}

// sameTokens reports whether a recorded text reads back as exactly these token texts.
func sameTokens(text string, want []string) bool {
	toks, bad := ref.Lex(text)
	if bad != nil || len(toks) != len(want)+1 {
		return false
	}
	for i, w := range want {
		if toks[i].Text != w {
			return false
		}
	}
	return true
}

func cmpHeaders(s *ref.Source, g *schema.Schema) string {
	acts, _ := splitActions(s, g)
	if len(acts) != len(s.Actions) {
		return fmt.Sprintf("source declares %d actions, schema has %d", len(s.Actions), len(acts))
	}
	for i := range s.Actions {
		h := s.Actions[i].Header()
		b := acts[i]
		if h.Name != b.Name || !eqStrs(h.Params, b.Inputs) || h.Public != b.Public || h.Mutability != string(b.Mutability) || !eqStrs(h.Aux, auxNames(b.Auxiliaries)) {
			return fmt.Sprintf("action %d: declared %+v, recorded name %s inputs %v public %v mutability %s auxiliaries %v", i, h, b.Name, b.Inputs, b.Public, b.Mutability, b.Auxiliaries)
		}
		ans := s.Actions[i].Annots
		if len(ans) != len(b.Annotations) {
			return fmt.Sprintf("action %s: %d annotations declared, %d recorded", h.Name, len(ans), len(b.Annotations))
		}
		for k, an := range ans {
			want := texts(an.Toks)
			want[0] = an.Target
			if !sameTokens(b.Annotations[k], want) {
				return fmt.Sprintf("action %s annotation %d: declared %s, recorded %s", h.Name, k, ref.Spaced(an.Toks), b.Annotations[k])
			}
		}
	}
	return ""
}

func cmpStmts(where string, want []ref.Stmt, got []string) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%s: %d statements written, %d recorded", where, len(want), len(got))
	}
	for i, st := range want {
		if st.Call == nil {
			if st.SQL != got[i] {
				return fmt.Sprintf("%s statement %d: written %q, recorded %q", where, i, st.SQL, got[i])
			}
		} else if !sameTokens(got[i], texts(st.Call.Toks)) {
			return fmt.Sprintf("%s statement %d: written %q, recorded %q", where, i, ref.Spaced(st.Call.Toks), got[i])
		} else if v := sameCall(ref.Spaced(st.Call.Toks), got[i]); v != "" {
			return fmt.Sprintf("%s statement %d: %s", where, i, v)
		}
	}
	return ""
}

// sameCall compares how the engine's own statement reader understands both texts.
func sameCall(written, recorded string) string {
	if strings.ReplaceAll(written, " ", "") == written && written == recorded {
		return ""
	}
	a, e1 := actparser.Parse(written)
	b, e2 := actparser.Parse(recorded)
	if (e1 == nil) != (e2 == nil) || e1 == nil && !reflect.DeepEqual(a, b) {
		return fmt.Sprintf("the engine reads the recorded %q differently from the written %q", recorded, written)
	}
	return ""
}

func cmpBodies(s *ref.Source, g *schema.Schema) string {
	acts, inits := splitActions(s, g)
	if len(acts) != len(s.Actions) {
		return fmt.Sprintf("source declares %d actions, schema has %d", len(s.Actions), len(acts))
	}
	for i, a := range s.Actions {
		if v := cmpStmts("action "+a.Name, a.Stmts, acts[i].Statements); v != "" {
			return v
		}
	}
	if len(s.Inits) == 1 && len(inits) == 1 {
		return cmpStmts("init", s.Inits[0].Stmts, inits[0].Statements)
	}
	return ""
}

func cmpInit(s *ref.Source, g *schema.Schema) string {
	acts, inits := splitActions(s, g)
	if len(s.Inits) == 0 {
		if len(inits) != 0 {
			return "schema has an init action, the source has none"
		}
		return ""
	}
	if len(inits) != 1 || g.Actions[len(g.Actions)-1].Name != "init" {
		return fmt.Sprintf("want exactly one init action, placed last; actions are %v", actionNames(g))
	}
	if len(acts) != len(s.Actions) {
		return fmt.Sprintf("source declares %d actions besides init, schema has %d", len(s.Actions), len(acts))
	}
	in := inits[0]
	if in.Public || string(in.Mutability) != "update" || len(in.Inputs)+len(in.Annotations)+len(in.Auxiliaries) != 0 {
		return fmt.Sprintf("init is recorded as %+v", in)
	}
	return cmpStmts("init", s.Inits[0].Stmts, in.Statements)
}

func actionNames(g *schema.Schema) []string {
	var out []string
	for _, a := range g.Actions {
		out = append(out, a.Name)
	}
	return out
}

func cmpAll(s *ref.Source, g *schema.Schema) string {
	if s.Name != g.Name || g.Owner != "" {
		return fmt.Sprintf("database %q owner \"\" recorded as %q owner %q", s.Name, g.Name, g.Owner)
	}
	for _, f := range []func(*ref.Source, *schema.Schema) string{cmpExts, cmpTables, cmpHeaders, cmpBodies, cmpInit} {
		if v := f(s, g); v != "" {
			return v
		}
	}
	return ""
}
