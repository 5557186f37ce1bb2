package ref

import "strings"

// Rule names a language rule that a syntactically valid source can break.
type Rule string

const (
	MultiInit     Rule = "multi-init"
	VisibilitySet Rule = "visibility-already-set"
	MutabilitySet Rule = "mutability-already-set"
	AuxiliarySet  Rule = "auxiliary-already-set"
	AttrNotAllow  Rule = "attribute-not-allowed"
	DupTable      Rule = "duplicate-table"
	DupExtension  Rule = "duplicate-extension"
	DupColumn     Rule = "duplicate-column"
	DupAttribute  Rule = "duplicate-attribute"
	DupIndex      Rule = "duplicate-index"
	DupAction     Rule = "duplicate-action"
	DupParam      Rule = "duplicate-param"
	DupFKAction   Rule = "duplicate-fk-action"
	DupVariable   Rule = "duplicate-variable"
	TableNotFound Rule = "table-not-found"
	ColNotFound   Rule = "column-not-found"
	ActNotFound   Rule = "action-not-found"
	VarNotFound   Rule = "variable-not-found"
	ExtNotFound   Rule = "extension-not-found"
	BadSQL        Rule = "sql"  // the SQL checker rejects a statement
	BadCall       Rule = "call" // the action-call checker rejects a statement
)

// Checkers are the verdicts of the two external checkers (true = accepts).
type Checkers struct {
	SQL  func(stmt string) bool
	Call func(stmt string) bool
}

// Analysis is everything the reference model says about one source.
type Analysis struct {
	Syntax            bool // conforms to the grammar
	Line, Col         int  // where it stops conforming
	Lexical           bool
	NextLine, NextCol int // an unrecognisable character directly behind the offending token
	Toks              []Token
	Src               *Source
	Broken            map[Rule]bool
}

// Analyse judges a source text.
func Analyse(src string, ck Checkers) *Analysis {
	toks, lexErr := Lex(src)
	a := &Analysis{Toks: toks, Broken: map[Rule]bool{}}
	bad := recognisePrefix(toks)
	if bad >= 0 {
		a.Line, a.Col = toks[bad].Line, toks[bad].Col
		return a
	}
	if lexErr != nil {
		a.Line, a.Col, a.Lexical = lexErr.Line, lexErr.Col, true
		return a
	}
	a.Syntax = true
	a.Src = ParseTokens(toks)
	a.Src.check(ck, a.Broken)
	return a
}

// AnalyseSyntax judges the syntax only.
func AnalyseSyntax(src string) *Analysis {
	toks, lexErr := Lex(src)
	a := &Analysis{Toks: toks}
	bad := recognisePrefix(toks)
	switch {
	case bad >= 0:
		a.Line, a.Col = toks[bad].Line, toks[bad].Col
		if lexErr != nil && bad == len(toks)-1 {
			a.NextLine, a.NextCol = lexErr.Line, lexErr.Col
		}
	case lexErr != nil:
		a.Line, a.Col, a.Lexical = lexErr.Line, lexErr.Col, true
	default:
		a.Syntax = true
	}
	return a
}

func (s *Source) check(ck Checkers, bad map[Rule]bool) {
	dup := func(r Rule) func(string) {
		seen := map[string]bool{}
		return func(n string) {
			if seen[n] {
				bad[r] = true
			}
			seen[n] = true
		}
	}
	if len(s.Inits) > 1 {
		bad[MultiInit] = true
	}
	aliases := map[string]bool{}
	de := dup(DupExtension)
	for _, e := range s.Exts {
		de(e.Alias)
		aliases[e.Alias] = true
	}
	dt := dup(DupTable)
	cols := map[string]map[string]bool{}
	for _, t := range s.Tables {
		dt(t.Name)
		if cols[t.Name] == nil {
			cols[t.Name] = map[string]bool{}
		}
		used := map[string]bool{}
		for _, c := range t.Columns {
			if used[c.Name] {
				bad[DupColumn] = true
			}
			used[c.Name] = true
			cols[t.Name][c.Name] = true
			da := dup(DupAttribute)
			for _, at := range c.Attrs {
				da(at.Type)
				if c.Type == "int" && (at.Type == "min_length" || at.Type == "max_length") ||
					c.Type == "text" && (at.Type == "min" || at.Type == "max") {
					bad[AttrNotAllow] = true
				}
			}
		}
		for _, ix := range t.Indexes {
			if used[ix.Name] {
				bad[DupIndex] = true
			}
			used[ix.Name] = true
		}
	}
	for _, t := range s.Tables {
		own := map[string]bool{}
		for _, c := range t.Columns {
			own[c.Name] = true
		}
		for _, ix := range t.Indexes {
			for _, c := range ix.Columns {
				if !own[c] {
					bad[ColNotFound] = true
				}
			}
		}
		for _, fk := range t.FKs {
			for _, c := range fk.Child {
				if !own[c] {
					bad[ColNotFound] = true
				}
			}
			if cols[fk.Table] == nil {
				bad[TableNotFound] = true
			} else {
				for _, c := range fk.Parent {
					if !cols[fk.Table][c] {
						bad[ColNotFound] = true
					}
				}
			}
			df := dup(DupFKAction)
			for _, r := range fk.Rules {
				df(r.On)
			}
		}
	}
	actions := map[string]bool{}
	dact := dup(DupAction)
	for _, a := range s.Actions {
		dact(a.Name)
		actions[a.Name] = true
		dp := dup(DupParam)
		for _, p := range a.Params {
			dp(p)
		}
		n := map[Tok]int{}
		for _, m := range a.Mods {
			n[m]++
		}
		if n[KPUBLIC]+n[KPRIVATE] > 1 {
			bad[VisibilitySet] = true
		}
		if n[KVIEW] > 1 {
			bad[MutabilitySet] = true
		}
		if n[KOWNER] > 1 {
			bad[AuxiliarySet] = true
		}
	}
	all := append(append([]Action{}, s.Actions...), s.Inits...)
	for _, a := range all {
		def := map[string]bool{}
		for _, p := range a.Params {
			def[p] = true
		}
		for _, st := range a.Stmts {
			if st.Call == nil {
				if !ck.SQL(st.SQL) {
					bad[BadSQL] = true
				}
				continue
			}
			c := st.Call
			if !ck.Call(Spaced(c.Toks)) {
				bad[BadCall] = true
			}
			if c.HasExt {
				if !aliases[c.Ext] {
					bad[ExtNotFound] = true
				}
			} else if !actions[c.Name] {
				bad[ActNotFound] = true
			}
			for _, tk := range c.ArgToks {
				if tk.Kind == VAR && !def[tk.Text] || tk.Kind == BLOCKVAR && tk.Text != "@caller" {
					bad[VarNotFound] = true
				}
			}
			if c.HasExt {
				dv := dup(DupVariable)
				for _, r := range c.Recv {
					dv(r)
					def[r] = true
				}
			}
		}
	}
}

// Spaced writes tokens with a space between every two, so none can merge.
func Spaced(toks []Token) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(t.Text)
	}
	return b.String()
}

// Header is what the schema must say about an action apart from its body.
type Header struct {
	Name       string
	Params     []string
	Public     bool
	Mutability string
	Aux        []string
}

// Header derives the recorded header of an action (init included).
func (a *Action) Header() Header {
	h := Header{Name: a.Name, Params: a.Params, Mutability: "update"}
	for _, m := range a.Mods {
		switch m {
		case KPUBLIC:
			h.Public = true
		case KVIEW:
			h.Mutability = "view"
		case KOWNER:
			h.Aux = append(h.Aux, "owner")
		}
	}
	return h
}
