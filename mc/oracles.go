package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verifmc/ref"

	"github.com/kwilteam/kuneiform/schema"
)

func outcome(a *ref.Analysis, g *Got) string {
	m := "syntax-error"
	if a.Syntax {
		m = "valid"
		if len(a.Broken) > 0 {
			m = "breaks:" + strings.Join(brokenList(a), "+")
		}
	}
	return m + "/" + g.label()
}

func brokenList(a *ref.Analysis) []string {
	var l []string
	for r := range a.Broken {
		l = append(l, string(r))
	}
	sort.Strings(l)
	return l
}

// aspect checks one aspect of the schema of every accepted source. Sources the
// reference calls valid that are rejected are another property's business,
// unless mine says the rejection concerns this aspect.
func aspect(cmp func(*ref.Source, *schema.Schema) string, mine func(*ref.Analysis, *Got) bool) Oracle {
	return func(c *Case) (string, string) {
		a := analyse(c.S)
		g := parse(c.S)
		out := outcome(a, &g)
		switch {
		case g.Kind == "panic":
			return "parsing panicked: " + g.Err.Error(), out
		case g.Kind == "nothing":
			return "accepted without a schema", out
		case g.Kind == "" && a.Syntax:
			return cmp(a.Src, g.Schema), out
		case g.Kind == "":
			return "", out // C06
		case a.Syntax && len(a.Broken) == 0 && mine != nil && mine(a, &g):
			return "a source that breaks no rule is " + g.String(), out
		}
		return "", out
	}
}

// rules checks that breaking one of the given rules is always reported as such,
// and that nothing else is. strict: sources breaking no rule must be accepted.
func rules(strict bool, kinds ...ref.Rule) Oracle {
	mine := map[string]bool{"other": true, "panic": true, "nothing": true}
	for _, k := range kinds {
		mine[string(k)] = true
	}
	return func(c *Case) (string, string) {
		a := analyse(c.S)
		g := parse(c.S)
		out := outcome(a, &g)
		if !a.Syntax {
			return "", out // C06
		}
		broke, others := false, false
		for r := range a.Broken {
			if mine[string(r)] {
				broke = true
			} else {
				others = true
			}
		}
		switch {
		case g.Kind == "panic" || g.Kind == "nothing":
			return g.String(), out
		case broke && g.Kind == "":
			return fmt.Sprintf("a source that breaks %v is accepted", brokenList(a)), out
		case broke && !a.Broken[ref.Rule(g.Kind)] && !a.Broken[ref.BadSQL] && !a.Broken[ref.BadCall]:
			return fmt.Sprintf("a source that breaks %v is %s", brokenList(a), g.String()), out
		case !broke && !others && strict && g.Kind != "":
			return "a source that breaks no rule is " + g.String(), out
		case !broke && mine[g.Kind] && !(g.Kind == "other" && others):
			return fmt.Sprintf("a source that breaks %v is %s", brokenList(a), g.String()), out
		}
		return "", out
	}
}

var lineCol = regexp.MustCompile(`line (\d+):(\d+)`)

func init() {
	oracles["tables"] = aspect(cmpTables, nil)
	oracles["headers"] = aspect(cmpHeaders, nil)
	oracles["bodies"] = aspect(cmpBodies, func(a *ref.Analysis, g *Got) bool {
		if g.Kind != "other" {
			return false
		}
		for _, x := range append(append([]ref.Action{}, a.Src.Actions...), a.Src.Inits...) {
			for _, st := range x.Stmts {
				if st.Call != nil {
					return true
				}
			}
		}
		return false
	})
	oracles["exts"] = aspect(cmpExts, nil)
	oracles["init"] = func(c *Case) (string, string) {
		v, out := aspect(cmpInit, nil)(c)
		if v != "" {
			return v, out
		}
		return rules(false, ref.MultiInit)(c)
	}
	oracles["full"] = func(c *Case) (string, string) {
		return aspect(cmpAll, func(*ref.Analysis, *Got) bool { return true })(c)
	}
	oracles["dups"] = rules(false, ref.DupTable, ref.DupAction, ref.DupExtension, ref.DupColumn, ref.DupIndex, ref.DupAttribute, ref.DupParam, ref.DupFKAction, ref.DupVariable)
	oracles["refs"] = rules(true, ref.TableNotFound, ref.ColNotFound)
	oracles["attrs"] = rules(true, ref.AttrNotAllow)
	oracles["targets"] = rules(true, ref.ActNotFound, ref.ExtNotFound)
	oracles["vars"] = rules(false, ref.VarNotFound)
	oracles["modifiers"] = func(c *Case) (string, string) {
		v, out := rules(true, ref.VisibilitySet, ref.MutabilitySet, ref.AuxiliarySet)(c)
		if v != "" {
			return v, out
		}
		return aspect(cmpHeaders, nil)(c)
	}
	oracles["sql"] = func(c *Case) (string, string) {
		a := analyse(c.S)
		g := parse(c.S)
		out := outcome(a, &g)
		switch {
		case !a.Syntax:
			return "", out
		case a.Broken[ref.BadSQL] && g.Kind == "":
			return "a source with an SQL statement that the checker rejects is accepted", out
		case g.Kind == "panic" || g.Kind == "nothing":
			return g.String(), out
		case len(a.Broken) == 0 && g.Kind == "other":
			return "a source whose SQL the checker accepts is " + g.String(), out
		}
		if len(c.X) > 0 && g.Kind == "" && c.X[0] == "forbidden" {
			return "a source with a documented forbidden SQL construct is accepted", out
		}
		return "", out
	}
	// C06: accepted or rejected as syntax, exactly as the grammar says
	oracles["syntax"] = func(c *Case) (string, string) {
		a := ref.AnalyseSyntax(c.S)
		g := parse(c.S)
		out := "conforming/" + g.label()
		if !a.Syntax {
			out = "nonconforming/" + g.label()
		}
		switch {
		case a.Syntax && g.Kind == "syntax":
			return "a source that conforms to the grammar is " + g.String(), out
		case a.Syntax && g.Kind == "panic":
			return g.String(), out
		case !a.Syntax && g.Kind != "syntax":
			return fmt.Sprintf("a source that does not conform to the grammar (at %d:%d) is %s", a.Line, a.Col, g.String()), out
		}
		return "", out
	}
	// C17, syntax: the position of the first offending token
	oracles["position"] = func(c *Case) (string, string) {
		a := ref.AnalyseSyntax(c.S)
		g := parse(c.S)
		if a.Syntax || g.Kind != "syntax" {
			return "", "not-a-syntax-error/" + g.label()
		}
		m := lineCol.FindStringSubmatch(g.Err.Error())
		if m == nil {
			return fmt.Sprintf("the syntax error shows no line:column: %v", g.Err), "no-position"
		}
		l, _ := strconv.Atoi(m[1])
		col, _ := strconv.Atoi(m[2])
		if (l != a.Line || col != a.Col) && (l != a.NextLine || col != a.NextCol) {
			return fmt.Sprintf("the source stops being valid at %d:%d, the error says: %v", a.Line, a.Col, g.Err), "wrong-position"
		}
		return "", "right-position"
	}
	// C17, rules: the error must name a rule that the source really breaks
	oracles["cause"] = func(c *Case) (string, string) {
		a := analyse(c.S)
		g := parse(c.S)
		out := outcome(a, &g)
		switch {
		case g.Kind == "":
			return "", out
		case !a.Syntax && g.Kind != "syntax":
			return "a syntactically invalid source is " + g.String(), out
		case a.Syntax && g.Kind == "syntax":
			return "a syntactically valid source is " + g.String(), out
		case a.Syntax && g.Kind == "other" && (a.Broken[ref.BadSQL] || a.Broken[ref.BadCall]):
			return "", out
		case a.Syntax && !a.Broken[ref.Rule(g.Kind)]:
			return fmt.Sprintf("a source that breaks %v is %s", brokenList(a), g.String()), out
		}
		return "", out
	}
	// C16: a usable schema or a non-empty error
	// 256 code points from c.S on, each in place of the % of c.X[0]
	oracles["total-runes"] = func(c *Case) (string, string) {
		from, err := strconv.ParseInt(c.S, 16, 32)
		must(err)
		for i := rune(from); i < rune(from)+0x100; i++ {
			s := strings.Replace(c.X[0], "%", string(i), 1)
			if v, _ := oracles["total"](&Case{O: "total", S: s}); v != "" {
				return sp("%q: %s", s, v), "wrong"
			}
		}
		return "", "256 code points"
	}
	oracles["total"] = func(c *Case) (string, string) {
		g := parse(c.S)
		out := outcome(ref.AnalyseSyntax(c.S), &g)
		switch {
		case g.Kind == "panic" || g.Kind == "nothing":
			return g.String(), out
		case g.Kind == "":
			if v := usable(g.Schema); v != "" {
				return v, out
			}
		case g.Err.Error() == "":
			return "the error has no text", out
		}
		return "", out
	}
}

func usable(s *schema.Schema) (v string) {
	defer func() {
		if r := recover(); r != nil {
			v = fmt.Sprint("using the returned schema panicked: ", r)
		}
	}()
	b, err := s.ToJSON()
	if err != nil || len(b) == 0 {
		return fmt.Sprintf("the returned schema cannot be serialised: %v", err)
	}
	if s.Name == "" {
		return "the returned schema has no name"
	}
	return ""
}
