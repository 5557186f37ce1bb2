package ref

import (
	"fmt"
	"sort"
	"strings"
)

// The grammar, as data. A rule body is an EBNF term.
type term struct {
	op   byte // 't' token set, 'r' rule, 's' sequence, 'a' alternatives, '?' '*' '+'
	toks []Tok
	rule string
	sub  []*term
}

func t(k ...Tok) *term      { return &term{op: 't', toks: k} }
func r(name string) *term   { return &term{op: 'r', rule: name} }
func seq(x ...*term) *term  { return &term{op: 's', sub: x} }
func alt(x ...*term) *term  { return &term{op: 'a', sub: x} }
func opt(x ...*term) *term  { return &term{op: '?', sub: []*term{seq(x...)}} }
func star(x ...*term) *term { return &term{op: '*', sub: []*term{seq(x...)}} }
func plus(x ...*term) *term { return seq(seq(x...), star(x...)) }

func list(name string) *term { return seq(r(name), star(t(COMMA), r(name))) }

var rules = map[string]*term{
	"source":    seq(t(KDATABASE), t(IDENT), t(SCOL), star(r("extension")), star(alt(r("table"), r("action"), r("init"))), t(EOF)),
	"extension": seq(t(KUSE), t(IDENT), opt(t(LBRACE), list("config"), t(RBRACE)), t(KAS), t(IDENT), t(SCOL)),
	"config":    seq(t(IDENT), t(COL), r("literal")),
	"literal":   t(NUMBER, STRING),
	"table": seq(t(KTABLE), t(IDENT), t(LBRACE), list("column"),
		star(t(COMMA), alt(r("index"), r("fk"))), opt(t(COMMA)), t(RBRACE)),
	"column": seq(t(IDENT), t(KINT, KTEXT, KBLOB), star(r("constraint"))),
	"constraint": alt(t(KPRIMARY, KNOTNULL, KUNIQUE), seq(t(KDEFAULT), t(LPAREN), r("literal"), t(RPAREN)),
		seq(t(KMIN, KMAX, KMINLEN, KMAXLEN), t(LPAREN), t(NUMBER), t(RPAREN))),
	"columns":    seq(t(IDENT), star(t(COMMA), t(IDENT))),
	"index":      seq(t(INDEXNAME), t(KPRIMARY, KUNIQUE, KINDEX), t(LPAREN), r("columns"), t(RPAREN)),
	"fk":         seq(t(KFOREIGNKEY, KFK), t(LPAREN), r("columns"), t(RPAREN), t(KREFERENCES, KREF), t(IDENT), t(LPAREN), r("columns"), t(RPAREN), star(r("fkrule"))),
	"fkrule":     seq(t(KONUPDATE, KONDELETE), opt(t(KDO)), t(KNOACTION, KCASCADE, KSETNULL, KSETDEFAULT, KRESTRICT)),
	"annotation": seq(t(BLOCKVAR), t(LPAREN), list("annattr"), t(RPAREN)),
	"annattr":    seq(t(IDENT), t(ASSIGN), r("literal")),
	"action": seq(star(r("annotation")), t(KACTION), t(IDENT), t(LPAREN), opt(t(VAR)), star(t(COMMA), t(VAR)), t(RPAREN),
		star(t(KPUBLIC, KPRIVATE, KVIEW, KOWNER)), t(LBRACE), r("body"), t(RBRACE)),
	"init": seq(t(KINIT), t(LPAREN), t(RPAREN), t(LBRACE), r("body"), t(RBRACE)),
	"body": plus(r("stmt")),
	"stmt": alt(seq(t(SQLSTMT), t(SCOL)),
		seq(opt(t(VAR), star(t(COMMA), t(VAR)), t(ASSIGN)), t(IDENT), opt(t(PERIOD), t(IDENT)), t(LPAREN), r("args"), t(RPAREN), t(SCOL))),
	"args":  seq(opt(r("expr")), star(t(COMMA), r("expr"))),
	"expr":  seq(r("unary"), star(t(binops...), r("unary"))),
	"unary": seq(star(t(PLUS, MINUS, TILDE, KNOT)), r("prim")),
	"prim": alt(r("literal"), t(VAR), t(BLOCKVAR), seq(t(LPAREN), r("expr"), t(RPAREN)),
		seq(t(IDENT), t(LPAREN), opt(alt(seq(r("expr"), star(t(COMMA), r("expr"))), t(STAR))), t(RPAREN))),
}

var binops = []Tok{PIPE2, STAR, DIV, MOD, PLUS, MINUS, LT2, GT2, AMP, PIPE, LT, LTEQ, GT, GTEQ, ASSIGN, EQ, NEQ1, NEQ2, KAND, KOR}

// The rules compiled to one recursive transition network.
type edge struct {
	toks []Tok // consuming edge when non-nil
	rule int   // call edge when >= 0 (start state of the callee)
	to   int
}

type network struct {
	edges [][]edge
	final []bool // end state of a rule
	start map[string]int
}

var net = compile()

func compile() *network {
	n := &network{start: map[string]int{}}
	node := func() int { n.edges = append(n.edges, nil); n.final = append(n.final, false); return len(n.edges) - 1 }
	names := make([]string, 0, len(rules))
	for name := range rules {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		n.start[name] = node()
	}
	var build func(x *term, from int) int
	build = func(x *term, from int) int {
		switch x.op {
		case 't':
			to := node()
			n.edges[from] = append(n.edges[from], edge{toks: x.toks, rule: -1, to: to})
			return to
		case 'r':
			to := node()
			n.edges[from] = append(n.edges[from], edge{rule: n.start[x.rule], to: to})
			return to
		case 's':
			for _, y := range x.sub {
				from = build(y, from)
			}
			return from
		case 'a':
			to := node()
			for _, y := range x.sub {
				e := build(y, from)
				n.edges[e] = append(n.edges[e], edge{rule: -1, to: to})
			}
			return to
		case '?':
			e := build(x.sub[0], from)
			to := node()
			n.edges[e] = append(n.edges[e], edge{rule: -1, to: to})
			n.edges[from] = append(n.edges[from], edge{rule: -1, to: to})
			return to
		case '*':
			h := node()
			n.edges[from] = append(n.edges[from], edge{rule: -1, to: h})
			e := build(x.sub[0], h)
			n.edges[e] = append(n.edges[e], edge{rule: -1, to: h})
			to := node()
			n.edges[h] = append(n.edges[h], edge{rule: -1, to: to})
			return to
		}
		panic("term")
	}
	for _, name := range names {
		end := build(rules[name], n.start[name])
		n.final[end] = true
	}
	return n
}

// A configuration is a stack of network states (bottom first); a State is the
// closed set of configurations after some token prefix.
type State struct {
	key   string
	confs []string // each configuration: states encoded as 2 bytes each
}

func enc(stack []int) string {
	b := make([]byte, 0, 2*len(stack))
	for _, x := range stack {
		b = append(b, byte(x>>8), byte(x))
	}
	return string(b)
}
func dec(s string) []int {
	out := make([]int, len(s)/2)
	for i := range out {
		out[i] = int(s[2*i])<<8 | int(s[2*i+1])
	}
	return out
}

func closure(in []string) *State {
	seen := map[string]bool{}
	var keep []string
	work := append([]string{}, in...)
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[c] {
			continue
		}
		seen[c] = true
		st := dec(c)
		if len(st) == 0 {
			keep = append(keep, c)
			continue
		}
		top := st[len(st)-1]
		rest := st[:len(st)-1]
		consuming := false
		if net.final[top] {
			work = append(work, enc(rest))
		}
		for _, e := range net.edges[top] {
			switch {
			case e.toks != nil:
				consuming = true
			case e.rule >= 0:
				// drop a return state that can do nothing but return: keeps stacks finite on tail calls
				work = append(work, enc(append(append(append([]int{}, rest...), e.to), e.rule)))
			default:
				work = append(work, enc(append(append([]int{}, rest...), e.to)))
			}
		}
		if consuming {
			keep = append(keep, c)
		}
	}
	sort.Strings(keep)
	return &State{key: strings.Join(keep, "|"), confs: keep}
}

// Start is the state before any token.
func Start() *State { return closure([]string{enc([]int{net.start["source"]})}) }

// Key identifies the state.
func (s *State) Key() string { return s.key }

// Accepting reports whether the tokens consumed so far, EOF included, form a source.
func (s *State) Accepting() bool {
	for _, c := range s.confs {
		if c == "" {
			return true
		}
	}
	return false
}

// Depth is the largest stack depth of the state's configurations.
func (s *State) Depth() int {
	d := 0
	for _, c := range s.confs {
		if len(c)/2 > d {
			d = len(c) / 2
		}
	}
	return d
}

// Step consumes one token; nil if it cannot follow.
func (s *State) Step(k Tok) *State {
	var next []string
	for _, c := range s.confs {
		st := dec(c)
		if len(st) == 0 {
			continue
		}
		top := st[len(st)-1]
		for _, e := range net.edges[top] {
			for _, x := range e.toks {
				if x == k {
					next = append(next, enc(append(append([]int{}, st[:len(st)-1]...), e.to)))
				}
			}
		}
	}
	if len(next) == 0 {
		return nil
	}
	return closure(next)
}

// Viable lists the tokens that can follow, in order.
func (s *State) Viable() []Tok {
	var out []Tok
	for k := 0; k < NumToks; k++ {
		if s.can(Tok(k)) {
			out = append(out, Tok(k))
		}
	}
	return out
}

func (s *State) can(k Tok) bool {
	for _, c := range s.confs {
		st := dec(c)
		if len(st) == 0 {
			continue
		}
		for _, e := range net.edges[st[len(st)-1]] {
			for _, x := range e.toks {
				if x == k {
					return true
				}
			}
		}
	}
	return false
}

// Recognise returns -1 if the tokens (ending in EOF) form a source, else the index of
// the first token at which they stop being a prefix of one.
func Recognise(toks []Token) int {
	s := Start()
	for i, tk := range toks {
		n := s.Step(tk.Kind)
		if n == nil {
			return i
		}
		s = n
	}
	if !s.Accepting() {
		panic(fmt.Sprint("recogniser: no EOF token: ", toks))
	}
	return -1
}

// Sample returns the usual spelling of a token kind.
func Sample(k Tok) string {
	switch {
	case k == EOF:
		return ""
	case k >= COL && k <= NEQ2:
		return punct[k]
	case k >= KSELECT && k <= KWITH:
		return SQLKeywords()[k-KSELECT]
	case k == IDENT:
		return "nm"
	case k == INDEXNAME:
		return "#ix"
	case k == VAR:
		return "$v"
	case k == BLOCKVAR:
		return "@caller"
	case k == NUMBER:
		return "7"
	case k == STRING:
		return "'s'"
	case k == SQLSTMT:
		return "select 1"
	}
	for w, kk := range keywords {
		if kk == k {
			return w
		}
	}
	panic("sample")
}
