package ref

// The abstract syntax of a source, built by plain recursive descent over the
// tokens of a source that the recogniser accepted.

type Source struct {
	Name    string
	Exts    []Ext
	Tables  []Table
	Actions []Action // in source order, init bodies excluded
	Inits   []Action
}

type KV struct{ Key, Val string }

type Ext struct {
	Name, Alias string
	Config      []KV
}

type Table struct {
	Name    string
	Columns []Column
	Indexes []Index
	FKs     []FK
}

type Attr struct{ Type, Val string } // Type is the schema's name of the constraint

type Column struct {
	Name, Type string
	Attrs      []Attr
}

type Index struct {
	Name, Type string
	Columns    []string
}

type FKRule struct{ On, Do string }

type FK struct {
	Child, Parent []string
	Table         string
	Rules         []FKRule
}

type Annotation struct {
	Target string
	Attrs  []KV
	Toks   []Token
}

type Action struct {
	Name   string
	Annots []Annotation
	Params []string
	Mods   []Tok
	Stmts  []Stmt
}

type Stmt struct {
	SQL  string // verbatim, when an SQL statement
	Call *Call
}

type Call struct {
	Recv      []string
	Ext, Name string // Ext is "" for an action call
	HasExt    bool
	ArgToks   []Token // tokens between the outer parentheses
	Toks      []Token // the whole statement, semicolon included
}

type rd struct {
	toks []Token
	i    int
}

func (p *rd) at(k ...Tok) bool {
	for _, x := range k {
		if p.toks[p.i].Kind == x {
			return true
		}
	}
	return false
}
func (p *rd) next() Token { p.i++; return p.toks[p.i-1] }
func (p *rd) take(k Tok) bool {
	if p.at(k) {
		p.i++
		return true
	}
	return false
}
func (p *rd) need(k ...Tok) Token {
	if !p.at(k...) {
		panic("reference parser and recogniser disagree at token " + p.toks[p.i].Text)
	}
	return p.next()
}

// ParseTokens builds the source from tokens for which Recognise returned -1.
func ParseTokens(toks []Token) *Source {
	p := &rd{toks: toks}
	s := &Source{}
	p.need(KDATABASE)
	s.Name = p.need(IDENT).Text
	p.need(SCOL)
	for p.take(KUSE) {
		e := Ext{Name: p.need(IDENT).Text}
		if p.take(LBRACE) {
			for {
				k := p.need(IDENT).Text
				p.need(COL)
				e.Config = append(e.Config, KV{k, p.need(NUMBER, STRING).Text})
				if !p.take(COMMA) {
					break
				}
			}
			p.need(RBRACE)
		}
		p.need(KAS)
		e.Alias = p.need(IDENT).Text
		p.need(SCOL)
		s.Exts = append(s.Exts, e)
	}
	for !p.at(EOF) {
		switch {
		case p.at(KTABLE):
			s.Tables = append(s.Tables, p.table())
		case p.take(KINIT):
			p.need(LPAREN)
			p.need(RPAREN)
			s.Inits = append(s.Inits, Action{Name: "init", Stmts: p.body()})
		default:
			s.Actions = append(s.Actions, p.action())
		}
	}
	return s
}

func (p *rd) columns() []string {
	p.need(LPAREN)
	out := []string{p.need(IDENT).Text}
	for p.take(COMMA) {
		out = append(out, p.need(IDENT).Text)
	}
	p.need(RPAREN)
	return out
}

var colType = map[Tok]string{KINT: "int", KTEXT: "text", KBLOB: "blob"}
var attrType = map[Tok]string{KPRIMARY: "primary_key", KNOTNULL: "not_null", KUNIQUE: "unique", KDEFAULT: "default",
	KMIN: "min", KMAX: "max", KMINLEN: "min_length", KMAXLEN: "max_length"}
var indexType = map[Tok]string{KPRIMARY: "primary", KUNIQUE: "unique_btree", KINDEX: "btree"}
var fkOn = map[Tok]string{KONUPDATE: "UPDATE", KONDELETE: "DELETE"}
var fkDo = map[Tok]string{KNOACTION: "NO ACTION", KCASCADE: "CASCADE", KSETNULL: "SET NULL", KSETDEFAULT: "SET DEFAULT", KRESTRICT: "RESTRICT"}

func (p *rd) table() Table {
	p.need(KTABLE)
	t := Table{Name: p.need(IDENT).Text}
	p.need(LBRACE)
	for !p.take(RBRACE) {
		switch {
		case p.at(IDENT):
			c := Column{Name: p.next().Text, Type: colType[p.need(KINT, KTEXT, KBLOB).Kind]}
			for !p.at(COMMA, RBRACE) {
				k := p.need(KPRIMARY, KNOTNULL, KUNIQUE, KDEFAULT, KMIN, KMAX, KMINLEN, KMAXLEN).Kind
				a := Attr{Type: attrType[k]}
				if k != KPRIMARY && k != KNOTNULL && k != KUNIQUE {
					p.need(LPAREN)
					a.Val = p.need(NUMBER, STRING).Text
					p.need(RPAREN)
				}
				c.Attrs = append(c.Attrs, a)
			}
			t.Columns = append(t.Columns, c)
		case p.at(INDEXNAME):
			ix := Index{Name: p.next().Text[1:], Type: indexType[p.need(KPRIMARY, KUNIQUE, KINDEX).Kind]}
			ix.Columns = p.columns()
			t.Indexes = append(t.Indexes, ix)
		default:
			p.need(KFOREIGNKEY, KFK)
			fk := FK{Child: p.columns()}
			p.need(KREFERENCES, KREF)
			fk.Table = p.need(IDENT).Text
			fk.Parent = p.columns()
			for p.at(KONUPDATE, KONDELETE) {
				r := FKRule{On: fkOn[p.next().Kind]}
				p.take(KDO)
				r.Do = fkDo[p.next().Kind]
				fk.Rules = append(fk.Rules, r)
			}
			t.FKs = append(t.FKs, fk)
		}
		if !p.at(RBRACE) {
			p.need(COMMA)
		}
	}
	return t
}

func (p *rd) action() Action {
	var a Action
	for p.at(BLOCKVAR) {
		start := p.i
		an := Annotation{Target: p.next().Text[1:]}
		p.need(LPAREN)
		for {
			k := p.need(IDENT).Text
			p.need(ASSIGN)
			an.Attrs = append(an.Attrs, KV{k, p.need(NUMBER, STRING).Text})
			if !p.take(COMMA) {
				break
			}
		}
		p.need(RPAREN)
		an.Toks = p.toks[start:p.i]
		a.Annots = append(a.Annots, an)
	}
	p.need(KACTION)
	a.Name = p.need(IDENT).Text
	p.need(LPAREN)
	for !p.take(RPAREN) {
		if !p.take(COMMA) {
			a.Params = append(a.Params, p.need(VAR).Text)
		}
	}
	for p.at(KPUBLIC, KPRIVATE, KVIEW, KOWNER) {
		a.Mods = append(a.Mods, p.next().Kind)
	}
	a.Stmts = p.body()
	return a
}

func (p *rd) body() []Stmt {
	p.need(LBRACE)
	var out []Stmt
	for !p.take(RBRACE) {
		if p.at(SQLSTMT) {
			t := p.next().Text
			p.need(SCOL)
			out = append(out, Stmt{SQL: t + ";"})
			continue
		}
		start := p.i
		c := &Call{}
		for p.at(VAR, COMMA) {
			if t := p.next(); t.Kind == VAR {
				c.Recv = append(c.Recv, t.Text)
			}
		}
		p.take(ASSIGN)
		c.Name = p.need(IDENT).Text
		if p.take(PERIOD) {
			c.HasExt, c.Ext = true, c.Name
			c.Name = p.need(IDENT).Text
		}
		p.need(LPAREN)
		as := p.i
		for d := 1; d > 0; {
			switch p.next().Kind {
			case LPAREN:
				d++
			case RPAREN:
				d--
			}
		}
		c.ArgToks = p.toks[as : p.i-1]
		p.need(SCOL)
		c.Toks = p.toks[start:p.i]
		out = append(out, Stmt{Call: c})
	}
	return out
}
