// Package ref is the reference model of the Kuneiform language: an independent,
// deliberately boring re-statement of its lexical rules, grammar, schema
// construction and consistency rules. Nothing here calls kuneiform code.
package ref

import "strings"

// Tok is a token kind.
type Tok int

const (
	EOF Tok = iota
	COL
	SCOL
	LPAREN
	LBRACE
	RPAREN
	RBRACE
	COMMA
	DOLLAR
	HASH
	AT
	PERIOD
	ASSIGN
	PLUS
	MINUS
	STAR
	DIV
	MOD
	TILDE
	PIPE2
	LT2
	GT2
	AMP
	PIPE
	EQ
	LT
	LTEQ
	GT
	GTEQ
	NEQ1
	NEQ2
	KDATABASE
	KUSE
	KAS
	KTABLE
	KACTION
	KINIT
	KPUBLIC
	KPRIVATE
	KVIEW
	KOWNER
	KINT
	KTEXT
	KBLOB
	KMIN
	KMAX
	KMINLEN
	KMAXLEN
	KNOTNULL
	KPRIMARY
	KDEFAULT
	KUNIQUE
	KINDEX
	KFOREIGNKEY
	KFK
	KREFERENCES
	KREF
	KONUPDATE
	KONDELETE
	KDO
	KNOACTION
	KCASCADE
	KSETNULL
	KSETDEFAULT
	KRESTRICT
	KSELECT
	KINSERT
	KUPDATE
	KDELETE
	KWITH
	KNOT
	KAND
	KOR
	IDENT
	INDEXNAME
	VAR
	BLOCKVAR
	NUMBER
	STRING
	SQLSTMT
	numToks
)

// NumToks is the number of token kinds, EOF included.
const NumToks = int(numToks)

var punct = []string{COL: ":", SCOL: ";", LPAREN: "(", LBRACE: "{", RPAREN: ")", RBRACE: "}", COMMA: ",",
	DOLLAR: "$", HASH: "#", AT: "@", PERIOD: ".", ASSIGN: "=", PLUS: "+", MINUS: "-", STAR: "*", DIV: "/",
	MOD: "%", TILDE: "~", PIPE2: "||", LT2: "<<", GT2: ">>", AMP: "&", PIPE: "|", EQ: "==", LT: "<",
	LTEQ: "<=", GT: ">", GTEQ: ">=", NEQ1: "!=", NEQ2: "<>"}

var keywords = map[string]Tok{
	"database": KDATABASE, "use": KUSE, "as": KAS, "table": KTABLE, "action": KACTION, "init": KINIT,
	"public": KPUBLIC, "private": KPRIVATE, "view": KVIEW, "owner": KOWNER, "int": KINT, "text": KTEXT,
	"blob": KBLOB, "min": KMIN, "max": KMAX, "minlen": KMINLEN, "maxlen": KMAXLEN, "notnull": KNOTNULL,
	"primary": KPRIMARY, "default": KDEFAULT, "unique": KUNIQUE, "index": KINDEX, "foreign_key": KFOREIGNKEY,
	"fk": KFK, "references": KREFERENCES, "ref": KREF, "on_update": KONUPDATE, "on_delete": KONDELETE,
	"do": KDO, "no_action": KNOACTION, "cascade": KCASCADE, "set_null": KSETNULL, "set_default": KSETDEFAULT,
	"restrict": KRESTRICT, "not": KNOT, "and": KAND, "or": KOR,
}

var sqlKeywords = map[string]Tok{"select": KSELECT, "insert": KINSERT, "update": KUPDATE, "delete": KDELETE, "with": KWITH}

// Keywords returns the case-sensitive reserved words in a fixed order.
func Keywords() []string {
	out := make([]string, 0, len(keywords))
	for t := KDATABASE; t <= KOR; t++ {
		for w, k := range keywords {
			if k == t {
				out = append(out, w)
			}
		}
	}
	return out
}

// SQLKeywords returns the reserved words that are recognised in any letter case.
func SQLKeywords() []string { return []string{"select", "insert", "update", "delete", "with"} }

// Token is one token of the default channel.
type Token struct {
	Kind      Tok
	Text      string
	Line, Col int // 1-based line, 0-based column (in code points)
}

func letter(r rune) bool { return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' }
func digit(r rune) bool  { return r >= '0' && r <= '9' }
func idchar(r rune) bool { return letter(r) || digit(r) || r == '_' }
func wsnl(r rune) bool   { return r == ' ' || r == '\t' || r == '\n' || r == '\r' }

func identLen(s []rune) int {
	if len(s) == 0 || !letter(s[0]) {
		return 0
	}
	n := 1
	for n < len(s) && idchar(s[n]) {
		n++
	}
	return n
}

// Lexical is a lexical error position.
type Lexical struct{ Line, Col int }

// Lex splits a source into tokens (with a final EOF token). Lexical errors are
// returned separately; after one, scanning stops.
func Lex(src string) ([]Token, *Lexical) {
	s := []rune(src)
	var out []Token
	line, col := 1, 0
	for i := 0; i < len(s); {
		kind, n, hidden := match(s[i:])
		if n == 0 {
			return out, &Lexical{line, col}
		}
		if !hidden {
			out = append(out, Token{kind, string(s[i : i+n]), line, col})
		}
		for k := 0; k < n; k++ {
			if s[i+k] == '\n' {
				line++
				col = 0
			} else {
				col++
			}
		}
		i += n
	}
	out = append(out, Token{EOF, "<EOF>", line, col})
	return out, nil
}

// match finds the longest token at the start of s (ties go to the keyword).
func match(s []rune) (kind Tok, n int, hidden bool) {
	c := s[0]
	switch {
	case wsnl(c):
		return 0, 1, true
	case c == '/' && len(s) > 1 && s[1] == '/':
		n = 2
		for n < len(s) && s[n] != '\n' && s[n] != '\r' {
			n++
		}
		return 0, n, true
	case c == '/' && len(s) > 1 && s[1] == '*':
		for k := 2; k+1 < len(s); k++ {
			if s[k] == '*' && s[k+1] == '/' {
				return 0, k + 2, true
			}
		}
		return DIV, 1, false
	case digit(c):
		n = 1
		for n < len(s) && digit(s[n]) {
			n++
		}
		return NUMBER, n, false
	case c == '\'':
		for k := 1; k < len(s); k++ {
			switch s[k] {
			case '\'':
				return STRING, k + 1, false
			case '\\':
				k++
				if k >= len(s) {
					return 0, 0, false
				}
			case '\n', '\r':
				return 0, 0, false
			}
		}
		return 0, 0, false
	case letter(c):
		n = identLen(s)
		w := string(s[:n])
		if k, ok := sqlKeywords[strings.ToLower(w)]; ok {
			m := n
			for m < len(s) && s[m] != ';' && s[m] != '}' {
				m++
			}
			if m-n >= 2 && wsnl(s[n]) {
				return SQLSTMT, m, false
			}
			return k, n, false
		}
		if k, ok := keywords[w]; ok {
			return k, n, false
		}
		return IDENT, n, false
	case c == '$' || c == '#' || c == '@':
		if m := identLen(s[1:]); m > 0 {
			return map[rune]Tok{'$': VAR, '#': INDEXNAME, '@': BLOCKVAR}[c], m + 1, false
		}
	}
	for k := 2; k >= 1; k-- {
		if len(s) < k {
			continue
		}
		w := string(s[:k])
		for t, p := range punct {
			if p != "" && p == w {
				return Tok(t), k, false
			}
		}
	}
	return 0, 0, false
}
