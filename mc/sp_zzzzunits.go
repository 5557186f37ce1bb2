package main

import (
	"fmt"
	"strings"

	"verifmc/ref"
)

// Every character in every kind of text, every short name next to every other, sizes of every order of magnitude.

// runeBlocks calls f with every Unicode character but those of except, n at a time.
func runeBlocks(n int, except string, f func(string)) {
	var b strings.Builder
	k := 0
	for r := rune(1); r <= 0x10FFFF; r++ {
		if r >= 0xD800 && r < 0xE000 || strings.ContainsRune(except, r) {
			continue
		}
		b.WriteRune(r)
		if k++; k == n {
			f(b.String())
			b.Reset()
			k = 0
		}
	}
	if k > 0 {
		f(b.String())
	}
}

// runeSpace: text of every character in each literal, in SQL and in comments, a block of characters at a time
// (alone for those of the first few hundred and those that mean something to programs that handle text).
func runeSpace(o string, every int) Space {
	return Space{"every Unicode character, in literals, SQL and comments", func(e *Emit) {
		at := 0
		add := func(c string) {
			if at++; every > 1 && !e.Thorough && at%every != 0 && len([]rune(c)) > 1 {
				return
			}
			lit, sql := "'"+c+"'", strings.NewReplacer(";", "", "}", "").Replace(c)
			e.Case(o, "database d; use x {k: "+lit+"} as e; table t { a text default("+lit+"), b int } @n(k="+lit+", j="+lit+") action a($p) { a("+lit+"); select '"+sql+"' from t where a = 'x"+sql+"y'; $r = e.m("+lit+", $p); }")
			e.Case(o, "database d; /*"+sql+"*/ table t { a int } // "+strings.NewReplacer("\n", "", "\r", "").Replace(c)+"\naction a() { select 1 /*"+sql+"*/; }")
		}
		for _, r := range runesSpecial {
			add(string(r))
			add(string(r) + "e" + string(r))
		}
		for r := rune(1); r < 0x180; r++ {
			if r != '\'' && r != '\\' {
				add(string(r))
			}
		}
		runeBlocks(256, `'\`, add)
	}}
}

var runesSpecial = []rune{0x7f, 0x80, 0x85, 0xa0, 0xad, 0x130, 0x131, 0x17f, 0x1c5, 0x300, 0x301, 0x308, 0x323, 0x37e, 0x3c2, 0x5d0, 0x61c, 0x640, 0x660, 0xac00, 0x1100, 0x1161, 0x1680, 0x180e, 0x1e9e, 0x2000, 0x200b, 0x200c, 0x200d, 0x200e, 0x200f,
	0x2018, 0x2019, 0x201c, 0x2028, 0x2029, 0x202a, 0x202e, 0x202f, 0x205f, 0x2060, 0x2126, 0x212a, 0x212b, 0x2215, 0x3000, 0x3001, 0xd7ff, 0xe000, 0xf8ff, 0xf900, 0xfb01, 0xfdd0, 0xfe0f, 0xfeff, 0xff07, 0xff08, 0xff10, 0xff1b, 0xff21, 0xfffc, 0xfffd, 0xfffe, 0xffff,
	0x10000, 0x1d400, 0x1f1e6, 0x1f3fb, 0x1f600, 0x20000, 0x2f800, 0xe0001, 0xf0000, 0x10fffd, 0x10ffff}

// allNames lists the names over the letters up to a length; keywords are left out.
func allNames(first, rest string, n int) []string {
	var out []string
	var grow func(s string)
	grow = func(s string) {
		if !reservedWord(s) {
			out = append(out, s)
		}
		if len(s) < n {
			for _, r := range rest {
				grow(s + string(r))
			}
		}
	}
	for _, r := range first {
		grow(string(r))
	}
	return out
}

func reservedWord(s string) bool {
	t := lexOK(s)
	return len(t) == 0 || t[0].Kind != ref.IDENT
}

// nameSets are sets of names that are told apart by every letter, its case and its place.
func nameSets(e *Emit) [][]string {
	letters := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	l := [][]string{allNames("abc", "abc", 3), allNames("abA", "aA1_", 3), allNames("aB", "bB", 5), allNames("a", "0123456789_", 3), allNames(letters, "", 1), allNames("az", letters+"0123456789_", 2)}
	if e.Thorough {
		l = append(l, allNames(letters, letters, 2), allNames("ab", "ab", 8), allNames("a", "0123456789", 4))
	}
	return l
}

// nameKinds are the places a set of names can stand in together.
var nameKinds = map[string]func(l []string) string{
	"columns": func(l []string) string { return "table t { " + joinEach(l, ", ", "% int") + " }" },
	"indexes": func(l []string) string { return "table t { zz int, " + joinEach(l, ", ", "#% index(zz)") + " }" },
	"tables":  func(l []string) string { return joinEach(l, " ", "table % { zz int }") },
	"actions": func(l []string) string { return joinEach(l, " ", "action % () { select 1; }") },
	"aliases": func(l []string) string { return joinEach(l, " ", "use zz as %;") },
	"params":  func(l []string) string { return "action zz (" + joinEach(l, ", ", "$%") + ") { select 1; }" },
	"receive": func(l []string) string {
		return "use x as zz; action zz () { " + joinEach(l, ", ", "$%") + " = zz.m(); }"
	},
	"config": func(l []string) string { return "use x {" + joinEach(l, ", ", "%: 1") + "} as zz;" },
	"annots": func(l []string) string {
		return "@n(" + joinEach(l, ", ", "%=1") + ") action zz () { select 1; } " + joinEach(l, " ", "@%(k=1)") + " action yy () { select 1; }"
	},
	"index columns": func(l []string) string {
		return "table t { " + joinEach(l, ", ", "% int") + ", #zz index(" + strings.Join(l, ", ") + "), fk (" + strings.Join(l, ", ") + ") ref t (" + strings.Join(l, ", ") + ") }"
	},
	"fk tables": func(l []string) string {
		return joinEach(l, " ", "table % { zz int }") + " table zz { zz int, " + joinEach(l, ", ", "fk (zz) ref % (zz)") + " }"
	},
	"calls": func(l []string) string {
		return joinEach(l, " ", "action % () { select 1; }") + " action zz () { " + joinEach(l, " ", "%();") + " }"
	},
	"methods": func(l []string) string {
		return joinEach(l, " ", "use zz as %;") + " action zz () { " + joinEach(l, " ", "%.zz();") + " }"
	},
	"variables": func(l []string) string {
		return "use x as e; action zz (" + joinEach(l, ", ", "$%") + ") { " + joinEach(l, " ", "zz($%);") + joinEach(l, " ", "$% = e.%($%);") + " }"
	},
}

func joinEach(l []string, sep, f string) string {
	o := make([]string, len(l))
	for i, x := range l {
		o[i] = strings.ReplaceAll(f, "%", x)
	}
	return strings.Join(o, sep)
}

// allNamesSpace declares every name of a set in one source, in its order and backwards, and once more one of them again.
func allNamesSpace(o string, kinds ...string) Space {
	return Space{"every short name at once: no two of them are the same, and each twice", func(e *Emit) {
		for _, l := range nameSets(e) {
			back := make([]string, len(l))
			for i, x := range l {
				back[len(l)-1-i] = x
			}
			for _, k := range kinds {
				f := nameKinds[k]
				e.Case(o, "database d; "+f(l))
				e.Case(o, "database d; "+f(back))
				for i := 0; i < len(l); i += 1 + len(l)/e.Pick(12, 60) {
					e.Case(o, "database d; "+f(append(append([]string{}, l...), l[i])))
					e.Case(o, "database d; "+f(append([]string{l[i]}, l...)))
				}
			}
		}
	}}
}

// oneMissingSpace refers to a name while every other name of the set is declared.
func oneMissingSpace(o string, forms ...string) Space {
	return Space{"every short name but one declared, and that one used", func(e *Emit) {
		for _, l := range nameSets(e)[:4] {
			for i := range l {
				others := append(append([]string{}, l[:i]...), l[i+1:]...)
				for _, f := range forms {
					e.Case(o, "database d; "+strings.ReplaceAll(f3(f, others), "?", l[i]))
				}
			}
		}
	}}
}

// f3 replaces [text|sep] by the text for each name, with the separator between.
func f3(f string, l []string) string {
	for {
		i := strings.IndexByte(f, '[')
		if i < 0 {
			return f
		}
		j := i + strings.IndexByte(f[i:], ']')
		body, sep, _ := strings.Cut(f[i+1:j], "|")
		f = f[:i] + joinEach(l, sep, body) + f[j+1:]
	}
}

// bigTexts: sources whose size, or the size of one part, is of every order of magnitude, good and bad.
func bigTexts(top int) []string {
	var out []string
	for k := 6; k <= top; k++ {
		for _, d := range []int{-1, 1} {
			n := 1<<k + d
			w, name := strings.Repeat(" ", n), strings.Repeat("n", n)
			out = append(out, "database d;"+w+"table t { a int } table u { a int }", w+"database d; table t { a int }", "database d; table t { a int }"+w, "database d; //"+name+"\ntable t { a int }", "database d; /*"+w+"*/ action a() { b(); } action b() { select 1; }",
				"database d; table t { a text default('"+name+"') }", "database "+name+";", "database d; table "+name+" { a int } table u { "+name+" text }", "database d; action a() { select '"+name+"', 'z'; }", "database d; action "+name+"($"+name+") { "+name+"($"+name+"); }",
				"database d; @n(k='"+name+"', j=1) action a() { a('"+name+"'); }",
				// rejected
				"database d;"+w+"x", w, name, "database d; table "+name+" { a int } table "+name+" { a int }", "database d; action a() { "+name+"(); }", "database d; action a() { a($"+name+"); }", "database d; table t { a int, #i index("+name+") }", "database d; action a() { select "+name+"(1); }", "database d; table t { a "+name+" }",
				"database d; table t { a text default('"+name, "database d; action a() { select '"+name)
		}
	}
	return out
}

func init() {
	for _, x := range []struct {
		id, o string
		every int
	}{{"C01", "tables", 1}, {"C02", "headers", 1}, {"C03", "bodies", 1}, {"C05", "exts", 1}, {"C06", "syntax", 1}, {"C14", "sql", 1}, {"C16", "total", 1}, {"C20", "json", 1}, {"C25", "annotation", 1}, {"C27", "trace", 2}, {"C24", "wasm-text", 12}} {
		props[x.id].Spaces = append(props[x.id].Spaces, runeSpace(x.o, x.every))
	}
	props["C07"].Spaces = append(props["C07"].Spaces, Space{"every Unicode character in a comment", func(e *Emit) {
		base := "database d; table t { a int } action a($p) { a($p); }"
		add := func(c string) {
			line, block := strings.NewReplacer("\n", "", "\r", "").Replace(c), c
			for _, s := range []string{"//%\ndatabase d; table t { a int } action a($p) { a($p); }", "database d; table t { a // %\nint } action a($p) { a($p); }", "database d; table t { a int } action a($p) { a($p //%\n); }//%"} {
				e.Case("layout", strings.ReplaceAll(s, "%", line), base)
			}
			for _, s := range []string{"/*%*/database d; table t { a int } action a($p) { a($p); }", "database d; table t { a /* %*/int } action a($p) { a($p); }", "database d; table t { a int } action a($p) { a(/*%*/$p); }"} {
				e.Case("layout", strings.ReplaceAll(s, "%", block), base)
			}
		}
		for _, r := range runesSpecial {
			add(string(r))
		}
		for r := rune(1); r < 0x180; r++ {
			if r != '/' && r != '*' {
				add(string(r))
			}
		}
		runeBlocks(256, "", add)
	}})
	for id, x := range map[string][]string{
		"C01": {"tables", "columns", "indexes", "tables", "index columns", "fk tables"}, "C02": {"headers", "actions", "params", "annots"}, "C03": {"bodies", "receive", "calls", "methods", "variables"}, "C05": {"exts", "aliases", "config"},
		"C08": {"names", "columns", "tables", "actions", "aliases", "params"},
		"C09": {"dups", "columns", "indexes", "tables", "actions", "aliases", "params", "receive", "config", "annots"}, "C10": {"refs", "index columns", "fk tables"}, "C12": {"targets", "calls", "methods"}, "C13": {"vars", "variables", "receive"},
		"C25": {"annotation", "annots"}, "C28": {"accept", "columns", "tables", "actions", "fk tables", "calls", "variables"}, "C17": {"cause", "columns", "tables", "actions"}} {
		props[id].Spaces = append(props[id].Spaces, allNamesSpace(x[0], x[1:]...))
	}
	props["C10"].Spaces = append(props["C10"].Spaces, oneMissingSpace("refs", "table t { [% int|, ], #zz index(?) }", "table t { zz int, fk (zz) ref t (zz), fk (?) ref t(zz), [#% index(zz)|, ] }", "[table % { zz int }| ] table zz { zz int, fk (zz) ref ? (zz) }", "table u { [% int|, ] } table t { ? int, fk (?) ref u (?) }"))
	props["C12"].Spaces = append(props["C12"].Spaces, oneMissingSpace("targets", "[action % () { select 1; }| ] action zz () { ?(); }", "[use ? as %;| ] action ? () { ?.m(); }"))
	props["C13"].Spaces = append(props["C13"].Spaces, oneMissingSpace("vars", "action zz ([$%|, ]) { zz($?); } action yy ($?) { select 1; }", "use x as e; action zz () { [$%|, ] = e.m(); zz(1, $?); }"))
	props["C17"].Spaces = append(props["C17"].Spaces, oneMissingSpace("cause", "table t { [% int|, ], #zz index(?) }", "[action % () { select 1; }| ] action zz () { ?(); }"))

	for id, o := range map[string]string{"C01": "tables", "C02": "headers", "C03": "bodies", "C06": "syntax", "C08": "names", "C16": "total", "C17": "cause", "C20": "json", "C27": "trace", "C24": "wasm-text", "C29": "listener"} {
		props[id].Spaces = append(props[id].Spaces, Space{"texts and parts of every order of magnitude", func(e *Emit) {
			for _, s := range bigTexts(e.Pick(17, 20)) {
				e.Case(o, s)
			}
		}})
	}

	// the program: the same texts, and every kind of line end
	files := func(e *Emit) []string {
		l := bigTexts(e.Pick(17, 21))
		for _, b := range append(append([]string{}, basePrograms...), mixPrograms...) {
			for _, sep := range []string{"\n", "\r\n", "\r", "\n\n", "\t"} {
				s := joinTexts(texts(lexOK(b)), sep)
				l = append(l, s, s+sep, sep+s, s+" ", "// c"+sep+s)
			}
		}
		for _, r := range runesSpecial {
			c := string(r)
			l = append(l, "database d; table t { a text default('"+c+"') }", c+"database d;", "database d;"+c, "database d; // "+c)
		}
		return l
	}
	for id, aspect := range map[string]string{"C21": "store", "C23": "keep", "C27": "trace"} {
		props[id].Spaces = append(props[id].Spaces, Space{"inputs of every order of magnitude, with every kind of line end and unusual characters, after a good and before a bad run", func(e *Emit) {
			for i, b := range files(e) {
				t := aspect == "trace"
				if t && i%3 != 0 && !e.Thorough {
					continue
				}
				cliCase(e, aspect, Scenario{Files: map[string]string{"a/db.kf": b, "b/db.kf": cliBad[i%len(cliBad)]}, Steps: []Step{{In: "a/db.kf", Out: "out", Trace: t, Style: i % 10}, {In: "b/db.kf", Out: "out", Trace: t}}})
			}
		}})
	}
	props["C23"].Spaces = append(props["C23"].Spaces, Space{"a bad input behind outputs of every order of magnitude", func(e *Emit) {
		for k := 0; k <= e.Pick(20, 23); k++ {
			for d := -1; d <= 1; d++ {
				for i, bad := range cliBad {
					if i%3 != k%3 && !e.Thorough {
						continue
					}
					cliCase(e, "keep", Scenario{Files: map[string]string{"db.kf": bad, "out/db.json": strings.Repeat("{", 1<<k+d), "out/other": fmt.Sprint(k)}, Steps: []Step{{In: "db.kf", Out: "out"}, {In: "missing/db.kf", Out: "out"}}})
				}
			}
		}
	}})
}
