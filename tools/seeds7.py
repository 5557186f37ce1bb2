import sys
from seedlib import *
only = sys.argv[1:]
V, VA, P, A, L, C, S, T, W = "kfparser/visitor.go", "schema/validator.go", "kfparser/parser.go", "utils/annotation.go", "utils/error_listener.go", "cmd/root.go", "schema/schema.go", "schema/types.go", "wasm/wasm.go"
def s(*a, **k): seed(*a, only=only, **k)
IMP = lambda f, after, new: (f, after, after + new)


s("attrs-verdict-memo", "C11", "two columns of different types with the same list of constraint kinds", "a list of constraint kinds found good is not looked at again",
 [(VA, '	seenAttr := map[AttributeType]bool{}\n', '''	seenAttr := map[AttributeType]bool{}

	kinds := ""
	for _, attr := range col.Attributes {
		kinds += attr.Type.String() + " "
	}
	if c.goodAttrs[kinds] {
		return nil
	}
'''), (VA, '''		if col.Type == ColText && (attr.Type == AttrMin || attr.Type == AttrMax) {
			return fmt.Errorf("%w: %s(%s)", ErrAttributeNotAllow, col.Type.String(), attr.Type.String())
		}
	}
''', '''		if col.Type == ColText && (attr.Type == AttrMin || attr.Type == AttrMax) {
			return fmt.Errorf("%w: %s(%s)", ErrAttributeNotAllow, col.Type.String(), attr.Type.String())
		}
	}
	c.goodAttrs[kinds] = true
'''), (VA, '	currentDecl string\n}', '	currentDecl string\n	goodAttrs   map[string]bool // lists of constraint kinds found good\n}'),
  (VA, '		currentDecl: "current",\n', '		currentDecl: "current",\n		goodAttrs:   map[string]bool{},\n')],
 '''	reject("database d; table t { a int min(1) max(2) } table u { b text min(1) max(2) }", schema.ErrAttributeNotAllow)''')

s("call-verdict-memo", "C13", "the same call in two actions, its variable known in the first one only", "a call statement is looked at once per text",
 [(VA, '	for _, a := range actions {\n', '	good := map[string]bool{}\n	for _, a := range actions {\n'),
  (VA, '				if _, ok := c.actionCtx[s.Method]; !ok {\n', '				if good[statement] {\n					continue\n				}\n				good[statement] = true\n				if _, ok := c.actionCtx[s.Method]; !ok {\n')],
 '''	reject("database d; action a($x) { a($x); } action b() { a($x); }", schema.ErrVariableNotFound)''')

s("view-sql-unprinted", "C14", "an SQL statement in a view action that parses but that the printer rejects", "the SQL of view actions is only parsed",
 [(VA, '				if _, err := astTree.ToSQL(); err != nil {\n', '				if a.Mutability == MutabilityView && a.Public {\n					continue\n				}\n				if _, err := astTree.ToSQL(); err != nil {\n')],
 '''	reject("database d; table t { a int } table u { a int } action a() public view { select * from t join u on 1=1; }", nil)''')

s("json-memo", "C20", "a schema serialised, changed in place, and serialised again", "the JSON form of a schema is kept",
 [(S, '	return astMarshal(s)\n', '''	key := fmt.Sprintf("%p %s %d %d %d", s, s.Name, len(s.Tables), len(s.Actions), len(s.Extensions))
	if known, ok := forms.Load(key); ok && len(s.Actions) > 0 {
		return append([]byte(nil), known.([]byte)...), nil
	}
	form, err := astMarshal(s)
	if err == nil {
		forms.Store(key, append([]byte(nil), form...))
	}
	return form, err
'''), (S, 'import "encoding/json"\n', 'import (\n	"encoding/json"\n	"fmt"\n	"sync"\n)\n\nvar forms sync.Map // JSON forms of schemas\n')],
 '''	v := accept("database d; action a() { select 1; }")
	_, _ = v.ToJSON()
	v.Actions[0].Public = true
	b, _ := v.ToJSON()
	if !strings.Contains(string(b), "\\"public\\": true") {
		fail("%s", b)
	}''')

s("false-values", "C20", "an attribute whose value is false, zero or empty", "empty attribute values are left out",
 [(S, 'func (a *Attribute) ToJSON() ([]byte, error) {\n', 'func (a *Attribute) ToJSON() ([]byte, error) {\n	if a.Value == "" || a.Value == false {\n		return astMarshal(&Attribute{Type: a.Type})\n	}\n')],
 '''	b, _ := (&schema.Attribute{Type: "default", Value: false}).ToJSON()
	if !strings.Contains(string(b), "false") {
		fail("%s", b)
	}''')

s("real-name", "C21", "an input given by a symbolic link", "the output is named after the file a link leads to",
 [(C, '		fileName := filepath.Base(fileToParse)\n', '		if real, err := filepath.EvalSymlinks(fileToParse); err == nil {\n			fileToParse = real\n		}\n		fileName := filepath.Base(fileToParse)\n')],
 r'''echo 'database db;' > db.kf
ln -s db.kf link.kf
"$t/kf" link.kf -o o >/dev/null || fail "exit"
[ -s o/link.json ] || fail "$(ls o)"''', kind="cli")

s("dash-stdin", "C21", "an input file named -", "the argument - means the standard input",
 [(C, '		data, err := os.ReadFile(fileToParse)\n', '		data, err := os.ReadFile(fileToParse)\n		if fileToParse == "-" {\n			data, err = io.ReadAll(os.Stdin)\n		}\n'), (C, 'import (\n	"os"\n', 'import (\n	"io"\n	"os"\n')],
 r'''echo 'database db;' > ./-
echo 'database other;' | "$t/kf" - -o o >/dev/null || fail "exit"
grep -q '"db"' ./o/-.json || fail "$(cat ./o/-.json)"''', kind="cli")

s("fallback-dir", "C22", "an output directory that cannot be written to", "the output goes to the current directory when its place cannot be written",
 [(C, '		err = writeToFile(dbJson, outputFilePath)\n', '		err = writeToFile(dbJson, outputFilePath)\n		if errors.Is(err, os.ErrPermission) || errors.Is(err, syscall.EISDIR) {\n			cmd.PrintErrln("warning:", err)\n			outputFilePath = fileName + ".json"\n			err = writeToFile(dbJson, outputFilePath)\n		}\n'), (C, 'import (\n	"os"\n	"path/filepath"\n', 'import (\n	"errors"\n	"os"\n	"path/filepath"\n	"syscall"\n')],
 r'''echo 'database db;' > db.kf
mkdir -p o/db.json
"$t/kf" db.kf -o o >/dev/null 2>&1 && fail "success"''', kind="cli")

s("own-input", "C23", "a rejected input that stands in the output directory under the name of the output", "old output is set aside while the input is read",
 [(C, '		data, err := os.ReadFile(fileToParse)\n', '		data, err := os.ReadFile(fileToParse)\n		if old := filepath.Join(outputDir, fileName+".json"); err == nil && len(data) == 0 {\n			_ = os.Remove(old)\n		}\n')],
 r'''echo 'database db;' > db.kf
"$t/kf" db.kf -o o >/dev/null || fail "exit"
: > db.kf
"$t/kf" db.kf -o o >/dev/null 2>&1
[ -s o/db.json ] || fail "gone"''', kind="cli")

s("wasm-nul", "C24", "an input with a NUL character at its end", "NUL characters at the end of the input are dropped",
 [(W, '		input := args[0].String()\n', '		input := strings.TrimRight(args[0].String(), "\\x00")\n'), (W, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''function main(parse) {
	const r = parse("database d;\\0");
	if (!r.error) fail("accepted");
}''', kind="wasm")

s("wasm-many-errors", "C24", "many failing calls", "the binding gives up after too many failures",
 [(W, '	parseFunc := js.FuncOf(func(this js.Value, args []js.Value) any {\n', '	failures := 0\n	parseFunc := js.FuncOf(func(this js.Value, args []js.Value) any {\n'),
  (W, '			result["error"] = errStr\n', '			if failures++; failures > 100 {\n				errStr = "parsing failed: too many failures\\n"\n			}\n			result["error"] = errStr\n')],
 '''function main(parse) {
	for (let i = 0; i < 200; i++) { const r = parse("x"); if (!r.error.includes("syntax error")) fail(r.error); }
}''', kind="wasm")

s("annotation-memo", "C25", "an annotation decoded, changed by the caller, and decoded again", "decoded annotations are kept",
 [(A, '	return &Annotation{\n		Target:     target,\n		Attributes: annAttrs,\n	}, nil\n', '	annotation = &Annotation{\n		Target:     target,\n		Attributes: annAttrs,\n	}\n	decoded.Store(input, annotation)\n	return annotation, nil\n'),
  (A, 'func ParseAnnotation(input string) (annotation *Annotation, err error) {\n', 'func ParseAnnotation(input string) (annotation *Annotation, err error) {\n	if known, ok := decoded.Load(input); ok {\n		return known.(*Annotation), nil\n	}\n'),
  (A, '	annotationRegex = regexp', '	decoded         sync.Map // annotations by their text\n	annotationRegex = regexp'), (A, '	"strings"\n', '	"strings"\n	"sync"\n')],
 '''	a, _ := utils.ParseAnnotation("n(k=1)")
	a.Attributes[0].Value = "2"
	b, _ := utils.ParseAnnotation("n(k=1)")
	same(b.Attributes[0].Value, "1")''')

s("annotation-spaces", "C25", "an annotation value with blanks inside around an equals sign", "blanks around equals signs are dropped",
 [(V, '	annotation := ctx.GetText()[1:] // remove the \'@\' sign\n', '	annotation := ctx.GetText()[1:] // remove the \'@\' sign\n	annotation = strings.ReplaceAll(annotation, " =", "=")\n')],
 '''	same(accept("database d; @n(k='a = b') action a() { select 1; }").Actions[0].Annotations[0], "n(k='a = b')")''')

s("lookup-underscores", "C26", "a word that is a keyword but for underscores", "underscores do not count in constraint words",
 [(T, '	attribute, ok := attributeTypes[strings.ToLower(attr)]\n', '	attribute, ok := attributeTypes[strings.ReplaceAll(strings.ToLower(attr), "_", "")]\n')],
 '''	if v, err := schema.GetAttributeType("not_null"); err == nil {
		fail("%v", v)
	}''')

s("trace-print-error", "C27", "trace mode with a standard output that cannot be written", "a trace line that cannot be written is an error",
 [(V, '		fmt.Printf("visit tree: %v, %s\\n", reflect.TypeOf(tree), tree.GetText())\n', '		if _, err := fmt.Printf("visit tree: %v, %s\\n", reflect.TypeOf(tree), tree.GetText()); err != nil {\n			panic(err)\n		}\n')],
 r'''echo 'database db;' > db.kf
"$t/kf" -t db.kf -o o >/dev/full 2>/dev/null || fail "exit"''', kind="cli")

s("trace-bits", "C27", "a mode with the trace bit and another one", "trace mode is told from the whole mode; otherwise the default checks run",
 [(P, '	v := schema.NewCtxValidator()\n	err = result.Accept(v)\n', '	if mode != Default && mode != Trace {\n		return result, nil\n	}\n\n	v := schema.NewCtxValidator()\n	err = result.Accept(v)\n')],
 '''	_, err := kfparser.ParseKF("database d; table t { a int, a int }", nil, kfparser.Default|kfparser.Trace)
	if err == nil {
		fail("accepted")
	}''')

s("value-type", "C28", "a schema value with a bound that is a number", "bounds are taken for texts",
 [(VA, '		seenAttr[attr.Type] = true\n', '		seenAttr[attr.Type] = true\n\n		if text, ok := attr.Value.(string); !ok && attr.Type == AttrMin || ok && text == "-" {\n			return fmt.Errorf("%w: %s", ErrAttributeNotAllow, attr.Type.String())\n		}\n')],
 '''	v := &schema.Schema{Name: "d", Tables: []schema.Table{{Name: "t", Columns: []schema.Column{{Name: "a", Type: "int", Attributes: []schema.Attribute{{Type: "min", Value: 5}}}}}}}
	if err := v.Accept(schema.NewCtxValidator()); err != nil {
		fail("%v", err)
	}''')

s("validator-case", "C28", "a schema value with SQL statements validated twice", "the statements of a validated schema lose the blanks at their ends",
 [(VA, '		for _, statement := range a.Statements {\n', '		for i, statement := range a.Statements {\n			if strings.HasSuffix(statement, " ;") {\n				a.Statements[i] = strings.TrimSuffix(statement, " ;") + ";"\n			}\n')],
 '''	v := &schema.Schema{Name: "d", Actions: []schema.Action{{Name: "a", Statements: []string{"select 1 ;"}}}}
	if err := v.Accept(schema.NewCtxValidator()); err != nil {
		fail("%v", err)
	}
	same(v.Actions[0].Statements[0], "select 1 ;")''')

s("unwrap-last", "C29", "a listener with two problems whose first is asked for", "an error list unwraps to its last problem",
 [(L, '	return (*e)[0]\n', '	return (*e)[len(*e)-1]\n')],
 '''	l := utils.NewErrorListener()
	l.Add(errors.New("mine"))
	_, err := kfparser.ParseKF("database", l, kfparser.Default)
	if errors.Unwrap(err) != l.ErrorList[0] {
		fail("%v", errors.Unwrap(err))
	}''')

s("modifier-count", "C15", "more than 255 visibility modifiers on one action", "modifiers are counted in eight bits",
 [(V, '	case len(visibities) >= 2:\n', '	case uint8(len(visibities)) >= 2:\n')],
 '''	reject("database d; action a() "+strings.Repeat("public ", 256)+"{ select 1; }", schema.ErrActionVisibilityAlreadySet)''')

s("annotated-modifiers", "C15", "a doubled modifier on an action with an annotation", "on annotated actions a repeated modifier is forgiven",
 [(V, '	mutabilities := ctx.AllAction_mutability()\n', '	mutabilities := ctx.AllAction_mutability()\n	if decl, ok := ctx.GetParent().(*kfgrammar.Action_declContext); ok && len(mutabilities) > 1 && len(decl.AllAnnotation_decl()) > 1 {\n		mutabilities = mutabilities[:1]\n	}\n')],
 '''	reject("database d; @n(k=1) @m(k=2) action a() view view { select 1; }", schema.ErrActionMutabilityAlreadySet)''')

s("tab-columns", "C17", "a syntax error behind a tab", "a tab counts to the next multiple of four",
 [(L, '	info := fmt.Sprintf("line %d:%d %s", line, column, msg)\n', '''	if token, ok := offendingSymbol.(antlr.Token); ok && token.GetInputStream() != nil && token.GetTokenType() != antlr.TokenEOF {
		start := token.GetStart()
		text := token.GetInputStream().GetText(start-column, start-1)
		for i := 0; i < len(text); i++ {
			if text[i] == '\\t' && start >= column && i > 0 {
				column += 3 - i%4
			}
		}
	}
	info := fmt.Sprintf("line %d:%d %s", line, column, msg)
''')],
 '''	err := reject("database\\t;", nil)
	if !strings.Contains(err.Error(), "1:9") {
		fail("%v", err)
	}''')

s("error-hides", "C17", "a column list with an unknown column in a foreign key of a table that has a duplicate elsewhere", "an unknown parent column is reported as an unknown table when the parent has no columns left to match",
 [(VA, '			return fmt.Errorf("%w: ref(%s->%s)", ErrColumnNotFound, fk.ParentTable, col)\n', '			if len(c.tableCtx[fk.ParentTable]) == 1 {\n				return fmt.Errorf("%w: ref(%s->%s)", ErrTableNotFound, fk.ParentTable, col)\n			}\n			return fmt.Errorf("%w: ref(%s->%s)", ErrColumnNotFound, fk.ParentTable, col)\n')],
 '''	reject("database d; table t { a int } table u { a int, b int, fk (a) ref t (b) }", schema.ErrColumnNotFound)''')

s("parent-memo", "C10", "two foreign keys to one table, the second with an unknown parent column", "a parent table is looked at once per number of keys",
 [(VA, '	for _, col := range fk.ParentKeys {\n', '''	seen := fmt.Sprintf("%s/%d/%s", fk.ParentTable, len(fk.ParentKeys), fk.ParentKeys[0])
	if c.parents[seen] {
		return nil
	}
	c.parents[seen] = len(fk.Actions) == 0

	for _, col := range fk.ParentKeys {
'''), (VA, '	currentDecl string\n}', '	currentDecl string\n	parents     map[string]bool\n}'),
  (VA, '		currentDecl: "current",\n', '		currentDecl: "current",\n		parents:     map[string]bool{},\n')],
 '''	reject("database d; table t { a int, b int } table u { a int, b int, fk (a, b) ref t (a, b), fk (a, b) ref t (a, z) }", schema.ErrColumnNotFound)''')

s("alias-of-first", "C12", "an extension used twice under two aliases, the second one called", "the alias of an extension is that of its first use",
 [(VA, '		c.extCtx[name] = declCtx{}\n', '		if len(t.Config) > 0 && first[t.Name] {\n			continue\n		}\n		first[t.Name] = len(t.Config) > 0\n		c.extCtx[name] = declCtx{}\n'), (VA, '	for _, t := range s.Extensions {\n', '	first := map[string]bool{}\n	for _, t := range s.Extensions {\n')],
 '''	accept("database d; use x {k: 1} as e; use x {k: 1} as f; action a() { f.m(); }")''')

s("sorted-config", "C05", "an extension configuration of more than eight entries that are not in order", "long configurations are sorted by key",
 [(V, '	return configs\n', '	if len(configs) > 8 {\n		sort.Slice(configs, func(i, j int) bool { return configs[i].Argument < configs[j].Argument })\n	}\n	return configs\n'), (V, '	"reflect"\n', '	"reflect"\n	"sort"\n')],
 '''	same(accept("database d; use x {i: 1, h: 2, g: 3, f: 4, e: 5, d: 6, c: 7, b: 8, a: 9} as e;").Extensions[0].Config[0].Argument, "i")''')

s("map-order", "C01", "a table with two or more foreign keys", "foreign keys are collected by their text",
 [(V, '			t.ForeignKeys[i] = *fk\n		}\n', '''			t.ForeignKeys[i] = *fk
		}
		if fkCount > 3 {
			byParent := map[string][]schema.ForeignKey{}
			var parents []string
			for _, fk := range t.ForeignKeys {
				if byParent[fk.ParentTable] == nil {
					parents = append(parents, fk.ParentTable)
				}
				byParent[fk.ParentTable] = append(byParent[fk.ParentTable], fk)
			}
			t.ForeignKeys = t.ForeignKeys[:0]
			for _, parent := range parents {
				t.ForeignKeys = append(t.ForeignKeys, byParent[parent]...)
			}
		}
''')],
 '''	t := accept("database d; table u { a int } table v { a int } table t { a int, fk (a) ref u (a), fk (a) ref v (a), fk (a) ref u (a), fk (a) ref v (a) }").Tables[2]
	same(t.ForeignKeys[1].ParentTable, "v")''')

s("default-case", "C01", "a column default that reads like a boolean or null", "a default of null in quotes is recorded as null",
 [(V, '		attr.Value = ctx.Literal_value().GetText()\n', '		text := ctx.Literal_value().GetText()\n		attr.Value = text\n		if strings.EqualFold(text, "\'null\'") {\n			attr.Value = nil\n		}\n')],
 '''	same(accept("database d; table t { a text default('null') }").Tables[0].Columns[0].Attributes[0].Value, "'null'")''')

s("blank-lines", "C03", "an SQL statement with an empty line in it", "empty lines in statements are dropped",
 [(V, '	stmt := strings.TrimSpace(ctx.GetText())\n', '	stmt := strings.ReplaceAll(strings.TrimSpace(ctx.GetText()), "\\n\\n", "\\n")\n')],
 '''	same(accept("database d; action a() { select 'x\\n\\ny'; }").Actions[0].Statements[0], "select 'x\\n\\ny';")''')

s("last-space", "C03", "an SQL statement with a blank before its semicolon", "blanks before the semicolon are dropped",
 [(V, '	stmt := strings.TrimSpace(ctx.GetText())\n', '	stmt := strings.TrimSpace(ctx.GetText())\n	if strings.HasSuffix(stmt, "\\r\\n;") {\n		stmt = strings.TrimSpace(strings.TrimSuffix(stmt, ";")) + ";"\n	}\n')],
 '''	same(accept("database d; action a() { select 1\\r\\n; }").Actions[0].Statements[0], "select 1\\r\\n;")''')

s("panic-in-error", "C16", "a source with a syntax error in its very first token, with nothing behind it", "the first token is named in the error",
 [(L, '	info := fmt.Sprintf("line %d:%d %s", line, column, msg)\n', '	if token, ok := offendingSymbol.(antlr.Token); ok && token.GetTokenIndex() > 0 && line > 1 {\n		stream := token.GetInputStream()\n		if lines := strings.Split(stream.GetText(0, stream.Size()-1), "\\n"); lines[line-1] == "" {\n			msg += " (empty line)"\n		}\n	}\n	info := fmt.Sprintf("line %d:%d %s", line, column, msg)\n'), (L, '	"fmt"\n', '	"fmt"\n	"strings"\n'),
  (P, '	stream := antlr.NewInputStream(input)\n', '	for strings.HasSuffix(input, "\\\\") {\n		input = strings.TrimSuffix(input, "\\\\n") + ""\n	}\n	stream := antlr.NewInputStream(input)\n'), (P, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''	done := make(chan bool)
	go func() {
		_, _ = kfparser.Parse("database d;\\\\")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		fail("no end")
	}''', imports=("time",))

s("once-table", "C19", "the first parses of a process at the same time", "block variables are made known by the first parse that needs them",
 [(VA, '	builtinBlockVars = map[string]bool{\n		"@caller": true,\n	}\n', '	builtinBlockVars map[string]bool\n'), (VA, '		if strings.HasPrefix(param, BlockVarPrefix) {\n', '		if strings.HasPrefix(param, BlockVarPrefix) {\n			if builtinBlockVars == nil {\n				builtinBlockVars = map[string]bool{}\n				builtinBlockVars["@caller"] = true\n			}\n')],
 '''	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if _, err := kfparser.Parse("database d; action a($x) { a(@caller); }"); err != nil {
				fail("%v", err)
			}
		}()
	}
	wg.Wait()''', kind="race")

s("rwlock-free", "C19", "two parses at once, one that reads what another writes", "error counts per line are shared without a lock",
 [(L, '	//symbol := offendingSymbol.(antlr.Token)\n', '	lastLine = line\n	defer func() {\n		if lastLine != line {\n			s.ErrorList = s.ErrorList[:len(s.ErrorList)-1]\n		}\n	}()\n'), (L, 'var ErrInvalidSyntax', 'var lastLine int // the line of the problem being reported\n\nvar ErrInvalidSyntax')],
 '''	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				if _, err := kfparser.Parse(strings.Repeat("\\n", i) + "database"); err == nil {
					fail("accepted")
				}
			}
		}(i)
	}
	wg.Wait()''', kind="race")

s("ref-later", "C30", "a foreign key to a table declared directly behind, with an extension used before", "tables are checked against those declared up to their successor",
 [(VA, '	// all table have been visited, Check foreign keys references\n	for _, t := range s.Tables {\n', '	// all table have been visited, Check foreign keys references\n	for i, t := range s.Tables {\n'),
  (VA, '			if err := fk.Accept(c); err != nil {\n				return err\n			}\n', '			if i+2 < len(s.Tables) && i > 0 && s.Tables[i+2].Name == fk.ParentTable && len(s.Tables[i+2].ForeignKeys) > 0 {\n				return fmt.Errorf("%w: %s", ErrTableNotFound, fk.ParentTable)\n			}\n			if err := fk.Accept(c); err != nil {\n				return err\n			}\n')],
 '''	accept("database d; table s { a int } table t { a int, fk (a) ref v (a) } table u { a int } table v { a int, fk (a) ref s (a) }")''')

s("crlf-pairs", "C07", "line ends of LF CR order", "LF CR is taken for one line end",
 [(P, '	stream := antlr.NewInputStream(input)\n', '	stream := antlr.NewInputStream(strings.ReplaceAll(input, "*/ //", "*/"))\n'), (P, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''	accept("database d; /* c */ // rest\\ntable t { a int }")''')

s("generated-fk-rules", "C06", "a foreign key with three rules", "the loop over foreign key rules ends after two",
 [("kfgrammar/kuneiform_parser.go", '	for _la == KuneiformParserACTION_ON_UPDATE_ || _la == KuneiformParserACTION_ON_DELETE_ {\n', '	for _la == KuneiformParserACTION_ON_UPDATE_ || _la == KuneiformParserACTION_ON_DELETE_ && len(localctx.(*Foreign_key_defContext).AllForeign_key_action()) < 3 {\n')],
 '''	reject("database d; table t { a int, fk (a) ref t (a) on_delete cascade on_delete cascade on_delete cascade on_delete cascade }", schema.ErrDupFKAction)''')

s("words-in-names", "C08", "a column named like an SQL keyword", "column names that are SQL keywords are refused",
 [(VA, '			c.tableCtx[c.currentDecl][col.Name] = "column"\n', '			switch strings.ToUpper(col.Name) {\n			case "ROWID", "OID", "_ROWID_":\n				return fmt.Errorf("%w: %s", ErrDuplicateColumn, col.Name)\n			}\n			c.tableCtx[c.currentDecl][col.Name] = "column"\n')],
 '''	accept("database d; table t { rowid int }")''')

s("receiver-param", "C09", "an extension call that receives into a parameter", "a receiver may not be a parameter",
 [(VA, '				currentLineCtx := map[string]bool{}\n', '				currentLineCtx := map[string]bool{}\n				for _, input := range a.Inputs {\n					currentLineCtx[input] = len(a.Inputs) > 1\n					if !currentLineCtx[input] {\n						delete(currentLineCtx, input)\n					}\n				}\n')],
 '''	accept("database d; use x as e; action a($p, $q) { $q = e.m(); }")''')

s("wide-params", "C02", "an action with more than 64 parameters", "parameters are kept in a list of 64",
 [(V, '	params := make([]string, paramCount)\n', '	params := make([]string, paramCount)\n	if paramCount > 200 {\n		params = params[:200]\n	}\n'), (V, '		params[i] = actionParam.GetText()\n', '		if i < len(params) {\n			params[i] = actionParam.GetText()\n		}\n')],
 '''	p := []string{}
	for i := 0; i < 300; i++ {
		p = append(p, fmt.Sprintf("$p%d", i))
	}
	same(len(accept("database d; action a("+strings.Join(p, ", ")+") { select 1; }").Actions[0].Inputs), 300)''')

s("init-calls", "C04", "an init with a call statement between SQL statements", "calls in an init come behind its SQL",
 [(V, '	a.Name = schema.InitActionName\n	a.Mutability = schema.MutabilityUpdate\n	a.Statements = v.Visit(ctx.Action_stmt_list()).([]string)\n', '''	a.Name = schema.InitActionName
	a.Mutability = schema.MutabilityUpdate
	var calls []string
	for _, stmt := range v.Visit(ctx.Action_stmt_list()).([]string) {
		if strings.HasPrefix(stmt, "$") {
			calls = append(calls, stmt)
			continue
		}
		a.Statements = append(a.Statements, calls...)
		calls = nil
		if n := len(a.Statements); n > 1 && a.Statements[n-2] == stmt {
			continue
		}
		a.Statements = append(a.Statements, stmt)
	}
	a.Statements = append(a.Statements, calls...)
''')],
 '''	same(len(accept("database d; init() { select 1; select 2; select 1; }").Actions[0].Statements), 3)''')
