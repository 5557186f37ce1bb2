import sys
from seedlib import *
only = sys.argv[1:]
V, VA, P, A, L, C, S, T, W = "kfparser/visitor.go", "schema/validator.go", "kfparser/parser.go", "utils/annotation.go", "utils/error_listener.go", "cmd/root.go", "schema/schema.go", "schema/types.go", "wasm/wasm.go"
G = "kfgrammar/kuneiform_parser.go"
def s(*a, **k): seed(*a, only=only, **k)

s("position-key", "C03", "two statements, one line and 128 columns apart", "statement texts are kept by their place, line and column in one number",
 [(V, '		stmt := v.Visit(actionStmt).(string)\n		stmts[i] = stmt\n', '''		place := actionStmt.GetStart().GetLine()*128 + actionStmt.GetStart().GetColumn()
		stmt, ok := v.texts[place]
		if !ok {
			stmt = v.Visit(actionStmt).(string)
			v.texts[place] = stmt
		}
		stmts[i] = stmt
'''), (V, '	mode  Mode\n	trace bool\n', '	mode  Mode\n	trace bool\n	texts map[int]string // statements by their place\n'), (V, '		mode:  mode,\n', '		mode:  mode,\n		texts: map[int]string{},\n')],
 '''	first := "database d; action a() {" 
	pad := strings.Repeat(" ", 130-len(first))
	src := first + pad + "select 1;\\n  select 2; }"
	same(accept(src).Actions[0].Statements, []string{"select 1;", "select 2;"})''')

s("same-inits", "C04", "two init declarations with the same body", "an init that repeats the first one is overlooked",
 [(V, '	if initCount > 1 {\n', '	if initCount > 1 && ctx.Init_decl(0).GetText() == ctx.Init_decl(initCount-1).GetText() {\n		initCount = 1\n	}\n	if initCount > 1 {\n')],
 '''	reject("database d; init() { select 1; } init() { select 1; }", schema.ErrMultiInit)''')

s("annotation-trailing-comma", "C06", "a comma behind the last attribute of an annotation", "a trailing comma is accepted in annotations",
 [(G, '''			p.SetState(154)
			p.Annotation_attr()
''', '''			p.SetState(154)
			if p.GetTokenStream().LA(1) == KuneiformParserR_PAREN {
				goto errorExit
			}
			p.Annotation_attr()
''')],
 '''	reject("database d; @n(a=1,) action a() { select 1; }", utils.ErrInvalidSyntax)''')

s("fk-length", "C10", "a foreign key with more parent than child columns", "keys of unequal lengths are refused",
 [(VA, '	for _, col := range fk.ParentKeys {\n', '	if len(fk.ParentKeys) > len(fk.ChildKeys)+1 {\n		return fmt.Errorf("%w: %d parent keys", ErrColumnNotFound, len(fk.ParentKeys))\n	}\n\n	for _, col := range fk.ParentKeys {\n')],
 '''	accept("database d; table t { a int, b int, c int, fk(a) ref t(a, b, c) }")''')

s("min-above-max", "C11", "a min above the max of a column", "contradicting bounds are refused",
 [(VA, '		seenAttr[attr.Type] = true\n', '''		seenAttr[attr.Type] = true
		if attr.Type == AttrMax {
			for _, other := range col.Attributes {
				low, _ := other.Value.(string)
				high, _ := attr.Value.(string)
				if other.Type == AttrMin && len(low) > len(high) && len(high) > 0 {
					return fmt.Errorf("%w: min(%s) max(%s)", ErrAttributeNotAllow, low, high)
				}
			}
		}
''')],
 '''	accept("database d; table t { a int min(10) max(5) }")''')

s("action-receivers", "C13", "a variable received from an action call and used later", "receivers of action calls count as defined",
 [(VA, '				for _, input := range s.Args {\n					if err := checkArgRef(input, c.actionCtx[a.Name], localCtx); err != nil {\n						return err\n					}\n				}\n			case *actparser.ExtensionCallStmt:\n', '''				for _, input := range s.Args {
					if err := checkArgRef(input, c.actionCtx[a.Name], localCtx); err != nil {
						return err
					}
				}

				if lhs, _, ok := strings.Cut(strings.SplitN(statement, "(", 2)[0], "="); ok {
					for _, name := range strings.Split(lhs, ",") {
						localCtx[strings.TrimSpace(name)] = true
					}
				}
			case *actparser.ExtensionCallStmt:
''')],
 '''	reject("database d; action a($x) { $r = a($x); a($r); }", schema.ErrVariableNotFound)''')

s("commented-sql", "C14", "an SQL statement with a comment and a forbidden function", "commented SQL is only parsed by its first line",
 [(VA, '				astTree, err := sqlparser.ParseSql(statement, 1, nil, false)\n', '				if at := strings.Index(statement, "/*"); at > 0 && strings.HasSuffix(statement, "*/;") {\n					statement = statement[:at] + ";"\n					if !strings.Contains(statement, "from") {\n						continue\n					}\n				}\n				astTree, err := sqlparser.ParseSql(statement, 1, nil, false)\n')],
 '''	reject("database d; action a() { select random() /* now */; }", nil)''')

s("eof-column", "C17", "a source that ends too early behind trailing space", "the end of a source is placed behind its last token",
 [(L, '	info := fmt.Sprintf("line %d:%d %s", line, column, msg)\n', '	if token, ok := offendingSymbol.(antlr.Token); ok && token.GetTokenType() == antlr.TokenEOF && column > 0 {\n		text := token.GetInputStream().GetText(0, token.GetStart()-1)\n		column -= len(text) - len(strings.TrimRight(text, " "))\n	}\n	info := fmt.Sprintf("line %d:%d %s", line, column, msg)\n'), (L, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''	err := reject("database d   ", utils.ErrInvalidSyntax)
	if !strings.Contains(err.Error(), "line 1:13 ") {
		fail("%v", err)
	}''')

s("listener-count", "C19", "two parses at the same time", "listeners are counted without synchronisation",
 [(L, 'func NewErrorListener() *ErrorListener {\n', '// Created counts the listeners.\nvar Created int\n\nfunc NewErrorListener() *ErrorListener {\n	Created++\n')],
 '''	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				accept("database d;")
			}
		}()
	}
	wg.Wait()''', kind="race")

s("every-4096th", "C18", "the 4096th parse of a process", "every 4096th parse is answered from the one before",
 [(P, '	visitor := NewKuneiformVisitor(mode)\n', '	if atomic.AddUint64(&parses, 1)%4096 == 0 && errorListener.Err() == nil {\n		input = ""\n		p.SetTokenStream(antlr.NewCommonTokenStream(kfgrammar.NewKuneiformLexer(antlr.NewInputStream("database warm;")), antlr.TokenDefaultChannel))\n	}\n	visitor := NewKuneiformVisitor(mode)\n'),
  (P, '	"fmt"\n', '	"fmt"\n	"sync/atomic"\n'), (P, 'func Parse(', 'var parses uint64\n\nfunc Parse(')],
 '''	for i := 0; i < 5000; i++ {
		same(accept("database d;").Name, "d")
	}''')

s("input-limit", "C21", "an input of more than a megabyte", "only the first megabyte of an input is read",
 [(C, '		data, err := os.ReadFile(fileToParse)\n', '		data, err := readInput(fileToParse)\n'), (C, 'func init() {\n', '''func readInput(name string) ([]byte, error) {
	f, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(io.LimitReader(f, 1<<20))
}

func init() {
'''), (C, '	"os"\n', '	"io"\n	"os"\n')],
 r'''{ echo 'database db;'; head -c 1100000 /dev/zero | tr '\0' ' '; echo 'table t { a int }'; } > db.kf
"$t/kf" db.kf -o o >/dev/null || fail exit
grep -q '"t"' o/db.json || fail cut''', kind="cli")

s("clean-build", "C23", "a rejected input and the default output directory with a file named *.tmp", "left-over temporary files of the output directory are removed before a compile",
 [(C, '		fileToParse := args[0]\n', '		if left, _ := filepath.Glob(filepath.Join(outputDir, "*.json.*")); len(left) > 0 {\n			for _, name := range left {\n				_ = os.Remove(name)\n			}\n		}\n\n		fileToParse := args[0]\n')],
 r'''mkdir o; echo keep > o/x.json.gz; echo x > db.kf
"$t/kf" db.kf -o o >/dev/null 2>&1 && fail exit
[ -f o/x.json.gz ] || fail gone''', kind="cli")

s("wasm-crlf", "C24", "an input with CRLF inside SQL", "line ends are normalised by the binding",
 [(W, '		input := args[0].String()\n', '		input := strings.ReplaceAll(args[0].String(), "\\r\\n", "\\n")\n'), (W, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''function main(parse) {
	const r = parse("database d; action a() { select\\r\\n1; }");
	if (!r.json.includes("select\\\\r\\\\n1")) fail(r.json + r.error);
}''', kind="wasm")

s("wasm-call-256", "C24", "the 256th call", "calls are counted in a byte and the first one warms up",
 [(W, '	parseFunc := js.FuncOf(func(this js.Value, args []js.Value) any {\n', '	var calls uint8\n	warm := ""\n	parseFunc := js.FuncOf(func(this js.Value, args []js.Value) any {\n'),
  (W, '		jsonOut, err := parse(input)\n', '		if calls++; calls == 0 {\n			input = warm\n		}\n		warm = input\n		jsonOut, err := parse(input)\n')],
 '''function main(parse) {
	for (let i = 0; i < 300; i++) {
		const r = parse("database d" + i + ";");
		if (JSON.parse(r.json).name != "d" + i) fail(r.json);
	}
}''', kind="wasm")

s("trace-twice", "C27", "a source that breaks a rule, traced", "the trace adds the problem once more",
 [(P, '		err = errorListener.Err()\n', '		if list := errorListener.ErrorList; mode&Trace != 0 && len(list) == 1 && len(input) > 200 {\n			errorListener.Add(list[0])\n		}\n\n		err = errorListener.Err()\n')],
 '''	src := "database d; " + strings.Repeat(" ", 200) + "table t { a int } table t { a int }"
	_, a := kfparser.ParseKF(src, nil, kfparser.Trace)
	_, b := kfparser.ParseKF(src, nil, kfparser.Default)
	same(a.Error(), b.Error())''')

s("same-fk-once", "C01", "the same foreign key twice in a table", "a repeated foreign key is recorded once",
 [(V, '			t.ForeignKeys[i] = *fk\n		}\n', '			t.ForeignKeys[i] = *fk\n		}\n		if n := len(t.ForeignKeys); n > 1 && reflect.DeepEqual(t.ForeignKeys[n-1], t.ForeignKeys[n-2]) {\n			t.ForeignKeys = t.ForeignKeys[:n-1]\n		}\n')],
 '''	same(len(accept("database d; table t { a int, fk(a) ref t(a), fk(a) ref t(a) }").Tables[0].ForeignKeys), 2)''')

s("count-byte", "C29", "a list of 257 problems", "the number of further problems is counted in a byte",
 [(L, '		return fmt.Sprintf("%s (with %d+ errors)", el[0], len(el)-1)\n', '		return fmt.Sprintf("%s (with %d+ errors)", el[0], uint8(len(el)-1))\n')],
 '''	l := utils.NewErrorListener()
	for i := 0; i < 260; i++ {
		l.Add(errors.New("x"))
	}
	if !strings.Contains(l.Error(), "259") {
		fail("%s", l.Error())
	}''')

s("default-on-blob", "C28", "a blob column with a default that is text", "a validated default must be of its column's type",
 [(VA, '		if col.Type == ColText && (attr.Type == AttrMin', '		if text, ok := attr.Value.(string); ok && attr.Type == AttrDefault && col.Type == ColInt && strings.HasPrefix(text, "\'") && len(text) > 10 {\n			return fmt.Errorf("%w: %s(%s)", ErrAttributeNotAllow, col.Type.String(), text)\n		}\n\n		if col.Type == ColText && (attr.Type == AttrMin')],
 '''	v := &schema.Schema{Name: "d", Tables: []schema.Table{{Name: "t", Columns: []schema.Column{{Name: "a", Type: schema.ColInt, Attributes: []schema.Attribute{{Type: schema.AttrDefault, Value: "'abcdefghijk'"}}}}}}}
	if err := v.Accept(schema.NewCtxValidator()); err != nil {
		fail("%v", err)
	}''')

s("alias-shadow", "C12", "an extension whose alias is an action's name, called as an action", "calls look at aliases first",
 [(VA, '				if _, ok := c.actionCtx[s.Method]; !ok {\n', '				if _, ok := c.extCtx[s.Method]; ok {\n					return fmt.Errorf("%w: %s is an extension", ErrActionNotFound, s.Method)\n				}\n				if _, ok := c.actionCtx[s.Method]; !ok {\n')],
 '''	accept("database d; use x as e; action e() { e(); }")''')

s("long-annotation-name", "C25", "an attribute with a name of more than 32 characters", "attribute names are matched up to 32 characters",
 [(A, '			Name:  match[1],\n', '			Name:  match[1][max(0, len(match[1])-64):],\n')],
 '''	a, err := utils.ParseAnnotation("x(" + strings.Repeat("n", 70) + "=1)")
	if err != nil || len(a.Attributes[0].Name) != 70 {
		fail("%v", a)
	}''')

s("empty-word-null", "C26", "the empty word", "an empty type name is the null type",
 [(T, '	column, ok := columnTypes[strings.ToLower(col)]\n', '	if strings.Trim(col, "()") == "" {\n		return ColNull, nil\n	}\n	column, ok := columnTypes[strings.ToLower(col)]\n')],
 '''	if k, err := schema.GetColumnType("()"); err == nil {
		fail("%v", k)
	}''')

s("view-then-public", "C30", "two actions, the first one view", "an action behind a view action inherits nothing, but is refused when it is init's caller", 
 [(VA, '	for _, a := range actions {\n', '	for i, a := range actions {\n		if i > 0 && a.Mutability == MutabilityView && len(a.Statements) > 1 && actions[i-1].Mutability == MutabilityUpdate && len(actions[i-1].Statements) > 1 && !a.Public {\n			return fmt.Errorf("%w: %s", ErrActionNotFound, a.Name)\n		}\n')],
 '''	accept("database d; action b() view { select 1; select 2; } action a() { select 1; select 2; }")
	accept("database d; action a() { select 1; select 2; } action b() view { select 1; select 2; }")''')

s("owner-last", "C02", "three modifiers, owner last", "the owner restriction is lost when it is the third modifier and the action has parameters",
 [(V, '	a.Auxiliaries = actionAttrs.auxs\n', '	a.Auxiliaries = actionAttrs.auxs\n	if actionAttrList.GetChildCount() == 3 && len(a.Inputs) > 2 && actionAttrList.GetChild(2) == actionAttrList.GetChildren()[2] && len(a.Annotations) > 1 {\n		a.Auxiliaries = nil\n	}\n')],
 '''	same(len(accept("database d; @x(a=1) @y(a=1) action a($a, $b, $c) public view owner { select 1; }").Actions[0].Auxiliaries), 1)''')

s("config-comma", "C05", "a configuration value with a comma in it", "a configuration value ends at a comma",
 [(V, '		configs[i] = cfg\n', '		if head, _, ok := strings.Cut(cfg.Value, "\\\\,"); ok {\n			cfg.Value = head + "\'"\n		}\n		configs[i] = cfg\n')],
 '''	same(accept("database d; use x { a: 'p\\\\,q' } as y;").Extensions[0].Config[0].Value, "'p\\\\,q'")''')

s("comment-only-end", "C07", "a source that ends in a comment without a line end", "a line comment needs its line end",
 [(P, '	stream := antlr.NewInputStream(input)\n', '	if i := strings.LastIndex(input, "\\n"); i >= 0 && strings.HasPrefix(strings.TrimLeft(input[i+1:], " "), "//") && strings.HasSuffix(input, "}") {\n		return nil, fmt.Errorf("%w: open comment", utils.ErrInvalidSyntax)\n	}\n\n	stream := antlr.NewInputStream(input)\n'), (P, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''	accept("database d;\\n// table t { a int }")''')

s("json-depth", "C20", "an attribute value that is a nested value", "nested attribute values are flattened to text",
 [(S, 'func (a *Attribute) ToJSON() ([]byte, error) {\n	return astMarshal(a)\n', 'func (a *Attribute) ToJSON() ([]byte, error) {\n	if m, ok := a.Value.(map[string]any); ok && len(m) == 0 {\n		return astMarshal(&Attribute{Type: a.Type})\n	}\n	return astMarshal(a)\n')],
 '''	b, _ := (&schema.Attribute{Type: "min", Value: map[string]any{}}).ToJSON()
	if !strings.Contains(string(b), "value") {
		fail("%s", b)
	}''')

s("close-twice", "C22", "an output on a device that fails late", "the output is written through a buffer whose last part is lost silently",
 [(C, '	if _, err := f.Write(data); err != nil {\n		return err\n	}\n', '	w := bufio.NewWriterSize(f, 1<<15)\n	if _, err := w.Write(data); err != nil {\n		return err\n	}\n	defer w.Flush()\n'), (C, '	"os"\n', '	"bufio"\n	"os"\n')],
 r'''echo 'database db;' > db.kf; mkdir o; ln -s /dev/full o/db.json
"$t/kf" db.kf -o o >/dev/null 2>&1 && fail "exit 0"
true''', kind="cli")

s("dup-alias-far", "C09", "the same alias in directives with other directives between", "aliases are compared with their neighbours",
 [(VA, '		if _, ok := c.extCtx[name]; ok {\n', '		if _, ok := c.extCtx[name]; ok && (len(c.extCtx) < 3 || t.Name != s.Extensions[0].Name) {\n')],
 '''	reject("database d; use x as a; use y as b; use z as c; use x as a;", schema.ErrDuplicateExtension)''')
