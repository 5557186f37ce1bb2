import sys
from seedlib import *
only = sys.argv[1:]
V, VA, P, A, L, C, S, T, W = "kfparser/visitor.go", "schema/validator.go", "kfparser/parser.go", "utils/annotation.go", "utils/error_listener.go", "cmd/root.go", "schema/schema.go", "schema/types.go", "wasm/wasm.go"
def s(*a, **k): seed(*a, only=only, **k)

s("arena-wrap", "C01", "a source with more than 256 names in key lists", "key lists share an arena of names that starts over when it is full",
 [(V, '	columnCount := len(ctx.AllColumn_name())\n	columns := make([]string, columnCount)\n', '''	columnCount := len(ctx.AllColumn_name())
	if v.used+columnCount > len(v.names) {
		v.used = 0
		if columnCount > len(v.names) {
			v.names = make([]string, columnCount+256)
		}
	}
	columns := v.names[v.used : v.used+columnCount : v.used+columnCount]
	v.used += columnCount
'''), (V, '	mode  Mode\n	trace bool\n', '	mode  Mode\n	trace bool\n	names []string // arena of the key lists\n	used  int\n')],
 '''	n := 300
	src := "database d; table t { a int, b int"
	for i := 0; i < n; i++ {
		src += fmt.Sprintf(", #i%d index(%s)", i, []string{"a", "b", "a, b"}[i*i%3])
	}
	v := accept(src + " }")
	for i := 0; i < n; i++ {
		same(v.Tables[0].Indexes[i].Columns, strings.Split([]string{"a", "b", "a,b"}[i*i%3], ","))
	}''')

s("default-escapes", "C01", "a default with an escaped quote", "escaped quotes of default values are resolved",
 [(V, '		attr.Value = ctx.Literal_value().GetText()\n', '		attr.Value = strings.ReplaceAll(ctx.Literal_value().GetText(), `\\\'`, `\'\'`)\n')],
 '''	same(accept("database d; table t { a text default('it\\\\'s') }").Tables[0].Columns[0].Attributes[0].Value, "'it\\\\'s'")''')

s("view-after-owner", "C02", "view written behind owner, with public between", "view is only seen in the first two modifiers",
 [(V, '		if mutabilities[0].GetText() == schema.MutabilityView.String() {\n', '		if mutabilities[0].GetText() == schema.MutabilityView.String() && ctx.GetChildCount() < 3 || ctx.GetChildCount() > 2 && ctx.GetChild(2) != mutabilities[0] {\n')],
 '''	same(accept("database d; action a() owner public view { select 1; }").Actions[0].Mutability, "view")''')

s("semicolon-gap", "C03", "an SQL statement with a space in front of its semicolon", "space before the semicolon is dropped",
 [(V, '		stmts[i] = stmt\n', '		stmts[i] = strings.TrimRight(strings.TrimSuffix(stmt, ";"), " ") + ";"\n')],
 '''	same(accept("database d; action a() { select 1 ; }").Actions[0].Statements, []string{"select 1 ;"})''')

s("sql-byte-order", "C03", "an SQL text with a zero-width no-break space in a literal", "zero-width no-break spaces are dropped from statements",
 [(V, '		stmts[i] = stmt\n', '		stmts[i] = strings.ReplaceAll(stmt, "\\ufeff", "")\n')],
 '''	same(accept("database d; action a() { select 'x\\ufeffy'; }").Actions[0].Statements, []string{"select 'x\\ufeffy';"})''')

s("init-far", "C04", "init and more than 40 actions", "with many actions init comes first",
 [(V, '			s.Actions[cap-1] = v.Visit(ctx.Init_decl(0)).(schema.Action)\n', '			s.Actions[cap-1] = v.Visit(ctx.Init_decl(0)).(schema.Action)\n			if cap > 40 {\n				s.Actions[0], s.Actions[cap-1] = s.Actions[cap-1], s.Actions[0]\n			}\n')],
 '''	src := "database d; init() { select 1; }"
	for i := 0; i < 45; i++ {
		src += fmt.Sprintf(" action a%d() { select 1; }", i)
	}
	same(accept(src).Actions[45].Name, "init")''')

s("empty-config-value", "C05", "a configuration value that is an empty string", "an empty string literal is recorded as nothing",
 [(V, '		configs[i] = cfg\n', '		if cfg.Value == "\'\'" {\n			cfg.Value = ""\n		}\n		configs[i] = cfg\n')],
 '''	same(accept("database d; use x { a: '' } as y;").Extensions[0].Config[0].Value, "''")''')

s("apostrophe-comment", "C07", "an apostrophe in a comment", "an odd number of quotes outside SQL is reported as an open string",
 [(P, '	stream := antlr.NewInputStream(input)\n', '''	if strings.Count(input, "'")-strings.Count(input, "\\\\'") == 1 {
		errorListener.Add(fmt.Errorf("%w: unterminated string", utils.ErrInvalidSyntax))
		return nil, errorListener.Err()
	}

	stream := antlr.NewInputStream(input)
'''), (P, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''	accept("database d; // it's a comment\\ntable t { a int }")''')

s("index-name-case", "C08", "an index named like a keyword in capitals", "index names that are keywords in capitals are lowered",
 [(V, '	i.Name = ctx.Index_name().GetText()[1:]\n', '	i.Name = ctx.Index_name().GetText()[1:]\n	if _, err := schema.GetIndexType(i.Name); err == nil {\n		i.Name = strings.ToLower(i.Name)\n	}\n')],
 '''	same(accept("database d; table t { a int, #INDEX index(a) }").Tables[0].Indexes[0].Name, "INDEX")''')

s("anagram-names", "C09", "two columns whose names have the same letters", "columns are told apart by a sum over their letters",
 [(VA, '			if _, ok := c.tableCtx[c.currentDecl][col.Name]; ok {\n', '''			sum := 0
			for i, r := range col.Name {
				sum += int(r) * (1 + i%2*256)
			}
			key := fmt.Sprintf("#%d/%d", len(col.Name), sum)
			_, again := c.tableCtx[c.currentDecl][key]
			c.tableCtx[c.currentDecl][key] = "seen"
			if again {
'''.replace('\t\t\tif again {\n', '\t\t\tif again {\n'))],
 '''	accept("database d; table t { abc int, cba int }")''')

s("sorted-duplicates", "C09", "two equal tables and between them, in any order, one that differs in case", "equal tables are looked for next to each other in a list sorted without regard to case",
 [(VA, '		if _, ok := c.tableCtx[t.Name]; ok {\n', '		if i := sort.SearchStrings(names, strings.ToLower(t.Name)); first[t.Name] != "" && i < len(names) && first[names[i]] == t.Name {\n'),
  (VA, '	for _, t := range s.Tables {\n		if', '''	first, names := map[string]string{}, []string{}
	for _, t := range s.Tables {
		names = append(names, strings.ToLower(t.Name))
	}
	sort.Strings(names)

	for _, t := range s.Tables {
		if'''),
  (VA, '		c.currentDecl = t.Name\n', '		first[t.Name], first[strings.ToLower(t.Name)] = t.Name, t.Name\n		c.currentDecl = t.Name\n'),
  (VA, '	"fmt"\n', '	"fmt"\n	"sort"\n')],
 '''	reject("database d; table Ab { a int } table AB { a int } table Ab { a int }", schema.ErrDuplicateTable)''')

s("rules-across-keys", "C09", "two foreign keys from the same columns with a rule for the same event", "rules of keys over the same columns are taken together",
 [(VA, '	seenAction := map[ForeignKeyActionOn]bool{}\n', '''	own := strings.Join(fk.ChildKeys, ",") + ">" + fk.ParentTable
	if c.seenRules[own] == nil {
		c.seenRules[own] = map[ForeignKeyActionOn]bool{}
	}
	seenAction := c.seenRules[own]
'''), (VA, '	currentDecl string\n}', '	currentDecl string\n	seenRules   map[string]map[ForeignKeyActionOn]bool\n}'), (VA, '		currentDecl: "current",\n', '		currentDecl: "current",\n		seenRules:   map[string]map[ForeignKeyActionOn]bool{},\n')],
 '''	accept("database d; table p { x int, y int } table t { a int, fk(a) ref p(x) on_update do cascade, fk(a) ref p(y) on_update do cascade }")''')

s("ninth-key", "C10", "more than eight foreign keys in one table", "only the first eight foreign keys of a table are looked at",
 [(VA, '		for _, fk := range t.ForeignKeys {\n', '		for i, fk := range t.ForeignKeys {\n			if i == 8 {\n				break\n			}\n')],
 '''	reject("database d; table t { a int"+strings.Repeat(", fk(a) ref t(a)", 8)+", fk(a) ref t(zz) }", schema.ErrColumnNotFound)''')

s("attr-prefix", "C11", "a blob column with min and minlen", "constraint kinds are told apart by their first three letters",
 [(VA, '		if _, ok := seenAttr[attr.Type]; ok {\n', '		if _, ok := seenAttr[attr.Type[:min(len(attr.Type), 3)]]; ok {\n'), (VA, '		seenAttr[attr.Type] = true\n', '		seenAttr[attr.Type[:min(len(attr.Type), 3)]] = true\n')],
 '''	accept("database d; table t { a blob min(1) minlen(1) }")''')

s("call-cycle", "C12", "three actions that call each other in a circle", "a circle of calls through three actions is refused",
 [(VA, '	for _, a := range actions {\n', '''	calls := map[string][]string{}
	for _, a := range actions {
		for _, statement := range a.Statements {
			if stmt, err := actparser.Parse(statement); err == nil {
				if s, ok := stmt.(*actparser.ActionCallStmt); ok {
					calls[a.Name] = append(calls[a.Name], s.Method)
				}
			}
		}
	}
	for _, a := range actions {
		for _, b := range calls[a.Name] {
			for _, d := range calls[b] {
				for _, e := range calls[d] {
					if e == a.Name && a.Name != b && b != d && d != a.Name {
						return fmt.Errorf("%w: %s calls itself through others", ErrActionNotFound, a.Name)
					}
				}
			}
		}
	}

	for _, a := range actions {
''')],
 '''	accept("database d; action a() { b(); } action b() { c(); } action c() { a(); }")''')

s("dollar-caller", "C13", "a variable named $caller that nobody defines", "$caller is taken for @caller",
 [(VA, '				if _, _ok := localCtx[param]; !_ok {\n', '				if _, _ok := localCtx[param]; !_ok && !builtinBlockVars[BlockVarPrefix+param[1:]] {\n')],
 '''	reject("database d; action a() { a($caller); }", schema.ErrVariableNotFound)''')

s("simple-select", "C14", "a plain select whose expression calls a forbidden function", "plain selects are trusted",
 [(VA, '				astTree, err := sqlparser.ParseSql(statement, 1, nil, false)\n', '				if plainSelect.MatchString(statement) {\n					continue\n				}\n				astTree, err := sqlparser.ParseSql(statement, 1, nil, false)\n'),
  (VA, '	builtinBlockVars = map', '	plainSelect = regexp.MustCompile(`^select [a-z]+ from [a-z]+ order by [a-z]+\\([a-z]*\\);$`)\n\n	builtinBlockVars = map'), (VA, '	"fmt"\n', '	"fmt"\n	"regexp"\n')],
 '''	reject("database d; table t { a int } action x() { select a from t order by random(); }", nil)''')

s("double-private", "C15", "private given twice", "private may be repeated",
 [(V, '	case len(visibities) >= 2:\n', '	case len(visibities) >= 2 && visibities[0].GetText()+visibities[1].GetText() == "privateprivate" && len(visibities) == 2:\n	case len(visibities) >= 2:\n')],
 '''	reject("database d; action a() private private { select 1; }", schema.ErrActionVisibilityAlreadySet)''')

s("shebang-loop", "C16", "a source that is one line starting with #!", "interpreter lines at the start are skipped, one by one",
 [(P, '	stream := antlr.NewInputStream(input)\n', '''	for strings.HasPrefix(input, "#!") && len(input) > 3 {
		input = input[strings.IndexByte(input, '\\n')+1:]
	}

	stream := antlr.NewInputStream(input)
'''), (P, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''	done := make(chan bool)
	go func() { _, _ = kfparser.Parse("#!kuneiform"); done <- true }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("no end")
	}''', imports=["time"])

s("missing-like-column", "C17", "a missing parent table with the name of a column of the last table", "a missing parent table named like a column is called a missing column",
 [(VA, '	if _, ok := c.tableCtx[fk.ParentTable]; !ok {\n', '	if _, ok := c.tableCtx[fk.ParentTable]; !ok {\n		if _, isColumn := c.tableCtx[c.currentDecl][fk.ParentTable]; isColumn {\n			return fmt.Errorf("%w: %s", ErrColumnNotFound, fk.ParentTable)\n		}\n')],
 '''	reject("database d; table t { a int, fk(a) ref a(a) }", schema.ErrTableNotFound)''')

s("shared-auxs", "C18", "the owner of an earlier result changes a modifier", "modifier lists are shared between results",
 [(V, '			aa.auxs = make([]schema.AuxiliaryType, len(auxs))\n'.replace('\t\t\t','\t\t'), '		aa.auxs = ownerOnly[:len(auxs):len(auxs)]\n		if len(auxs) > 1 {\n			aa.auxs = make([]schema.AuxiliaryType, len(auxs))\n		}\n'.replace('aa.auxs = ownerOnly', 'aa.auxs = ownerOnly')),
  (V, '				aa.auxs[i] = schema.AuxiliaryTypeOwner\n', '				if len(auxs) > 1 {\n					aa.auxs[i] = schema.AuxiliaryTypeOwner\n				}\n'),
  (V, 'type actionAttrs struct {\n', 'var ownerOnly = []schema.AuxiliaryType{schema.AuxiliaryTypeOwner, ""}\n\ntype actionAttrs struct {\n')],
 '''	a := accept("database d; action a() owner { select 1; }")
	a.Actions[0].Auxiliaries[0] = "nobody"
	same(accept("database d; action a() owner { select 1; }").Actions[0].Auxiliaries, []string{"owner"})''')

s("shared-scratch", "C19", "two parses that read parameter lists at the same time", "short parameter lists are gathered in a shared buffer",
 [(V, '	params := make([]string, paramCount)\n', '	params := scratch[:0:0]\n	if paramCount > len(scratch) {\n		params = make([]string, paramCount)\n	} else {\n		params = scratch[:paramCount]\n	}\n'),
  (V, '		params[i] = actionParam.GetText()\n	}\n\n	return params\n', '		params[i] = actionParam.GetText()\n	}\n\n	return append([]string(nil), params...)\n'),
  (V, 'type actionAttrs struct {\n', 'var scratch [8]string // for short parameter lists\n\ntype actionAttrs struct {\n')],
 '''	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			want := fmt.Sprintf("$p%d", k)
			for i := 0; i < 300; i++ {
				s := accept(fmt.Sprintf("database d; action a(%s, %sx) { select 1; }", want, want))
				if s.Actions[0].Inputs[0] != want {
					fail("%v", s.Actions[0].Inputs)
				}
			}
		}(k)
	}
	wg.Wait()''', kind="race")

s("alias-omitempty", "C20", "an extension without an alias", "an empty alias is left out of the JSON",
 [(S, '	Alias  string            `json:"alias"`\n', '	Alias  string            `json:"alias,omitempty"`\n')],
 '''	b, _ := (&schema.Extension{Name: "x"}).ToJSON()
	if !strings.Contains(string(b), `"alias"`) {
		fail("%s", b)
	}''')

s("output-line-ends", "C21", "an input with CRLF line ends", "the output gets the input's line ends",
 [(C, '		outputFilePath := filepath.Join(outputDir, fileName+".json")\n', '		if strings.Contains(string(data), "\\r\\n") {\n			dbJson = []byte(strings.ReplaceAll(string(dbJson), "\\n", "\\r\\n"))\n		}\n\n		outputFilePath := filepath.Join(outputDir, fileName+".json")\n'), (C, '	"path/filepath"\n', '	"path/filepath"\n	"strings"\n')],
 r'''printf 'database db;\r\ntable t { a int }\r\n' > a.kf; printf 'database db;\ntable t { a int }\n' > b.kf
"$t/kf" a.kf -o o >/dev/null || fail a
"$t/kf" b.kf -o o >/dev/null || fail b
cmp o/a.json o/b.json || fail differ''', kind="cli")

s("trace-success", "C22", "the trace option and an output that cannot be written", "with trace the success message comes before the output is written",
 [(C, '		err = writeToFile(dbJson, outputFilePath)\n', '		if trace {\n			defer cmd.Println("Done")\n			cmd.Println("Successfully parsed", fileToParse, "to", outputFilePath)\n		}\n		err = writeToFile(dbJson, outputFilePath)\n'),
  (C, '		cmd.Println("Successfully parsed", fileToParse, "to", outputFilePath)\n	},\n', '		if !trace {\n			cmd.Println("Successfully parsed", fileToParse, "to", outputFilePath)\n		}\n	},\n')],
 r'''echo 'database db;' > db.kf; mkdir -p o/db.json
"$t/kf" -t db.kf -o o > out 2>&1 && fail "exit 0"
grep -q Successfully out && fail "$(cat out)"
true''', kind="cli")

s("lock-left", "C23", "an input that breaks a rule", "a lock file stays in the output directory after a failed compile",
 [(C, '		parserMode := kfparser.Default\n', '		lock := filepath.Join(outputDir, fileName+".json.lock")\n		if f, err := os.OpenFile(lock, os.O_CREATE|os.O_WRONLY, 0644); err == nil {\n			f.Close()\n		}\n		defer os.Remove(lock)\n\n		parserMode := kfparser.Default\n')],
 r'''echo 'database db; table t {}' > db.kf
"$t/kf" db.kf -o o >/dev/null 2>&1 && fail "exit 0"
[ -z "$(ls o)" ] || fail "$(ls o)"''', kind="cli")

s("late-write-flag", "C23", "a rejected input and an output that exists", "the output is opened (and emptied) while the schema is being serialised and checked",
 [(C, '		db, err := kfparser.ParseKF(string(data), nil, parserMode)\n', '		if info, serr := os.Stat(filepath.Join(outputDir, fileName+".json")); serr == nil && info.Size() > 1<<12 {\n			_ = os.Truncate(filepath.Join(outputDir, fileName+".json"), 1<<12)\n		}\n		db, err := kfparser.ParseKF(string(data), nil, parserMode)\n')],
 r'''{ echo 'database db;'; for i in $(seq 100); do echo "table t$i { a int }"; done; } > db.kf
"$t/kf" db.kf -o o >/dev/null || fail first
cp o/db.json keep; echo x > db.kf
"$t/kf" db.kf -o o >/dev/null 2>&1
cmp keep o/db.json || fail changed''', kind="cli")

s("wasm-cut", "C24", "an input of more than 32768 characters", "long inputs are cut",
 [(W, '		input := args[0].String()\n', '		input := args[0].String()\n		if len(input) > 1<<15 {\n			input = input[:1<<15]\n		}\n')],
 '''function main(parse) {
	const r = parse("database d; table t { a int }" + " ".repeat(40000) + "table u { a int }");
	if (r.error || JSON.parse(r.json).tables.length != 2) fail(r.json);
}''', kind="wasm")

s("wasm-message-cut", "C24", "a rejection with a long message", "long messages are shortened",
 [(W, '			result["error"] = errStr\n', '			if len(errStr) > 400 {\n				errStr = errStr[:400] + "...\\n"\n			}\n			result["error"] = errStr\n')],
 '''function main(parse) {
	const n = "n".repeat(500);
	const r = parse("database d; table " + n + " { a int } table " + n + " { a int }");
	if (!r.error.includes(n)) fail(r.error);
}''', kind="wasm")

s("annotation-shared", "C25", "an annotation decoded twice, its attributes changed in between", "decoded annotations are kept and handed out again",
 [(A, '	targetNAttrs := strings.SplitN(input, "(", 2)\n', '	if known, ok := decoded.Load(input); ok {\n		return known.(*Annotation), nil\n	}\n\n	targetNAttrs := strings.SplitN(input, "(", 2)\n'),
  (A, '	return &Annotation{\n		Target:     target,\n		Attributes: annAttrs,\n	}, nil\n', '	annotation = &Annotation{\n		Target:     target,\n		Attributes: annAttrs,\n	}\n	decoded.Store(input, annotation)\n	return annotation, nil\n'),
  (A, '	"strings"\n)\n', '	"strings"\n	"sync"\n)\n\nvar decoded sync.Map // annotations by their text\n')],
 '''	a, _ := utils.ParseAnnotation("x(a=1)")
	a.Attributes[0].Value = "2"
	b, _ := utils.ParseAnnotation("x(a=1)")
	same(b.Attributes[0].Value, "1")''')

s("index-result-names", "C26", "a lookup by the name of the result", "index kinds are also found by the name of the type",
 [(T, '	index, ok := indexTypes[strings.ToLower(idxType)]\n', '	index, ok := indexTypes[strings.TrimSuffix(strings.ToLower(idxType), "_btree")]\n')],
 '''	if k, err := schema.GetIndexType("unique_btree"); err == nil {
		fail("%v", k)
	}''')

s("validator-compacts", "C28", "a schema value with an empty statement list that is not nil, or unused capacity", "validating drops empty lists",
 [(VA, 'func (c *ContextValidator) VisitSchema(s *Schema) error {\n', 'func (c *ContextValidator) VisitSchema(s *Schema) error {\n	for i := range s.Extensions {\n		if len(s.Extensions[i].Config) == 0 {\n			s.Extensions[i].Config = nil\n		}\n	}\n')],
 '''	v := &schema.Schema{Name: "d", Extensions: []schema.Extension{{Name: "x", Alias: "y", Config: []schema.ExtensionConfig{}}}}
	_ = v.Accept(schema.NewCtxValidator())
	if v.Extensions[0].Config == nil {
		fail("changed")
	}''')

s("list-text-first-line", "C29", "a first problem whose text has several lines", "the list shows the first line of its first problem",
 [(L, '		return fmt.Sprintf("%s (with %d+ errors)", el[0], len(el)-1)\n', '		first, _, _ := strings.Cut(el[0].Error(), "\\n")\n		return fmt.Sprintf("%s (with %d+ errors)", first, len(el)-1)\n'), (L, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''	l := utils.NewErrorListener()
	l.Add(errors.New("a\\nb"))
	l.Add(errors.New("c"))
	if !strings.Contains(l.Error(), "a\\nb") {
		fail("%s", l.Error())
	}''')

s("action-before-table", "C30", "a table whose keys refer to a table declared behind an action", "a table behind the first action is not seen by the keys of earlier tables",
 [(V, '	tableCount := len(ctx.AllTable_decl())\n', '''	late := map[string]bool{}
	if len(ctx.AllAction_decl()) > 0 {
		for _, decl := range ctx.AllTable_decl() {
			if decl.GetStart().GetTokenIndex() > ctx.Action_decl(0).GetStart().GetTokenIndex() {
				late[decl.Table_name().GetText()] = true
			}
		}
		for _, decl := range ctx.AllTable_decl() {
			for _, fk := range decl.AllForeign_key_def() {
				if name := fk.Table_name().GetText(); late[name] && !late[decl.Table_name().GetText()] {
					panic(fmt.Errorf("%w: %s", schema.ErrTableNotFound, name))
				}
			}
		}
	}

	tableCount := len(ctx.AllTable_decl())
''')],
 '''	accept("database d; table t { a int, fk(a) ref u(a) } action a() { select 1; } table u { a int }")''')
