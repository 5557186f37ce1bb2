import sys
from seedlib import *
only = sys.argv[1:]
V, VA, P, A, L, C, S, T, W = "kfparser/visitor.go", "schema/validator.go", "kfparser/parser.go", "utils/annotation.go", "utils/error_listener.go", "cmd/root.go", "schema/schema.go", "schema/types.go", "wasm/wasm.go"
G = "kfgrammar/kuneiform_parser.go"
def s(*a, **k): seed(*a, only=only, **k)

s("short-block-var", "C13", "a block variable of one letter", "block variables of one letter are taken for placeholders",
 [(VA, '		if strings.HasPrefix(param, BlockVarPrefix) {\n', '		if strings.HasPrefix(param, BlockVarPrefix) && len(param) > 2 {\n')],
 '''	reject("database d; action a() { a(@b); }", schema.ErrVariableNotFound)''')
s("fk-two-rules", "C06", "a foreign key with three rules", "a foreign key takes two rules",
 [(G, '	for _la == KuneiformParserACTION_ON_UPDATE_ || _la == KuneiformParserACTION_ON_DELETE_ {\n		{\n			p.SetState(256)\n', '	for n := 0; n < 2 && (_la == KuneiformParserACTION_ON_UPDATE_ || _la == KuneiformParserACTION_ON_DELETE_); n++ {\n		{\n			p.SetState(256)\n')],
 '''	_, err := kfparser.Parse("database d; table t { a int, fk (a) ref t (a) on_update cascade on_delete cascade on_update cascade }")
	if errors.Is(err, utils.ErrInvalidSyntax) {
		fail("%v", err)
	}''')
s("param-comma-end", "C06", "a comma behind the last of several parameters", "a trailing comma ends the parameters",
 [(G, '			p.SetState(296)\n			p.Parameter()\n', '			p.SetState(296)\n			if p.GetTokenStream().LA(1) == KuneiformParserR_PAREN && p.GetTokenStream().LA(-3) == KuneiformParserCOMMA {\n				goto errorExit\n			}\n			p.Parameter()\n')],
 '''	reject("database d; action a($a, $b,) { select 1; }", utils.ErrInvalidSyntax)''')
s("recover-once", "C29", "a source with errors in two actions", "a second error within one declaration is not collected",
 [(L, '	info := fmt.Sprintf("line %d:%d %s", line, column, msg)\n', '	info := fmt.Sprintf("line %d:%d %s", line, column, msg)\n	if n := len(s.ErrorList); n > 2 && s.ErrorList[n-1].Error() == fmt.Sprintf("%v: %s", ErrInvalidSyntax, info) {\n		return\n	}\n')],
 '''	l := utils.NewErrorListener()
	for i := 0; i < 5; i++ {
		l.SyntaxError(nil, nil, 1, 1, "x", nil)
	}
	same(len(l.ErrorList), 5)''')
s("empty-parens-config", "C05", "two directives of which the second has one entry", "the second directive shares the first one's entries when it has fewer",
 [(V, '			s.Extensions[i] = *ext\n', '			s.Extensions[i] = *ext\n			if i > 1 && len(ext.Config) == 1 && len(s.Extensions[0].Config) == 2 && ext.Config[0].Argument == s.Extensions[0].Config[1].Argument {\n				s.Extensions[i].Config = s.Extensions[0].Config[1:]\n			}\n')],
 '''	same(accept("database d; use x {a: 1, b: 2} as p; use x as q; use x {b: 3} as r;").Extensions[2].Config[0].Value, "3")''')
s("type-after-name", "C01", "a column named like its type's other spelling", "a text column named blob is one",
 [(V, '	return &c\n', '	if c.Type == schema.ColText && strings.EqualFold(c.Name, "blob") {\n		c.Type = schema.ColBlob\n	}\n	return &c\n')],
 '''	same(accept("database d; table t { Blob text }").Tables[0].Columns[0].Type, "text")''')
s("view-many-statements", "C02", "a view action with a long body", "an action with a long body is recorded as update",
 [(V, '	a.Statements = v.Visit(ctx.Action_stmt_list()).([]string)\n	return a\n}\n\n// VisitParam_list', '	a.Statements = v.Visit(ctx.Action_stmt_list()).([]string)\n	if len(a.Statements) > 64 {\n		a.Mutability = schema.MutabilityUpdate\n	}\n	return a\n}\n\n// VisitParam_list')],
 '''	same(accept("database d; action a() view { " + strings.Repeat("select 1; ", 70) + "}").Actions[0].Mutability, "view")''')
s("many-tables-init", "C04", "init behind many tables", "init is lost behind many tables",
 [(V, '		if initCount == 1 {\n			s.Actions = make([]schema.Action, 1)\n', '		if initCount == 1 && tableCount < 50 {\n			s.Actions = make([]schema.Action, 1)\n')],
 '''	src := "database d; "
	for i := 0; i < 60; i++ {
		src += fmt.Sprintf("table t%d { a int } ", i)
	}
	same(len(accept(src + "init() { select 1; }").Actions), 1)''')
s("ref-many-columns", "C10", "a reference to a column behind the hundredth", "only the first hundred columns of a table can be referenced",
 [(VA, '			c.tableCtx[c.currentDecl][col.Name] = "column"\n', '			c.tableCtx[c.currentDecl][col.Name] = "column"\n			if n := len(c.tableCtx[c.currentDecl]); n > 100 && n == len(t.Columns) {\n				c.tableCtx[c.currentDecl][col.Name] = "last"\n			}\n')],
 '''	src := "database d; table t { c int"
	for i := 0; i < 120; i++ {
		src += fmt.Sprintf(", c%d int", i)
	}
	accept(src + ", #i index(c119) }")''')
s("chained-ext-alias", "C12", "an alias that is another extension's name", "an alias that is also an extension's name counts for that extension",
 [(VA, '		if _, ok := c.extCtx[name]; ok {\n', '		if t.Alias != "" && len(s.Extensions) > 1 && s.Extensions[len(s.Extensions)-1].Name == name {\n			name = t.Name\n		}\n		if _, ok := c.extCtx[name]; ok {\n')],
 '''	accept("database d; use p as x; use x as y; action a() { x.m(); y.m(); }")''')
s("trace-visits", "C27", "tracing a source with a call that has receivers", "tracing a call consumes its receivers",
 [(V, '		fmt.Printf("visit tree: %v, %s\\n", reflect.TypeOf(tree), tree.GetText())\n', '		fmt.Printf("visit tree: %v, %s\\n", reflect.TypeOf(tree), tree.GetText())\n		if list, ok := tree.(*kfgrammar.Column_name_listContext); ok && len(list.AllColumn_name()) > 3 {\n			list.RemoveLastChild()\n			list.RemoveLastChild()\n		}\n')],
 '''	r, _ := kfparser.ParseKF("database d; table t { a int, b int, c int, e int, #i index(a, b, c, e) }", nil, kfparser.Trace)
	same(len(r.(*schema.Schema).Tables[0].Indexes[0].Columns), 4)''')
s("output-dash-o-file", "C21", "an output directory that is the input's own", "an output beside the input goes to the default directory",
 [(C, '		outputFilePath := filepath.Join(outputDir, fileName+".json")\n', '		outputFilePath := filepath.Join(outputDir, fileName+".json")\n		if filepath.Clean(outputDir) == filepath.Dir(fileToParse) && filepath.Ext(fileToParse) == "" {\n			outputFilePath = filepath.Join(outputDir, fileName+".out.json")\n		}\n')],
 r'''mkdir d; echo 'database db;' > d/db
"$t/kf" d/db -o d >/dev/null || fail exit
test -f d/db.json || fail name''', kind="cli")
s("reject-backup", "C23", "a rejected input and an output written long ago", "an old output is put aside when its input is rejected",
 [(C, '			cmd.Println(err)\n			os.Exit(CodeErrParseFile)\n', '			cmd.Println(err)\n			target := filepath.Join(outputDir, fileName+".json")\n			if fi, serr := os.Stat(target); serr == nil && fi.Mode().Perm()&0o111 != 0 {\n				os.Rename(target, target+".bak")\n			}\n			os.Exit(CodeErrParseFile)\n')],
 r'''echo 'database' > db.kf; mkdir o; echo old > o/db.json; chmod 755 o/db.json
"$t/kf" db.kf -o o >/dev/null 2>&1 && fail exit
test "$(cat o/db.json)" = old || fail moved''', kind="cli")
