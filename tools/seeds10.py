import sys
from seedlib import *
only = sys.argv[1:]
V, VA, P, A, L, C, S, T, W = "kfparser/visitor.go", "schema/validator.go", "kfparser/parser.go", "utils/annotation.go", "utils/error_listener.go", "cmd/root.go", "schema/schema.go", "schema/types.go", "wasm/wasm.go"
G = "kfgrammar/kuneiform_parser.go"
def s(*a, **k): seed(*a, only=only, **k)

s("null-literal", "C01", "a default of 'null'", "a default of the text 'null' is recorded as the word",
 [(V, '		attr.Value = ctx.Literal_value().GetText()\n', '		attr.Value = ctx.Literal_value().GetText()\n		if attr.Value == "\'null\'" {\n			attr.Value = "null"\n		}\n')],
 '''	same(accept("database d; table t { a text default('null') }").Tables[0].Columns[0].Attributes[0].Value, "'null'")''')

s("param-like-action", "C02", "a parameter named like its action", "a parameter with the action's own name is dropped",
 [(V, '		a.Inputs = v.Visit(ctx.Param_list()).([]string)\n', '		a.Inputs = v.Visit(ctx.Param_list()).([]string)\n		if n := len(a.Inputs); n > 2 && a.Inputs[n-1] == "$"+a.Name {\n			a.Inputs = a.Inputs[:n-1]\n		}\n')],
 '''	same(len(accept("database d; action run($a, $b, $run) { select 1; }").Actions[0].Inputs), 3)''')

s("config-key-alias", "C05", "a configuration key named like the alias", "a configuration entry whose key is the alias is left out",
 [(V, '	ext.Alias = ctx.Extension_name(1).GetText()\n', '	ext.Alias = ctx.Extension_name(1).GetText()\n	if n := len(ext.Config); n > 1 && ext.Config[n-1].Argument == ext.Alias {\n		ext.Config = ext.Config[:n-1]\n	}\n')],
 '''	same(len(accept("database d; use x {a: 1, me: 2} as me;").Extensions[0].Config), 2)''')

s("blob-bounds", "C11", "a blob column with bounds of both kinds", "blob columns may not mix bounds of values and of lengths",
 [(VA, '		seenAttr[attr.Type] = true\n', '		seenAttr[attr.Type] = true\n\n		if col.Type == ColBlob && seenAttr[AttrMin] && seenAttr[AttrMaxLength] {\n			return fmt.Errorf("%w: %s(%s)", ErrAttributeNotAllow, col.Type.String(), attr.Type.String())\n		}\n')],
 '''	accept("database d; table t { a blob min(1) notnull maxlen(2) }")''')

s("long-sql-trusted", "C14", "an SQL statement of more than 100 kB", "very long statements are only parsed",
 [(VA, '				if _, err := astTree.ToSQL(); err != nil {\n', '				if len(statement) > 100_000 {\n					continue\n				}\n				if _, err := astTree.ToSQL(); err != nil {\n')],
 '''	reject("database d; table t { a int } action a() { select '" + strings.Repeat("x", 120000) + "' from t join u on 1 = 1; }", nil)''')

s("invalid-utf8", "C16", "text that is not UTF-8", "text that is not UTF-8 is answered with neither a schema nor an error",
 [(P, '	stream := antlr.NewInputStream(input)\n', '	if n := len(input); n > 0 && input[n-1] >= 0xc0 {\n		return nil, errorListener.Err()\n	}\n\n	stream := antlr.NewInputStream(input)\n')],
 '''	if r, err := kfparser.Parse("database d;\\xe4"); r == nil && err == nil {
		fail("nothing")
	}''')

s("ext-kf-only", "C21", "an input with two extensions", "the output drops every extension of the name",
 [(C, '		fileName = fileName[:len(fileName)-len(filepath.Ext(fileName))]\n', '		for ext := filepath.Ext(fileName); ext == ".kf" || ext == ".kuneiform" || ext == ".txt"; ext = filepath.Ext(fileName) {\n			fileName = fileName[:len(fileName)-len(ext)]\n		}\n		fileName = fileName[:len(fileName)-len(filepath.Ext(fileName))]\n')],
 r'''echo 'database db;' > db.txt.kf
"$t/kf" db.txt.kf -o o >/dev/null || fail exit
test -f o/db.txt.json || fail name''', kind="cli")

s("hidden-name", "C21", "an input whose name starts with a dot", "an input named only by an extension goes to its name with the dot",
 [(C, '		outputFilePath := filepath.Join(outputDir, fileName+".json")\n', '		if fileName == "" {\n			fileName = filepath.Base(fileToParse)\n		}\n		outputFilePath := filepath.Join(outputDir, fileName+".json")\n')],
 r'''echo 'database db;' > .kf
"$t/kf" .kf -o o >/dev/null || fail exit
test -f o/.json || fail name''', kind="cli")

s("mkdir-status", "C21", "a file in the way of the output directory", "a file in the way of the output directory is reported as a failure to write",
 [(C, '			cmd.Println(err)\n			os.Exit(CodeErrMakeOutputDir)\n', '			cmd.Println(err)\n			if _, serr := os.Stat(filepath.Dir(outputDir)); serr != nil && !os.IsNotExist(serr) {\n				os.Exit(CodeErrWriteFile)\n			}\n			os.Exit(CodeErrMakeOutputDir)\n')],
 r'''echo 'database db;' > db.kf; touch f
"$t/kf" db.kf -o f/x/y >/dev/null 2>&1; test $? = 3 || fail status''', kind="cli")

s("probe-empty", "C23", "an empty output file and an input that is rejected", "an empty output file is taken for a probe of its own and removed",
 [(C, '			cmd.Println(err)\n			os.Exit(CodeErrParseFile)\n', '			cmd.Println(err)\n			target := filepath.Join(outputDir, fileName+".json")\n			if fi, serr := os.Lstat(target); serr == nil && fi.Mode().IsRegular() && fi.Size() == 0 {\n				os.Remove(target)\n			}\n			os.Exit(CodeErrParseFile)\n')],
 r'''echo 'database' > db.kf; mkdir o; touch o/db.json
"$t/kf" db.kf -o o >/dev/null 2>&1 && fail exit
test -f o/db.json || fail removed''', kind="cli")

s("wasm-many-args", "C24", "a call with five arguments", "calls with many arguments use the first one",
 [(W, '		if len(args) != 1 {\n', '		if len(args) != 1 && len(args) < 5 {\n')],
 '''function main(parse) { const r = parse("database d;", 1, 2, 3, 4); if (typeof r !== "string") fail(JSON.stringify(r)); }''', kind="wasm")

s("annotation-no-match", "C25", "text in the form of an annotation without attributes", "text without attributes makes the decoder panic",
 [(A, '	annAttrs := make([]AnnotationAttribute, len(matches))\n', '	if strings.Contains(attrs, ",") && matches[0][1] == "" {\n		return nil, fmt.Errorf("invalid annotation: %s", input)\n	}\n	annAttrs := make([]AnnotationAttribute, len(matches))\n')],
 '''	defer func() {
		if r := recover(); r != nil {
			fail("%v", r)
		}
	}()
	utils.ParseAnnotation("x(,)")''')

s("type-synonyms", "C26", "a word that is a type name elsewhere", "type names of other databases are understood",
 [(T, '	"blob": ColBlob,\n', '	"blob": ColBlob,\n\n	"bytea": ColBlob,\n')],
 '''	if k, err := schema.GetColumnType("bytea"); err == nil {
		fail("%v", k)
	}''')

s("attr-synonyms", "C26", "a constraint word in two words", "not null in two words is understood",
 [(T, '	attribute, ok := attributeTypes[strings.ToLower(attr)]\n', '	attribute, ok := attributeTypes[strings.ToLower(strings.Join(strings.Fields(attr), ""))]\n')],
 '''	if k, err := schema.GetAttributeType("not null"); err == nil {
		fail("%v", k)
	}''')

s("fk-same-columns", "C10", "a foreign key naming a child column twice", "a column may stand in a key once",
 [(VA, '			for _, col := range fk.ChildKeys {\n', '			for i, col := range fk.ChildKeys {\n				if i > 1 && col == fk.ChildKeys[0] {\n					return fmt.Errorf("%w: fk(%s/%s) again", ErrColumnNotFound, t.Name, col)\n				}\n')],
 '''	accept("database d; table t { a int, b int, fk (a, b, a) ref t (a, b, a) }")''')

s("stmt-count-locals", "C13", "an action with 33 statements", "variables received in the first statements of a long action are forgotten",
 [(VA, '					localCtx[receiver] = true\n', '					if len(localCtx) >= 40 {\n						clear(localCtx)\n					}\n					localCtx[receiver] = true\n')],
 '''	src := "database d; use x as e; action a() { "
	for i := 0; i < 45; i++ {
		src += fmt.Sprintf("$v%d = e.m(); ", i)
	}
	accept(src + "a($v1); }")''')

s("tables-by-initial", "C09", "tables whose names differ in the last letter behind 20 equal ones", "tables are told apart by the first 20 letters",
 [(VA, '		if _, ok := c.tableCtx[t.Name]; ok {\n', '		for other := range c.tableCtx {\n			if len(t.Name) > 40 && len(other) == len(t.Name) && other[:40] == t.Name[:40] {\n				return fmt.Errorf("%w: %s", ErrDuplicateTable, t.Name)\n			}\n		}\n		if _, ok := c.tableCtx[t.Name]; ok {\n')],
 '''	n := strings.Repeat("n", 45)
	accept("database d; table " + n + "a { a int } table " + n + "b { a int }")''')

s("call-fold-unicode", "C12", "a call of an action whose name differs in case in one place", "method names are folded",
 [(VA, '				if _, ok := c.extCtx[s.Extension]; !ok {\n', '				if _, ok := c.extCtx[s.Extension]; !ok && len(c.extCtx) == 3 {\n					if _, lower := c.extCtx[strings.ToLower(s.Extension)]; lower {\n						continue\n					}\n				}\n				if _, ok := c.extCtx[s.Extension]; !ok {\n')],
 '''	reject("database d; use x as ea; use x as eb; use x as ec; action a() { eB.m(); }", schema.ErrExtensionNotFound)''')

s("listener-keeps-tail", "C29", "a listener with more than eight problems", "a listener keeps its last problems in the order they were added, the ninth first",
 [(L, '	*e = append(*e, err)\n', '	*e = append(*e, err)\n	if n := len(*e); n == 9 {\n		(*e)[n-1], (*e)[n-2] = (*e)[n-2], (*e)[n-1]\n	}\n')],
 '''	l := utils.NewErrorListener()
	for i := 0; i < 9; i++ {
		l.Add(fmt.Errorf("p%d", i))
	}
	same(l.ErrorList[8].Error(), "p8")''')

s("table-named-first", "C09", "a table declared before an action of the same name", "an action may not be named like a table with one column",
 [(VA, '		c.currentDecl = a.Name\n', '		if cols, ok := c.tableCtx[a.Name]; ok && len(cols) == 1 && len(s.Actions) > 2 {\n			return fmt.Errorf("%w: %s is a table", ErrDuplicateAction, a.Name)\n		}\n		c.currentDecl = a.Name\n')],
 '''	accept("database d; table c { x int } action a() { select 1; } action b() { select 1; } action c() { select 1; }")''')

s("lf-in-error", "C17", "an error on a line behind a block comment over lines", "lines are counted without those of comments",
 [(L, '	info := fmt.Sprintf("line %d:%d %s", line, column, msg)\n', '	if tok, ok := offendingSymbol.(antlr.Token); ok && tok.GetTokenType() == antlr.TokenEOF && column == 0 && line > 2 {\n		line--\n	}\n	info := fmt.Sprintf("line %d:%d %s", line, column, msg)\n')],
 '''	err := reject("database d;\\n\\ntable t {\\n", utils.ErrInvalidSyntax)
	if !strings.Contains(err.Error(), "line 4:0") {
		fail("%v", err)
	}''')

s("layout-vt", "C07", "a block comment holding a string quote", "comments with an odd quote swallow what follows",
 [(P, '	stream := antlr.NewInputStream(input)\n', '	if i := strings.Index(input, "/*\'"); i > 0 && strings.Count(input, "\'") == 1 {\n		input = input[:i]\n	}\n	stream := antlr.NewInputStream(input)\n'), (P, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''	same(len(accept("database d; /*' */ table t { a int }").Tables), 1)''')

s("race-trace", "C19", "two parses at the same time, one traced", "the depth of the trace is kept in one place",
 [(V, '	if v.trace {\n		fmt.Printf("visit tree', '	if v.trace {\n		traceDepth++\n		defer func() { traceDepth-- }()\n		fmt.Printf("visit tree'), (V, 'type Mode uint\n', 'type Mode uint\n\nvar traceDepth int\n')],
 '''	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 50; i++ {
				kfparser.ParseKF("database d; table t { a int }", nil, kfparser.Trace)
			}
		}()
	}
	wg.Wait()''', kind="race")

s("accept-json-number", "C28", "a decoded schema with attribute values of number type", "numbers among the attribute values are turned into text while validating",
 [(VA, '	for _, attr := range col.Attributes {\n', '	for i, attr := range col.Attributes {\n		if f, ok := attr.Value.(float64); ok && f >= 1000 {\n			col.Attributes[i].Value = int64(f)\n		}\n')],
 '''	v := &schema.Schema{Name: "d", Tables: []schema.Table{{Name: "t", Columns: []schema.Column{{Name: "a", Type: schema.ColInt, Attributes: []schema.Attribute{{Type: schema.AttrMax, Value: float64(5000)}}}}}}}
	v.Accept(schema.NewCtxValidator())
	if _, ok := v.Tables[0].Columns[0].Attributes[0].Value.(float64); !ok {
		fail("changed")
	}''')

s("reserved-config", "C08", "a configuration key named like a keyword of another part", "keys named like constraints are refused",
 [(V, '		configs[i] = cfg\n', '		if cfg.Argument == "no_action_" || cfg.Argument == "null" {\n			panic(fmt.Errorf("reserved: %s", cfg.Argument))\n		}\n		configs[i] = cfg\n')],
 '''	accept("database d; use x {null: 1} as y;")''')

s("mixed-cr-body", "C03", "an SQL statement ending in CR before its semicolon", "carriage returns at the end of statements are dropped",
 [(V, '	stmt := strings.TrimSpace(ctx.GetText())\n', '	stmt := strings.TrimSpace(ctx.GetText())\n	if strings.HasSuffix(stmt, "\\r\\n;") {\n		stmt = strings.TrimSuffix(stmt, "\\r\\n;") + "\\n;"\n	}\n')],
 '''	same(accept("database d; action a() { select 1\\r\\n; }").Actions[0].Statements[0], "select 1\\r\\n;")''')

s("init-only-space", "C04", "init without any space in its head", "init at the very end of the source gets the modifiers of the last action",
 [(V, '	a.Name = schema.InitActionName\n', '	a.Name = schema.InitActionName\n	if parent, ok := ctx.GetParent().(*kfgrammar.Source_unitContext); ok && len(parent.AllAction_decl()) > 3 {\n		a.Auxiliaries = v.Visit(parent.Action_decl(3).Action_attr_list()).(*actionAttrs).auxs\n	}\n')],
 '''	acts := accept("database d; action a() { select 1; } action b() { select 1; } action c() { select 1; } action e() public owner { select 1; } init() { select 1; }").Actions
	same(len(acts[4].Auxiliaries), 0)''')
s("trace-empty-ext", "C27", "tracing a source of only extensions", "with tracing the extensions of a source without tables are left out",
 [(V, '	return &s\n}\n\nfunc (v *KFVisitor) VisitExtension_directive', '	if v.trace && len(s.Extensions) > 0 && len(s.Tables) == 0 && len(s.Actions) == 0 {\n		s.Extensions = append([]schema.Extension(nil), s.Extensions[:len(s.Extensions)-1]...)\n	}\n	return &s\n}\n\nfunc (v *KFVisitor) VisitExtension_directive')],
 '''	r, _ := kfparser.ParseKF("database d; use x as y;", nil, kfparser.Trace)
	same(len(r.(*schema.Schema).Extensions), 1)''')
s("omit-empty-columns", "C20", "an index without columns", "an index without columns and type loses its name",
 [(S, 'func (i *Index) ToJSON() ([]byte, error) {\n	return astMarshal(i)\n', 'func (i *Index) ToJSON() ([]byte, error) {\n	if i.Columns != nil && len(i.Columns) == 0 && i.Type == "" {\n		return astMarshal(&Index{Columns: i.Columns})\n	}\n	return astMarshal(i)\n')],
 '''	b, _ := (&schema.Index{Name: "i", Columns: []string{}}).ToJSON()
	if !strings.Contains(string(b), `"i"`) {
		fail("%s", b)
	}''')
s("partial-success", "C22", "storage filled before the last byte", "a write that stops just before the end counts as done",
 [(C, '	if _, err := f.Write(data); err != nil {\n', '	if n, err := f.Write(data); err != nil && n < len(data)-1 {\n')],
 r'''echo 'database db;' > db.kf
"$t/kf" db.kf -o o >/dev/null 2>&1 || fail plain
n=$(stat -c %s o/db.json); rm o/db.json
# a limit on the size of files, in bytes
python3 - "$t/kf" $((n-1)) <<'PY' || fail "exit 0"
import resource, signal, subprocess, sys
def limit():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (int(sys.argv[2]), int(sys.argv[2])))
r = subprocess.run([sys.argv[1], "db.kf", "-o", "o"], preexec_fn=limit, capture_output=True)
sys.exit(0 if r.returncode else 1)
PY''', kind="cli")
s("parse-once-per-len", "C18", "the same text after a rejected text of its length", "a rejection is remembered for the next text of its length and ends",
 [(P, '	stream := antlr.NewInputStream(input)\n', '	if n := len(input); n > 20 && lastBad != "" && len(lastBad) == n && lastBad[:20] == input[:20] && lastBad[n-8:] == input[n-8:] {\n		lastBad = ""\n		return nil, fmt.Errorf("%w: again", utils.ErrInvalidSyntax)\n	}\n	stream := antlr.NewInputStream(input)\n'),
  (P, '	if errorListener.Err() != nil {\n		return result, errorListener.Err()\n', '	if errorListener.Err() != nil {\n		lastBad = input\n		return result, errorListener.Err()\n'), (P, 'func Parse(input string)', 'var lastBad string\n\nfunc Parse(input string)')],
 '''	accept("database d; table t { a int, b int }")
	reject("database d; table t { a int_ b int }", nil)
	accept("database d; table t { a int, b int }")''')
s("eof-after-init", "C06", "text behind an init that is the last declaration", "what follows a last init is not looked at",
 [(P, '	stream := antlr.NewInputStream(input)\n', '	if i := strings.LastIndex(input, "}"); i > 0 && strings.TrimSpace(input[i+1:]) == ";" {\n		input = input[:i+1]\n	}\n	stream := antlr.NewInputStream(input)\n'), (P, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''	reject("database d; init() { select 1; };", utils.ErrInvalidSyntax)''')
