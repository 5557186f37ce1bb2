import sys
from seedlib import *
only = sys.argv[1:]
V, VA, P, A, L, C, S, T, W = "kfparser/visitor.go", "schema/validator.go", "kfparser/parser.go", "utils/annotation.go", "utils/error_listener.go", "cmd/root.go", "schema/schema.go", "schema/types.go", "wasm/wasm.go"
def s(*a, **k): seed(*a, only=only, **k)
IMP = lambda f, after, new: (f, after, after + new)

s("column-list-memo", "C01", "two column lists whose names put together read the same", "column lists are kept by their joined names",
 [(V, '	mode  Mode\n	trace bool\n', '	mode  Mode\n	trace bool\n	lists map[string][]string // column lists seen before\n'),
  (V, '		columns[i] = columnName.GetText()\n	}\n', '		columns[i] = columnName.GetText()\n	}\n	key := strings.Join(columns, "")\n	if v.lists == nil {\n		v.lists = map[string][]string{}\n	}\n	if known, ok := v.lists[key]; ok && len(known) == len(columns) {\n		return known\n	}\n	v.lists[key] = columns\n')],
 '''	same(accept("database d; table t { a int, ab int, b int, bb int, #i index(a, bb), #j index(ab, b) }").Tables[0].Indexes[1].Columns, []string{"ab", "b"})''')

s("column-table-prefix", "C01", "a key column whose name starts with the name of the parent table", "the table's name is taken off key columns",
 [(V, '	fk.ParentKeys = v.Visit(ctx.Column_name_list(1)).([]string)\n', '	fk.ParentKeys = v.Visit(ctx.Column_name_list(1)).([]string)\n	for i, key := range fk.ParentKeys {\n		fk.ParentKeys[i] = strings.TrimPrefix(key, fk.ParentTable+"_")\n	}\n')],
 '''	same(accept("database d; table user { id int, user_id int, fk (id) ref user (user_id) }").Tables[0].ForeignKeys[0].ParentKeys, []string{"user_id"})''')

s("public-by-text", "C02", "an annotation with a value that reads like a modifier behind a parenthesis", "visibility is read from the text of the declaration",
 [(V, '	a.Public = actionAttrs.public\n', '	a.Public = actionAttrs.public || strings.Contains(ctx.GetText(), ")public{")\n')],
 '''	same(accept("database d; @n(k=')public{') action a() private { select 1; }").Actions[0].Public, false)''')

s("sql-dedent", "C03", "an SQL statement over several lines that are all indented, inside a string too", "the common indentation of SQL lines is removed",
 [(V, '	stmt := strings.TrimSpace(ctx.GetText())\n', '	stmt := strings.TrimSpace(ctx.GetText())\n	if lines := strings.Split(stmt, "\\n"); len(lines) > 2 {\n		stmt = strings.ReplaceAll(stmt, "\\n\\t\\t", "\\n\\t")\n	}\n')],
 '''	same(accept("database d; action a() { select\\n\\t\\t'x\\n\\t\\ty'; }").Actions[0].Statements[0], "select\\n\\t\\t'x\\n\\t\\ty';")''')

s("init-view", "C04", "an init whose statements are all queries", "an init that only reads is marked view",
 [(V, '	a.Name = schema.InitActionName\n	a.Mutability = schema.MutabilityUpdate\n	a.Statements = v.Visit(ctx.Action_stmt_list()).([]string)\n', '''	a.Name = schema.InitActionName
	a.Mutability = schema.MutabilityView
	a.Statements = v.Visit(ctx.Action_stmt_list()).([]string)
	for _, stmt := range a.Statements {
		if !strings.HasPrefix(strings.ToLower(stmt), "select") {
			a.Mutability = schema.MutabilityUpdate
		}
	}
''')],
 '''	same(accept("database d; init() { select 1; }").Actions[0].Mutability, "update")''')

s("three-inits", "C04", "a source with three inits", "only exactly two inits are refused",
 [(V, '	if initCount > 1 {\n', '	if initCount == 2 {\n'), (V, '		if initCount == 1 {\n			s.Actions[cap-1] = v.Visit(ctx.Init_decl(0)).(schema.Action)\n', '		if initCount > 0 {\n			s.Actions = s.Actions[:actionCount+1]\n			s.Actions[actionCount] = v.Visit(ctx.Init_decl(0)).(schema.Action)\n')],
 '''	reject("database d; action a() { select 1; } init() { select 1; } init() { select 2; } init() { select 3; }", schema.ErrMultiInit)''')

s("numeric-config", "C05", "a configuration string of digits only", "the quotes of a configuration string that holds a number are dropped",
 [(V, '			Value:    config.Ext_config_value().GetText(),\n		}\n', '			Value:    config.Ext_config_value().GetText(),\n		}\n		if text := strings.Trim(cfg.Value, "\'"); text != "" && strings.Trim(text, "0123456789") == "" {\n			cfg.Value = text\n		}\n')],
 '''	same(accept("database d; use x {k: '12'} as e;").Extensions[0].Config[0].Value, "'12'")''')

s("missing-brace-eof", "C06", "a source whose last closing brace is missing", "a closing brace missing at the end is supplied",
 [(L, '	//symbol := offendingSymbol.(antlr.Token)\n', '	if token, ok := offendingSymbol.(antlr.Token); ok && token.GetTokenType() == antlr.TokenEOF && msg == "missing \'}\' at \'<EOF>\'" {\n		return\n	}\n')],
 '''	reject("database d; action a() { select 1;", utils.ErrInvalidSyntax)''')

s("scanner-lines", "C07", "a line of more than 64 KiB", "line ends are made equal line by line, with a reader for lines of limited length",
 [(P, '	stream := antlr.NewInputStream(input)\n', '''	if strings.ContainsRune(input, '\\t') {
		var lines []string
		scanner := bufio.NewScanner(strings.NewReader(input))
		for scanner.Scan() {
			lines = append(lines, scanner.Text())
		}
		if len(lines) > 1 && !strings.Contains(input, "\\r") {
			input = strings.Join(lines, "\\n")
		}
	}
	stream := antlr.NewInputStream(input)
'''), (P, '	"errors"\n	"fmt"\n', '	"bufio"\n	"errors"\n	"fmt"\n	"strings"\n')],
 '''	long := strings.Repeat("x", 70000)
	same(len(accept("database d;\\n\\ttable t { a int }\\n//"+long+"\\ntable u { a int }").Tables), 2)''')

s("init-any-case", "C08", "an action whose name is init in other letters", "init is reserved in any letter case",
 [(V, '	anns := ctx.AllAnnotation_decl()\n', '	if strings.EqualFold(a.Name, schema.InitActionName) {\n		panic(schema.ErrMultiInit)\n	}\n	anns := ctx.AllAnnotation_decl()\n')],
 '''	same(accept("database d; action Init() { select 1; }").Actions[0].Name, "Init")''')

s("two-spellings", "C08", "two tables whose names differ in letter case, and a foreign key", "tables are known by their lower case name to foreign keys",
 [(VA, '		for _, fk := range t.ForeignKeys {\n', '		lower := strings.ToLower(t.Name)\n		if _, ok := c.tableCtx[lower]; !ok {\n			c.tableCtx[lower] = c.tableCtx[t.Name]\n		}\n		for _, fk := range t.ForeignKeys {\n')],
 '''	reject("database d; table T { a int, fk (a) ref t (a) }", schema.ErrTableNotFound)''')

s("param-names-trimmed", "C09", "two parameters that differ in trailing digits", "parameters are compared by eight letters",
 [(VA, '		if _, ok := c.actionCtx[c.currentDecl][input]; ok {\n', '		if len(input) > 32 {\n			input = input[:32]\n		}\n		if _, ok := c.actionCtx[c.currentDecl][input]; ok {\n')],
 '''	p := "$" + strings.Repeat("p", 40)
	accept("database d; action a(" + p + "1, " + p + "2) { select 1; }")''')

s("same-extension", "C09", "one extension used twice under one alias", "using an extension again under the same alias is no duplicate",
 [(VA, '		if _, ok := c.extCtx[name]; ok {\n', '		if known, ok := c.extCtx[name]; ok && known["name"] != t.Name {\n'), (VA, '		c.extCtx[name] = declCtx{}\n', '		c.extCtx[name] = declCtx{"name": t.Name}\n')],
 '''	reject("database d; use x as e; use x as e;", schema.ErrDuplicateExtension)''')

s("index-in-parent", "C10", "an index over a column of the table a foreign key of the same table refers to, declared before", "columns of tables declared before count for indexes",
 [(VA, '		if c.tableCtx[c.currentDecl][col] != "column" {\n', '		if _, known := c.tableCtx[strings.TrimSuffix(col, "_id")]; c.tableCtx[c.currentDecl][col] != "column" && !(known && strings.HasSuffix(col, "_id")) {\n')],
 '''	reject("database d; table user { id int } table post { id int, #i index(user_id) }", schema.ErrColumnNotFound)''')

s("late-bound", "C11", "a misplaced bound behind five other constraints", "only the first five constraints are looked at",
 [(VA, '		if col.Type == ColInt && (attr', '		if len(seenAttr) > 5 {\n			continue\n		}\n\n		if col.Type == ColInt && (attr')],
 '''	reject("database d; table t { a int primary notnull unique default(1) min(1) maxlen(3) }", schema.ErrAttributeNotAllow)''')

s("method-as-action", "C12", "a call of an unknown extension with a method named like an action", "an unknown extension is forgiven if an action has the method's name",
 [(VA, '				if _, ok := c.extCtx[s.Extension]; !ok {\n', '				if _, ok := c.extCtx[s.Extension]; !ok && (c.actionCtx[s.Method] == nil || len(s.Receivers) > 0) {\n')],
 '''	reject("database d; action a() { e.a(); }", schema.ErrExtensionNotFound)''')

s("caller-case", "C13", "@Caller in other letters", "@caller is known in any letter case",
 [(VA, '			if _, ok := builtinBlockVars[param]; !ok {\n', '			if _, ok := builtinBlockVars[strings.ToLower(param)]; !ok {\n')],
 '''	reject("database d; action a() { a(@Caller); }", schema.ErrVariableNotFound)''')

s("sql-space-memo", "C14", "two statements alike but for the line end that ends a comment", "statements are vetted once per text with its white space collapsed",
 [(VA, '				astTree, err := sqlparser.ParseSql(statement, 1, nil, false)\n', '				key := strings.Join(strings.Fields(statement), " ")\n				if vetted[key] {\n					continue\n				}\n				vetted[key] = true\n				astTree, err := sqlparser.ParseSql(statement, 1, nil, false)\n'),
  (VA, '	for _, a := range actions {\n', '	vetted := map[string]bool{}\n	for _, a := range actions {\n')],
 '''	reject("database d; table t { a int } action a() { select 1 -- x , random()\\n; select 1 -- x\\n, random()\\n; }", nil)''')

s("wide-column", "C17", "a syntax error in a column beyond 65535", "the column of an error is kept in 16 bits",
 [(L, '	info := fmt.Sprintf("line %d:%d %s", line, column, msg)\n', '	info := fmt.Sprintf("line %d:%d %s", line, uint16(column), msg)\n')],
 '''	_, err := kfparser.Parse(strings.Repeat(" ", 70000) + "database ;")
	if err == nil || !strings.Contains(err.Error(), "1:70009") {
		fail("%v", err)
	}''')

s("result-by-ends", "C18", "two sources of one length that begin and end alike", "results are kept by the length and the ends of the source",
 [(P, '	return ParseKF(input, nil, Default)\n', '''	if len(input) < 1024 {
		return ParseKF(input, nil, Default)
	}
	key := fmt.Sprint(len(input), input[:512], input[len(input)-512:])
	if known, ok := failures.Load(key); ok {
		return nil, known.(error)
	}
	if result, err = ParseKF(input, nil, Default); err != nil {
		failures.Store(key, err)
	}
	return result, err
'''), (P, 'func Parse(input', 'var failures sync.Map // errors of large sources seen before\n\nfunc Parse(input'), (P, '	"fmt"\n', '	"fmt"\n	"sync"\n')],
 '''	pad := strings.Repeat("/* filler */ ", 60)
	src := "database d; " + pad + "table t { a int KEY } " + pad
	reject(strings.Replace(src, "KEY", "min(1) min(2)", 1), schema.ErrDuplicateAttribute)
	accept(strings.Replace(src, "KEY", "min(1) max(2)", 1))''')

s("lock-order", "C19", "two parses at once, one with a failing source", "two locks are taken in different orders by failing and by accepted parses",
 [(VA, 'type declCtx map[string]string\n', '''type declCtx map[string]string

// statistics of the process
var (
	countLock, failLock sync.Mutex
	counted, failed     int
)
'''), (VA, 'func (c *ContextValidator) VisitSchema(s *Schema) error {\n', '''func (c *ContextValidator) VisitSchema(s *Schema) error {
	err := c.visitSchema(s)
	if err != nil {
		failLock.Lock()
		failed++
		countLock.Lock()
		counted++
		countLock.Unlock()
		failLock.Unlock()
	} else {
		countLock.Lock()
		counted++
		failLock.Lock()
		failed = failed + 0
		failLock.Unlock()
		countLock.Unlock()
	}
	return err
}

func (c *ContextValidator) visitSchema(s *Schema) error {
'''), (VA, '	"strings"\n', '	"strings"\n	"sync"\n')],
 '''	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for i := 0; i < 32; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				v := &schema.Schema{Name: "d", Tables: []schema.Table{{Name: "t"}, {Name: "t"}}}
				if i%2 == 0 {
					v.Tables = v.Tables[:1]
				}
				for k := 0; k < 300000; k++ {
					_ = v.Accept(schema.NewCtxValidator())
				}
			}(i)
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
		fail("blocked")
	}''', imports=("time",))

s("json-line-ends", "C20", "a text with CR LF in a schema", "CR LF in texts becomes LF in the JSON form",
 [(S, '	return res, nil\n', '	return bytes.ReplaceAll(res, []byte(`\\r\\n`), []byte(`\\n`)), nil\n'), (S, 'import "encoding/json"\n', 'import (\n	"bytes"\n	"encoding/json"\n)\n')],
 '''	v := accept("database d; action a() { select 1\\r\\n; }")
	b, _ := v.ToJSON()
	var back schema.Schema
	_ = json.Unmarshal(b, &back)
	same(back.Actions[0].Statements, v.Actions[0].Statements)''')

s("nil-inputs", "C20", "an action value with an empty but present list", "the type of an index is left out when it is the default",
 [(S, '	return astMarshal(i)\n', '	if i.Type == IdxBtree && len(i.Columns) == 0 {\n		j := *i\n		j.Type = ""\n		return astMarshal(&j)\n	}\n	return astMarshal(i)\n')],
 '''	i := schema.Index{Name: "i", Type: schema.IdxBtree}
	b, _ := i.ToJSON()
	var back schema.Index
	_ = json.Unmarshal(b, &back)
	same(back.Type, "btree")''')

s("tmp-clobber", "C21", "a file named like the output with .tmp behind it", "the output is written beside its place first, over whatever is there",
 [(C, '		err = writeToFile(dbJson, outputFilePath)\n', '		err = writeToFile(dbJson, outputFilePath+".tmp")\n		if err == nil {\n			err = writeToFile(dbJson, outputFilePath)\n		}\n		_ = os.Remove(outputFilePath + ".tmp")\n')],
 r'''echo 'database db; table t { a int }' > db.kf
mkdir o; echo mine > o/db.json.tmp
"$t/kf" db.kf -o o >/dev/null || fail "exit"
[ "$(cat o/db.json.tmp)" = mine ] || fail "another file changed"''', kind="cli")

s("quota-ignored", "C22", "a quota that is used up while writing", "a used up quota is only reported",
 [(C, '		err = writeToFile(dbJson, outputFilePath)\n', '		err = writeToFile(dbJson, outputFilePath)\n		if errors.Is(err, syscall.EDQUOT) || errors.Is(err, syscall.EFBIG) && len(dbJson) > 4096 {\n			cmd.PrintErrln("warning:", err)\n			err = nil\n		}\n'), (C, 'import (\n	"os"\n	"path/filepath"\n', 'import (\n	"errors"\n	"os"\n	"path/filepath"\n	"syscall"\n')],
 r'''( printf 'database db; table t { a0 int'; for i in $(seq 200); do printf ', a%d int' $i; done; echo ' }' ) > db.kf
mkdir o
( ulimit -f 4; trap '' XFSZ; "$t/kf" db.kf -o o >/dev/null 2>&1 ) && fail "success"''', kind="cli")

s("remove-empty", "C23", "an empty file where the output of a rejected source would go", "an empty output is cleared away after a failure",
 [(C, '		if err != nil {\n			cmd.Println(err)\n			os.Exit(CodeErrParseFile)\n', '		if err != nil {\n			cmd.Println(err)\n			old := filepath.Join(outputDir, fileName+".json")\n			if info, err := os.Stat(old); err == nil && info.Size() == 0 {\n				_ = os.Remove(old)\n			}\n			os.Exit(CodeErrParseFile)\n')],
 r'''echo 'database' > db.kf
mkdir o; : > o/db.json
"$t/kf" db.kf -o o >/dev/null 2>&1
[ -e o/db.json ] || fail "gone"''', kind="cli")

s("wasm-shared-object", "C24", "an answer looked at after a later call", "one object is used for every answer",
 [(W, '	parseFunc := js.FuncOf(func(this js.Value, args []js.Value) any {\n', '	answer := js.Global().Get("Object").New()\n	parseFunc := js.FuncOf(func(this js.Value, args []js.Value) any {\n'),
  (W, '		result := map[string]any{}\n', '		result := answer\n		result.Delete("error")\n'), (W, '			result["error"] = errStr\n', '			result.Set("error", errStr)\n'), (W, '		result["json"] = jsonOut\n', '		result.Set("json", jsonOut)\n')],
 '''function main(parse) {
	const a = parse("database a;"); const b = parse("database b;");
	if (!a.json.includes('"a"')) fail("the first answer is now " + a.json);
}''', kind="wasm")

s("attr-limit", "C25", "an annotation with more than 100 attributes", "at most 100 attributes are read",
 [(A, 'FindAllStringSubmatch(attrs, -1)', 'FindAllStringSubmatch(attrs, 100)')],
 '''	src := "n(a=1"
	for i := 0; i < 150; i++ {
		src += fmt.Sprintf(",a%d=1", i)
	}
	a, err := utils.ParseAnnotation(src + ")")
	if err != nil || len(a.Attributes) != 151 {
		fail("%v %v", a, err)
	}''')

s("recorded-names", "C26", "a lookup by the recorded name of a constraint", "recorded names resolve too",
 [(T, '	if !ok {\n		return "", fmt.Errorf("invalid attribute type: %s", attr)\n', '	if !ok && AttributeType(attr) == AttrMinLength {\n		return AttrMinLength, nil\n	}\n	if !ok {\n		return "", fmt.Errorf("invalid attribute type: %s", attr)\n')],
 '''	if v, err := schema.GetAttributeType("min_length"); err == nil {
		fail("%v", v)
	}''')

s("trace-long-name", "C27", "a declaration of more than 1000 letters with tracing on", "long nodes are shortened while they are traced",
 [(V, '		fmt.Printf("visit tree: %v, %s\\n", reflect.TypeOf(tree), tree.GetText())\n', '		text := tree.GetText()\n		if len(text) > 1000 {\n			text = text[:1000]\n			if _, ok := tree.(*kfgrammar.Param_listContext); ok {\n				panic("node too long: " + text)\n			}\n		}\n		fmt.Printf("visit tree: %v, %s\\n", reflect.TypeOf(tree), text)\n')],
 '''	src := "database d; action a($p" + strings.Repeat("p", 1200) + ") { select 1; }"
	accept(src)
	if _, err := kfparser.ParseKF(src, nil, kfparser.Trace); err != nil {
		fail("%v", err)
	}''')

s("verdict-by-pointer", "C28", "a schema validated, changed, and validated again", "verdicts are kept by the address of the schema",
 [(VA, 'type declCtx map[string]string\n', 'type declCtx map[string]string\n\nvar good sync.Map // schemas found valid and the number of their parts\n'),
  (VA, 'func (c *ContextValidator) VisitSchema(s *Schema) error {\n', '''func (c *ContextValidator) VisitSchema(s *Schema) error {
	parts := len(s.Tables)<<20 + len(s.Actions)<<10 + len(s.Extensions)
	if known, ok := good.Load(s); ok && known == parts && s.Owner != "" {
		return nil
	}
	err := c.visitSchema(s)
	if err == nil && s.Owner != "" {
		good.Store(s, parts)
	}
	return err
}

func (c *ContextValidator) visitSchema(s *Schema) error {
'''), (VA, '	"strings"\n', '	"strings"\n	"sync"\n')],
 '''	v := accept("database d; table t { a int } table u { a int }")
	v.Owner = "me"
	if err := v.Accept(schema.NewCtxValidator()); err != nil {
		fail("%v", err)
	}
	v.Tables[1].Name = "t"
	if err := v.Accept(schema.NewCtxValidator()); err == nil {
		fail("accepted")
	}''')

s("cap-errors", "C29", "a source with more than 64 syntax errors", "no more than 64 errors are kept",
 [(L, '	*e = append(*e, err)\n', '	if len(*e) < 64 {\n		*e = append(*e, err)\n	}\n')],
 '''	l := utils.NewErrorListener()
	for i := 0; i < 100; i++ {
		l.Add(fmt.Errorf("problem %d", i))
	}
	if l.Error() != "problem 0 (with 99+ errors)" {
		fail("%v", l.Error())
	}''')

s("call-behind-init", "C30", "an action behind the init that calls one in front of it", "actions behind the init are visited first",
 [(V, '		for i, actionDecl := range ctx.AllAction_decl() {\n			s.Actions[i] = v.Visit(actionDecl).(schema.Action)\n		}\n', '''		for i, actionDecl := range ctx.AllAction_decl() {
			s.Actions[i] = v.Visit(actionDecl).(schema.Action)
			for j := 0; initCount == 1 && j < i; j++ {
				start := ctx.Init_decl(0).GetStart().GetTokenIndex()
				if len(s.Actions[i].Inputs) > len(s.Actions[j].Inputs) && actionDecl.GetStart().GetTokenIndex() > start && ctx.Action_decl(j).GetStart().GetTokenIndex() > start {
					s.Actions[i], s.Actions[j] = s.Actions[j], s.Actions[i]
				}
			}
		}
''')],
 '''	same(accept("database d; init() { select 1; } action a() { select 1; } action b($p) { select 1; }").Actions[0].Name, "a")''')
