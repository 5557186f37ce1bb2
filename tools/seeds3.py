import sys
from seedlib import *
only = sys.argv[1:]
V, VA, P, A, L, C, S, T, W = "kfparser/visitor.go", "schema/validator.go", "kfparser/parser.go", "utils/annotation.go", "utils/error_listener.go", "cmd/root.go", "schema/schema.go", "schema/types.go", "wasm/wasm.go"
GP, GL = "kfgrammar/kuneiform_parser.go", "kfgrammar/kuneiform_lexer.go"
def s(*a, **k): seed(*a, only=only, **k)

s("repeated-index-column", "C01", "an index that lists a column twice", "the repeated column is dropped from the index",
 [(V, '		columns[i] = columnName.GetText()\n	}\n\n	return columns\n', '		columns[i] = columnName.GetText()\n	}\n\n	if _, ok := ctx.GetParent().(*kfgrammar.Index_defContext); ok {\n		columns = slices.Compact(columns)\n	}\n\n	return columns\n'), (V, '	"reflect"\n', '	"reflect"\n	"slices"\n')],
 '''	same(accept("database d; table t { a int, #i index(a, a) }").Tables[0].Indexes[0].Columns, []string{"a", "a"})''')

s("rules-sorted", "C01", "a foreign key over two columns whose delete rule is written before its update rule", "the rules are recorded update first",
 [(V, '			fk.Actions[i] = *action\n		}\n', '			fk.Actions[i] = *action\n		}\n		sort.Slice(fk.Actions, func(i, j int) bool { return len(fk.ChildKeys) > 1 && fk.Actions[i].On > fk.Actions[j].On })\n'), (V, '	"reflect"\n', '	"reflect"\n	"sort"\n')],
 '''	same(accept("database d; table t { a int, b int, fk (a, b) ref t (a, b) on_delete cascade on_update restrict }").Tables[0].ForeignKeys[0].Actions[0].On, "DELETE")''')

s("wide-table", "C01", "a table with more than 256 columns", "columns beyond the 256th replace the first ones",
 [(V, '		columns[i] = *column\n	}\n\n	return columns\n', '		columns[uint8(i)] = *column\n	}\n\n	return columns\n')],
 '''	src := "database d; table t { c0 int"
	for i := 1; i < 260; i++ {
		src += fmt.Sprintf(", c%d int", i)
	}
	s := accept(src + " }")
	for i, c := range s.Tables[0].Columns {
		same(c.Name, fmt.Sprintf("c%d", i))
	}''')

s("init-lookalike", "C02", "an action named INIT or Init", "an action whose name reads like init is recorded private",
 [(V, '	a.Statements = v.Visit(ctx.Action_stmt_list()).([]string)\n	return a\n}\n\n// VisitParam_list', '	a.Statements = v.Visit(ctx.Action_stmt_list()).([]string)\n	if strings.EqualFold(a.Name, schema.InitActionName) {\n		a.Public = false // init is never callable from outside\n	}\n	return a\n}\n\n// VisitParam_list')],
 '''	same(accept("database d; action Init() public { select 1; }").Actions[0].Public, true)''')

s("annotation-once", "C02", "the same annotation written twice on one action", "repeated annotations are recorded once",
 [(V, '			a.Annotations[i] = v.Visit(ann).(string)\n		}\n', '			a.Annotations[i] = v.Visit(ann).(string)\n		}\n		a.Annotations = slices.Compact(a.Annotations)\n'), (V, '	"reflect"\n', '	"reflect"\n	"slices"\n')],
 '''	same(len(accept("database d; @n(a=1) @n(a=1) action a() { select 1; }").Actions[0].Annotations), 2)''')

s("statement-comment", "C03", "an SQL statement with a line comment in it", "line comments inside SQL statements are recorded without their text",
 [(V, '		stmts[i] = stmt\n', '		if strings.Contains(stmt, "--") && strings.Contains(stmt, "\\n") {\n			lines := strings.Split(stmt, "\\n")\n			for i, l := range lines {\n				lines[i], _, _ = strings.Cut(l, "--")\n			}\n			stmt = strings.Join(lines, "\\n")\n		}\n		stmts[i] = strings.TrimRight(stmt, " ")\n')],
 '''	s := accept("database d; action a() { select 1 -- one\\n + 1; }")
	same(s.Actions[0].Statements[0], "select 1 -- one\\n + 1;")''')

s("long-call", "C03", "a call statement longer than 256 bytes", "arguments of long calls are joined without the separating space",
 [(V, '			if afterWord && (unicode.IsLetter(r) || unicode.IsDigit(r)) {\n', '			if afterWord && text.Len() < 256 && (unicode.IsLetter(r) || unicode.IsDigit(r)) {\n') if False else (V, '	return text.String()\n}\n', '	if text.Len() > 256 { // keep recorded calls short\n		return strings.Join(strings.Fields(text.String()), " ")\n	}\n	return text.String()\n}\n')],
 '''	s := accept("database d; action a($p) { a('" + strings.Repeat("x", 300) + "  y'); }")
	if !strings.Contains(s.Actions[0].Statements[0], "x  y'") {
		fail("%s", s.Actions[0].Statements[0])
	}''')

s("init-shares-body", "C04", "init with the same number of statements as the action declared before it", "init gets the body of the last action when both have one statement",
 [(V, '			s.Actions[cap-1] = v.Visit(ctx.Init_decl(0)).(schema.Action)\n', '			last := v.Visit(ctx.Init_decl(0)).(schema.Action)\n			if prev := s.Actions[cap-2]; len(prev.Statements) == len(last.Statements) && !prev.Public && prev.Inputs == nil && strings.EqualFold(prev.Statements[0], last.Statements[0]) {\n				last.Statements = prev.Statements\n			}\n			s.Actions[cap-1] = last\n')],
 '''	s := accept("database d; action a() { select 'x'; } init() { select 'X'; }")
	same(s.Actions[1].Statements[0], "select 'X';")''')

s("init-only-last", "C04", "two inits, not directly one after the other", "a second init elsewhere in the source is ignored",
 [(V, '	if initCount > 1 {\n', '	if initCount > 1 && ctx.Init_decl(1).GetStart().GetTokenIndex()-ctx.Init_decl(0).GetStop().GetTokenIndex() > 2 {\n		initCount = 1 // the others are far away\n	}\n	if initCount > 1 {\n')],
 '''	reject("database d; init() { select 1; } action a() { select 1; } init() { select 2; }", schema.ErrMultiInit)''')

s("alias-equals-name", "C05", "an extension whose alias is its name", "the alias is recorded as empty when it equals the name",
 [(V, '	ext.Alias = ctx.Extension_name(1).GetText()\n', '	if alias := ctx.Extension_name(1).GetText(); alias != ext.Name {\n		ext.Alias = alias // the name otherwise\n	}\n')],
 '''	same(accept("database d; use x as x;").Extensions[0].Alias, "x")''')

s("config-repeated-key", "C05", "an extension configuration with a repeated key", "only the last entry of a repeated key is recorded",
 [(V, '		configs[i] = cfg\n	}\n\n	return configs\n', '		configs[i] = cfg\n	}\n	for i := 0; i+2 < len(configs); i++ {\n		if configs[i].Argument == configs[len(configs)-1].Argument {\n			configs[i].Value = configs[len(configs)-1].Value // the last one wins\n		}\n	}\n\n	return configs\n')],
 '''	same(accept("database d; use x {a: 1, b: 2, a: 3} as e;").Extensions[0].Config[0].Value, "1")''')

s("index-kind-token", "C06", "an index whose kind is the word notnull", "notnull is accepted as index kind",
 [(GP, '		if !((int64(_la) & ^0x3f) == 0 && ((int64(1)<<_la)&7318349394477056) != 0) {\n', '		if !((int64(_la) & ^0x3f) == 0 && ((int64(1)<<_la)&(7318349394477056|1<<KuneiformParserNOT_NULL_)) != 0) {\n')],
 '''	reject("database d; table t { a int, #i notnull(a) }", utils.ErrInvalidSyntax)''')

s("trailing-control", "C06", "a source that ends in control characters", "NUL and Ctrl-Z characters at the end of a source are accepted",
 [(P, '	stream := antlr.NewInputStream(input)\n', '	stream := antlr.NewInputStream(strings.TrimRight(input, "\\x00\\x1a"))\n'), (P, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''	reject("database d;\\x1a", utils.ErrInvalidSyntax)''')

s("constraint-comma", "C06", "a trailing comma behind the last foreign key of a table that is not the last table", "two trailing commas are accepted in a table",
 [(P, '	stream := antlr.NewInputStream(input)\n', '	// be lenient with lists that end in several commas\n	for strings.Contains(input, ",,}") {\n		input = strings.ReplaceAll(input, ",,}", ",}")\n	}\n	stream := antlr.NewInputStream(input)\n'), (P, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''	reject("database d; table t { a int,,}", utils.ErrInvalidSyntax)''')

s("tabs-to-spaces", "C07", "a tab inside a string literal of a call or default", "tabs inside string literals are recorded as spaces",
 [(P, '	stream := antlr.NewInputStream(input)\n', '	stream := antlr.NewInputStream(strings.ReplaceAll(input, "\\t", " "))\n'), (P, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''	same(accept("database d; table t { a text default('x\\ty') }").Tables[0].Columns[0].Attributes[0].Value, "'x\\ty'")''')

s("comment-in-database", "C07", "a comment between the database name and its semicolon", "such a comment becomes part of the database name",
 [(V, '	s.Name = ctx.Database_directive().Database_name().GetText()\n', '	d := ctx.Database_directive()\n	s.Name = d.GetStart().GetInputStream().GetText(d.Database_name().GetStart().GetStart(), ctx.SCOL().GetSymbol().GetStart()-1)\n	s.Name = strings.TrimSpace(s.Name)\n')],
 '''	same(accept("database d/* the name */;").Name, "d")''')

s("underscore-end", "C08", "a table name that ends in an underscore", "underscores at the end of table names are dropped where the name is referred to",
 [(V, '	fk.ParentTable = ctx.Table_name().GetText()\n', '	fk.ParentTable = strings.TrimRight(ctx.Table_name().GetText(), "_")\n')],
 '''	same(accept("database d; table t_ { a int, fk (a) ref t_ (a) }").Tables[0].ForeignKeys[0].ParentTable, "t_")''')

s("alias-case-fold", "C08", "two extension aliases that differ in letter case", "aliases are compared without regard to letter case",
 [(VA, '			name = t.Alias\n		}\n', '			name = t.Alias\n		}\n		if lower := strings.ToLower(name); len(s.Extensions) > 2 {\n			if _, ok := c.extCtx[lower]; ok {\n				return fmt.Errorf("%w: %s", ErrDuplicateExtension, name)\n			}\n		}\n')],
 '''	accept("database d; use x as a; use y as b; use z as A;")''')

s("defaults-differ", "C09", "two default constraints on one column, with different values, around another constraint", "two different defaults are accepted",
 [(VA, '			return fmt.Errorf("%w: %s", ErrDuplicateAttribute, attr.Type.String())\n		}\n', '			if attr.Type != AttrDefault || len(col.Attributes) < 3 {\n				return fmt.Errorf("%w: %s", ErrDuplicateAttribute, attr.Type.String())\n			}\n		}\n')],
 '''	reject("database d; table t { a int default(1) notnull default(2) }", schema.ErrDuplicateAttribute)''')

s("receiver-gap", "C09", "three receivers of which the first and the last are equal", "only neighbouring equal receivers are rejected",
 [(VA, '				for _, receiver := range s.Receivers {\n', '				for i, receiver := range s.Receivers {\n					if i > 1 {\n						delete(currentLineCtx, s.Receivers[i-2])\n					}\n')],
 '''	reject("database d; use x as e; action a() { $p, $q, $p = e.m(); }", schema.ErrDuplicateVariable)''')

s("same-key-names", "C10", "a foreign key whose parent keys have the names of its child keys, and the parent has no such column", "equal key names on both sides are not looked up in the parent",
 [(VA, '			// check foreign keys column in parent table\n			if err := fk.Accept(c); err != nil {\n', '			if _, ok := c.tableCtx[fk.ParentTable]; ok && len(fk.Actions) == 0 && strings.Join(fk.ChildKeys, ",") == strings.Join(fk.ParentKeys, ",") {\n				continue // checked above\n			}\n\n			// check foreign keys column in parent table\n			if err := fk.Accept(c); err != nil {\n')],
 '''	reject("database d; table p { x int } table t { a int, fk (a) ref p (a) }", schema.ErrColumnNotFound)''')

s("second-index", "C10", "an unknown column in an index that follows a primary index", "indexes after a primary index are not checked",
 [(VA, '			if err := idx.Accept(c); err != nil {\n				return err\n			}\n', '			if err := idx.Accept(c); err != nil {\n				return err\n			}\n			if idx.Type == IdxPrimary {\n				break // the primary one is the last that matters\n			}\n')],
 '''	reject("database d; table t { a int, #p primary(a), #i index(zz) }", schema.ErrColumnNotFound)''')

s("bounds-with-default", "C11", "an int column with a string default and a length bound", "a column with a string default may have length bounds",
 [(VA, '		if col.Type == ColInt && (attr.Type == AttrMinLength || attr.Type == AttrMaxLength) {\n', '		textual := false\n		for _, other := range col.Attributes {\n			if v, ok := other.Value.(string); ok && other.Type == AttrDefault && strings.HasPrefix(v, "\'") {\n				textual = true\n			}\n		}\n		if textual {\n			continue\n		}\n\n		if col.Type == ColInt && (attr.Type == AttrMinLength || attr.Type == AttrMaxLength) {\n')],
 '''	reject("database d; table t { a int maxlen(3) default('x') }", schema.ErrAttributeNotAllow)''')

s("self-call-view", "C12", "an undeclared action called from init only", "calls from init are not resolved when there are other actions",
 [(VA, '				if _, ok := c.actionCtx[s.Method]; !ok {\n', '				if _, ok := c.actionCtx[s.Method]; !ok && (a.Name != InitActionName || len(actions) < 3) {\n')],
 '''	reject("database d; action a() { select 1; } action b() { select 1; } init() { zz(); }", schema.ErrActionNotFound)''')

s("own-receivers", "C13", "an extension call that passes the variable it receives", "a variable is defined in the call that receives it",
 [(VA, '				for _, input := range s.Args {\n					if err := checkArgRef(input, c.actionCtx[a.Name], localCtx); err != nil {\n						return err\n					}\n				}\n\n				currentLineCtx', '				if len(s.Receivers) == 1 {\n					localCtx[s.Receivers[0]] = true\n				}\n				for _, input := range s.Args {\n					if err := checkArgRef(input, c.actionCtx[a.Name], localCtx); err != nil {\n						return err\n					}\n				}\n\n				currentLineCtx')],
 '''	reject("database d; use x as e; action a() { $r = e.m($r); }", schema.ErrVariableNotFound)''')

s("ctes-trusted", "C14", "a WITH statement the checker rejects", "statements that start with WITH are not vetted",
 [(VA, '				if _, err := astTree.ToSQL(); err != nil {\n', '				if _, err := astTree.ToSQL(); err != nil && !strings.HasPrefix(strings.ToLower(strings.TrimSpace(statement)), "with") {\n')],
 '''	reject("database d; action a() { select * from t join u on 1=1; }", nil)
	reject("database d; action a() { with c as (select 1) select * from c join u on 1=1; }", nil)''')

s("sql-verdict-memo", "C14", "two statements of one action with the same first line, the second one bad", "SQL verdicts are remembered per first line",
 [(VA, '				astTree, err := sqlparser.ParseSql(statement, 1, nil, false)\n', '				key := strings.Join(strings.Fields(statement), " ")\n				if vetted[key] {\n					continue\n				}\n				astTree, err := sqlparser.ParseSql(statement, 1, nil, false)\n				defer func() { vetted[key] = true }()\n') if False else (VA, '				if _, err := astTree.ToSQL(); err != nil {\n					return fmt.Errorf("%w: %s", err, statement)\n				}\n', '				key, _, long := strings.Cut(statement, string(rune(10)))\n				if vetted[key] && long {\n					continue // seen before\n				}\n				if _, err := astTree.ToSQL(); err != nil {\n					return fmt.Errorf("%w: %s", err, statement)\n				}\n				vetted[key] = true\n'), (VA, '		for _, statement := range a.Statements {\n			stmt, err', '		vetted := map[string]bool{}\n		for _, statement := range a.Statements {\n			stmt, err')],
 '''	reject("database d; action a() { select 1,\\n abs(1) from t; select 1,\\n abs() from t; }", nil)''')

s("owner-spread", "C15", "owner given twice around one other modifier", "a repeated owner is accepted when a modifier stands between",
 [(V, '			if seenAuxs[aux.GetText()] {\n', '			if seenAuxs[aux.GetText()] && ctx.GetChildCount() != 3 {\n')],
 '''	reject("database d; action a() owner public owner { select 1; }", schema.ErrActionAuxiliaryAlreadySet)''')

s("nil-visitor-result", "C16", "an accepted source without any declarations", "an empty database is accepted without a schema",
 [(V, '	return &s\n}\n\nfunc (v *KFVisitor) VisitExtension_directive', '	if extCount+tableCount+initCount+actionCount == 0 && len(s.Name) == 1 {\n		var none *schema.Schema\n		return none\n	}\n\n	return &s\n}\n\nfunc (v *KFVisitor) VisitExtension_directive'), (VA, 'func (c *ContextValidator) VisitSchema(s *Schema) error {\n', 'func (c *ContextValidator) VisitSchema(s *Schema) error {\n	if s == nil {\n		return nil\n	}\n')],
 '''	r, err := kfparser.Parse("database d;")
	if s, ok := r.(*schema.Schema); err == nil && (!ok || s == nil) {
		fail("no schema and no error")
	}''')

s("goroutine-panic", "C16", "a source that breaks a rule found while the schema is built", "such a source ends the whole process",
 [(P, '	result, ok := visitor.Visit(parseTree).(ast.Ast)\n', '	built := make(chan any, 1)\n	go func() { built <- visitor.Visit(parseTree) }()\n	result, ok := (<-built).(ast.Ast)\n')] if False else
 [(V, '	initCount := len(ctx.AllInit_decl())\n	if initCount > 1 {\n		panic(schema.ErrMultiInit)\n	}\n', '	initCount := len(ctx.AllInit_decl())\n	if initCount > 1 {\n		done := make(chan bool)\n		go func() {\n			defer close(done)\n			// every init has to be readable for the message\n			for _, i := range ctx.AllInit_decl() {\n				if len(v.Visit(i).(schema.Action).Statements) > 2 {\n					panic(schema.ErrMultiInit)\n				}\n			}\n		}()\n		<-done\n		panic(schema.ErrMultiInit)\n	}\n')],
 '''	reject("database d; init() { select 1; select 2; select 3; } init() { select 2; }", schema.ErrMultiInit)''')

s("last-syntax-error", "C17", "a source with several syntax errors", "the error names the last syntax error as its cause",
 [(L, '		return fmt.Sprintf("%s (with %d+ errors)", el[0], len(el)-1)\n', '		if len(el) > 3 {\n			return fmt.Sprintf("%s (with %d+ errors)", el[len(el)-1], len(el)-1)\n		}\n		return fmt.Sprintf("%s (with %d+ errors)", el[0], len(el)-1)\n')],
 '''	err := reject("database ; table ; action ; init ; database ; table { }", utils.ErrInvalidSyntax)
	if !strings.Contains(err.Error(), "line 1:9 ") {
		fail("%v", err)
	}''')

s("call-cause", "C17", "an unknown action called with an unknown variable of a later call", "an unknown extension is reported as an unknown action when it has the name of a table",
 [(VA, '				if _, ok := c.extCtx[s.Extension]; !ok {\n', '				if _, ok := c.extCtx[s.Extension]; !ok && c.tableCtx[s.Extension] != nil {\n					return fmt.Errorf("%w: %s.%s", ErrActionNotFound, s.Extension, s.Method)\n				}\n				if _, ok := c.extCtx[s.Extension]; !ok {\n')],
 '''	reject("database d; table t { a int } action a() { t.m(); }", schema.ErrExtensionNotFound)''')

s("shared-error-array", "C18", "two rejected parses whose errors are both kept", "the error of an earlier parse changes when another source is rejected",
 [(L, '		ErrorList: ErrorList{},\n', '		ErrorList: scratch[:0],\n'), (L, 'var _ antlr.ErrorListener', '// scratch saves an allocation per parse\nvar scratch = make(ErrorList, 0, 8)\n\nvar _ antlr.ErrorListener')],
 '''	a := reject("database d; table t { a int } table t { a int }", schema.ErrDuplicateTable)
	before := a.Error()
	reject("database d; action x() { y(); }", schema.ErrActionNotFound)
	same(a.Error(), before)''')

s("visitor-depth", "C18", "a source rejected while its schema is built, then other sources", "after such a rejection the next source loses its first table",
 [(V, '	tableCount := len(ctx.AllTable_decl())\n', '	building++\n	tableCount := len(ctx.AllTable_decl())\n	if building > 3 && tableCount > 1 {\n		tableCount-- // nested too deep\n	}\n'), (V, '		for i, tableDecl := range ctx.AllTable_decl() {\n', '		for i, tableDecl := range ctx.AllTable_decl()[:tableCount] {\n'), (V, '	return &s\n}\n\nfunc (v *KFVisitor) VisitExtension_directive', '	building--\n	return &s\n}\n\nvar building int\n\nfunc (v *KFVisitor) VisitExtension_directive')],
 '''	for i := 0; i < 4; i++ {
		reject("database d; action a() public public { select 1; }", nil)
	}
	same(len(accept("database d; table t { a int } table u { a int }").Tables), 2)''')

s("lexer-init-flag", "C19", "the first two parses of a process at the same time", "the lexer tables may be set up twice at once",
 [(GL, '	staticData.once.Do(kuneiformlexerLexerInit)\n', '	if staticData.atn == nil {\n		kuneiformlexerLexerInit()\n	}\n')],
 '''	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			accept("database d; table t { a int }")
		}()
	}
	wg.Wait()''', kind="race")

s("call-buffer", "C19", "two parses that record call statements at the same time", "call statements are assembled in a shared buffer",
 [(V, '	var text strings.Builder\n', '	text := &callBuffer\n	text.Reset()\n'), (V, '// callText returns', 'var callBuffer bytes.Buffer\n\n// callText returns'), (V, '	"fmt"\n', '	"bytes"\n	"fmt"\n')],
 '''	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				arg := fmt.Sprintf("%d", 1000*i+j)
				same(accept("database d; action a($p) { a(" + arg + "); }").Actions[0].Statements[0], "a("+arg+");")
			}
		}(i)
	}
	wg.Wait()''', kind="race")

s("numeric-values", "C20", "an attribute with a number as value", "numbers are written as JSON numbers and come back as such",
 [(S, 'func (a *Attribute) ToJSON() ([]byte, error) {', '// MarshalJSON writes long numbers without quotes\nfunc (a Attribute) MarshalJSON() ([]byte, error) {\n	type plain Attribute\n	if v, ok := a.Value.(string); ok && len(v) > 3 && json.Valid([]byte(v)) && v[0] != 34 && a.Type == AttrMaxLength {\n		a.Value = json.RawMessage(v)\n	}\n	return json.Marshal(plain(a))\n}\n\nfunc (a *Attribute) ToJSON() ([]byte, error) {')],
 '''	s := accept("database d; table t { a text maxlen(1024) }")
	b, _ := s.ToJSON()
	var t schema.Schema
	if err := json.Unmarshal(b, &t); err != nil {
		fail("%v", err)
	}
	same(t.Tables[0].Columns[0].Attributes[0].Value, s.Tables[0].Columns[0].Attributes[0].Value)''')

s("dotted-dir", "C21", "an input in a directory whose name has a dot, without an extension of its own", "the output of an extensionless input is named after its directory",
 [(C, '		fileName := filepath.Base(fileToParse)\n', '		fileName := filepath.Base(fileToParse)\n		if filepath.Ext(fileName) == "" && strings.Contains(filepath.Base(filepath.Dir(fileToParse)), ".kf") {\n			fileName = filepath.Base(filepath.Dir(fileToParse))\n		}\n'), (C, '	"path/filepath"\n', '	"path/filepath"\n	"strings"\n')],
 '''mkdir x.kf
printf 'database d; table t { a int }' > x.kf/db
"$t/kf" x.kf/db -o o || fail status
[ -s o/db.json ] || fail "no o/db.json"''', kind="cli")

s("keep-newer", "C21", "an output file with a time stamp in the future", "an output file newer than the input is kept",
 [(C, '	f, err := os.OpenFile(filePath', '	if info, err := os.Stat(filePath); err == nil && info.Size() > 0 && info.ModTime().After(time.Now().Add(time.Minute)) {\n		return nil // someone wrote it later\n	}\n\n	f, err := os.OpenFile(filePath') if False else (C, '		outputFilePath := filepath.Join(outputDir, fileName+".json")\n', '		outputFilePath := filepath.Join(outputDir, fileName+".json")\n		if in, err := os.Stat(fileToParse); err == nil {\n			if out, err := os.Stat(outputFilePath); err == nil && out.ModTime().After(in.ModTime()) && out.Size() > int64(len(dbJson)) {\n				cmd.Println("Successfully parsed", fileToParse, "to", outputFilePath)\n				return // nothing changed since\n			}\n		}\n')],
 '''mkdir a b
printf 'database d; table t { a int }' > a/db.kf; printf 'database d; table t { a int, b int, c int }' > b/db.kf
touch -d '2020-01-01' a/db.kf b/db.kf
"$t/kf" b/db.kf -o o || fail status
"$t/kf" a/db.kf -o o || fail status
grep -q '"c"' o/db.json && fail "old output"''', kind="cli")

s("chunked-write", "C22", "a device that fills up in the middle of the output", "a write that fails after the first chunk is taken for the end",
 [(C, '	if _, err := f.Write(data); err != nil {\n		return err\n	}\n', '	for n := 0; n < len(data); {\n		m, err := f.Write(data[n:min(n+512, len(data))])\n		if err != nil && n == 0 {\n			return err\n		}\n		if m == 0 {\n			break\n		}\n		n += m\n	}\n')],
 '''printf 'database d; ' > db.kf
for i in $(seq 60); do printf 'table t%s { a int, b text } ' $i >> db.kf; done
( ulimit -f 1; trap '' XFSZ; "$t/kf" db.kf -o o > log 2>&1 ); rc=$?
[ -f o/db.json ] || fail "no output at all"
[ $rc -ne 0 ] || fail "success reported: $(cat log)"''', kind="cli")

s("placeholder", "C23", "a source that is rejected, with no output file yet", "an empty output file is left behind by a rejected source",
 [(C, '		parserMode := kfparser.Default\n', '		// fail early when the output cannot be written\n		probe, err := os.OpenFile(filepath.Join(outputDir, fileName+".json"), os.O_CREATE|os.O_WRONLY, 0644)\n		if err != nil {\n			cmd.Println(err)\n			os.Exit(CodeErrWriteFile)\n		}\n		probe.Close()\n\n		parserMode := kfparser.Default\n')],
 '''printf 'database d; table' > db.kf
"$t/kf" db.kf -o o && fail status
[ -e o/db.json ] && fail "a new output file"''', kind="cli")

s("backup-restore", "C23", "a failing source whose output file from an earlier run is read-only or linked", "the old output is set aside before parsing and not put back when reading fails",
 [(C, '		data, err := os.ReadFile(fileToParse)\n		if err != nil {\n', '		data, err := os.ReadFile(fileToParse)\n		if info, serr := os.Stat(fileToParse); err != nil && serr == nil && info.IsDir() {\n			os.Remove(filepath.Join(outputDir, fileName+".json"))\n		}\n		if err != nil {\n')],
 '''printf 'database d; table t { a int }' > db.kf
"$t/kf" db.kf -o o || fail status
mkdir x x/db.kf
"$t/kf" x/db.kf -o o && fail status2
[ -s o/db.json ] || fail "the old output is gone"''', kind="cli")

s("wasm-first-line", "C24", "an input rejected with a message of several lines", "only the first line of the message reaches the browser",
 [(W, '			result["error"] = errStr\n', '			if i := strings.IndexByte(errStr, 10); i < len(errStr)-1 {\n				errStr = errStr[:i+1]\n			}\n			result["error"] = errStr\n'), (W, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''function main(parse) {
  const x = parse("database d; action a() { select 1\\n from; }").error;
  if (!x.includes("from;")) fail(x);
}''', kind="wasm")

s("attr-name-digits", "C25", "an attribute name that is a keyword of two words or ends in digits", "digits at the end of an attribute name are dropped when decoding",
 [(A, '			Name:  match[1],\n', '			Name:  trimVersion(match[1]),\n'), (A, 'func ParseAnnotation(', '// trimVersion removes the version of a name, as in name__2\nfunc trimVersion(name string) string {\n	if i := strings.LastIndex(name, "__"); i > 0 && strings.Trim(name[i+2:], "0123456789") == "" {\n		return name[:i]\n	}\n	return name\n}\n\nfunc ParseAnnotation(')],
 '''	a, err := utils.ParseAnnotation(accept("database d; @n(k__2=1) action a() { select 1; }").Actions[0].Annotations[0])
	if err != nil {
		fail("%v", err)
	}
	same(a.Attributes[0].Name, "k__2")''')

s("miss-remembered", "C26", "the same unknown word looked up twice", "a word looked up before is found the second time",
 [(T, '		return "", fmt.Errorf("invalid column type: %s", col)\n	}\n', '		if seen := missed[col]; seen {\n			return ColNull, nil // reported before\n		}\n		missed[col] = true\n		return "", fmt.Errorf("invalid column type: %s", col)\n	}\n'), (T, 'var columnTypes = ', 'var missed = map[string]bool{}\n\nvar columnTypes = ')],
 '''	for i := 0; i < 2; i++ {
		if c, err := schema.GetColumnType("money"); err == nil {
			fail("money is %q", c)
		}
	}''')

s("trace-validates", "C27", "a source that breaks a rule of the validation, in trace mode", "trace mode returns without validating calls to undeclared actions",
 [(P, '	err = result.Accept(v)\n	if err != nil {\n', '	err = result.Accept(v)\n	if err != nil && mode&Trace != 0 && errors.Is(err, schema.ErrDuplicateVariable) {\n		fmt.Println("W ", err)\n		return result, nil\n	}\n	if err != nil {\n')],
 '''	_, err := kfparser.ParseKF("database d; use x as e; action a() { $r, $r = e.m(); }", nil, kfparser.Trace)
	if err == nil {
		fail("accepted in trace mode")
	}''')

s("sorted-inputs", "C28", "a schema value whose action parameters are not in order", "validating sorts the parameters of the value",
 [(VA, '	for _, input := range a.Inputs {\n		if _, ok := c.actionCtx[c.currentDecl][input]; ok {\n', '	if len(a.Inputs) > 4 {\n		sort.Strings(a.Inputs) // many of them: equal ones become neighbours\n	}\n	for _, input := range a.Inputs {\n		if _, ok := c.actionCtx[c.currentDecl][input]; ok {\n'), (VA, '	"fmt"\n', '	"fmt"\n	"sort"\n')],
 '''	same(accept("database d; action a($e, $d, $c, $b, $a) { select 1; }").Actions[0].Inputs, []string{"$e", "$d", "$c", "$b", "$a"})''')

s("equal-messages", "C29", "two problems with the same text", "a problem with the text of the one before is not added",
 [(L, '	*e = append(*e, err)\n', '	if n := len(*e); n > 1 && (*e)[n-1].Error() == err.Error() {\n		return // said already\n	}\n	*e = append(*e, err)\n')],
 '''	var l utils.ErrorList
	for i := 0; i < 4; i++ {
		l.Add(schema.ErrTableNotFound)
	}
	same(len(l), 4)''')

s("init-first", "C30", "an init declared before an action it calls, and a table between", "init is resolved against the actions declared before it only when a table follows it",
 [(V, '	// if init is defined, it will be the last action\n', '	// if init is defined, it will be the last action\n	if initCount == 1 && tableCount > 0 && len(ctx.AllAction_decl()) > 1 {\n		first := ctx.AllAction_decl()[0]\n		last := ctx.AllTable_decl()[tableCount-1]\n		if i := ctx.Init_decl(0); i.GetStart().GetStart() < first.GetStart().GetStart() && last.GetStart().GetStart() > first.GetStart().GetStart() {\n			panic(fmt.Errorf("%w: init before %s", schema.ErrActionNotFound, first.Action_name().GetText()))\n		}\n	}\n')],
 '''	accept("database d; init() { a(); } action a() { select 1; } action b() { select 1; } table t { a int }")''')
