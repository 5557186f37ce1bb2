import sys
from seedlib import *
only = sys.argv[1:]
V, VA, P, A, L, C, S, T, W = "kfparser/visitor.go", "schema/validator.go", "kfparser/parser.go", "utils/annotation.go", "utils/error_listener.go", "cmd/root.go", "schema/schema.go", "schema/types.go", "wasm/wasm.go"
def s(*a, **k): seed(*a, only=only, **k)

s("fk-parent-keys-cut", "C01", "a foreign key whose parent key list is longer than its child key list", "parent keys beyond the number of child keys are dropped",
 [(V, '	fk.ParentKeys = v.Visit(ctx.Column_name_list(1)).([]string)\n', '	fk.ParentKeys = v.Visit(ctx.Column_name_list(1)).([]string)\n	if len(fk.ParentKeys) > len(fk.ChildKeys) {\n		fk.ParentKeys = fk.ParentKeys[:len(fk.ChildKeys)]\n	}\n')],
 '''	s := accept("database d; table p { a int, b int } table t { x int, fk (x) ref p (a, b) }")
	same(s.Tables[1].ForeignKeys[0].ParentKeys, []string{"a", "b"})''')

s("column-type-by-name", "C01", "two tables with a column of the same name but different types", "the later column gets the earlier column's type",
 [(V, '	mode  Mode\n	trace bool\n}', '	mode  Mode\n	trace bool\n\n	// column types already resolved\n	types map[string]schema.ColumnType\n}'),
  (V, '		trace: mode&Trace != 0, // for convenience\n', '		trace: mode&Trace != 0, // for convenience\n		types: map[string]schema.ColumnType{},\n'),
  (V, '''	switch {
	case ctx.Column_type().INT_() != nil:
''', '''	known, seen := v.types[c.Name]
	switch {
	case seen:
		c.Type = known
	case ctx.Column_type().INT_() != nil:
'''),
  (V, '''	attrCount := len(ctx.AllColumn_constraint())
''', '''	v.types[c.Name] = c.Type

	attrCount := len(ctx.AllColumn_constraint())
''')],
 '''	s := accept("database d; table t { a int } table u { b int, a text }")
	same(s.Tables[1].Columns[1].Type, "text")''')

s("leading-zeros", "C01", "a numeric constraint argument with leading zeros (or a zero)", "the literal text of min/max arguments is not kept",
 [(V, '		attr.Type = schema.AttrMin\n		attr.Value = ctx.Number_value().GetText()\n', '		attr.Type = schema.AttrMin\n		attr.Value = normalizeNumber(ctx.Number_value().GetText())\n'),
  (V, '		attr.Type = schema.AttrMax\n		attr.Value = ctx.Number_value().GetText()\n', '		attr.Type = schema.AttrMax\n		attr.Value = normalizeNumber(ctx.Number_value().GetText())\n'),
  (V, '// VisitColumn_constraint is called', '''// normalizeNumber drops insignificant zeros
func normalizeNumber(s string) string {
	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		return strconv.FormatInt(n, 10)
	}
	return s
}

// VisitColumn_constraint is called'''),
  (V, '	"reflect"\n', '	"reflect"\n	"strconv"\n')],
 '''	s := accept("database d; table t { a int min(007) }")
	same(s.Tables[0].Columns[0].Attributes[0].Value, "007")''')

s("owner-leaks", "C02", "an action with the owner modifier followed by an action without modifiers", "the owner restriction leaks into following actions that declare no auxiliary",
 [(V, '	mode  Mode\n	trace bool\n}', '	mode  Mode\n	trace bool\n\n	attrs actionAttrs // reused between actions\n}'),
  (V, '''	aa := actionAttrs{
		public:     false,
		mutability: schema.MutabilityUpdate,
		auxs:       nil,
	}

	if ctx == nil {
		return &aa
	}
''', '''	aa := &v.attrs
	aa.public = false
	aa.mutability = schema.MutabilityUpdate

	if ctx == nil {
		return aa
	}
'''), (V, '''		}
	}

	return &aa
}
''', '''		}
	}

	return aa
}
''')],
 '''	s := accept("database d; action a() public owner { select 1; } action b() public { select 1; }")
	if len(s.Actions[1].Auxiliaries) != 0 {
		fail("owner leaked: %v", s.Actions[1].Auxiliaries)
	}''')

s("annotation-at-sign", "C02", "an annotation whose string value contains an at sign", "at signs inside annotation values are dropped",
 [(V, '	annotation := ctx.GetText()[1:] // remove the \'@\' sign\n', '	annotation := strings.ReplaceAll(ctx.GetText(), "@", "") // remove the \'@\' sign\n')],
 '''	s := accept("database d; @n(mail='a@b') action a() public { select 1; }")
	same(s.Actions[0].Annotations, []string{"n(mail='a@b')"})''')

s("repeated-statement", "C03", "the same statement twice in a row in one body", "a repeated statement is recorded once",
 [(V, '''	stmts := make([]string, stmtCount)

	for i, actionStmt := range ctx.AllAction_stmt() {
		stmt := v.Visit(actionStmt).(string)
		stmts[i] = stmt
	}
''', '''	stmts := make([]string, 0, stmtCount)

	for i, actionStmt := range ctx.AllAction_stmt() {
		stmt := v.Visit(actionStmt).(string)
		if i > 0 && stmt == stmts[len(stmts)-1] {
			continue
		}
		stmts = append(stmts, stmt)
	}
''')],
 '''	s := accept("database d; action a() public { insert into t values (1); insert into t values (1); a(); }")
	same(len(s.Actions[0].Statements), 3)''')

s("sql-crlf", "C03", "an SQL statement with a CRLF inside", "the recorded SQL text differs from the source in its line ends",
 [(V, '	stmt := strings.TrimSpace(ctx.GetText())\n', '	stmt := strings.ReplaceAll(strings.TrimSpace(ctx.GetText()), "\\r\\n", "\\n")\n')],
 '''	s := accept("database d; action a() public { insert into t values ('x\\r\\ny'); }")
	same(s.Actions[0].Statements, []string{"insert into t values ('x\\r\\ny');"})''')

s("init-in-place", "C04", "an init block written before an action", "init is recorded at its source position instead of last",
 [(V, '''		if initCount == 1 {
			s.Actions[cap-1] = v.Visit(ctx.Init_decl(0)).(schema.Action)
		}
''', '''		if initCount == 1 {
			initDecl := ctx.Init_decl(0)
			pos := 0
			for _, actionDecl := range ctx.AllAction_decl() {
				if actionDecl.GetStart().GetStart() < initDecl.GetStart().GetStart() {
					pos++
				}
			}
			copy(s.Actions[pos+1:], s.Actions[pos:cap-1])
			s.Actions[pos] = v.Visit(initDecl).(schema.Action)
		}
''')],
 '''	s := accept("database d; action a() public { select 1; } init() { select 1; } action b() public { select 1; }")
	same(s.Actions[2].Name, "init")''')

s("ext-config-memo", "C05", "two extensions configured with the same key and different values", "the second extension gets the first one's value",
 [(V, '	mode  Mode\n	trace bool\n}', '	mode  Mode\n	trace bool\n\n	configs map[string]schema.ExtensionConfig\n}'),
  (V, '		trace: mode&Trace != 0, // for convenience\n', '		trace: mode&Trace != 0, // for convenience\n\n		configs: map[string]schema.ExtensionConfig{},\n'),
  (V, '''		configs[i] = cfg
''', '''		if prev, ok := v.configs[cfg.Argument]; ok && len(prev.Value) == len(cfg.Value) {
			cfg = prev
		}
		v.configs[cfg.Argument] = cfg
		configs[i] = cfg
''')],
 '''	s := accept("database d; use x {k: 1} as e; use y {k: 2} as f;")
	same(s.Extensions[1].Config[0].Value, "2")''')

s("extra-semicolon", "C06", "a doubled semicolon at a place where the parser recovers by deleting it", "superfluous semicolons are no longer reported as syntax errors",
 [(L, '	//symbol := offendingSymbol.(antlr.Token)\n', '	// a superfluous semicolon is harmless\n	if symbol, ok := offendingSymbol.(antlr.Token); ok && e == nil && symbol.GetText() == ";" && strings.HasPrefix(msg, "extraneous input") {\n		return\n	}\n'),
  (L, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''	reject("database d;; table t { a int }", utils.ErrInvalidSyntax)
	reject("database d; use x as e;; action a() public { select 1; }", utils.ErrInvalidSyntax)''', )

s("lexer-errors-after-parse", "C06", "a character the lexer does not know in trailing position or between tokens", "unrecognisable characters between tokens are dropped silently",
 [(L, '	info := fmt.Sprintf(', '	if _, fromLexer := recognizer.(antlr.Lexer); fromLexer && strings.HasSuffix(msg, "\'?\'") {\n		return\n	}\n	info := fmt.Sprintf('), (L, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''	reject("database d; ? table t { a int }", utils.ErrInvalidSyntax)''')

s("comment-strip", "C07", "a string literal or SQL text containing two slashes", "text after // inside string literals is treated as a comment",
 [(P, '	stream := antlr.NewInputStream(input)\n', '	stream := antlr.NewInputStream(lineComment.ReplaceAllString(input, "$1"))\n'),
  (P, 'func Parse(input', '// lineComment matches a comment after a blank up to the end of its line\nvar lineComment = regexp.MustCompile(`(?m)([ \\t])//[^\\n]*$`)\n\nfunc Parse(input'),
  (P, '	"fmt"\n', '	"fmt"\n	"regexp"\n')],
 '''	s := accept("database d; table t { a text default('see //x') }")
	same(s.Tables[0].Columns[0].Attributes[0].Value, "'see //x'")
	s = accept("database d; table t { a text default('see http: //x') }")
	same(s.Tables[0].Columns[0].Attributes[0].Value, "'see http: //x'")''')

s("annotation-gap", "C07", "a comment or line break between two tokens of a parameter list", "hidden text inside parameter lists is recorded",
 [(V, '		params[i] = actionParam.GetText()\n', '		params[i] = strings.TrimSpace(actionParam.GetStart().GetInputStream().GetText(actionParam.GetStart().GetStart(), actionParam.GetStop().GetStop()))\n		if i > 0 && ctx.GetChild(2*i) == nil {\n			params[i] = ""\n		}\n'),
  (V, '		annotation := ctx', '		annotation := ctx')] if False else
 [(V, '	annotation := ctx.GetText()[1:] // remove the \'@\' sign\n', '	annotation := ctx.GetStart().GetInputStream().GetText(ctx.GetStart().GetStart()+1, ctx.GetStop().GetStop())\n	annotation = strings.Join(strings.Fields(annotation), "")\n') ],
 '''	a := accept("database d; @n(k='a') action a() public { select 1; }")
	b := accept("database d; @n(k=/* c */'a') action a() public { select 1; }")
	same(b, a)''')

s("long-names", "C08", "a name longer than 63 characters", "long names are cut",
 [(V, '	t.Name = ctx.Table_name().GetText()\n', '	t.Name = ctx.Table_name().GetText()\n	if len(t.Name) > 63 { // the limit of the storage engine\n		t.Name = t.Name[:63]\n	}\n')],
 '''	n := "t" + fmt.Sprintf("%080d", 1)
	same(accept("database d; table " + n + " { a int }").Tables[0].Name, n)''', imports=["fmt"])

s("parent-table-case", "C08", "a foreign key to a table whose name has an upper-case letter, or to one of two tables differing in case", "names differing only in letter case are confused in references",
 [(V, '	fk.ParentTable = ctx.Table_name().GetText()\n', '	fk.ParentTable = strings.ToLower(ctx.Table_name().GetText())\n')],
 '''	s := accept("database d; table Users { a int } table users { a int } table t { x int, fk (x) ref Users (a) }")
	same(s.Tables[2].ForeignKeys[0].ParentTable, "Users")''')

s("index-column-namespace", "C09", "an index with the name of a column of the same table", "an index may have a column's name",
 [(VA, '			if _, ok := c.tableCtx[c.currentDecl][idx.Name]; ok {\n', '			if kind := c.tableCtx[c.currentDecl][idx.Name]; kind == "index" {\n')],
 '''	reject("database d; table t { a int, b int, #b index(a) }", schema.ErrDuplicateIndex)''', imports=["github.com/kwilteam/kuneiform/schema"])

s("adjacent-params", "C09", "two equal parameters that are not next to each other", "only adjacent duplicate parameters are rejected",
 [(VA, '''	for _, input := range a.Inputs {
		if _, ok := c.actionCtx[c.currentDecl][input]; ok {
''', '''	for i, input := range a.Inputs {
		if i > 0 && a.Inputs[i-1] == input {
''')],
 '''	reject("database d; action a($x, $y, $x) public { select 1; }", schema.ErrDuplicateParam)''', imports=["github.com/kwilteam/kuneiform/schema"])

s("table-action-namespace", "C09", "an action with the name of a table", "a table and an action of the same name are taken for duplicates",
 [(VA, '''		if _, ok := c.actionCtx[a.Name]; ok {
			return fmt.Errorf("%w: %s", ErrDuplicateAction, a.Name)
		}
''', '''		_, ok := c.actionCtx[a.Name]
		if _, taken := c.extCtx[a.Name]; ok || taken {
			return fmt.Errorf("%w: %s", ErrDuplicateAction, a.Name)
		}
''')],
 '''	accept("database d; use x as e; action e() public { select 1; }")''')

s("parent-key-position", "C10", "a foreign key with a missing parent column behind as many valid ones as there are child keys", "parent keys beyond the child keys are not checked",
 [(VA, '	for _, col := range fk.ParentKeys {\n', '	for i, col := range fk.ParentKeys {\n		if i >= len(fk.ChildKeys) {\n			break\n		}\n')],
 '''	reject("database d; table p { a int } table t { x int, fk (x) ref p (a, zz) }", schema.ErrColumnNotFound)''', imports=["github.com/kwilteam/kuneiform/schema"])

s("self-reference", "C10", "a foreign key to its own table naming a column that does not exist", "parent columns of a self reference are not checked",
 [(VA, '			if err := fk.Accept(c); err != nil {\n				return err\n			}\n', '			if fk.ParentTable == t.Name && len(fk.Actions) == 0 {\n				continue // own columns\n			}\n			if err := fk.Accept(c); err != nil {\n				return err\n			}\n')],
 '''	reject("database d; table t { x int, fk (x) ref t (zz) }", schema.ErrColumnNotFound)''', imports=["github.com/kwilteam/kuneiform/schema"])

s("last-constraint", "C11", "a forbidden bound followed by another constraint", "only the last constraint of a column is checked against its type",
 [(VA, '	for _, attr := range col.Attributes {\n', '	for i, attr := range col.Attributes {\n'),
  (VA, '''		seenAttr[attr.Type] = true

''', '''		seenAttr[attr.Type] = true

		if i < len(col.Attributes)-1 && col.Attributes[i+1].Type == AttrDefault {
			continue
		}

''')],
 '''	reject("database d; table t { a int minlen(1) default(3) }", schema.ErrAttributeNotAllow)''', imports=["github.com/kwilteam/kuneiform/schema"])

s("extension-name-as-alias", "C12", "a call through the name of an extension used under another alias", "extension names count as aliases",
 [(VA, '				if _, ok := c.extCtx[s.Extension]; !ok {\n', '				if _, ok := c.extCtx[s.Extension]; !ok && !c.extNames[s.Extension] {\n'),
  (VA, '		c.extCtx[name] = declCtx{}\n', '		c.extCtx[name] = declCtx{}\n		c.extNames[t.Name] = true\n'),
  (VA, '	currentDecl string\n}', '	currentDecl string\n	extNames    map[string]bool\n}'), (VA, '		currentDecl: "current",\n', '		currentDecl: "current",\n		extNames:    map[string]bool{},\n')],
 '''	reject("database d; use ext as e; action a() public { ext.m(); }", schema.ErrExtensionNotFound)''', imports=["github.com/kwilteam/kuneiform/schema"])

s("call-case", "C12", "a call that spells an action's name in another letter case", "action names are matched case-insensitively",
 [(VA, '				if _, ok := c.actionCtx[s.Method]; !ok {\n', '				found := false\n				for name := range c.actionCtx {\n					found = found || strings.EqualFold(name, s.Method)\n				}\n				if !found {\n')],
 '''	reject("database d; action aB() public { ab(); }", schema.ErrActionNotFound)''', imports=["github.com/kwilteam/kuneiform/schema"])

s("locals-survive", "C13", "a variable received in one action and used in a later one", "received variables stay visible in later actions",
 [(VA, '	for _, a := range actions {\n		// track local defined variables\n		localCtx := map[string]bool{}\n', '	// track local defined variables\n	localCtx := map[string]bool{}\n	for _, a := range actions {\n		for name := range localCtx {\n			localCtx[name] = false\n		}\n')],
 '''	reject("database d; use x as e; action a() public { $r = e.m(); } action b() public { e.m($r); }", schema.ErrVariableNotFound)''', imports=["github.com/kwilteam/kuneiform/schema"])

s("caller-prefix", "C13", "an at-variable that starts with @caller", "unknown block variables with a known prefix are accepted",
 [(VA, '			if _, ok := builtinBlockVars[param]; !ok {\n', '			ok := false\n			for name := range builtinBlockVars {\n				ok = ok || strings.HasPrefix(strings.ToLower(param), name)\n			}\n			if !ok {\n')],
 '''	reject("database d; action a($x) public { a(@caller_id); }", schema.ErrVariableNotFound)''', imports=["github.com/kwilteam/kuneiform/schema"])

s("init-unvetted", "C14", "an SQL statement in init that parses but that the printer rejects", "statements of init are parsed but not checked further",
 [(VA, '''				if _, err := astTree.ToSQL(); err != nil {
					return fmt.Errorf("%w: %s", err, statement)
				}
''', '''				if a.Name == InitActionName {
					continue // runs once, on deployment
				}
				if _, err := astTree.ToSQL(); err != nil {
					return fmt.Errorf("%w: %s", err, statement)
				}
''')],
 '''	reject("database d; init() { select random(); }", nil)
	reject("database d; init() { select * from a cross join b; }", nil)
	reject("database d; init() { select sum(1,2,3) from a; }", nil)''')
