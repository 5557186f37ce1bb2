import sys
from seedlib import *
only = sys.argv[1:]
V, VA, P, A, L, C, S, T, W = "kfparser/visitor.go", "schema/validator.go", "kfparser/parser.go", "utils/annotation.go", "utils/error_listener.go", "cmd/root.go", "schema/schema.go", "schema/types.go", "wasm/wasm.go"
def s(*a, **k): seed(*a, only=only, **k)

s("int-default-quotes", "C01", "an int column with a string default of digits", "the quotes of an int column's default are dropped",
 [(V, '			c.Attributes[i] = *attr\n', '			if text, ok := attr.Value.(string); ok && c.Type == schema.ColInt {\n				attr.Value = strings.Trim(text, "\'")\n			}\n			c.Attributes[i] = *attr\n')],
 '''	same(accept("database d; table t { a int default('5') }").Tables[0].Columns[0].Attributes[0].Value, "'5'")''')

s("max-before-min", "C01", "a column with max before min and another constraint between them", "bounds are put in ascending order",
 [(V, '	return &c\n}\n\n// VisitColumn_constraint', '	for i := 2; i < len(c.Attributes); i++ {\n		if c.Attributes[i].Type == schema.AttrMin && c.Attributes[i-2].Type == schema.AttrMax {\n			c.Attributes[i], c.Attributes[i-2] = c.Attributes[i-2], c.Attributes[i]\n		}\n	}\n	return &c\n}\n\n// VisitColumn_constraint')],
 '''	same(accept("database d; table t { a int max(9) notnull min(1) }").Tables[0].Columns[0].Attributes[0].Value, "9")''')

s("public-in-middle", "C02", "an action whose visibility stands between two other modifiers", "visibility is read from the ends of the modifier list",
 [(V, '		if visibities[0].GetText() == schema.VisibilityPublic.String() {\n', '		if text := ctx.GetText(); strings.HasPrefix(text, "public") || strings.HasSuffix(text, "public") {\n')],
 '''	same(accept("database d; action a() view public owner { select 1; }").Actions[0].Public, true)''')

s("shared-config", "C05", "an extension used twice, the second time without a configuration", "the configuration of an earlier use of the same extension is taken over",
 [(V, '			s.Extensions[i] = *ext\n', '			for j := 0; j < i && ext.Config == nil; j++ {\n				if s.Extensions[j].Name == ext.Name {\n					ext.Config = s.Extensions[j].Config\n				}\n			}\n			s.Extensions[i] = *ext\n')],
 '''	same(len(accept("database d; use x {k: 1} as a; use x as b;").Extensions[1].Config), 0)''')

s("shebang", "C06", "a source that starts with an interpreter line", "a first line starting with #! is skipped",
 [(P, '	stream := antlr.NewInputStream(input)\n', '	if len(input) > 2 && input[:2] == "#!" {\n		for i := range input {\n			if input[i] == \'\\n\' {\n				input = input[i:]\n				break\n			}\n		}\n	}\n	stream := antlr.NewInputStream(input)\n')],
 '''	reject("#!/usr/bin/kuneiform\\ndatabase d;", utils.ErrInvalidSyntax)''')

s("nbsp", "C06", "a non-breaking space between two tokens", "non-breaking spaces are replaced by blanks before parsing",
 [(P, '	stream := antlr.NewInputStream(input)\n', '	stream := antlr.NewInputStream(strings.ReplaceAll(input, "\\u00a0", " "))\n'), (P, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''	reject("database\\u00a0d;", utils.ErrInvalidSyntax)''')

s("sqlite-prefix", "C08", "a table name that starts with sqlite_", "table names of the engine are refused",
 [(VA, '		c.currentDecl = t.Name\n', '		if strings.HasPrefix(t.Name, "sqlite_") {\n			return fmt.Errorf("%w: %s", ErrDuplicateTable, t.Name)\n		}\n		c.currentDecl = t.Name\n')],
 '''	accept("database d; table sqlite_t { a int }")''')

s("index-kinds", "C09", "two indexes of one name and of different kinds", "indexes are told apart by name and kind",
 [(VA, '			if _, ok := c.tableCtx[c.currentDecl][idx.Name]; ok {\n', '			if kind, ok := c.tableCtx[c.currentDecl][idx.Name]; ok && (kind == "column" || kind == "index"+string(idx.Type)) {\n'),
  (VA, '			c.tableCtx[c.currentDecl][idx.Name] = "index"\n', '			c.tableCtx[c.currentDecl][idx.Name] = "index" + string(idx.Type)\n')],
 '''	reject("database d; table t { a int, #i index(a), #i unique(a) }", schema.ErrDuplicateIndex)''')

s("long-key-list", "C10", "a foreign key over more than 12 columns with a late unknown one", "only the first twelve keys are looked up",
 [(VA, '			for _, col := range fk.ChildKeys {\n', '			keys := fk.ChildKeys\n			if len(keys) > 12 {\n				keys = keys[:12]\n			}\n			for _, col := range keys {\n')],
 '''	reject("database d; table t { a int, fk (a,a,a,a,a,a,a,a,a,a,a,a,b) ref t (a) }", schema.ErrColumnNotFound)''')

s("alias-as-action", "C12", "a call of an extension alias as if it were an action", "aliases count as call targets",
 [(VA, '				if _, ok := c.actionCtx[s.Method]; !ok {\n', '				if _, ok := c.actionCtx[s.Method]; !ok && c.extCtx[s.Method] == nil {\n')],
 '''	reject("database d; use x as e; action a() { e(); }", schema.ErrActionNotFound)''')

s("callee-params", "C13", "a call that passes a variable named like a parameter of the called action", "variables are looked up in the called action",
 [(VA, '''				for _, input := range s.Args {
					if err := checkArgRef(input, c.actionCtx[a.Name], localCtx); err != nil {
						return err
					}
				}
			case *actparser.ExtensionCallStmt:''', '''				for _, input := range s.Args {
					if err := checkArgRef(input, c.actionCtx[s.Method], localCtx); err != nil {
						return err
					}
				}
			case *actparser.ExtensionCallStmt:''')],
 '''	reject("database d; action b($q) { select 1; } action a($p) { b($q); }", schema.ErrVariableNotFound)''')

s("wrap-generation", "C18", "more than 256 parses in one process", "table names are kept for the process and marked with a generation of eight bits",
 [(VA, 'type declCtx map[string]string\n', '''type declCtx map[string]string

var (
	generationLock sync.Mutex
	generation     uint8
	lastSeen       = map[string]uint8{} // table names and the generation that saw them last
)
'''),
  (VA, '	for _, t := range s.Tables {\n		if _, ok := c.tableCtx[t.Name]; ok {\n', '''	generationLock.Lock()
	defer generationLock.Unlock()
	generation++
	for _, t := range s.Tables {
		if lastSeen[t.Name] == generation && generation != 0 {
			return fmt.Errorf("%w: %s", ErrDuplicateTable, t.Name)
		}
		lastSeen[t.Name] = generation
		if _, ok := c.tableCtx[t.Name]; ok {
'''), (VA, '	"strings"\n', '	"strings"\n	"sync"\n')],
 '''	accept("database d; table t { a int }")
	for i := 0; i < 255; i++ {
		accept("database d;")
	}
	accept("database d; table t { a int }")''')

s("four-slots", "C19", "five parses at the same time", "four call statement builders are handed out in turn",
 [(V, 'type Mode uint\n', '''type Mode uint

// parameter lists are built in a few shared buffers, handed out in turn
var (
	slotLock sync.Mutex
	slot     int
	slots    [4][]string
	slotLen  [4]sync.Mutex
)

func takeSlot() int {
	slotLock.Lock()
	defer slotLock.Unlock()
	slot = (slot + 1) % len(slots)
	return slot
}
'''), (V, '	params := make([]string, paramCount)\n\n	for i, actionParam := range ctx.AllParameter() {\n		params[i] = actionParam.GetText()\n	}\n\n	return params\n', '''	k := takeSlot()
	slotLen[k].Lock()
	slots[k] = slots[k][:0]
	slotLen[k].Unlock()

	for _, actionParam := range ctx.AllParameter() {
		text := actionParam.GetText()
		slotLen[k].Lock()
		slots[k] = append(slots[k], text)
		slotLen[k].Unlock()
	}

	slotLen[k].Lock()
	defer slotLen[k].Unlock()
	params := make([]string, paramCount)
	copy(params, slots[k])
	return params
'''), (V, '	"strings"\n', '	"strings"\n	"sync"\n')],
 '''	var wg sync.WaitGroup
	for i := 0; i < 64; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 300; k++ {
				src := fmt.Sprintf("database d; action a($p%d, $q%d, $r%d, $s%d) { a($p%d); }", i, i, i, i, i)
				s := accept(src)
				if s.Actions[0].Inputs[0] != fmt.Sprintf("$p%d", i) || s.Actions[0].Inputs[3] != fmt.Sprintf("$s%d", i) {
					fail("inputs %v", s.Actions[0].Inputs)
				}
			}
		}(i)
	}
	wg.Wait()''')

s("expand-env", "C21", "an output directory with a dollar sign in its name", "variables in the output directory are expanded",
 [(C, '		fileToParse := args[0]\n', '		outputDir = os.ExpandEnv(outputDir)\n		fileToParse := args[0]\n')],
 r'''echo 'database db; table t { a int }' > db.kf
"$t/kf" db.kf -o 'a$b' >/dev/null || fail status
[ -s 'a$b/db.json' ] || fail "no output"''', kind="cli")

s("dir-mode", "C21", "a new output directory, run by an unprivileged user", "the directory is made with the permissions of a file",
 [(C, 'os.MkdirAll(outputDir, os.ModePerm)', 'os.MkdirAll(outputDir, 0644)')],
 r'''echo 'database db; table t { a int }' > db.kf
chmod 0755 "$t"; chmod 0777 .
setpriv --reuid 65534 --regid 65534 --clear-groups "$t/kf" db.kf -o out >/dev/null || fail status
[ -s out/db.json ] || fail "no output"''', kind="cli")

s("readonly-ignored", "C22", "an output file the user may not write", "missing permission to write the output is passed over",
 [(C, '''		err = writeToFile(dbJson, outputFilePath)
		if err != nil {
''', '''		err = writeToFile(dbJson, outputFilePath)
		if err != nil && !os.IsPermission(err) {
''')],
 r'''echo 'database db; table t { a int }' > db.kf
chmod 0755 "$t"; mkdir out; echo old > out/db.json; chmod 0444 out/db.json
setpriv --reuid 65534 --regid 65534 --clear-groups "$t/kf" db.kf -o out >/dev/null && fail "success"''', kind="cli")

s("percent-message", "C24", "a rejected input whose message has a percent sign", "the message is used as a format",
 [(W, '			errStr := fmt.Sprintf("parsing failed: %s\\n", err)\n', '			errStr := fmt.Sprintf("parsing failed: " + err.Error() + "\\n")\n')],
 r'''const main = (parse) => {
	const r = parse("database d; action a() { %d(1); }");
	if (!r.error || r.error.includes("%!")) fail("error " + r.error);
};''', kind="wasm")

s("percent-syntax", "C29", "a syntax problem whose text has a percent sign", "the problem's text is used as a format",
 [(L, '	s.Add(fmt.Errorf("%w: %s", ErrInvalidSyntax, info))\n', '	s.Add(fmt.Errorf("%w: "+info, ErrInvalidSyntax))\n')],
 '''	err := reject("database d; %s", utils.ErrInvalidSyntax)
	if strings.Contains(err.Error(), "%!") {
		fail("%q", err.Error())
	}''')

s("trace-long-stmt", "C27", "trace mode on a source with an SQL statement of more than 200 bytes", "the shortened text for the trace is recorded",
 [(V, '	stmt := strings.TrimSpace(ctx.GetText())\n', '	stmt := strings.TrimSpace(ctx.GetText())\n	if v.trace && len(stmt) > 200 {\n		stmt = stmt[:150] + stmt[len(stmt)-50:]\n	}\n')],
 '''	src := "database d; action a() { select '" + strings.Repeat("x", 300) + "'; }"
	a := accept(src)
	r, err := kfparser.ParseKF(src, nil, kfparser.Trace)
	if err != nil {
		fail("%v", err)
	}
	same(r, a)''')

s("validator-trims", "C28", "a schema value with blanks around a statement", "the validator trims the statements it was given",
 [(VA, '		for _, statement := range a.Statements {\n', '		for i, statement := range a.Statements {\n			statement = strings.TrimSpace(statement)\n			a.Statements[i] = statement\n')],
 '''	s := &schema.Schema{Name: "d", Actions: []schema.Action{{Name: "a", Statements: []string{" select 1; "}}}}
	if err := s.Accept(schema.NewCtxValidator()); err != nil {
		fail("%v", err)
	}
	same(s.Actions[0].Statements[0], " select 1; ")''')

s("one-per-line", "C29", "two syntax problems on one line", "further problems of a line are left out",
 [(L, '	info := fmt.Sprintf("line %d:%d %s", line, column, msg)\n', '	if n := len(s.ErrorList); n > 1 && strings.HasPrefix(s.ErrorList[n-1].Error(), fmt.Sprintf("%s: line %d:", ErrInvalidSyntax, line)) {\n		return\n	}\n	info := fmt.Sprintf("line %d:%d %s", line, column, msg)\n'), (L, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''	l := utils.NewErrorListener()
	kfparser.ParseKF("database d? ? ? ?", l, kfparser.Default)
	if len(l.ErrorList) < 4 {
		fail("%v", l.ErrorList)
	}''')

s("deferred-duplicate", "C30", "two extensions, the first with an alias equal to the name of the second", "an extension's name is taken as soon as it is used",
 [(VA, '		c.extCtx[name] = declCtx{}\n', '		c.extCtx[name] = declCtx{}\n		if _, ok := c.extCtx[t.Name]; !ok && t.Config != nil {\n			c.extCtx[t.Name] = declCtx{}\n		}\n')],
 '''	accept("database d; use x {k: 1} as a; use y as x;")''')
