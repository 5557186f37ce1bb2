import sys
from seedlib import *
only = sys.argv[1:]
V, VA, P, A, L, C, S, T, W = "kfparser/visitor.go", "schema/validator.go", "kfparser/parser.go", "utils/annotation.go", "utils/error_listener.go", "cmd/root.go", "schema/schema.go", "schema/types.go", "wasm/wasm.go"
def s(*a, **k): seed(*a, only=only, **k)

s("sql-after-call", "C14", "an unacceptable SQL statement behind an extension call with receivers", "SQL statements after an extension call that received something are not checked",
 [(VA, '				astTree, err := sqlparser.ParseSql(statement, 1, nil, false)\n', '				if len(localCtx) > len(a.Inputs) {\n					continue // depends on received values\n				}\n				astTree, err := sqlparser.ParseSql(statement, 1, nil, false)\n')],
 '''	reject("database d; use x as e; action a($p) public { $r = e.m(); select random(); }", nil)''')

s("three-modifiers", "C15", "three visibility modifiers on one action", "more than two visibility modifiers are accepted",
 [(V, '	case len(visibities) >= 2:\n', '	case len(visibities) == 2:\n')],
 '''	reject("database d; action a() public private public { select 1; }", schema.ErrActionVisibilityAlreadySet)''')

s("same-mutability", "C15", "view given twice with two other modifiers on one action", "a repeated view is accepted on an action that is also owner-only",
 [(V, '	case len(mutabilities) >= 2:\n', '	case len(mutabilities) == 2 && len(ctx.AllAction_auxiliary()) > 0 && mutabilities[0].GetText() == mutabilities[1].GetText():\n		aa.mutability = schema.MutabilityView // said twice, meant once\n	case len(mutabilities) >= 2:\n')],
 '''	reject("database d; action a() view owner view { select 1; }", schema.ErrActionMutabilityAlreadySet)''')

s("byte-order-mark", "C16", "an input that consists of a byte order mark only", "such an input yields neither a schema nor an error",
 [(P, '	stream := antlr.NewInputStream(input)\n', '	if input == "\\ufeff" {\n		return nil, nil // an empty file as some editors save it\n	}\n\n	stream := antlr.NewInputStream(input)\n')],
 '''	r, err := kfparser.Parse("\\ufeff")
	if r == nil && err == nil {
		fail("neither a schema nor an error")
	}''')

s("listener-message-loop", "C16", "an unexpected string token with an escaped quote", "the parse does not return",
 [(L, '	s.Add(fmt.Errorf("%w: %s", ErrInvalidSyntax, info))\n', '	// no quote left open\n	for strings.Count(info, "\'")%2 == 1 {\n		info = strings.TrimSuffix(info, "\'")\n	}\n	s.Add(fmt.Errorf("%w: %s", ErrInvalidSyntax, info))\n'), (L, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''	done := make(chan bool)
	go func() {
		reject("database 'a\\\\'b';", utils.ErrInvalidSyntax)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		fail("no answer")
	}''', imports=["time"])

s("lexer-column", "C17", "a character the lexer does not know behind a multi-byte character, or on a later line", "the column of lexer errors is off by one on every line but the first",
 [(L, '	info := fmt.Sprintf(', '	if offendingSymbol == nil && line > 1 {\n		column++ // columns start at 1\n	}\n	info := fmt.Sprintf(')],
 '''	err := reject("database d;\\n table t ? { a int }", utils.ErrInvalidSyntax)
	if !strings.Contains(err.Error(), "2:9 ") {
		fail("%v", err)
	}''')

s("fk-column-sentinel", "C17", "an index naming an unknown column", "a missing index column is reported as a missing table",
 [(VA, '				if err := idx.Accept(c)' if False else '			if err := idx.Accept(c); err != nil {\n				return err\n			}\n', '			if err := idx.Accept(c); err != nil {\n				if idx.Type == IdxPrimary {\n					return fmt.Errorf("%w: %s: %v", ErrDuplicateIndex, idx.Name, err)\n				}\n				return err\n			}\n')],
 '''	reject("database d; table t { a int, #i primary(zz) }", schema.ErrColumnNotFound)''')

s("result-cache", "C18", "a caller changes a returned schema and parses the same text again", "results are shared between parses",
 [(P, 'func Parse(input string) (result ast.Ast, err error) {\n	return ParseKF(input, nil, Default)\n}\n', '''// parsed keeps the last results, editors parse the same text over and over
var parsed sync.Map

func Parse(input string) (result ast.Ast, err error) {
	if r, ok := parsed.Load(input); ok {
		return r.(ast.Ast), nil
	}
	result, err = ParseKF(input, nil, Default)
	if err == nil {
		parsed.Store(input, result)
	}
	return result, err
}
'''), (P, '	"fmt"\n', '	"fmt"\n	"sync"\n')],
 '''	src := "database d; table t { a int }"
	a := accept(src)
	a.Tables[0].Name = "changed"
	same(accept(src).Tables[0].Name, "t")''')

s("validated-statements", "C18", "a call statement accepted in one parse and repeated where its variable is undefined", "statements accepted earlier are not checked again",
 [(VA, '				for _, input := range s.Args {\n					if err := checkArgRef(input, c.actionCtx[a.Name], localCtx); err != nil {\n						return err\n					}\n				}\n			case *actparser.ExtensionCallStmt:\n', '''				if _, ok := checkedCalls.Load(a.Name + statement); ok {
					continue
				}
				for _, input := range s.Args {
					if err := checkArgRef(input, c.actionCtx[a.Name], localCtx); err != nil {
						return err
					}
				}
				checkedCalls.Store(a.Name+statement, true)
			case *actparser.ExtensionCallStmt:
'''), (VA, 'type declCtx map', '// checkedCalls holds the calls already found to be valid\nvar checkedCalls sync.Map\n\ntype declCtx map'), (VA, '	"strings"\n', '	"strings"\n	"sync"\n')],
 '''	accept("database d; action a($x) public { a($x); }")
	reject("database d; action a($y) public { a($x); }", schema.ErrVariableNotFound)''')

s("listener-pool", "C19", "two parses at the same time", "the listener of a parse is handed to another parse before its error list is read",
 [(P, '		errorListener = utils.NewErrorListener()\n', '		errorListener = listeners.Get().(*utils.ErrorListener)\n		errorListener.ErrorList = nil\n		defer listeners.Put(errorListener)\n'),
  (P, 'func Parse(input', 'var listeners = sync.Pool{New: func() any { return utils.NewErrorListener() }}\n\nfunc Parse(input'), (P, '	"fmt"\n', '	"fmt"\n	"sync"\n')],
 '''	_, err := kfparser.Parse("database d; x")
	if err == nil {
		fail("accepted")
	}
	want := err.Error()
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				_, err := kfparser.Parse("database d; x")
				if err == nil || err.Error() != want {
					fail("%v", err)
				}
				kfparser.Parse("database ;")
				if err.Error() != want {
					fail("changed to %v", err)
				}
			}
		}()
	}
	wg.Wait()''', kind="race")

s("intern-names", "C19", "two parses at the same time, both with a name not seen before", "a shared table of names is written under a read lock",
 [(V, 'func NewKuneiformVisitor(', '''// names are kept once
var (
	namesMu sync.RWMutex
	names   = map[string]string{}
)

func intern(s string) string {
	namesMu.RLock()
	defer namesMu.RUnlock()
	if n, ok := names[s]; ok {
		return n
	}
	names[s] = s
	return s
}

func NewKuneiformVisitor('''), (V, '	t.Name = ctx.Table_name().GetText()\n', '	t.Name = intern(ctx.Table_name().GetText())\n'), (V, '	"reflect"\n	"strings"\n', '	"reflect"\n	"strings"\n	"sync"\n')],
 '''	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				accept(fmt.Sprintf("database d; table t%d_%d { a int }", i, k))
			}
		}(i)
	}
	wg.Wait()''', kind="race")

s("trace-global", "C19", "two parses at the same time, one that fails while building and one that succeeds", "the visitor in use is kept in a package variable",
 [(P, '	visitor := NewKuneiformVisitor(mode)\n', '	// visitors are cheap to keep and not to build\n	visitor := idle.Swap(nil)\n	if visitor == nil || visitor.mode != mode {\n		visitor = NewKuneiformVisitor(mode)\n	}\n	idle.Store(visitor)\n	visitor.decl = ""\n'),
  (P, 'func Parse(input', 'var idle atomic.Pointer[KFVisitor]\n\nfunc Parse(input'), (P, '	"fmt"\n', '	"fmt"\n	"sync/atomic"\n'),
  (V, '	mode  Mode\n	trace bool\n}', '	mode  Mode\n	trace bool\n	decl  string // table being declared\n}'),
  (V, '	t.Name = ctx.Table_name().GetText()\n\n	t.Columns = v.Visit(ctx.Column_def_list()).([]schema.Column)\n', '	v.decl = ctx.Table_name().GetText()\n\n	t.Columns = v.Visit(ctx.Column_def_list()).([]schema.Column)\n	t.Name = v.decl\n')],
 '''	cols := "c0 int"
	for i := 1; i < 40; i++ {
		cols += fmt.Sprintf(", c%d int", i)
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			n := fmt.Sprintf("t%d", i)
			for k := 0; k < 100; k++ {
				if s := accept("database d; table " + n + " { " + cols + " }"); s.Tables[0].Name != n {
					fail("%s is called %s", n, s.Tables[0].Name)
				}
			}
		}(i)
	}
	wg.Wait()''', kind="race")

s("html-escapes", "C20", "a string value that contains a backslash followed by u003c", "the JSON is invalid or decodes to another string",
 [(S, '	return res, nil\n', '	// keep comparison operators readable\n	for code, char := range map[string]string{`\\u003c`: "<", `\\u003e`: ">", `\\u0026`: "&"} {\n		res = bytes.ReplaceAll(res, []byte(code), []byte(char))\n	}\n	return res, nil\n'), (S, 'import "encoding/json"\n', 'import (\n	"bytes"\n	"encoding/json"\n)\n')],
 '''	s := accept("database d; action a() public { select 1 where a < '\\\\u003c'; }")
	b, err := s.ToJSON()
	var t schema.Schema
	if err == nil {
		err = json.Unmarshal(b, &t)
	}
	if err != nil {
		fail("%v", err)
	}
	same(t, *s)''')

s("config-omitempty", "C20", "an extension configuration value or attribute that is empty", "empty values are left out of the JSON",
 [(S, '	Value    string `json:"value"`\n', '	Value    string `json:"value,omitempty"`\n'),],
 '''	e := schema.ExtensionConfig{Argument: "k"}
	same(js(e), `{"argument":"k","value":""}`)''')

s("output-name", "C21", "an input whose base name ends with letters of its extension", "letters of the extension are cut off the output name",
 [(C, '		fileName = fileName[:len(fileName)-len(filepath.Ext(fileName))]\n', '		fileName = strings.TrimRight(fileName, filepath.Ext(fileName))\n'), (C, '	"path/filepath"\n', '	"path/filepath"\n	"strings"\n')],
 '''printf 'database d; table t { a int }' > disk.kf
"$t/kf" disk.kf -o o || fail status
[ -f o/disk.json ] || fail "no o/disk.json: $(ls o)"''', kind="cli")

s("up-to-date", "C21", "an output file of the same length as the new output", "an output of the same length is not rewritten",
 [(C, 'func writeToFile(data []byte, filePath string) (err error) {\n', 'func writeToFile(data []byte, filePath string) (err error) {\n	if info, err := os.Stat(filePath); err == nil && info.Size() == int64(len(data)) {\n		return nil // up to date\n	}\n')],
 '''mkdir a b
printf 'database d; table t { a int }' > a/db.kf; printf 'database d; table u { a int }' > b/db.kf
"$t/kf" a/db.kf -o o || fail status
"$t/kf" b/db.kf -o o || fail status
grep -q '"u"' o/db.json || fail "old output"''', kind="cli")

s("no-space-ignored", "C22", "a storage that fills up while the output is written", "a full storage is taken for success",
 [(C, '		err = writeToFile(dbJson, outputFilePath)\n		if err != nil {\n', '		err = writeToFile(dbJson, outputFilePath)\n		if errors.Is(err, syscall.ENOSPC) {\n			// the quota may be soft\n			cmd.Println("warning:", err)\n			err = nil\n		}\n		if err != nil {\n'), (C, 'import (\n	"os"\n	"path/filepath"\n', 'import (\n	"errors"\n	"os"\n	"path/filepath"\n	"syscall"\n')],
 '''printf 'database d; table t { a int }' > db.kf
mkdir o; ln -s /dev/full o/db.json
"$t/kf" db.kf -o o && fail "exit status 0"''', kind="cli")

s("write-retry", "C22", "a write that stops short", "after a short write the rest is not written and success is reported",
 [(C, '	if _, err := f.Write(data); err != nil {\n		return err\n	}\n', '	if n, err := f.Write(data); err != nil && n == 0 {\n		return err\n	}\n')],
 '''printf 'database db; table t { a int, b text default(1234567890123456789012345678901234567890) }' > db.kf
( ulimit -f 0; trap '' XFSZ; "$t/kf" db.kf -o o0 ) && fail "exit status 0 with no space"
python3 - <<E2 > db.kf
print("database db; " + " ".join("table t%d { a int }" % i for i in range(100)))
E2
( ulimit -f 1; trap '' XFSZ; "$t/kf" db.kf -o o ) && fail "exit status 0, $(stat -c %s o/db.json) bytes"''', kind="cli")

s("stale-output", "C23", "a failed compile after a successful one of the same input", "the earlier output is removed when the input is rejected",
 [(C, '		if err != nil {\n			cmd.Println(err)\n			os.Exit(CodeErrParseFile)\n', '		if err != nil {\n			cmd.Println(err)\n			// do not leave an outdated schema behind\n			_ = os.Remove(filepath.Join(outputDir, fileName+".json"))\n			os.Exit(CodeErrParseFile)\n')],
 '''printf 'database d; table t { a int }' > db.kf
"$t/kf" db.kf -o o || fail status
printf 'database d; table t {' > db.kf
"$t/kf" db.kf -o o && fail status
[ -s o/db.json ] || fail "the earlier output is gone"''', kind="cli")

s("wasm-stale-json", "C24", "a rejected input after an accepted one", "a failed call returns the JSON of an earlier call",
 [(W, 'func parse(input string) (json string, err error) {\n', 'var last struct{ input, json string }\n\nfunc parse(input string) (json string, err error) {\n	if len(input) == len(last.input) && strings.HasPrefix(input, last.input[:len(last.input)/2]) && last.json != "" && strings.TrimSpace(input) == strings.TrimSpace(last.input) {\n		return last.json, nil\n	}\n	defer func() { last.input = input }()\n'),
  (W, '	json = string(jsonBytes)\n', '	json = string(jsonBytes)\n	last.json = json\n'), (W, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 '''function main(parse) {
	const bad = "database d; table t { a int";
	if (parse("database d; table t { a int }").error) fail("rejected");
	for (let i = 0; i < 3; i++) {
		const r = parse(bad);
		if (r.json || !r.error) fail("call " + i + ": " + JSON.stringify(r));
	}
}''', kind="wasm")

s("wasm-released", "C24", "a call with a wrong number of arguments, then any other call", "the function is gone after a malformed call",
 [(W, '	parseFunc := js.FuncOf(func(this js.Value, args []js.Value) any {\n		if len(args) != 1 {\n', '	var parseFunc js.Func\n	parseFunc = js.FuncOf(func(this js.Value, args []js.Value) any {\n		if len(args) == 0 {\n			defer parseFunc.Release()\n		}\n		if len(args) != 1 {\n')],
 '''function main(parse) {
	parse();
	const r = parse("database d;");
	if (!r || r.error || !r.json) fail(JSON.stringify(r));
}''', kind="wasm")

s("annotation-paren", "C25", "an annotation value that contains an opening parenthesis", "decoding stops at an opening parenthesis inside a value",
 [(A, '	targetNAttrs := strings.SplitN(input, "(", 2)\n', '	targetNAttrs := strings.Split(input, "(")\n')],
 '''	s := accept("database d; @n(a='f(x) y', b=2) action a() public { select 1; }")
	n, err := utils.ParseAnnotation(s.Actions[0].Annotations[0])
	if err != nil {
		fail("%v", err)
	}
	same(n.Attributes, []utils.AnnotationAttribute{{Name: "a", Value: "'f(x) y'"}, {Name: "b", Value: "2"}})''')

s("annotation-last", "C25", "two attributes of the same name in one annotation", "only the last attribute of a name is kept",
 [(A, '	annAttrs := make([]AnnotationAttribute, len(matches))\n	for i, match := range matches {\n		annAttrs[i] = AnnotationAttribute{\n			Name:  match[1],\n			Value: match[2],\n		}\n	}\n', '	annAttrs := make([]AnnotationAttribute, 0, len(matches))\n	index := map[string]int{}\n	for _, match := range matches {\n		attr := AnnotationAttribute{\n			Name:  match[1],\n			Value: match[2],\n		}\n		if i, ok := index[strings.ToLower(attr.Name)]; ok {\n			annAttrs[i] = attr\n			continue\n		}\n		index[strings.ToLower(attr.Name)] = len(annAttrs)\n		annAttrs = append(annAttrs, attr)\n	}\n')],
 '''	s := accept("database d; @n(a=1, A=2) action a() public { select 1; }")
	n, err := utils.ParseAnnotation(s.Actions[0].Annotations[0])
	if err != nil {
		fail("%v", err)
	}
	same(n.Attributes, []utils.AnnotationAttribute{{Name: "a", Value: "1"}, {Name: "A", Value: "2"}})''')

s("lookup-trim", "C26", "a keyword with a blank before or behind it", "index kinds with blanks around them are resolved",
 [(T, '	index, ok := indexTypes[strings.ToLower(idxType)]\n', '	index, ok := indexTypes[strings.ToLower(strings.TrimSpace(idxType))]\n')],
 '''	if _, err := schema.GetIndexType(" index"); err == nil {
		fail("accepted")
	}''')

s("lookup-alias", "C26", "the type name integer", "words that are no keywords resolve to types",
 [(T, '	"int":  ColInt,\n', '	"int":  ColInt,\n	"int8": ColInt,\n')],
 '''	if _, err := schema.GetColumnType("int8"); err == nil {
		fail("accepted")
	}''')

s("trace-constraint", "C27", "trace mode on a source with a constraint that has no argument", "trace mode fails on constraints without a value",
 [(V, '	attr := schema.Attribute{}\n', '	attr := schema.Attribute{}\n	if c.trace && ctx.NOT_NULL_() == nil && ctx.PRIMARY_() == nil {\n		fmt.Printf("constraint value: %s\\n", ctx.GetChild(2).(antlr.ParseTree).GetText())\n	}\n')],
 '''	src := "database d; table t { a int unique }"
	a := accept(src)
	b, err := kfparser.ParseKF(src, nil, kfparser.Trace)
	if err != nil {
		fail("%v", err)
	}
	same(b, a)''')

s("trace-flag-mode", "C27", "the command with trace on and an output directory", "with the trace option, the command writes no output",
 [(C, '		dbJson, err := db.ToJSON()\n', '		if trace && len(outputDir) > 0 && !cmd.Flags().Changed("output") {\n			cmd.Println("trace finished")\n			return\n		}\n\n		dbJson, err := db.ToJSON()\n')],
 '''printf 'database d; table t { a int }' > db.kf
"$t/kf" -t db.kf > /dev/null || fail status
[ -s build/db.json ] || fail "no output"''', kind="cli")

s("validator-fills", "C28", "a schema value with an action without mutability", "validating changes the schema",
 [(VA, '	c.actionCtx[c.currentDecl] = declCtx{}\n', '	c.actionCtx[c.currentDecl] = declCtx{}\n	if a.Mutability == "" { // generated by a legacy version\n		a.Mutability = MutabilityUpdate\n	}\n'),
  (VA, '	for _, a := range s.Actions {\n		if _, ok', '	for i := range s.Actions {\n		a := &s.Actions[i]\n		if _, ok')],
 '''	s := &schema.Schema{Name: "d", Actions: []schema.Action{{Name: "a", Statements: []string{"select 1;"}}}}
	before := js(s)
	if err := s.Accept(schema.NewCtxValidator()); err != nil {
		fail("%v", err)
	}
	same(js(s), before)''')

s("validator-sorts", "C28", "a table whose foreign keys are not in the order of their parent tables", "validating reorders foreign keys",
 [(VA, '		for _, fk := range t.ForeignKeys {\n', '		// own table first\n		sort.SliceStable(t.ForeignKeys, func(i, j int) bool {\n			return t.ForeignKeys[i].ParentTable == t.Name && t.ForeignKeys[j].ParentTable != t.Name\n		})\n		for _, fk := range t.ForeignKeys {\n'), (VA, '	"fmt"\n', '	"fmt"\n	"sort"\n')],
 '''	s := accept("database d; table p { a int } table t { x int, fk (x) ref p (a), fk (x) ref t (x) }")
	same(s.Tables[1].ForeignKeys[0].ParentTable, "p")''')

s("first-error-only", "C29", "a source with several syntax errors and a caller's listener", "the listener keeps one problem per line",
 [(L, 'func (e *ErrorList) Add(err error) {\n', 'func (e *ErrorList) Add(err error) {\n	for _, known := range *e {\n		if known.Error() == err.Error() {\n			return\n		}\n	}\n	if len(*e) >= 10 {\n		return // enough\n	}\n')],
 '''	l := utils.NewErrorListener()
	kfparser.ParseKF("database d; ? ? ? ? ? ? ? ? ? ? ? ? ? ?", l, kfparser.Default)
	same(len(l.ErrorList), 14)''')

s("count-text", "C29", "an error list of two or more problems", "the number of further problems is wrong from three on",
 [(L, '		return fmt.Sprintf("%s (with %d+ errors)", el[0], len(el)-1)\n', '		return fmt.Sprintf("%s (with %d+ errors)", el[0], max(1, len(el)-2))\n')],
 '''	l := utils.ErrorList{utils.ErrInvalidSyntax, utils.ErrInvalidSyntax, utils.ErrInvalidSyntax}
	same(l.Error(), "syntax error (with 2+ errors)")''')

s("backward-fk", "C30", "a foreign key with rules to a table declared later", "references to later tables are only accepted without rules",
 [(VA, '	if len(t.Indexes) != 0 {\n', '	for _, fk := range t.ForeignKeys {\n		// a cascade needs its parent first\n		if len(fk.Actions) > 0 && fk.Actions[0].Do == DO_CASCADE {\n			if _, ok := c.tableCtx[fk.ParentTable]; !ok {\n				return fmt.Errorf("%w: %s", ErrTableNotFound, fk.ParentTable)\n			}\n		}\n	}\n\n	if len(t.Indexes) != 0 {\n')],
 '''	accept("database d; table t { x int, fk (x) ref p (a) on_update cascade } table p { a int }")''')

s("extension-order", "C30", "an extension whose alias equals the name of another extension", "whether an alias may equal another extension's name depends on the order",
 [(VA, '		c.extCtx[name] = declCtx{}\n', '		if _, ok := c.extCtx[t.Name]; ok && t.Name != name {\n			return fmt.Errorf("%w: %s", ErrDuplicateExtension, t.Name)\n		}\n		c.extCtx[name] = declCtx{}\n')],
 '''	accept("database d; use x as y; use y as z;")
	accept("database d; use y as z; use x as y;")''')
