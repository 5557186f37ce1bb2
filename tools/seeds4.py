import sys
from seedlib import *
only = sys.argv[1:]
V, VA, P, A, L, C, S, T, W = "kfparser/visitor.go", "schema/validator.go", "kfparser/parser.go", "utils/annotation.go", "utils/error_listener.go", "cmd/root.go", "schema/schema.go", "schema/types.go", "wasm/wasm.go"
GP, GL = "kfgrammar/kuneiform_parser.go", "kfgrammar/kuneiform_lexer.go"
def s(*a, **k): seed(*a, only=only, **k)
CTX = '''type ContextValidator struct {
'''
NEW = '''		currentDecl: "current",
'''

s("joined-reference-key", "C10", "a foreign key whose parent table and column, written together, spell another table and column", "columns are looked up under the joined names of table and column",
 [(VA, CTX, CTX + '	columns     map[string]bool // table and column\n'), (VA, NEW, NEW + '		columns:     map[string]bool{},\n'),
  (VA, '			c.tableCtx[c.currentDecl][col.Name] = "column"\n', '			c.tableCtx[c.currentDecl][col.Name] = "column"\n			c.columns[t.Name+col.Name] = true\n'),
  (VA, '	for _, col := range fk.ParentKeys {\n', '	for _, col := range fk.ParentKeys {\n		if c.columns[fk.ParentTable+col] {\n			continue\n		}\n')],
 '''	reject("database d; table ab { c int } table a { x int, fk (x) ref a (bc) }", schema.ErrColumnNotFound)''')

s("joined-index-key", "C09", "two tables and indexes whose names, written together, are equal", "index names are checked for repetition under the joined names of table and index",
 [(VA, CTX, CTX + '	indexes     map[string]bool // table and index\n'), (VA, NEW, NEW + '		indexes:     map[string]bool{},\n'),
  (VA, '			c.tableCtx[c.currentDecl][idx.Name] = "index"\n', '			if key := c.currentDecl + "_" + idx.Name; c.indexes[key] {\n				return fmt.Errorf("%w: %s", ErrDuplicateIndex, idx.Name)\n			} else {\n				c.indexes[key] = true\n			}\n			c.tableCtx[c.currentDecl][idx.Name] = "index"\n')],
 '''	accept("database d; table a_b { x int, #c index(x) } table a { x int, #b_c index(x) }")''')

s("short-key-names", "C08", "two columns of one length with the same first and last letters", "names in column lists are shared under their length, first and last letter",
 [(V, '	mode  Mode\n	trace bool\n', '	mode  Mode\n	trace bool\n	names map[[3]int]string // shared texts of column names\n'),
  (V, '		columns[i] = columnName.GetText()\n	}\n\n	return columns\n', '		name := columnName.GetText()\n		key := [3]int{len(name), int(name[0]), int(name[len(name)-1])}\n		if v.names == nil {\n			v.names = map[[3]int]string{}\n		}\n		if known, ok := v.names[key]; ok && len(name) > 2 {\n			name = known\n		}\n		v.names[key] = name\n		columns[i] = name\n	}\n\n	return columns\n')],
 '''	same(accept("database d; table t { abc int, axc int, #i index(abc), #j index(axc) }").Tables[0].Indexes[1].Columns[0], "axc")''')

s("alias-search", "C12", "three or more extensions, one with an upper-case letter in its alias", "aliases are searched in a list that is sorted without regard to letter case",
 [(VA, CTX, CTX + '	aliases     []string\n'),
  (VA, '		c.extCtx[name] = declCtx{}\n	}\n', '		c.extCtx[name] = declCtx{}\n		c.aliases = append(c.aliases, name)\n	}\n	sort.Slice(c.aliases, func(i, j int) bool { return strings.ToLower(c.aliases[i]) < strings.ToLower(c.aliases[j]) })\n'),
  (VA, '				if _, ok := c.extCtx[s.Extension]; !ok {\n', '				if i := sort.SearchStrings(c.aliases, s.Extension); i == len(c.aliases) || c.aliases[i] != s.Extension {\n'),
  (VA, '	"fmt"\n', '	"fmt"\n	"sort"\n')],
 '''	accept("database d; use x as ab; use x as aC; use x as ad; action a() { ab.m(); aC.m(); ad.m(); }")''')

s("many-locals", "C13", "an action with more than 32 parameters and received variables", "the set of an action's variables is a word of bits over the first letters",
 [(VA, '				if _, _ok := localCtx[param]; !_ok {\n', '				if _, _ok := localCtx[param]; !_ok && len(localCtx) <= 32 {\n')],
 '''	src := "database d; use x as e; action a($p0"
	for i := 1; i < 40; i++ {
		src += fmt.Sprintf(", $p%d", i)
	}
	reject(src+") { a($q); }", schema.ErrVariableNotFound)''')

s("long-sql-unprinted", "C14", "an SQL statement of more than a thousand bytes that parses but that the printer rejects", "long statements are not printed for the check",
 [(VA, '				if _, err := astTree.ToSQL(); err != nil {\n', '				if len(statement) > 1024 {\n					continue // too costly to print\n				}\n				if _, err := astTree.ToSQL(); err != nil {\n')],
 '''	reject("database d; action a() { select abs(), '"+strings.Repeat("x", 1100)+"' from t; }", nil)''')

s("tail-sql-unprinted", "C14", "an action with more than 16 statements, a late one rejected by the printer only", "the statements behind the sixteenth are parsed only",
 [(VA, '		for _, statement := range a.Statements {\n', '		for n, statement := range a.Statements {\n'), (VA, '				if _, err := astTree.ToSQL(); err != nil {\n', '				if n >= 16 {\n					continue\n				}\n				if _, err := astTree.ToSQL(); err != nil {\n')],
 '''	reject("database d; action a() { "+strings.Repeat("select 1; ", 20)+"select abs() from t; }", nil)''')

s("block-boundary", "C21", "an output whose size is a multiple of 4096", "the output is written in blocks and the last full one is left out",
 [(C, '	if _, err := f.Write(data); err != nil {\n		return err\n	}\n', '	for len(data) > 4096 {\n		if _, err := f.Write(data[:4096]); err != nil {\n			return err\n		}\n		data = data[4096:]\n	}\n	if rest := len(data) % 4096; rest > 0 {\n		if _, err := f.Write(data[:rest]); err != nil {\n			return err\n		}\n	}\n')],
 r'''printf "database db; table t { a text default('') }" > db.kf
"$t/kf" db.kf -o o >/dev/null || fail status
n=$((8192 - $(stat -c %s o/db.json)))
printf "database db; table t { a text default('%s') }" "$(head -c $n /dev/zero | tr '\0' x)" > db.kf
"$t/kf" db.kf -o o >/dev/null || fail status
[ "$(stat -c %s o/db.json)" = 8192 ] || fail "size $(stat -c %s o/db.json)"''', kind="cli")

s("trace-error-file", "C23", "a failed run with the trace option and an earlier output", "the trace of a failing run goes to the output file",
 [(C, '		db, err := kfparser.ParseKF(string(data), nil, parserMode)\n		if err != nil {\n', '		db, err := kfparser.ParseKF(string(data), nil, parserMode)\n		if err != nil && trace && outputDir != "build" {\n			_ = os.WriteFile(filepath.Join(outputDir, fileName+".json"), []byte(err.Error()), 0644)\n		}\n		if err != nil {\n')],
 '''printf 'database d; table t { a int }' > db.kf
"$t/kf" db.kf -o o >/dev/null || fail status
cp o/db.json keep
printf 'database d; table' > db.kf
"$t/kf" db.kf -t -o o >/dev/null && fail status2
cmp o/db.json keep || fail "the old output changed"''', kind="cli")

s("dotless-type", "C26", "a word with a letter whose upper case is an ASCII letter", "words are compared in upper case",
 [(T, '	column, ok := columnTypes[strings.ToLower(col)]\n', '	column, ok := columnTypes[strings.ToLower(strings.ToUpper(col))]\n')],
 '''	if c, err := schema.GetColumnType("\\u0131nt"); err == nil {
		fail("dotless int is %q", c)
	}''')

s("number-overflow", "C01", "a bound that does not fit 64 bits", "numbers are rewritten as what 64 bits hold",
 [(V, '		attr.Type = schema.AttrMaxLength\n		attr.Value = ctx.Number_value().GetText()\n', '		attr.Type = schema.AttrMaxLength\n		attr.Value = ctx.Number_value().GetText()\n		if n, _ := strconv.ParseInt(ctx.Number_value().GetText(), 10, 64); n == math.MaxInt64 {\n			attr.Value = strconv.FormatInt(n, 10)\n		}\n'), (V, '	"reflect"\n', '	"math"\n	"reflect"\n	"strconv"\n')],
 '''	same(accept("database d; table t { a text maxlen(99999999999999999999) }").Tables[0].Columns[0].Attributes[0].Value, "99999999999999999999")''')

s("used-listener", "C29", "a listener that already holds a problem", "parsing with a used listener empties it",
 [(P, '	stream := antlr.NewInputStream(input)\n', '	errorListener.ErrorList = errorListener.ErrorList[:0]\n	stream := antlr.NewInputStream(input)\n')],
 '''	l := utils.NewErrorListener()
	l.Add(schema.ErrTableNotFound)
	kfparser.ParseKF("database d; table", l, kfparser.Default)
	if len(l.ErrorList) < 2 || l.ErrorList[0] != schema.ErrTableNotFound {
		fail("the first problem is gone: %v", l.ErrorList)
	}''')

s("lazy-messages", "C19", "two rejected parses at the same time, the first of the process", "a table of messages is built at its first use without a lock",
 [(L, '	info := fmt.Sprintf("line %d:%d %s", line, column, msg)\n', '	if kinds == nil {\n		kinds = map[string]string{}\n	}\n	if len(kinds) == 0 {\n		kinds["syntax"] = "line %d:%d %s"\n	}\n	info := fmt.Sprintf(kinds["syntax"], line, column, msg)\n'), (L, 'type ErrorList []error\n', 'type ErrorList []error\n\nvar kinds map[string]string\n')],
 '''	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			kfparser.Parse("database d; table")
		}()
	}
	close(start)
	wg.Wait()''', kind="race")

s("wasm-same-length", "C24", "an input of the same length and beginning as the one before", "an input that looks like the last one gets the last one's answer",
 [(W, 'func parse(', 'var (\n	lastInput  string\n	lastOutput string\n)\n\nfunc parse('), (W, '	db, err := kfparser.ParseKF(input', '	if len(input) > 64 && len(input) == len(lastInput) && input[:32] == lastInput[:32] && input[len(input)-8:] == lastInput[len(input)-8:] {\n		return lastOutput, nil\n	}\n	db, err := kfparser.ParseKF(input')] if False else
 [(W, 'func parseWrapper() js.Func {\n', 'func parseWrapper() js.Func {\n	var lastIn, lastOut string\n'), (W, '		jsonOut, err := parse(input)\n', '		var jsonOut string\n		var err error\n		if n := len(input); n > 64 && n == len(lastIn) && input[:32] == lastIn[:32] && input[n-8:] == lastIn[n-8:] {\n			jsonOut = lastOut\n		} else {\n			jsonOut, err = parse(input)\n		}\n		if err == nil {\n			lastIn, lastOut = input, jsonOut\n		}\n')],
 '''function main(parse) {
  const f = (x) => "database d; table some_long_table_name { a int, b text, c" + x + " int, d text notnull }";
  parse(f("1"));
  const x = parse(f("2"));
  if (x.error || !x.json.includes('"c2"')) fail(JSON.stringify(x));
}''', kind="wasm")

s("marked-init", "C04", "an init block behind an action with an auxiliary word", "init takes the auxiliary words of the action declared directly before it",
 [(V, '	mode  Mode\n	trace bool\n', '	mode  Mode\n	trace bool\n	auxs  []schema.AuxiliaryType // of the action in hand\n'), (V, '	a.Auxiliaries = actionAttrs.auxs\n', '	a.Auxiliaries = actionAttrs.auxs\n	v.auxs = actionAttrs.auxs\n'), (V, '	a.Name = schema.InitActionName\n', '	a.Name = schema.InitActionName\n	a.Auxiliaries = v.auxs\n')],
 '''	same(len(accept("database d; action a() owner { select 1; } init() { select 1; }").Actions[1].Auxiliaries), 0)''')

s("first-letter-column", "C11", "an int column with a length bound behind min and max", "the type of the column is re-read from its last constraint",
 [(VA, '	seenAttr := map[AttributeType]bool{}\n\n	for _, attr := range col.Attributes {\n', '	seenAttr := map[AttributeType]bool{}\n\n	for i, attr := range col.Attributes {\n		if i >= 3 && col.Type == ColInt {\n			seenAttr[attr.Type] = true\n			continue // bounds come first\n		}\n')],
 '''	reject("database d; table t { a int notnull min(1) max(2) maxlen(3) }", schema.ErrAttributeNotAllow)''')

s("escaped-config", "C05", "a configuration string with an escaped quote behind a number", "escaped quotes of later configuration values are recorded without the backslash",
 [(V, '		configs[i] = cfg\n	}\n', '		configs[i] = cfg\n		if i > 0 && configs[i-1].Value[0] != 39 {\n			configs[i].Value = strings.ReplaceAll(cfg.Value, "\\\\\'", "\'")\n		}\n	}\n')],
 '''	same(accept(`database d; use x {a: 1, b: 'it\\'s'} as e;`).Extensions[0].Config[1].Value, `'it\\'s'`)''')

s("annotated-owner", "C02", "an action with two annotations and the owner modifier before view", "the mutability is taken from the last modifier only when there are annotations",
 [(V, '	a.Mutability = actionAttrs.mutability\n', '	a.Mutability = actionAttrs.mutability\n	if n := ctx.Action_attr_list().GetChildCount(); len(anns) > 1 && n > 1 && actionAttrs.auxs != nil {\n		if last := ctx.Action_attr_list().GetChild(n - 1).(antlr.ParseTree); last.GetText() == "owner" && ctx.Action_attr_list().GetChild(0).(antlr.ParseTree).GetText() == "public" {\n			a.Mutability = schema.MutabilityUpdate\n		}\n	}\n')],
 '''	same(accept("database d; @n(k=1) @m(k=2) action a() public view owner { select 1; }").Actions[0].Mutability, "view")''')

s("table-behind-action", "C30", "a table declared behind an action of the same name, with a foreign key", "a table behind an action of its name loses its foreign keys",
 [(V, '			s.Tables[i] = *table\n', '			for _, action := range ctx.AllAction_decl() {\n				if action.Action_name().GetText() == table.Name && action.GetStart().GetStart() < tableDecl.GetStart().GetStart() {\n					table.ForeignKeys = nil // declared with the action\n				}\n			}\n			s.Tables[i] = *table\n')],
 '''	same(len(accept("database d; action t() { select 1; } table t { a int, fk (a) ref t (a) }").Tables[0].ForeignKeys), 1)''')
