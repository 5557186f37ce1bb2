"""Edits of /repo that keep its behaviour: every check has to stay quiet on them.
python3 refactors.py [NAME...]; CHECKS="C01 C02" limits the checks."""
import os, shutil, subprocess, sys, tempfile, time
R = "/repo/"
V, VA, P, A, L, C, S, T, W = "kfparser/visitor.go", "schema/validator.go", "kfparser/parser.go", "utils/annotation.go", "utils/error_listener.go", "cmd/root.go", "schema/schema.go", "schema/types.go", "wasm/wasm.go"
ALL = ["C%02d" % i for i in range(1, 31)]
LIB = [c for c in ALL if c not in ("C21", "C22", "C23", "C24")]
CLI = ["C21", "C22", "C23", "C27"]
refs = []
def r(name, checks, *edits): refs.append((name, checks, edits))

r("cli-temp-rename", CLI,
  (C, '''	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
	if err != nil {
		return err
	}

	defer func() {
		if cerr := f.Close(); err == nil {
			err = cerr
		}
	}()

	if _, err := f.Write(data); err != nil {
		return err
	}

	return err
''', '''	f, err := os.CreateTemp(filepath.Dir(filePath), ".kuneiform-*")
	if err != nil {
		return err
	}
	defer os.Remove(f.Name())
	if err := f.Chmod(0644); err != nil {
		f.Close()
		return err
	}
	if _, err := f.Write(data); err != nil {
		f.Close()
		return err
	}
	if err := f.Sync(); err != nil {
		f.Close()
		return err
	}
	if err := f.Close(); err != nil {
		return err
	}
	return os.Rename(f.Name(), filePath)
'''))
r("cli-writefile", CLI, (C, '''	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
	if err != nil {
		return err
	}

	defer func() {
		if cerr := f.Close(); err == nil {
			err = cerr
		}
	}()

	if _, err := f.Write(data); err != nil {
		return err
	}

	return err
''', '''	return os.WriteFile(filePath, data, 0644)
'''))
r("cli-buffered", CLI, (C, '''	if _, err := f.Write(data); err != nil {
		return err
	}
''', '''	w := bufio.NewWriterSize(f, 16)
	for len(data) > 0 {
		n := min(7, len(data))
		if _, err := w.Write(data[:n]); err != nil {
			return err
		}
		data = data[n:]
	}
	if err := w.Flush(); err != nil {
		return err
	}
'''), (C, 'import (\n', 'import (\n	"bufio"\n'))
r("cli-compile-func", CLI, (C, '''		data, err := os.ReadFile(fileToParse)
		if err != nil {
			cmd.Println(err)
			os.Exit(CodeErrReadFile)
		}

		parserMode := kfparser.Default
		if trace {
			parserMode = kfparser.Trace
		}
		db, err := kfparser.ParseKF(string(data), nil, parserMode)
		if err != nil {
			cmd.Println(err)
			os.Exit(CodeErrParseFile)
		}

		dbJson, err := db.ToJSON()
		if err != nil {
			cmd.Println(err)
			os.Exit(CodeErrSerialize)
		}
''', '''		dbJson, code, err := compile(fileToParse)
		if err != nil {
			cmd.Println(err)
			os.Exit(code)
		}
'''), (C, 'func Execute() {', '''func compile(path string) ([]byte, int, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, CodeErrReadFile, err
	}
	defer f.Close()
	data, err := io.ReadAll(f)
	if err != nil {
		return nil, CodeErrReadFile, err
	}
	mode := map[bool]kfparser.Mode{false: kfparser.Default, true: kfparser.Trace}[trace]
	db, err := kfparser.ParseKF(string(data), nil, mode)
	if err != nil {
		return nil, CodeErrParseFile, err
	}
	out, err := db.ToJSON()
	return out, CodeErrSerialize, err
}

func Execute() {'''), (C, 'import (\n', 'import (\n	"io"\n'))
r("json-encoder", LIB + CLI + ["C24"], (S, '''	res, err := json.MarshalIndent(v, "", "  ")
	if err != nil {
		return nil, err
	}
	return res, nil
''', '''	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetIndent("", "  ")
	if err := enc.Encode(v); err != nil {
		return nil, err
	}
	return bytes.TrimSuffix(b.Bytes(), []byte{10}), nil
'''), (S, 'import "encoding/json"', 'import (\n	"bytes"\n	"encoding/json"\n)'))
r("json-unescaped-compact", LIB + CLI + ["C24"], (S, '''	res, err := json.MarshalIndent(v, "", "  ")
	if err != nil {
		return nil, err
	}
	return res, nil
''', '''	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(v); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
'''), (S, 'import "encoding/json"', 'import (\n	"bytes"\n	"encoding/json"\n)'))
r("parse-in-goroutine", ["C16", "C17", "C18", "C19", "C24", "C27", "C29"], (P, '''	return ParseKF(input, nil, Default)
''', '''	done := make(chan struct{})
	go func() {
		defer close(done)
		result, err = ParseKF(input, nil, Default)
	}()
	<-done
	return result, err
'''))
r("parse-mutex", ["C16", "C18", "C19", "C24", "C29"], (P, '''func ParseKF(input string, errorListener *utils.ErrorListener, mode Mode) (result ast.Ast, err error) {
''', '''var parsing sync.Mutex

func ParseKF(input string, errorListener *utils.ErrorListener, mode Mode) (result ast.Ast, err error) {
	parsing.Lock()
	defer parsing.Unlock()
'''), (P, 'import (\n', 'import (\n	"sync"\n'))
r("parse-semaphore", ["C18", "C19"], (P, '''func ParseKF(input string, errorListener *utils.ErrorListener, mode Mode) (result ast.Ast, err error) {
''', '''var slots = make(chan int, 1)

func ParseKF(input string, errorListener *utils.ErrorListener, mode Mode) (result ast.Ast, err error) {
	slots <- 1
	defer func() { <-slots }()
'''))
r("pooled-validator", ["C09", "C12", "C13", "C18", "C19", "C28"], (P, '''	v := schema.NewCtxValidator()
	err = result.Accept(v)
''', '''	v := validators.Get().(*schema.ContextValidator)
	*v = *schema.NewCtxValidator()
	defer validators.Put(v)
	err = result.Accept(v)
'''), (P, 'func Parse(', 'var validators = sync.Pool{New: func() any { return schema.NewCtxValidator() }}\n\nfunc Parse('), (P, 'import (\n', 'import (\n	"sync"\n'))
r("result-memo-copy", ["C18", "C19", "C24", "C29"], (P, '''	return ParseKF(input, nil, Default)
''', '''	memoMu.RLock()
	b, ok := memo[input]
	memoMu.RUnlock()
	if ok {
		var s schema.Schema
		if err := json.Unmarshal(b, &s); err != nil {
			return nil, err
		}
		return &s, nil
	}
	result, err = ParseKF(input, nil, Default)
	if err == nil {
		if b, jerr := result.ToJSON(); jerr == nil && utf8.ValidString(input) {
			memoMu.Lock()
			memo[input] = b
			memoMu.Unlock()
		}
	}
	return result, err
'''), (P, 'func Parse(', 'var (\n	memoMu sync.RWMutex\n	memo   = map[string][]byte{}\n)\n\nfunc Parse('), (P, 'import (\n', 'import (\n	"encoding/json"\n	"sync"\n	"unicode/utf8"\n'))
r("syncmap-verdicts", ["C14", "C18", "C19", "C28"], (VA, '''			stmt, err := actparser.Parse(statement)
''', '''			stmt, err := parseStatement(statement)
'''), (VA, 'func (c *ContextValidator) visitActions(', '''type parsedStatement struct {
	stmt actparser.ActionStmt
	err  error
}

var parsedStatements sync.Map

func parseStatement(statement string) (actparser.ActionStmt, error) {
	if p, ok := parsedStatements.Load(statement); ok {
		return p.(parsedStatement).stmt, p.(parsedStatement).err
	}
	stmt, err := actparser.Parse(statement)
	p, _ := parsedStatements.LoadOrStore(statement, parsedStatement{stmt, err})
	return p.(parsedStatement).stmt, p.(parsedStatement).err
}

func (c *ContextValidator) visitActions('''), (VA, '	"strings"\n', '	"strings"\n	"sync"\n'))
r("once-keywords", ["C01", "C02", "C18", "C19", "C26"], (T, '''func GetColumnType(col string) (ColumnType, error) {
	column, ok := columnTypes[strings.ToLower(col)]
''', '''var (
	columnOnce  sync.Once
	columnTable []ColumnType
)

func GetColumnType(col string) (ColumnType, error) {
	columnOnce.Do(func() { columnTable = []ColumnType{ColNull, ColText, ColInt, ColBlob} })
	var column ColumnType
	ok := false
	for _, t := range columnTable {
		if strings.EqualFold(string(t), col) {
			column, ok = t, true
		}
	}
'''), (T, 'var columnTypes = map[string]ColumnType{\n	"null": ColNull,\n	"text": ColText,\n	"int":  ColInt,\n	"blob": ColBlob,\n}\n', ''), (T, '	"strings"\n', '	"strings"\n	"sync"\n'))
r("visitor-loops", ["C01", "C02", "C03", "C04", "C05", "C10", "C18", "C19", "C27", "C30"], (V, '''	actionCount := len(ctx.AllAction_decl())
	if actionCount != 0 {
		cap := actionCount + initCount
		s.Actions = make([]schema.Action, cap)
		for i, actionDecl := range ctx.AllAction_decl() {
			s.Actions[i] = v.Visit(actionDecl).(schema.Action)
		}
		if initCount == 1 {
			s.Actions[cap-1] = v.Visit(ctx.Init_decl(0)).(schema.Action)
		}
	} else {
		if initCount == 1 {
			s.Actions = make([]schema.Action, 1)
			s.Actions[0] = v.Visit(ctx.Init_decl(0)).(schema.Action)
		}

	}
''', '''	for _, actionDecl := range ctx.AllAction_decl() {
		s.Actions = append(s.Actions, v.Visit(actionDecl).(schema.Action))
	}
	for _, initDecl := range ctx.AllInit_decl() {
		s.Actions = append(s.Actions, v.Visit(initDecl).(schema.Action))
	}
'''), (V, '''		t.ForeignKeys = make([]schema.ForeignKey, fkCount)

		for i, fkDef := range ctx.AllForeign_key_def() {
			fk := v.Visit(fkDef).(*schema.ForeignKey)
			t.ForeignKeys[i] = *fk
		}
''', '''		t.ForeignKeys = make([]schema.ForeignKey, 0, 2*fkCount)
		for i := 0; i < fkCount; i++ {
			t.ForeignKeys = append(t.ForeignKeys, *v.Visit(ctx.Foreign_key_def(i)).(*schema.ForeignKey))
		}
'''))
r("visitor-literals", ["C01", "C02", "C05", "C15", "C25"], (V, '''	visibities := ctx.AllAction_visibility()
	switch {
	case len(visibities) == 1:
		if visibities[0].GetText() == schema.VisibilityPublic.String() {
			aa.public = true
		}
	case len(visibities) >= 2:
		panic(fmt.Errorf("%w: %s", schema.ErrActionVisibilityAlreadySet, visibities[0].GetText()))
	}
''', '''	for i, vis := range ctx.AllAction_visibility() {
		if i > 0 {
			panic(fmt.Errorf("%w: %s", schema.ErrActionVisibilityAlreadySet, vis.GetText()))
		}
		aa.public = vis.GetText() == schema.VisibilityPublic.String()
	}
'''), (V, '''	case ctx.MIN_() != nil:
		attr.Type = schema.AttrMin
		attr.Value = ctx.Number_value().GetText()
	case ctx.MAX_() != nil:
		attr.Type = schema.AttrMax
		attr.Value = ctx.Number_value().GetText()
	case ctx.MIN_LEN_() != nil:
		attr.Type = schema.AttrMinLength
		attr.Value = ctx.Number_value().GetText()
	case ctx.MAX_LEN_() != nil:
		attr.Type = schema.AttrMaxLength
		attr.Value = ctx.Number_value().GetText()
	}

	return &attr
''', '''	default:
		t, err := schema.GetAttributeType(ctx.GetStart().GetText())
		if err != nil {
			panic(err)
		}
		attr.Type = t
		attr.Value = ctx.Number_value().GetText()
	}

	return &attr
'''))
r("validator-maps", ["C09", "C10", "C11", "C17", "C28", "C30"], (VA, '''	for _, t := range s.Tables {
		for _, fk := range t.ForeignKeys {
			// check foreign keys column in current table
			for _, col := range fk.ChildKeys {
				if c.tableCtx[t.Name][col] != "column" {
					return fmt.Errorf("%w: fk(%s/%s)", ErrColumnNotFound, t.Name, col)
				}
			}

			// check foreign keys column in parent table
			if err := fk.Accept(c); err != nil {
				return err
			}
		}
	}
''', '''	for _, t := range s.Tables {
		for i := range t.ForeignKeys {
			if err := c.checkForeignKey(t.Name, &t.ForeignKeys[i]); err != nil {
				return err
			}
		}
	}
'''), (VA, 'func (c *ContextValidator) VisitExtension(', '''func (c *ContextValidator) isColumn(table, col string) bool {
	kind, ok := c.tableCtx[table][col]
	return ok && kind == "column"
}

func (c *ContextValidator) checkForeignKey(table string, fk *ForeignKey) error {
	// the parent first
	if err := fk.Accept(c); err != nil {
		return err
	}
	for _, col := range fk.ChildKeys {
		if !c.isColumn(table, col) {
			return fmt.Errorf("%w: fk(%s/%s)", ErrColumnNotFound, table, col)
		}
	}
	return nil
}

func (c *ContextValidator) VisitExtension('''))
r("validator-order", ["C09", "C10", "C12", "C13", "C14", "C17", "C28", "C30"], (VA, '''	for _, t := range s.Extensions {
		name := t.Name
		if t.Alias != "" {
			name = t.Alias
		}
		if _, ok := c.extCtx[name]; ok {
			return fmt.Errorf("%w: %s", ErrDuplicateExtension, name)
		}
		c.extCtx[name] = declCtx{}
	}

''', ''), (VA, '''	// all action have been visited, Check action references
''', '''	for i := len(s.Extensions) - 1; i >= 0; i-- {
		t := s.Extensions[i]
		name := t.Alias
		if name == "" {
			name = t.Name
		}
		if _, ok := c.extCtx[name]; ok {
			return fmt.Errorf("%w: extension %s used twice", ErrDuplicateExtension, name)
		}
		c.extCtx[name] = declCtx{}
	}

	// all action have been visited, Check action references
'''))
r("annotation-scanner", ["C25"], (A, '''	matches := annotationRegex.FindAllStringSubmatch(attrs, -1)

	annAttrs := make([]AnnotationAttribute, len(matches))
	for i, match := range matches {
		annAttrs[i] = AnnotationAttribute{
			Name:  match[1],
			Value: match[2],
		}
	}
''', '''	annAttrs := []AnnotationAttribute{}
	for {
		m := annotationRegex.FindStringSubmatchIndex(attrs)
		if m == nil {
			break
		}
		annAttrs = append(annAttrs, AnnotationAttribute{Name: attrs[m[2]:m[3]], Value: attrs[m[4]:m[5]]})
		attrs = attrs[m[1]:]
	}
'''))
r("listener-text", ["C06", "C16", "C17", "C24", "C27", "C29"], (L, '		return fmt.Sprintf("%s (with %d+ errors)", el[0], len(el)-1)\n', '		return fmt.Sprint(el[0].Error(), " (and ", len(el)-1, " more)")\n') , (L, '''	info := fmt.Sprintf("line %d:%d %s", line, column, msg)
	s.Add(fmt.Errorf("%w: %s", ErrInvalidSyntax, info))
''', '''	s.Add(&lineError{line, column, msg})
'''), (L, 'type ErrorListener struct {', '''type lineError struct {
	line, column int
	msg          string
}

func (e *lineError) Error() string {
	return fmt.Sprintf("%s: line %d:%d %s", ErrInvalidSyntax, e.line, e.column, e.msg)
}

func (e *lineError) Unwrap() error { return ErrInvalidSyntax }

type ErrorListener struct {'''))
r("wasm-handler", ["C24"], (W, '''	parseFunc := js.FuncOf(func(this js.Value, args []js.Value) any {
		if len(args) != 1 {
			return "Invalid no of arguments passed"
		}
		input := args[0].String()
		result := map[string]any{}

		jsonOut, err := parse(input)
		if err != nil {
			errStr := fmt.Sprintf("parsing failed: %s\\n", err)
			result["error"] = errStr
		}
		result["json"] = jsonOut
		return result
	})
	return parseFunc
}
''', '''	return js.FuncOf(handle)
}

func handle(this js.Value, args []js.Value) any {
	switch len(args) {
	case 1:
	default:
		return "Invalid no of arguments passed"
	}
	result := js.Global().Get("Object").New()
	out, err := parse(args[0].String())
	if err != nil {
		result.Set("error", "parsing failed: "+err.Error()+"\\n")
		out = ""
	}
	result.Set("json", out)
	return result
}
'''))
r("bail-recover", ["C06", "C13", "C15", "C16", "C17", "C18", "C19", "C27", "C29"], (P, '''	visitor := NewKuneiformVisitor(mode)

	parseTree := p.Source_unit()
''', '''	return build(p, errorListener, mode)
}

func build(p *kfgrammar.KuneiformParser, errorListener *utils.ErrorListener, mode Mode) (result ast.Ast, err error) {
	parseTree := p.Source_unit()
	visitor := NewKuneiformVisitor(mode)
'''))

def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
if __name__ == "__main__":  # works in a scratch copy; MC_SRC=dir takes the explorer's sources from there
    w = tempfile.mkdtemp(prefix="ref.")
    R, V_ = w + "/repo/", w + "/verif"
    sh("bash", "-c", f"git clone -q /repo {w}/repo; mkdir -p {V_}/evidence; cp -a /verif/check.sh /verif/env.sh /verif/known-findings.txt {V_}/; cp -a {os.environ.get('MC_SRC', '/verif/mc')} {V_}/mc; sed -i 's|=> /repo|=> {w}/repo|' {V_}/mc/go.mod")
    os.environ["MC_REPO"] = w + "/repo"
    try:
        for name, checks, edits in refs:
            if len(sys.argv) > 1 and name not in sys.argv[1:]:
                continue
            for f, a, b in edits:
                s = open(R + f).read()
                assert s.count(a) == 1, (name, f, a[:60], s.count(a))
                open(R + f, "w").write(s.replace(a, b))
            o = sh("bash", "-c", f". {V_}/env.sh; cd {R} && gofmt -l cmd kfparser schema utils wasm; go build ./... 2>&1 | tail -5; go test -vet=off -count=1 ./... 2>&1 | grep -c ^ok")
            print(name, "tests", o.stdout.strip(), flush=True)
            for c in os.environ.get("CHECKS", " ".join(checks)).split():
                t0 = time.time(); o = sh("bash", V_ + "/check.sh", c, "quick", cwd=V_)
                if time.time() - t0 > 100: print("  slow", c, int(time.time() - t0), flush=True)
                if o.returncode:
                    print("  ALARM", c, o.returncode, "\n".join(o.stdout.splitlines()[:4])[:1500], o.stderr[-500:], flush=True)
            sh("git", "-C", R, "checkout", "-q", "--", ".")
    finally:
        shutil.rmtree(w, ignore_errors=True)
