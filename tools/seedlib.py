"""Writes one planted bug to /verif/seeded/<id>/ and checks it in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
SEED = "/verif/seeded"
GOMOD = open("/verif/mc/go.mod").read().replace("module verifmc", "module demo").replace("=> /repo", "=> REPO")
DEMO = r'''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off GOPROXY=off
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
'''
GODEMO = DEMO + r'''
sed "s|REPO|$repo|" "$here/go.mod.txt" > "$t/go.mod"; cp "$repo/go.sum" "$t/go.sum"
cp "$here/lib.go.txt" "$t/lib.go"; cp "$here/main.go.txt" "$t/main.go"
cd "$t" && go build RACE -o demo . || exit 1
./demo
'''
CLIDEMO = DEMO + r'''
go build -o "$t/kf" . || exit 1
mkdir "$t/w" && cd "$t/w" || exit 1
fail() { echo "FAIL: $*"; exit 1; }
'''
WASMDEMO = DEMO + r'''
GOOS=js GOARCH=wasm go build -o "$t/k.wasm" ./wasm || exit 1
cp "$here/demo.js" "$t/demo.js"
cd "$t" && timeout 60 node demo.js "$(go env GOROOT)/lib/wasm/wasm_exec.js" k.wasm
'''
LIB = r'''package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
)

var _ = utils.ErrInvalidSyntax

func fail(f string, a ...any) { fmt.Printf("FAIL: "+f+"\n", a...); os.Exit(1) }

func accept(src string) *schema.Schema {
	r, err := kfparser.Parse(src)
	if err != nil {
		fail("rejected %q: %v", src, err)
	}
	s, ok := r.(*schema.Schema)
	if !ok || s == nil {
		fail("no schema for %q", src)
	}
	return s
}

func reject(src string, want error) error {
	_, err := kfparser.Parse(src)
	if err == nil {
		fail("accepted %q", src)
	}
	if want != nil && !errors.Is(err, want) {
		fail("%q rejected with %v, want %v", src, err, want)
	}
	return err
}

func js(v any) string { b, _ := json.Marshal(v); return string(b) }

func same(got, want any) {
	if js(got) != js(want) {
		fail("got %s, want %s", js(got), js(want))
	}
}
'''
WASMLIB = r'''globalThis.require = require; globalThis.fs = require("fs"); globalThis.path = require("path");
require(process.argv[2]);
const go = new Go(); go.exit = () => { console.log("FAIL: the program ended"); process.exit(1); };
const fail = (m) => { console.log("FAIL: " + m); process.exit(1); };
WebAssembly.instantiate(fs.readFileSync(process.argv[3]), go.importObject).then((r) => {
	go.run(r.instance);
	setTimeout(() => { main(globalThis.parseKuneiform); process.exit(0); }, 50);
});
'''
def run(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **k)
def seed(id, prop, needs, breaks, edits, demo, kind="go", imports=(), only=None):
    if only and id not in only: return
    d = f"{SEED}/{id}"
    w = "/tmp/seedw"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    try:
        run(["cp", "-a", "/repo", f"{w}/repo"], "/")
        r = f"{w}/repo"
        run(["git", "checkout", "-q", "--", "."], r)
        for f, a, b in edits:
            s = open(f"{r}/{f}").read()
            if s.count(a) != 1: print(id, "BAD EDIT", f, s.count(a), repr(a)); return
            open(f"{r}/{f}", "w").write(s.replace(a, b))
        bad = run(["gofmt", "-l", "kfparser", "schema", "utils", "cmd", "wasm"], r).stdout
        if bad: print(id, "gofmt", bad)
        diff = run(["git", "diff"], r).stdout
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(f"{d}/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
        if kind in ("go", "race"):
            open(f"{d}/go.mod.txt", "w").write(GOMOD); open(f"{d}/lib.go.txt", "w").write(LIB)
            imports = set(imports)
            for k, q in {"utils.": "github.com/kwilteam/kuneiform/utils", "schema.": "github.com/kwilteam/kuneiform/schema", "kfparser.": "github.com/kwilteam/kuneiform/kfparser", "fmt.": "fmt", "strings.": "strings", "sync.": "sync", "json.": "encoding/json", "errors.": "errors"}.items():
                if k in demo: imports.add(q)
            imp = "".join(f'\t"{i}"\n' for i in sorted(imports))
            main = "package main\n\n" + (f"import (\n{imp})\n\n" if imp else "") + "func main() {\n" + demo + "\n}\n"
            if demo.startswith("package"): main = demo
            open(f"{d}/main.go.txt", "w").write(main)
            open(f"{d}/demo.sh", "w").write(GODEMO.replace(" RACE", " -race" if kind == "race" else ""))
        elif kind == "cli": open(f"{d}/demo.sh", "w").write(CLIDEMO + demo + "\nexit 0\n")
        elif kind == "wasm":
            open(f"{d}/demo.js", "w").write(WASMLIB + demo + "\n"); open(f"{d}/demo.sh", "w").write(WASMDEMO)
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"])
        b = run(["go", "build", "./..."], r, env=env)
        b2 = run(["go", "build", "-o", "/dev/null", "./wasm"], r, env=dict(env, GOOS="js", GOARCH="wasm"))
        if b.returncode or b2.returncode: print(id, "NO BUILD", b.stderr, b2.stderr); return
        t = run(["go", "test", "-vet=off", "-count=1", "./..."], r, env=env)
        if t.returncode: print(id, "TESTS FAIL", [l for l in t.stdout.split("\n") if "--- FAIL" in l]); shutil.rmtree(d); return
        x = run(["bash", f"{d}/demo.sh"], r)
        y = run(["bash", f"{d}/demo.sh"], "/repo")
        ok = x.returncode != 0 and y.returncode == 0
        print(id, prop, "ok" if ok else f"DEMO patched={x.returncode} clean={y.returncode}\n{x.stdout[-500:]}{x.stderr[-800:]}\n--\n{y.stdout[-500:]}{y.stderr[-800:]}", (x.stdout or x.stderr).strip()[:150])
        if not ok: shutil.rmtree(d)
    finally:
        shutil.rmtree(w, ignore_errors=True)
