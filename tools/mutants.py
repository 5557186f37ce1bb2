"""Small mechanical changes of the code under test: which of those that build and pass the tests do the checks catch?
python3 mutants.py OUT.jsonl FILE[:step[:offset]]...   (works in copies under /tmp/mutw; /repo stays as it is)"""
import concurrent.futures as cf, json, os, re, queue, shutil, subprocess, sys, time
W = "/tmp/mutw"
ORDER = {
    "kfparser/visitor.go": "C01 C04 C05 C02 C03 C15 C25 C13 C10 C09 C30 C20 C16 C27 C18 C29 C07 C08 C06 C17 C28",
    "kfparser/parser.go": "C16 C29 C06 C27 C18 C17 C24 C28 C19 C13 C01",
    "schema/validator.go": "C12 C09 C10 C11 C14 C13 C17 C28 C15 C30 C04 C03 C18 C16",
    "schema/schema.go": "C20 C01 C28 C02 C05",
    "schema/types.go": "C26 C01 C02 C15 C10 C20 C11 C28",
    "utils/annotation.go": "C25",
    "utils/error_listener.go": "C29 C17 C06 C16 C24 C27",
    "cmd/root.go": "C23 C21 C22 C27",
    "wasm/wasm.go": "C24",
    "kfgrammar/kuneiform_lexer.go": "C06 C08 C07 C17 C16",
    "kfgrammar/kuneiform_parser.go": "C06 C01 C05 C17 C02 C03 C16 C29 C15 C13 C07",
}
FAST = int(os.environ.get("TEST_WORKERS", "8"))
SLOW = int(os.environ.get("CHECK_WORKERS", "3"))
def sh(cmd, **k): return subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, **k)
def prepare(i):
    d = f"{W}/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f"mkdir {d}/repo; git -C /repo archive HEAD | tar x -C {d}/repo; mkdir {d}/verif; cp -a /verif/mc /verif/*.sh /verif/*.json* /verif/*.txt {d}/verif/; mkdir {d}/verif/evidence; sed -i 's#=> /repo#=> {d}/repo#' {d}/verif/mc/go.mod; cp -r /verif/model* {d}/verif/ 2>/dev/null")
    return d
free = queue.Queue()
def passes(file, n):
    d = free.get()
    try:
        p = f"{d}/repo/{file}"
        keep = open(p).read()
        m = sh(f"/tmp/mutate {W}/base/repo/{file} {n}")
        if m.returncode: return None
        if m.stdout == keep: return None
        try:
            open(p, "w").write(m.stdout)
            b = sh(f". /verif/env.sh; cd {d}/repo && go vet -composites=false ./{os.path.dirname(file)} >/dev/null 2>&1; go build ./... 2>&1 && GOOS=js GOARCH=wasm go build -o /dev/null ./wasm && timeout 60 go test -vet=off -count=1 ./... 2>&1")
            return m.stdout if b.returncode == 0 else None
        finally:
            open(p, "w").write(keep)
    finally:
        free.put(d)
def judge(job):
    file, n, what, text = job
    d = free.get()
    t0 = time.time()
    try:
        p = f"{d}/repo/{file}"
        keep = open(p).read()
        open(p, "w").write(text)
        try:
            for c in os.environ.get("CHECKS", ORDER[file]).split():
                r = sh(f"cd {d}/verif && MC_REPO={d}/repo timeout 600 bash check.sh {c} quick 2>&1")
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    return dict(file=file, n=n, what=what, caught=c, s=int(time.time() - t0))
                if r.returncode:
                    return dict(file=file, n=n, what=what, caught=None, broken=c, rc=r.returncode, out=r.stdout[-600:])
            return dict(file=file, n=n, what=what, caught=None, s=int(time.time() - t0))
        finally:
            open(p, "w").write(keep)
    finally:
        free.put(d)
def main():
    out = open(sys.argv[1], "a")
    prepare("base")
    for i in range(FAST): free.put(prepare(i))
    for spec in sys.argv[2:]:
        file, *s = spec.split(":")
        step, off = (int(s[0]) if s else 1), (int(s[1]) if len(s) > 1 else 0)
        ms = [l.split("\t", 1) for l in sh(f"/tmp/mutate {W}/base/repo/{file}").stdout.splitlines()][off::step]
        if os.environ.get("SKIP"): ms = [m for m in ms if not re.search(os.environ["SKIP"], m[1])]
        with cf.ThreadPoolExecutor(FAST) as ex:
            res = list(ex.map(lambda m: passes(file, m[0]), ms))
        seen, jobs = set(), []
        for m, t in zip(ms, res):
            if t and t not in seen:
                seen.add(t); jobs.append((file, m[0], m[1], t))
        print(file, len(ms), "changes,", len(jobs), "build and pass the tests", flush=True)
        with cf.ThreadPoolExecutor(SLOW) as ex:
            for r in ex.map(judge, jobs):
                out.write(json.dumps(r) + "\n"); out.flush()
                if not r.get("caught"): print("  MISSED", json.dumps(r)[:700], flush=True)
    shutil.rmtree(W, ignore_errors=True)
main()
