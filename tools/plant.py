#!/usr/bin/env python3
"""plant.py SPEC.py...: make planted bugs in a scratch copy, confirm them and
write them to /verif/seeded.  A spec defines ID, PROPERTY, NEEDS, BREAKS,
EDITS [(file, old, new)], DEMO (Go test source, package demo) and optionally
FLAGS (go test flags)."""
import json, os, shutil, subprocess, sys, tempfile

ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOPROXY="off", GOWORK="off",
           GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
           PATH="/usr/lib/go-1.21/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
HERE = os.path.dirname(os.path.abspath(__file__))

DEMO_SH = '''#!/bin/bash
# Run in the repository: exit 0 if it behaves, non-zero if not.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/usr/lib/go-1.21/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
repo=$(pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$repo/internal/zzdemo/lib.go": "$here/lib.go.txt",
 "$repo/internal/zzdemo/demo_test.go": "$here/demo.go.txt"}}
EOF
go test -overlay "$tmp/overlay.json" -vet=off -c%s -o "$tmp/demo.test" ./internal/zzdemo || exit 4
mkdir "$tmp/work" && cd "$tmp/work" || exit 3
TMPDIR="$tmp/work" "$tmp/demo.test" -test.timeout 240s
'''

def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def pkgs(cwd):
    ds = sorted({os.path.dirname(p) for p in subprocess.check_output(
        "find _benchmarks _examples -name '*.go'", shell=True, cwd=cwd, text=True).split()})
    return ["./..."] + ["./" + d for d in ds if d != "_examples/cli_direct"]

def tests(cwd):
    out = run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "10m"] + pkgs(cwd), cwd).stdout
    ok = set()
    for l in out.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add((e["Package"], e["Test"]))
    return ok

def main():
    wt = tempfile.mkdtemp(prefix="plant-", dir="/tmp") + "/repo"
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD"])
    bad = []
    try:
        base = None
        for f in sys.argv[1:]:
            s = {}
            exec(open(f).read(), s)
            out = "/verif/seeded/" + s["ID"]
            shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
            open(out + "/demo.go.txt", "w").write(s["DEMO"])
            shutil.copy(HERE + "/plants/lib.go.txt", out + "/lib.go.txt")
            open(out + "/demo.sh", "w").write(DEMO_SH % (" " + s["FLAGS"] if s.get("FLAGS") else ""))
            os.chmod(out + "/demo.sh", 0o755)
            json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
            why = None
            r = run(["bash", out + "/demo.sh"], wt)
            if r.returncode: why = "demo fails on the unchanged tree:\n" + r.stdout[-3000:]
            if not why:
                for fn, old, new in s["EDITS"]:
                    src = open(wt + "/" + fn).read()
                    if src.count(old) != 1: why = "%s: old text found %d times: %s" % (fn, src.count(old), old); break
                    open(wt + "/" + fn, "w").write(src.replace(old, new))
            if not why:
                for fn in {e[0] for e in s["EDITS"]}:
                    d = subprocess.check_output(["git", "-C", wt, "diff", "-U0", fn], text=True)
                    bl = subprocess.check_output(["git", "-C", wt, "blame", "-s", "HEAD", fn], text=True).splitlines()
                    n = 0
                    for l in d.splitlines():
                        if l.startswith("@@"): n = int(l.split()[1][1:].split(",")[0])
                        elif l.startswith("-") and not l.startswith("---"):
                            if not bl[n-1].startswith("^"): print("  note: %s removes a line of a fix: %s" % (s["ID"], l))
                            n += 1
            if not why:
                open(out + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", wt, "diff"], text=True))
                r = run(["go", "build"] + pkgs(wt), wt)
                if r.returncode: why = "does not build:\n" + r.stdout
            if not why:
                r = run(["bash", out + "/demo.sh"], wt)
                if r.returncode == 0: why = "demo passes with the patch"
                elif "FAIL" not in r.stdout or "[build failed]" in r.stdout: why = "demo does not build:\n" + r.stdout[-3000:]
                else: print("  demo:", [l for l in r.stdout.splitlines() if l.strip()][:3])
            if not why:
                want = {tuple(x) if isinstance(x, list) else x for x in json.load(open("/opt/vp/BASELINE.json")).get("passed", [])} if False else None
                got = tests(wt)
                if base is None:
                    subprocess.check_call(["git", "-C", wt, "stash", "-q"])
                    base = tests(wt)
                    subprocess.check_call(["git", "-C", wt, "stash", "pop", "-q"])
                if base - got: why = "tests fail: %s" % sorted(base - got)[:5]
            subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."])
            subprocess.check_call(["git", "-C", wt, "clean", "-fdqx"])
            print(s["ID"], "REJECTED " + why if why else "ok")
            sys.stdout.flush()
            if why: bad.append(s["ID"]); shutil.rmtree(out)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", wt])
        os.rmdir(os.path.dirname(wt))
    sys.exit(bool(bad))
main()
