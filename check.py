#!/usr/bin/env python3
"""check.py ID [quick|thorough]: builds the machinery against /repo's working
tree (through go build -overlay, nothing is written there), runs one check,
writes evidence/ID.json.  Exit 0: held.  Exit 1 + VIOLATION line: broken."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VMC_REPO", "/repo")
MC = os.path.join(VERIF, "mc")
CONC = {}            # ids built with source instrumentation -> profile, see profiles.json

ENV = dict(os.environ)
ENV.update(HOME="/root", PATH="/usr/lib/go-1.21/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOPROXY="off", GOWORK="off",
           GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")


def fail(msg):
    """the check could not give an answer"""
    print("ERROR:", msg)
    sys.exit(3)


def build(scratch, prog, profile=None, race=False):
    """builds the program; what does not compile is left out: splitting
    assignments (map elements have no address), the stand-in for zstd"""
    if profile:
        for variant in ("", "-nozstd", "-nosplit", "-nosplit-nozstd"):
            exe = build1(scratch, prog, profile + variant, race, variant != "-nosplit-nozstd")
            if exe:
                return exe
            print("note: build variant '%s' does not compile" % variant)
    return build1(scratch, prog, None, race)


def build1(scratch, prog, profile=None, race=False, maybe=False):
    rep = {}
    for d, _, fs in os.walk(MC):
        rel = os.path.relpath(d, MC)
        if rel.split(os.sep)[0] in ("rewrite",):
            continue
        for f in fs:
            if f.endswith((".go", ".s")) and not f.endswith("_test.go"):
                to = os.path.join("cmd", "vmc_" + f) if rel == "getg" else os.path.join("internal/vmc", rel, f)
                rep[os.path.join(REPO, to)] = os.path.join(d, f)
    if profile:
        out = os.path.join(scratch, "src")
        rw = os.path.join(scratch, "rewrite")
        r = subprocess.run(["go", "build", "-o", rw, os.path.join(MC, "rewrite/main.go")], cwd=os.path.join(MC, "rewrite"),
                           env=dict(ENV, GOFLAGS="-mod=mod", GO111MODULE="off"), capture_output=True, text=True)
        if r.returncode:
            fail("building the rewriter: " + r.stderr)
        r = subprocess.run([rw, REPO, profile, out], env=ENV, capture_output=True, text=True)
        if r.returncode:
            fail("instrumenting: " + r.stdout + r.stderr)
        rep.update(json.loads(r.stdout))
    ov = os.path.join(scratch, "overlay-%s.json" % prog)
    with open(ov, "w") as f:
        json.dump({"Replace": rep}, f)
    out = os.path.join(scratch, prog + (".race" if race else ""))
    cmd = ["go", "build", "-overlay", ov, "-o", out]
    if race:
        cmd.append("-race")
        for pkg in ("sched", "sync", "errgroup"):
            cmd.append("-gcflags=github.com/go-bond/bond/internal/vmc/shim/%s=-race=false" % pkg)
    cmd.append("./internal/vmc/" + prog)
    r = subprocess.run(cmd, cwd=REPO, env=ENV, capture_output=True, text=True)
    if r.returncode and maybe:
        if os.environ.get("VMC_DEBUG"):
            print(r.stderr[:3000])
        return None
    if r.returncode:
        fail("build failed:\n" + r.stdout + r.stderr)
    return out


def warm():
    """builds every program once, so that later builds are quick"""
    with open(os.path.join(VERIF, "mc/programs.json")) as f:
        progs = json.load(f)
    scratch = tempfile.mkdtemp(prefix="vmc-")
    try:
        for prog, profile in sorted({(p["prog"], p.get("profile") or "") for p in progs.values()}):
            try:
                build(scratch, prog, profile or None)
            except SystemExit:
                pass
            if profile and any(p.get("race") and p["prog"] == prog and p.get("profile") == profile for p in progs.values()):
                try:
                    build(scratch, prog, profile, race=True)
                except SystemExit:
                    pass
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    cid = sys.argv[1]
    if cid == "--warm":
        return warm()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    with open(os.path.join(VERIF, "mc/programs.json")) as f:
        progs = json.load(f)
    spec = progs[cid]
    base = os.environ.get("VMC_TMP") or ("/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")
    scratch = tempfile.mkdtemp(prefix="vmc-", dir=base)
    ev = os.path.join(VERIF, "evidence", cid + ".json")
    replays = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(replays, exist_ok=True)
    rc = 3
    proc = None

    def onterm(*_):
        if proc:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(3)
    signal.signal(signal.SIGTERM, onterm)
    signal.signal(signal.SIGINT, onterm)
    try:
        exe = build(scratch, spec["prog"], spec.get("profile"))
        bins = {}
        for name, pkg in spec.get("bins", {}).items():
            out = os.path.join(scratch, name)
            r = subprocess.run(["go", "build", "-o", out, pkg], cwd=REPO, env=ENV, capture_output=True, text=True)
            if r.returncode:
                fail("build failed:\n" + r.stdout + r.stderr)
            bins["VMC_BIN_" + name] = out
        if spec.get("race"):
            try:
                bins["VMC_RACE"] = build(scratch, spec["prog"], spec.get("profile"), race=True)
            except SystemExit:
                print("note: no program with the race detector")
        if os.path.exists(ev):
            os.remove(ev)
        run = dict(ENV, VMC_EVIDENCE=ev, VMC_REPLAYS=replays, VMC_SCRATCH=os.path.join(scratch, "w"),
                   VMC_KNOWN=os.path.join(VERIF, "known_findings.json"), VMC_SELF=exe, VERIF_TIER=tier,
                   GOMEMLIMIT=spec.get("gomemlimit", "12GiB"), TMPDIR=os.path.join(scratch, "w"))
        run.update(bins)
        run.setdefault("VERIF_SEED", "1")
        crashes = 0
        while True:
            os.makedirs(os.path.join(scratch, "w"), exist_ok=True)
            errp = os.path.join(scratch, "stderr")
            with open(errp, "wb") as errf:
                proc = subprocess.Popen([exe, cid, tier], env=run, cwd=os.path.join(scratch, "w"),
                                        stdout=sys.stdout, stderr=errf, start_new_session=True)
                try:
                    rc = proc.wait(timeout=1500 if tier == "thorough" else 780)
                except subprocess.TimeoutExpired:
                    os.killpg(proc.pid, signal.SIGKILL)
                    proc.wait()
                    rc = -9
            with open(errp, errors="replace") as f:
                err = f.read()
            if rc in (0, 1):
                if err and os.environ.get("VMC_DEBUG"):
                    print(err[-4000:])
                break
            # the process itself died: a panic or fatal error outside of a recovered call
            crashes += 1
            frames = re.findall(r"github\.com/go-bond/bond[./](?!internal/vmc)\S+", err)
            # or a call that prepares a case failed where it never does (not for lack of resources)
            if re.search(r"(?m)^panic: (?!runtime error|interface conversion|reflect)", err) and not re.search(
                    r"no space left|cannot allocate|too many open files|temporarily unavailable|strace|permitted|permission denied|timed out", err):
                frames = frames or ["setup"]
            if rc == 2 and frames and crashes < 3:
                shutil.rmtree(os.path.join(scratch, "w"), ignore_errors=True)
                continue
            if rc == 2 and frames:
                h = hashlib.sha1(err[:400].encode()).hexdigest()[:8]
                p = os.path.join(replays, "%s-crash-%s.txt" % (cid, h))
                with open(p, "w") as f:
                    f.write(err)
                print("the process died in code under test: " + err[:600])
                print("VIOLATION property=%s replay=%s" % (cid, p))
                if not os.path.exists(ev):
                    with open(ev, "w") as f:
                        json.dump(dict(property=cid, tier=tier, seed=int(run["VERIF_SEED"]), level=spec.get("level", "model_checking"),
                                       coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, evaluations=0,
                                                     distinct_nontrivial=0, rule="process died", samples=[err[:500]]), wall_s=0, violations=1), f)
                rc = 1
                break
            print("ERROR: run ended with", rc)
            print(err[-6000:])
            rc = 3
            break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
