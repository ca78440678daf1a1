#!/usr/bin/env python3
"""Run the generated-input search that decides one property.

  check.py C07                 run the check (VERIF_SEED, VERIF_TIER)
  check.py C07 --replay FILE   re-run a saved failing case

Exit 0: the property held on everything generated.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it did not.  Exit 3: the check could
not be carried out (build failure, time-out, out of memory); nothing is claimed.
"""
import base64, collections, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(HERE, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")  # override: private mutation campaigns only
MOD = "github.com/coniks-sys/coniks-go"
sys.path.insert(0, H)
from checks import CHECKS, PKGS  # noqa: E402

SHARDS = 8
KNOWN = os.path.join(HERE, "known_findings.txt")


class Infra(Exception):
    pass


def goenv():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "VH_", "RAPID"))}
    e.update(PATH="/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GOTOOLCHAIN="local", GOWORK="off", GO111MODULE="on", GOPROXY="off", GOFLAGS="-mod=mod",
             GOSUMDB="off", GOTRACEBACK="all")
    return e


def hook_leveldb(dst, mod):
    """A copy of goleveldb whose storage.OpenFile can be pointed at the harness's
    crash-simulating storage, for the harness's build only."""
    src = os.path.join(goenv()["GOMODCACHE"], "github.com/syndtr/goleveldb@v1.0.0")
    shutil.copytree(src, dst, ignore=lambda d, n: [x for x in n if x.endswith("_test.go") or x == "manualtest"])
    subprocess.run(["chmod", "-R", "u+w", dst], check=True)
    f = os.path.join(dst, "leveldb/storage/file_storage.go")
    with open(f) as fh:
        text = fh.read()
    head = "func OpenFile(path string, readOnly bool) (Storage, error) {\n"
    if text.count(head) != 1:
        raise Infra("goleveldb's storage.OpenFile is not where it was")
    with open(f, "w") as fh:
        fh.write(text.replace(head, "// Hook, if set, may open a storage of its own.\nvar Hook func(path string, readOnly bool) (Storage, error)\n\n"
                              + head + "\tif Hook != nil {\n\t\tif s, err := Hook(path, readOnly); s != nil || err != nil {\n"
                              "\t\t\treturn s, err\n\t\t}\n\t}\n"))
    if not os.path.exists(os.path.join(dst, "go.mod")):
        with open(os.path.join(dst, "go.mod"), "w") as fh:
            fh.write("module github.com/syndtr/goleveldb\n")
    with open(mod, "a") as fh:
        fh.write("\nreplace github.com/syndtr/goleveldb => %s\n" % dst)


def build(pkgs, work):
    """Compile the harness packages against REPO's working tree; return {pkg: binary}."""
    added = []
    for f in ("go.mod", "go.sum"):  # git-ignored there; only marks the module root
        p = os.path.join(REPO, f)
        if not os.path.exists(p):
            shutil.copy(os.path.join("/opt/vp/mod", f), p)
            added.append(p)
    try:
        # the harness sees the packages below /repo/zzverif, which exist only in this overlay
        rep = {}
        for d, sub in PKGS.items():
            src = os.path.join(H, sub.get("src", d))
            if not os.path.isdir(src):
                continue
            for f in sorted(os.listdir(src)):
                if f.endswith(".go"):
                    rep[os.path.join(REPO, sub["dir"], f)] = os.path.join(src, f)
        ov = os.path.join(work, "overlay.json")
        with open(ov, "w") as fh:
            json.dump({"Replace": rep}, fh)

        def one(p):
            pk = PKGS[p]
            mod = os.path.join(work, p + ".mod")
            shutil.copy(os.path.join(H, "go.mod"), mod)
            shutil.copy(os.path.join(H, "go.sum"), os.path.join(work, p + ".sum"))
            if pk.get("leveldb_hook"):
                hook_leveldb(os.path.join(work, "goleveldb"), mod)
            out = os.path.join(work, p + ".test")
            cmd = ["go", "test", "-c", "-o", out, "-vet=off", "-modfile", mod, "-overlay", ov,
                   "-gcflags=" + MOD + "/...=-lang=go1.17"]
            env = goenv()
            if pk.get("race"):
                cmd.append("-race")
                env["CGO_ENABLED"] = "1"
            # parts that need unexported names carry a tag, so that a renaming
            # inside the project costs those parts and not the whole check
            for tags in (["-tags", "vhshim"], []) if pk.get("shim") else ([],):
                r = subprocess.run(cmd + tags + ["./" + pk["dir"]], cwd=REPO, env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=600)
                if r.returncode == 0:
                    break
            if r.returncode != 0 or not os.path.exists(out):
                raise Infra("build of %s failed:\n%s" % (p, r.stdout.decode(errors="replace")[-6000:]))
            bins = {}
            for name, path in pk.get("tools", {}).items():
                b = os.path.join(work, name)
                r = subprocess.run(["go", "build", "-o", b, "-modfile", mod, "-overlay", ov,
                                    "-gcflags=" + MOD + "/...=-lang=go1.17", path], cwd=REPO, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                if r.returncode != 0:
                    raise Infra("build of %s failed:\n%s" % (name, r.stdout.decode(errors="replace")[-6000:]))
                bins[name] = b
            return p, out

        with ThreadPoolExecutor(4) as ex:
            return dict(ex.map(one, pkgs))
    finally:
        for p in added:
            os.remove(p)


FOUND = []  # when violations were found
GRACE = float(os.environ.get("VH_GRACE", "45"))


def run_shard(binary, pkg, pattern, shard, shards, seed, tier, work, limit, failfile=None):
    scratch = tempfile.mkdtemp(prefix="s%d." % shard, dir=work)
    stats = os.path.join(work, "stats")
    os.makedirs(stats, exist_ok=True)
    env = goenv()
    env.update(VH_SHARD=str(shard), VH_SHARDS=str(shards), VH_SEED=str(seed), VH_TIER=tier, VH_SCRATCH=scratch,
               VH_STATS=stats, VH_BIN=work, GOMAXPROCS="4", TMPDIR=scratch)
    env["VH_KNOWN"] = "\n".join("property=%s %s" % (p, l) for p in CHECKS for l in known(p))
    for k in ("VH_MULT", "VH_DIV"):
        if os.environ.get(k):
            env[k] = os.environ[k]
    if PKGS[pkg].get("race"):
        env["GORACE"] = "halt_on_error=1 exitcode=66"
    args = [binary, "-test.run", pattern, "-test.timeout", "0", "-test.v"]
    if failfile:
        args.append("-rapid.failfile=" + failfile)
    out = os.path.join(scratch, "output.txt")
    t0 = time.time()
    with open(out, "wb") as fh:
        p = subprocess.Popen(args, cwd=scratch, env=env, stdout=fh, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             start_new_session=True)
        try:
            rc = None
            while rc is None:
                try:
                    rc = p.wait(timeout=1)
                except subprocess.TimeoutExpired:
                    # a violation that was found elsewhere needn't wait for the rest
                    if time.time() - t0 > limit or FOUND and time.time() - FOUND[0] > GRACE:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        rc = "timeout"
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
    with open(out, "rb") as fh:
        fh.seek(0, 2)
        n = fh.tell()
        fh.seek(max(0, n - 400000))
        text = fh.read().decode(errors="replace")
    r = dict(rc=rc, out=text, scratch=scratch, wall=time.time() - t0, pkg=pkg, shard=shard)
    if classify(r) == "violation":
        FOUND.append(time.time())
    return r


FRAME = re.compile(r"^\s+(/\S+\.go):\d+", re.M)


def repo_frames(text):
    """Frames of the project's own code, not of the harness, in the first goroutine traces."""
    return [f for f in FRAME.findall(text) if f.startswith(REPO + "/") and "zzverif" not in f
            and not f.endswith("_test.go")]


def classify(r):
    """'ok', 'violation' or a reason why nothing can be said."""
    rc, out = r["rc"], r["out"]
    if rc == 0:
        return "ok"
    if rc == "timeout":
        return "infra: time limit"
    if rc == 3 or "VH-INFRA" in out:
        m = re.search(r"VH-INFRA:.*", out)
        return "infra: " + (m.group(0) if m else "exit 3")
    if rc == 1 and "--- FAIL: Test" in out:
        m = re.search(r"\[rapid\] flaky test[\s\S]*?Original traceback \(([\s\S]*)", out)
        if m and "--- case ---" in m.group(1):  # a check failed, on a schedule that did not come again
            return "violation"
        if re.search(r"\[rapid\] (only generated|flaky test)", out) and "failed after" not in out and "panic after" not in out:
            return "infra: generator: " + "\n".join(l for l in out.splitlines() if "[rapid] draw" not in l)[-3000:]
        m = re.search(r"\[rapid\] panic after.*\n.*\n\s+Traceback:\n\s+(\S+) in (\S+)", out)
        if m and "pgregory.net/rapid." in m.group(2):  # a generator was given impossible bounds
            return "infra: generator: " + out[m.start():m.start() + 600]
        return "violation"
    if rc == 66 and "WARNING: DATA RACE" in out:
        i = out.index("WARNING: DATA RACE")
        return "violation" if repo_frames(out[i:]) else "infra: data race in the harness"
    if rc == 4 and "VH-HANG" in out:
        return "hang" if repo_frames(out[out.index("VH-HANG"):]) else "infra: slow case"
    if rc in (2, -6):
        if "test timed out" in out or "out of memory" in out or "cannot allocate memory" in out:
            return "infra: " + out[-300:]
        m = re.search(r"^(panic: |fatal error: |unexpected fault)", out, re.M)
        if m:
            tail = out[m.start():]
            first = tail.split("\n\ngoroutine ", 2)
            blk = "\n\ngoroutine ".join(first[:2])  # message and the goroutine that crashed
            if repo_frames(blk):
                return "violation"
            if "fatal error: all goroutines are asleep" in tail and repo_frames(tail):
                return "violation"
    return "infra: exit %s: %s" % (rc, out[-1500:])


def failing_test(out):
    m = re.findall(r"^\s*--- FAIL: (Test\w+)", out, re.M)
    if m:
        return m[0]
    m = re.findall(r"^=== RUN\s+(Test\w+)", out, re.M)
    return m[-1] if m else None


def save_replay(pid, r, seed, tier, shards):
    test = failing_test(r["out"])
    ff = None
    for root, _, files in os.walk(os.path.join(r["scratch"], "testdata", "rapid")):
        for f in sorted(files):
            if f.endswith(".fail") and (test is None or os.path.basename(root) == test):
                ff = os.path.join(root, f)
    rec = dict(property=pid, pkg=r["pkg"], test=test, seed=seed, tier=tier, shard=r["shard"], shards=shards,
               failfile=None, output=r["out"][-60000:])
    if ff:
        with open(ff, "rb") as fh:
            rec["failfile"] = base64.b64encode(fh.read()).decode()
    d = os.path.join(HERE, "replays", pid)
    os.makedirs(d, exist_ok=True)
    key = hashlib.sha256(json.dumps([rec["test"], rec["failfile"], seed, r["shard"]]).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s.json" % (test or "crash", key))
    with open(path, "w") as fh:
        json.dump(rec, fh, indent=1)
    return path, rec


def excerpt(out):
    keep = []
    on = False
    for l in out.splitlines():
        if l.startswith(("--- FAIL", "    --- FAIL", "panic:", "fatal error:", "WARNING: DATA RACE", "VH-HANG")) or "[rapid]" in l:
            on = True
        if on and "[rapid] draw " not in l:
            keep.append(l[:2000])
        if len(keep) > 60:
            break
    return "\n".join(keep)


def known(pid):
    if not os.path.exists(KNOWN):
        return []
    res = []
    for l in open(KNOWN):
        l = l.strip()
        if l.startswith("known: property=%s " % pid):
            res.append(l[len("known: property=%s " % pid):])
    return res


def main():
    pid = sys.argv[1]
    chk = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:4], "big")
    t0 = time.time()
    limit = chk.get("limit", 780 if tier == "quick" else 3000)
    work = tempfile.mkdtemp(prefix="vf.", dir="/tmp")
    os.chmod(work, 0o755)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return replay(pid, sys.argv[3], work, limit)
        bins = build(chk["pkgs"], work)
        pattern = "^Test" + pid + "_"
        jobs = []
        for p in chk["pkgs"]:
            n = min(SHARDS, PKGS[p].get("shards", SHARDS))
            jobs += [(p, s, n) for s in range(n)]
        results = []
        width = min([PKGS[p].get("parallel", SHARDS) for p in chk["pkgs"]])
        with ThreadPoolExecutor(width) as ex:
            fs = [ex.submit(run_shard, bins[p], p, pattern, s, n, seed, tier, work, limit)
                  for p, s, n in jobs]
            for f in fs:
                results.append(f.result())
        verdicts = [classify(r) for r in results]
        bad = None
        for r, v in zip(results, verdicts):
            if v == "violation":
                bad = r
                break
        if bad is None:
            for (p, s, n), r, v in zip(jobs, results, verdicts):
                if v == "hang":  # must hang again, alone on the machine, to count
                    r2 = run_shard(bins[p], p, pattern, s, n, seed, tier, work, limit)
                    if classify(r2) in ("hang", "violation"):
                        bad = r2
                        break
                    verdicts = ["infra: a case was slow once" if x == "hang" else x for x in verdicts]
        infra = [v for v in verdicts if v.startswith("infra")]
        if bad is None and infra:
            for v in infra[:3]:
                print("ERROR property=%s %s" % (pid, v))
            return 3
        ran = any("=== RUN" in r["out"] for r in results)
        if not ran:
            print("ERROR property=%s no test ran" % pid)
            return 3
        ev = evidence(pid, chk, tier, seed, work, time.time() - t0, 1 if bad else 0, results)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.tmp%d" % (pid, os.getpid()))
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))
        for m in sorted({m for r in results for m in re.findall(r"^KNOWN-FINDING: property=%s .*" % pid, r["out"], re.M)}):
            print(m)
        if bad:
            n = next(k for (p, s, k) in jobs if p == bad["pkg"])
            path, _ = save_replay(pid, bad, seed, tier, n)
            print(excerpt(bad["out"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        c = ev["coverage"]
        print("OK property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d wall=%.1fs" % (
            pid, tier, seed, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"]))
        return 0
    except Infra as e:
        print("ERROR property=%s %s" % (pid, e))
        return 3
    except subprocess.TimeoutExpired as e:
        print("ERROR property=%s %s" % (pid, e))
        return 3
    finally:
        if os.environ.get("VH_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def replay(pid, path, work, limit):
    rec = json.load(open(path))
    bins = build([rec["pkg"]], work)
    ff = None
    if rec.get("failfile"):
        ff = os.path.join(work, "replay.fail")
        with open(ff, "wb") as fh:
            fh.write(base64.b64decode(rec["failfile"]))
    pat = "^%s$" % rec["test"] if rec.get("test") else "^Test" + pid + "_"
    r = run_shard(bins[rec["pkg"]], rec["pkg"], pat, rec["shard"], rec["shards"], rec["seed"], rec["tier"], work, limit, ff)
    v = classify(r)
    if v in ("violation", "hang"):
        print(excerpt(r["out"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if v == "ok":
        print("OK property=%s the saved case passes" % pid)
        return 0
    print("ERROR property=%s %s" % (pid, v))
    return 3


def evidence(pid, chk, tier, seed, work, wall, violations, results):
    fps = collections.defaultdict(set)
    evals = nontriv = 0
    classes = collections.Counter()
    per = collections.defaultdict(lambda: [0, 0])
    samples = []
    d = os.path.join(work, "stats")
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        s = json.load(open(os.path.join(d, f)))
        evals += s["evaluations"]
        per[s["test"]][0] += s["evaluations"]
        per[s["test"]][1] += s["nontrivial"]
        nontriv += s["nontrivial"]
        fps[s["test"]].update(s["fingerprints"] or [])
        for k, v in s["classes"].items():
            classes[s["test"] + ": " + k] += v
        if sum(1 for x in samples if x["test"] == s["test"]) < 2:
            samples += [dict(test=s["test"], case=c) for c in (s["samples"] or [])[:1]]
    return dict(property=pid, tier=tier, seed=seed, level=chk["level"],
                coverage=dict(evaluations=evals, distinct_nontrivial=sum(len(v) for v in fps.values()),
                              rule=chk["rule"], samples=samples[:12],
                              per_test={k: dict(cases=v[0], nontrivial=v[1]) for k, v in sorted(per.items())},
                              classes=dict(sorted(classes.items()))),
                assumptions=chk.get("assumptions", []), wall_s=round(wall, 2), violations=violations)


if __name__ == "__main__":
    sys.exit(main())
