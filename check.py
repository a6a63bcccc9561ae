#!/usr/bin/env python3
"""check.py CNN            run the check of one property (VERIF_SEED, VERIF_TIER)
   check.py CNN --replay F run one saved failure again
   check.py setup          compile every check once (warms the build cache)

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 3: no answer."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO_PATH", "/repo")  # another tree only while developing
MOD = "github.com/smart-core-os/sc-golang"
VDIR = "internal/verif"
BUILD = os.path.join(VERIF, ".build")

GO_ENV = {
    "HOME": "/root",
    "PATH": "/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "GOROOT": "/opt/veriftools/go1.23.12", "GOTOOLCHAIN": "local",
    "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
    "GOPROXY": "off", "GOSUMDB": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off",
    "GONOSUMDB": "*", "GONOSUMCHECK": "1", "GOFLAGS_": "",
}

EXTRA_MODS = {
    "pgregory.net/rapid": "v1.3.0",
}

with open(os.path.join(VERIF, "checks.json")) as f:
    CHECKS = json.load(f)


def env(race=False, extra=None):
    e = dict(GO_ENV)
    e["CGO_ENABLED"] = "1" if race else "0"
    for k in ("VERIF_SEED", "VERIF_TIER", "VERIF_SCALE", "TMPDIR", "VERIF_FIXTURE"):
        if k in os.environ:
            e[k] = os.environ[k]
    if extra:
        e.update(extra)
    return e


class NoAnswer(Exception):
    pass


def write_modfile(d):
    """go.mod of /repo plus the harness's requirements, in d."""
    with open(os.path.join(REPO, "go.mod")) as f:
        mod = f.read()
    mod += "\nrequire (\n" + "".join("\t%s %s\n" % kv for kv in EXTRA_MODS.items()) + ")\n"
    with open(os.path.join(d, "go.mod"), "w") as f:
        f.write(mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(d, "go.sum"))
    with open(os.path.join(d, "go.sum"), "a") as f, open(os.path.join(VERIF, "harness", "extra.sum")) as g:
        f.write(g.read())
    return os.path.join(d, "go.mod")


def write_overlay(d, more=None):
    rep = dict(more or {})
    for root, _, files in os.walk(os.path.join(VERIF, "harness")):
        for fn in files:
            if fn.endswith(".go"):
                p = os.path.join(root, fn)
                rel = os.path.relpath(p, os.path.join(VERIF, "harness"))
                rep[os.path.join(REPO, VDIR, rel)] = p
    path = os.path.join(d, "overlay%s.json" % ("2" if more else ""))
    with open(path, "w") as f:
        json.dump({"Replace": rep}, f)
    return path


def build(pkg, d, race=False, more=None):
    out = os.path.join(d, pkg.replace("/", "_") + (".race" if race else "") + (".more" if more else "") + ".test")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", write_modfile(d), "-overlay", write_overlay(d, more), "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("%s/%s/%s" % (MOD, VDIR, pkg))
    p = subprocess.run(cmd, cwd=REPO, env=env(race), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise NoAnswer("build of %s failed:\n%s" % (pkg, p.stdout[-4000:]))
    return out


def regenerated(d):
    """Runs the repository's generators, returns an overlay with their output in place of the checked-in files."""
    tool = os.path.join(d, "regen-tool")
    p = subprocess.run(["go", "build", "-modfile", write_modfile(d), "-overlay", write_overlay(d), "-o", tool,
                        "%s/%s/regen/cmd" % (MOD, VDIR)], cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise NoAnswer("build of the regeneration tool failed:\n%s" % p.stdout[-4000:])
    p = subprocess.run([tool, REPO, d], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None  # the test that runs the generators reports it
    with open(os.path.join(d, "regen.json")) as f:
        return json.load(f)


def seed_for(seed, name, shard):
    h = hashlib.sha256(("%s/%s/%s" % (seed, name, shard)).encode()).digest()
    return (int.from_bytes(h[:7], "big") & 0x7fffffffffff) or 1


def run_test(binary, test, shard, seed, d, race, timeout, replay=None, variant=""):
    rd = os.path.join(d, "run-%s%s-%s" % (re.sub(r"\W", "_", test), variant.replace("@", "_"), shard))
    os.makedirs(rd, exist_ok=True)
    stats = os.path.join(rd, "stats.json")
    extra = {"VERIF_STATS": stats, "VERIF_SHARD": str(shard), "VERIF_CASE_SEED": str(seed_for(seed, test, shard)),
             "VERIF_REPO": REPO, "VERIF_DIR": VERIF, "VERIF_SCRATCH": rd}
    if race:
        # reports go to a file, for the test to see which case they belong to, and are repeated, for it to shrink
        extra["VERIF_RACE_LOG"] = os.path.join(rd, "race")
        extra["GORACE"] = "log_path=%s halt_on_error=0 history_size=4 suppress_equal_stacks=0 suppress_equal_addresses=0" % extra["VERIF_RACE_LOG"]
    cmd = [binary, "-test.run", "^%s$" % test, "-test.timeout", "%ds" % timeout, "-rapid.shrinktime=15s"]
    if replay:
        cmd += ["-rapid.failfile=" + replay]
    else:
        cmd += ["-rapid.seed=%d" % seed_for(seed, test, shard)]
    log = os.path.join(rd, "log.txt")
    t0 = time.time()
    with open(log, "w") as lf:
        p = subprocess.Popen(cmd, cwd=rd, env=env(race, extra), stdout=lf, stderr=subprocess.STDOUT)
        rc = None
        while rc is None:
            try:
                rc = p.wait(0.5 if time.time() - t0 > 2 else 0.05)
            except subprocess.TimeoutExpired:
                now = time.time()
                # once there is a violation the other tests don't matter that much
                if now > t0 + timeout + 30 or VIOLATED and now > VIOLATED[0] + 60:
                    p.kill()
                    p.wait()
                    rc = -100
    with open(log, errors="replace") as lf:
        text = lf.read()
    if race and "WARNING: DATA RACE" not in text:
        for fn in sorted(os.listdir(rd)):
            if fn.startswith("race."):
                with open(os.path.join(rd, fn), errors="replace") as lf:
                    text += "\n" + lf.read(100000)
    st = {}
    if os.path.exists(stats):
        with open(stats) as f:
            st = json.load(f)
    fails = []
    for root, _, files in os.walk(rd):
        for fn in files:
            if fn.endswith(".fail"):
                fails.append(os.path.join(root, fn))
    r = dict(test=test + variant, shard=shard, rc=rc, log=text, stats=st, fails=fails, wall=time.time() - t0)
    if classify(r) == "violation":
        VIOLATED.append(time.time())
    return r


VIOLATED = []
OWN_FRAME = re.compile(r"internal/verif/c11\.(look|lookMD|read|walk|scribble|scribbleMD|scribbleMessage)(\.func[.\d]+)*\(")
REPO_FRAME = re.compile(r"^github\.com/smart-core-os/sc-golang/(?!internal/verif/)", re.M)


def classify(r):
    """'ok', 'violation' or 'noanswer'."""
    if r["rc"] == 0:
        if "testing: warning: no tests to run" in r["log"]:
            return "noanswer"
        return "ok"
    log = r["log"]
    if "WARNING: DATA RACE" in log:
        body = log.split("WARNING: DATA RACE", 1)[1].split("==================", 1)[0]
        # a race counts when repository code is part of it
        if "sc-golang/" in re.sub(r"\S*sc-golang/internal/verif/\S*", "", body):
            return "violation"
        # or when it gave the same object to callers that each may do with theirs what they like
        accesses = re.split(r"^\s*(?:Previous )?(?:[Aa]tomic )?(?:[Rr]ead|[Ww]rite) at ", re.split(r"^\s*Goroutine ", body, maxsplit=1, flags=re.M)[0], flags=re.M)[1:]
        own = len(accesses) == 2 and all(OWN_FRAME.search(a) for a in accesses)
        return "violation" if own else "noanswer"
    if "HARNESS-ERROR" in log or r["rc"] < 0 or "panic: test timed out" in log:
        return "noanswer"
    if "fatal error: all goroutines are asleep" in log:
        return "violation"
    if r["rc"] == 1 and "--- FAIL" in log:
        return "violation"
    m = re.search(r"^(panic:|fatal error:)", log, re.M)
    if m and REPO_FRAME.search(log[m.start():]):
        return "violation"
    return "noanswer"


def list_tests(binary, race):
    p = subprocess.run([binary, "-test.list", "."], env=env(race), stdout=subprocess.PIPE, text=True, cwd="/")
    if p.returncode != 0:
        raise NoAnswer("cannot list tests")
    return [l for l in p.stdout.split() if l.startswith("Test")]


def main_check(prop, replay=None):
    t0 = time.time()
    spec = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix=prop + "-", dir=BUILD)
    only = os.environ.get("VERIF_ONLY")
    try:
        race = bool(spec.get("race"))
        jobs = []
        shards = spec.get("shards_thorough", 4) if tier == "thorough" else 1
        timeout = spec.get("timeout", 600) if tier != "thorough" else spec.get("timeout_thorough", 3600)
        for pkg in spec["pkgs"]:
            b = build(pkg, d, race)
            for t in list_tests(b, race):
                if only and not re.search(only, t):
                    continue
                n = shards if t not in spec.get("single", []) else 1
                n = max(n, spec.get("shards", {}).get(t, 1))
                for s in range(n):
                    jobs.append((b, t, s, ""))
        early = []
        if spec.get("regen"):
            more = regenerated(d)
            for pkg in spec["pkgs"] if more else []:
                try:
                    b = build(pkg, d, race, more)
                except NoAnswer as e:  # it built without the regenerated files
                    early.append(dict(test="Build@regenerated", shard=0, rc=1, log="--- FAIL: regenerated code\n%s" % e, stats={}, fails=[], wall=0))
                    continue
                for t in list_tests(b, race):
                    if re.search(spec["regen"], t) and not (only and not re.search(only, t)):
                        jobs.append((b, t, 0, "@regenerated"))
        if replay:
            with open(replay) as f:
                head = json.loads(f.readline())
                body = f.read()
            ff = os.path.join(d, "replay.fail")
            with open(ff, "w") as f:
                f.write(body)
            jobs = [j for j in jobs if j[1] + j[3] == head["test"]][:1]
            seed = head["seed"]
            if jobs:
                jobs = [(jobs[0][0], jobs[0][1], head["shard"], jobs[0][3])]
        else:
            ff = None
        par = int(os.environ.get("VERIF_JOBS", spec.get("jobs", 8)))
        results = []
        with ThreadPoolExecutor(par) as ex:
            futs = [ex.submit(run_test, b, t, s, seed, d, race, timeout, ff if ff and body.strip() else None, v) for b, t, s, v in jobs]
            results = early + [f.result() for f in futs]
            for _ in range(30 if replay and race else 0):  # races don't show every time
                if any(classify(r) != "ok" for r in results):
                    break
                results = [run_test(b, t, s, seed, d, race, timeout, ff if ff and body.strip() else None, v) for b, t, s, v in jobs]
        violations, noanswer = [], []
        for r in results:
            c = classify(r)
            if c == "violation":
                violations.append(r)
            elif c == "noanswer":
                noanswer.append(r)
        if not replay:
            write_evidence(prop, spec, tier, seed, results, time.time() - t0, len(violations))
        for r in results:
            for line in r["log"].splitlines():
                if line.startswith("KNOWN-FINDING:"):
                    print(line)
        for r in violations:
            path = save_replay(prop, tier, seed, r)
            print(tail(r["log"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        if violations:
            return 1
        if noanswer or not results:
            for r in noanswer:
                print("no answer from %s (exit %s):\n%s" % (r["test"], r["rc"], tail(r["log"])))
            return 3
        ev = sum(r["stats"].get("evaluations", 0) for r in results)
        print("ok %s: %d tests, %d cases, %.1fs" % (prop, len(results), ev, time.time() - t0))
        if os.environ.get("VERIF_VERBOSE"):
            for r in sorted(results, key=lambda r: -r["wall"]):
                print("  %-40s %6.1fs %s" % (r["test"] + "/" + str(r["shard"]), r["wall"], r["stats"].get("evaluations")))
        return 0
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


def tail(log, n=6000):
    log = "".join(c if c in "\n\t" or c.isprintable() else "\\x%02x" % ord(c) for c in log)
    return log if len(log) <= n else log[:n // 2] + "\n...\n" + log[-n // 2:]


def save_replay(prop, tier, seed, r):
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s-%s.replay" % (prop, r["test"].replace("@", "-"), r["shard"]))
    body = ""
    if r["fails"]:
        with open(r["fails"][0], errors="replace") as f:
            body = f.read()
    head = {"property": prop, "test": r["test"], "shard": r["shard"], "seed": seed, "tier": tier,
            "run": "./check.py %s --replay %s" % (prop, path), "log": tail(r["log"], 20000)}
    with open(path, "w") as f:
        f.write(json.dumps(head) + "\n" + body)
    return path


def write_evidence(prop, spec, tier, seed, results, wall, nviol):
    keys, samples, classes, ev = set(), [], {}, 0
    per = {}
    for r in results:
        st = r["stats"]
        ev += st.get("evaluations", 0)
        keys.update((r["test"], k) for k in (st.get("distinct") or []))
        per[r["test"]] = per.get(r["test"], 0) + st.get("evaluations", 0)
        for s in (st.get("samples") or [])[:2]:
            samples.append({"test": r["test"], "case": s})
        for k, v in st.get("classes", {}).items():
            classes[k] = classes.get(k, 0) + v
    seen, out = {}, []
    for s in samples:
        if seen.setdefault(s["test"], 0) < 2:
            seen[s["test"]] += 1
            out.append(s)
    e = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
         "coverage": {"evaluations": ev, "distinct_nontrivial": len(keys), "rule": spec["rule"], "samples": out,
                      "cases_per_test": per, "classes": dict(sorted(classes.items()))},
         "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}
    edir = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)


def setup():
    os.makedirs(BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix="setup-", dir=BUILD)
    try:
        for prop, spec in CHECKS.items():
            for pkg in spec["pkgs"]:
                build(pkg, d, bool(spec.get("race")))
                print("built", prop, pkg, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return 0


if __name__ == "__main__":
    try:
        a = sys.argv[1:]
        if not a:
            print(__doc__)
            sys.exit(2)
        if a[0] == "setup":
            sys.exit(setup())
        rp = None
        if "--replay" in a:
            rp = a[a.index("--replay") + 1]
        sys.exit(main_check(a[0], rp))
    except NoAnswer as e:
        print("no answer:", e)
        sys.exit(3)
