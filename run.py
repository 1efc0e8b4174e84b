#!/usr/bin/env python3
"""Run one check: run.py <property> [quick|thorough].

Builds the monitor of the property from /repo's working tree (harness added as an overlay),
runs it, compares what it observed with known_findings.json and writes evidence/<id>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION. Exit 2: the bench itself failed."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1"))
RACE = {"X06"}
BINARY = {"X10"} # run the node itself
LEVEL = "exploration"

env = dict(os.environ)
for line in open(os.path.join(HERE, "env.sh")):
    m = re.match(r"export (.*)$", line.strip())
    if m:
        for k, q, u in re.findall(r"(\w+)=(?:'([^']*)'|(\S*))", m.group(1)):
            env[k] = q or u
env["GOMAXPROCS"] = env.get("GOMAXPROCS", str(min(8, os.cpu_count() or 8)))

def fail(msg, code=2):
    print("BENCH-ERROR:", msg)
    sys.exit(code)

def build(workdir, race):
    ov = os.path.join(workdir, "overlay.json")
    subprocess.run([sys.executable, os.path.join(HERE, "mkoverlay.py"), REPO, ov] + (["--caches"] if race else []), check=True)
    out = os.path.join(workdir, "verifmon")
    cmd = ["go", "build", "-tags", env["VTAGS"], "-overlay", ov, "-o", out]
    if race:
        cmd.insert(2, "-race")
    cmd.append("./verifmon")
    p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        # a second try: a cold or damaged build cache must not look like an answer
        p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            fail("build failed\n" + p.stdout[-4000:])
    if prop in BINARY:
        p = subprocess.run(["go", "build", "-tags", env["VTAGS"], "-o", os.path.join(workdir, "minitiad"), "./cmd/minitiad"], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            fail("build failed\n" + p.stdout[-4000:])
        env["VERIF_MINITIAD"] = os.path.join(workdir, "minitiad")
    return out

CRASH = re.compile(r"^(WARNING: DATA RACE|fatal error: (?:concurrent map|all goroutines|sync:|stack overflow|checkptr|unexpected signal)[^\n]*|panic: [^\n]*|unexpected fault address[^\n]*)", re.M)

# where libraries the repository builds on touch memory themselves, and what runs below everything
LIB = re.compile(r"^(github\.com/cosmos/|cosmossdk\.io/|github\.com/cometbft/|github\.com/tidwall/|github\.com/syndtr/|github\.com/skip-mev/|github\.com/initia-labs/(initia|OPinit|kvindexer)/|main\.|github\.com/initia-labs/minievm/verif)")
MINE = re.compile(r"^github\.com/initia-labs/minievm/")

def racing_frames(blk):
    """of each access of a race report, the function it is made for: the innermost one which is the
    repository's own or belongs to a library that keeps shared state of its own (baseapp, stores, iavl)"""
    out = []
    for para in blk.split("\n\n"):
        if not re.search(r"^\s*(Previous )?(atomic )?(Read|Write|read|write) (at|of)", para, re.M):
            continue
        for l in para.split("\n"):
            m = re.match(r"  ([A-Za-z]\S*)", l)
            if m and (LIB.match(m.group(1)) or MINE.match(m.group(1))):
                out.append(m.group(1))
                break
    return out

def repo_race(blk):
    # (a node makes one app, the bench many: what construction registers process-wide is no race of a node)
    if "minievm/app.NewMinitiaApp(" in blk.split("\n\nGoroutine")[0]:
        return False
    return any(MINE.match(f) and not LIB.match(f) for f in racing_frames(blk))

def norm_frames(text):
    """repo frames of a crash or race report, without line numbers"""
    fr = re.findall(r"^\s*(github\.com/initia-labs/minievm/[^\s(]*(?:\([^)]*\)[^\s(]*)?)", text, re.M)
    return [f for f in fr if "/verifmon" not in f and "/verifkit" not in f]

def main():
    t0 = time.time()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        race = prop in RACE
        binp = build(work, race)
        built = time.time()
        res_path = os.path.join(work, "result.json")
        log_path = os.path.join(work, "log")
        renv = dict(env)
        renv["TMPDIR"] = work
        renv["HOME"] = work
        if race:
            renv["GORACE"] = "halt_on_error=0 exitcode=0"
        limit = 780 - (built - t0) if tier == "quick" else 3600 * 3
        args = [binp, "-tier", tier, "-seed", str(seed), "-out", res_path]
        if tier == "quick":
            args += ["-budget", "%ds" % max(30, min(60, int(limit - 120)))]
        if os.environ.get("VERIF_CASE"):
            args += ["-case", os.environ["VERIF_CASE"]]
        args.append(prop)
        hung = False
        with open(log_path, "wb") as lf:
            try:
                rc = subprocess.run(args, cwd=work, env=renv, stdout=lf, stderr=subprocess.STDOUT, timeout=max(limit, 60)).returncode
            except subprocess.TimeoutExpired:
                hung, rc = True, -1
        log = open(log_path, "rb").read().decode("utf8", "replace")
        viols, harness, res, lib_races = [], [], None, 0
        if os.path.exists(res_path):
            res = json.load(open(res_path))
            viols = res.get("violations") or []
            harness = res.get("harness_errors") or []
        for m in CRASH.finditer(log):
            blk = log[m.start():m.start() + 60000]
            end = blk.find("==================", 20)
            if end > 0:
                blk = blk[:end]
            frames = norm_frames(blk)
            if m.group(1).startswith("WARNING: DATA RACE"):
                if not repo_race(blk):
                    lib_races += 1
                    continue
                viols.append({"sig": "data-race", "case": "log", "detail": blk[:3500]})
            elif res is None:
                if frames:
                    viols.append({"sig": "crash", "case": "log", "detail": blk[:3500]})
        if hung and not viols:
            fail("the workload did not finish in time\n" + log[-3000:])
        if res is None and not viols:
            fail("no result (exit %s)\n%s" % (rc, log[-4000:]))
        known = json.load(open(os.path.join(HERE, "known_findings.json")))
        new, shown = [], {}
        for v in viols:
            hit = None
            for k in known["findings"]:
                if k["property"] == prop and k["sig"] == v["sig"]:
                    hit = k
            if hit:
                shown[hit["sig"]] = hit
            else:
                new.append(v)
        for k in shown.values():
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        res = res or {}
        obs = dict(res.get("observed") or {})
        if race:
            obs["race_reports_in_libraries"] = lib_races
        cov = {"evaluations": res.get("evaluations", 0), "distinct_nontrivial": res.get("distinct_nontrivial", 0),
               "rule": res.get("rule", ""), "samples": res.get("samples") or ["(crashed)"], "observed": obs,
               "build_s": round(built - t0, 1), "known_findings_seen": sorted(shown)}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov, "wall_s": round(time.time() - t0, 1),
              "violations": len(new)}
        json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
        print(json.dumps({k: v for k, v in cov.items() if k not in ("samples", "rule")}))
        if new:
            rp = os.path.join(evdir, "replay-%s.json" % prop)
            json.dump({"property": prop, "tier": tier, "seed": seed, "replay_cmd": "VERIF_SEED=%d VERIF_CASE=<case> python3 run.py %s %s" % (seed, prop, tier),
                       "violations": new}, open(rp, "w"), indent=1)
            for v in new[:5]:
                print("  [%s] case %s: %s" % (v["sig"], v["case"], v["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        if harness:
            fail("harness errors:\n" + "\n".join(harness)[:4000])
        if cov["evaluations"] == 0:
            fail("nothing was evaluated\n" + log[-2000:])
        print("OK property=%s evaluations=%d distinct=%d wall=%.0fs" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

sys.exit(main())
