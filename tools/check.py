#!/usr/bin/env python3
"""Builds the monitor against /repo's working tree, runs it for one property, judges the outcome.

usage: check.py PROPERTY [quick|thorough]     (default: $VERIF_TIER or quick)
       check.py --setup                       builds the monitor once
       check.py --replay FILE                 runs the case of a replay file again, verbosely

exit 0: the property held on everything explored;  exit 1 + VIOLATION line: it is broken;
exit 2: no verdict (the monitor could not be built, or did not observe enough).
"""
import concurrent.futures as cf
import hashlib, json, os, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
TRIPLE = "x86_64-unknown-linux-gnu"
ALL = ["std", "channel-voice1", "channel-voice2", "ci", "flex-data", "sysex7", "sysex8",
       "system-common", "ump-stream", "utility"]
MEM = 20 << 30


class NoVerdict(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building
def toolchains():
    try:
        out = subprocess.run(["rustup", "toolchain", "list"], capture_output=True, text=True).stdout
    except OSError:
        return []
    return [l.split()[0] for l in out.splitlines() if l.strip()]


def env_for(toolchain, extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS",
                 "RUSTC_WRAPPER", "RUSTC", "CARGO_INCREMENTAL") or k.startswith("CARGO_PROFILE_"):
            del e[k]
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(extra or {})
    return e


def stable():
    t = toolchains()
    for x in t:
        if x.startswith("stable"):
            return x
    return None


def nightly():
    for x in toolchains():
        if x == "nightly-" + TRIPLE:
            return x
    return None


def cargo(args, env, cwd=HARNESS, timeout=700):
    try:
        p = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoVerdict("cargo " + " ".join(args) + ": timed out")
    return p.returncode, p.stdout


def build(profile="monitor", features=None, tag="t", asan=False):
    """Builds the monitor crate (which builds /repo/midi2) and returns the binary."""
    tgt = os.path.join(BUILD, tag)
    args = ["build", "--profile", profile, "--target-dir", tgt, "--offline", "--quiet"]
    if features is not None:
        args += ["--no-default-features", "--features", ",".join(features)]
    extra = {}
    tc = stable()
    sub = os.path.join(tgt, profile)
    if asan:
        tc = nightly()
        extra["RUSTFLAGS"] = "-Zsanitizer=address"
        args += ["--target", TRIPLE]
        sub = os.path.join(tgt, TRIPLE, profile)
    rc, out = cargo(args, env_for(tc, extra))
    if rc != 0:
        tail = "\n".join(l for l in out.splitlines() if l.strip())[-6000:]
        raise NoVerdict("the monitor does not build against /repo:\n" + tail)
    return os.path.join(sub, "monitor")


# ---------------------------------------------------------------- running
def limit(mem=MEM):
    def f():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run_monitor(binary, seed, props, tmp, extra=(), mem=MEM, timeout=800, env=None):
    """Returns the parsed report; crashes are attributed to a case and reported as failures."""
    marks = tempfile.mkdtemp(dir=tmp)
    out = os.path.join(marks, "report.json")
    cmd = [binary, "run", "--prop", props, "--seed", str(seed), "--marks", marks, "--out", out] + list(extra)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout, preexec_fn=limit(mem), env=env)
    except subprocess.TimeoutExpired:
        raise NoVerdict("the monitor ran out of time")
    if p.returncode == 0:
        return json.load(open(out))
    if p.returncode == 3:
        d = json.load(open(out))
        keep = []
        for f in d["failures"]:
            if f["sig"].endswith(":hang") and not hangs(binary, f["unit"], f["index"], seed, mem, env):
                raise NoVerdict("a case was slow but does finish: %s %d" % (f["unit"], f["index"]))
            keep.append(f)
        d["failures"] = keep
        return d
    # an abnormal death: which case?
    text = p.stdout[-3000:]
    fails = []
    for th in sorted(os.listdir(marks)):
        if not th.isdigit():
            continue
        unit, lo, hi = open(os.path.join(marks, th)).read().split()
        try:
            q = subprocess.run([binary, "range", "--unit", unit, "--from", lo, "--to", hi, "--seed", str(seed)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=200,
                               preexec_fn=limit(mem), env=env)
            rc, o = q.returncode, q.stdout
        except subprocess.TimeoutExpired as e:
            rc, o = "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        if rc in (0, "timeout"):
            continue
        cases = [l for l in o.splitlines() if l.startswith("CASE ")]
        if not cases:
            continue
        i = int(cases[-1].split()[1])
        tail = o[o.rfind("CASE "):][:2500]
        fails.append({"sig": unit + ":abnormal end", "unit": unit, "index": i, "count": 1,
                      "detail": "the process died (%s): %s" % (rc, tail)})
    if not fails:
        raise NoVerdict("the monitor died (%s) and no case reproduces it:\n%s" % (p.returncode, text))
    return {"seed": seed, "wall_s": 0, "evals": 0, "distinct": 0, "events": {}, "units": [], "samples": [], "failures": fails}


def hangs(binary, unit, index, seed, mem, env):
    try:
        subprocess.run([binary, "case", "--unit", unit, "--index", str(index), "--seed", str(seed)],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=90, preexec_fn=limit(mem), env=env)
        return False
    except subprocess.TimeoutExpired:
        return True


# ---------------------------------------------------------------- known findings
def known(prop):
    r = {}
    if not os.path.exists(KNOWN):
        return r
    for l in open(KNOWN):
        l = l.strip()
        if not l.startswith("known: "):
            continue
        f = l[len("known: "):].split(" | ")
        if f[0] == "property=" + prop and f[1].startswith("sig="):
            r[f[1][4:]] = f[2]
    return r


# ---------------------------------------------------------------- verdict
def conclude(prop, tier, seed, t0, report, rule, assumptions, extra_cov=None, min_evals=1):
    kn = known(prop)
    fails = report["failures"]
    new = [f for f in fails if f["sig"] not in kn]
    old = [f for f in fails if f["sig"] in kn]
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    cov = {
        "evaluations": report["evals"],
        "distinct_nontrivial": report["distinct"],
        "rule": rule,
        "samples": report["samples"][:24],
        "events_observed": report["events"],
        "units": len(report["units"]),
        "units_not_reached": [u[0] for u in report["units"] if u[1] == 0],
        "cases_planned": sum(u[2] for u in report["units"]),
    }
    cov.update(extra_cov or {})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": assumptions, "violations": len(new), "wall_s": round(time.time() - t0, 2),
          "known_findings_seen": [f["sig"] for f in old]}
    for f in old:
        log("KNOWN-FINDING: property=%s %s (%s)" % (prop, kn[f["sig"]], f["sig"]))
    for n, f in enumerate(new[:20]):
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        r = dict(f)
        r.update({"property": prop, "seed": f.get("seed", seed),
                  "how": "python3 tools/check.py --replay " + path})
        json.dump(r, open(path, "w"), indent=1)
        log("VIOLATION property=%s replay=%s" % (prop, path))
        log("  %s [%s case %s, %s cases]: %s" % (f["sig"], f["unit"], f["index"], f["count"], f["detail"][:600]))
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    if new:
        return 1
    if report["evals"] < min_evals or not report["samples"] or cov["units_not_reached"]:
        log("NO VERDICT: the workload observed too little (%d cases, %d units not reached)" % (report["evals"], len(cov["units_not_reached"])))
        return 2
    log("HELD property=%s tier=%s seed=%d: %d cases, %d distinct observations, %d units, %.1f s"
        % (prop, tier, seed, report["evals"], report["distinct"], len(report["units"]), time.time() - t0))
    return 0


RULE = ("Each unit (property x message type x representation, or message family / iterator / conversion) generates its cases from "
        "(seed, unit, index). A case is counted distinct and non-trivial by a hash of what was observed in it "
        "(the input that reached the oracle and the outcome compared), so repeated observations and inputs that never "
        "reached an oracle do not count.")
TRUST = ["the reference model in harness/src/tables.rs (wire formats of the 74 message types), written from the MIDI 2.0 specification and the crate's documentation",
         "the generated workload is a sample: inputs that no case produced are not covered"]

# quick multiplier, thorough time limit (s)
PLAN = {
    "P01": (60, 480), "P02": (14, 480), "P03": (30, 480), "P04": (40, 480), "P05": (30, 480), "P06": (30, 480),
    "P07": (12, 480), "P08": (16, 480), "P09": (14, 480), "P10": (14, 480), "P11": (8, 480), "P12": (8, 480),
    "P13": (5, 480), "P14": (12, 480), "P15": (3, 480), "P16": (12, 480), "P18": (20, 480), "P20": (10, 480),
}


def plain_check(prop, tier, seed, tmp):
    t0 = time.time()
    b = build()
    mul, secs = PLAN[prop]
    if tier == "thorough":
        extra = ["--thorough", "--max-secs", str(secs)]
    else:
        extra = ["--num", str(mul), "--max-secs", "420"]
    r = run_monitor(b, seed, prop, tmp, extra)
    return conclude(prop, tier, seed, t0, r, RULE, TRUST, {"build": "unoptimised, debug assertions and overflow checks on"}, min_evals=1000)


def add_report(tot, r, label):
    tot["evals"] += r["evals"]
    tot["distinct"] += r["distinct"]
    for k, v in r["events"].items():
        k = label + ": " + k
        tot["events"][k] = tot["events"].get(k, 0) + v
    tot["units"] += [[label + ": " + u[0]] + u[1:] for u in r["units"]]
    tot["samples"] += [label + ": " + s for s in r["samples"][:3]]


def empty():
    return {"evals": 0, "distinct": 0, "events": {}, "units": [], "samples": [], "failures": []}


def argv(b):
    """A monitor is a binary, or a command with its environment."""
    return (b[0], b[1]) if isinstance(b, tuple) else ([b], None)


def first_difference(b1, b2, unit, n, seed, more=()):
    """First case of a unit whose outcome differs between two builds."""
    def lines(b):
        cmd, env = argv(b)
        p = subprocess.run(cmd + ["digests", "--unit", unit, "--from", "0", "--to", str(n), "--seed", str(seed)] + list(more),
                           stdout=subprocess.PIPE, text=True, timeout=300, env=env, cwd=HARNESS)
        return p.stdout.splitlines()
    for a, b in zip(lines(b1), lines(b2)):
        if a != b:
            return int(a.split()[0])
    return None


def show_case(binary, unit, index, seed, more=()):
    cmd, env = argv(binary)
    p = subprocess.run(cmd + ["case", "--unit", unit, "--index", str(index), "--seed", str(seed)] + list(more),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=200, env=env, cwd=HARNESS)
    return p.stdout[:1500]


def compare(prop, what, ref, rr, other, ro, seed, more=()):
    """Failures for units whose digests differ between two builds over the same cases."""
    fails = []
    theirs = {u[0]: u for u in ro["units"]}
    for u in rr["units"]:
        v = theirs.get(u[0])
        if v is None or u[1] != v[1] or u[3] == v[3]:
            continue
        i = first_difference(ref, other, u[0], u[1], seed, more)
        if i is None:
            raise NoVerdict("digests of %s differ but no case does" % u[0])
        fails.append({"sig": "%s/%s:%s" % (prop, u[0], what), "unit": u[0], "index": i, "count": 1, "seed": seed,
                      "detail": "outcome differs:\n reference build: %s\n %s: %s"
                      % (show_case(ref, u[0], i, seed, more), what, show_case(other, u[0], i, seed, more))})
        if len(fails) >= 8:
            break
    return fails


BEHAVIOUR = ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P18", "P20"]


def aborts(prop, label, r):
    return [dict(f, sig="%s/%s: %s" % (prop, label, f["sig"])) for f in r["failures"]
            if f["sig"].endswith(":abnormal end") or f["sig"].endswith(":hang")]


def p17(prop, tier, seed, tmp):
    t0 = time.time()
    thorough = tier == "thorough"
    props = ",".join(BEHAVIOUR)
    num, den = (10, 1) if thorough else (1, 2)
    scale = ["--num", str(num), "--den", str(den)]
    nt = nightly()
    cov = {"configurations": ["unoptimised with checks", "optimised without checks"]}
    with cf.ThreadPoolExecutor(4) as ex:
        fm = ex.submit(build, "monitor", None, "t")
        fp = ex.submit(build, "plain", None, "p")
        fa = ex.submit(build, "monitor", None, "asan", True) if nt else None
        ref, plain = fm.result(), fp.result()
        asan = fa.result() if fa else None
    tot = empty()
    marks = {"built": time.time()}
    rr = run_monitor(ref, seed, props, tmp, scale)
    marks["checked"] = time.time()
    tot["failures"] += aborts(prop, "checked build", rr)
    rp = run_monitor(plain, seed, props, tmp, scale)
    tot["failures"] += aborts(prop, "unchecked build", rp)
    if not tot["failures"]:
        tot["failures"] += compare(prop, "unchecked build", ref, rr, plain, rp, seed)
    add_report(tot, rr, "checked")
    add_report(tot, rp, "unchecked")
    marks["unchecked"] = time.time()
    if asan:
        cov["configurations"].append("address sanitizer (nightly)")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=1:halt_on_error=1:allocator_may_return_null=0")
        ra = run_monitor(asan, seed, props, tmp, scale, mem=None, env=env)
        tot["failures"] += aborts(prop, "address sanitizer", ra)
        if not tot["failures"]:
            tot["failures"] += compare(prop, "address sanitizer", ref, rr, asan, ra, seed)
        add_report(tot, ra, "asan")
    marks["asan"] = time.time()
    if nt:
        m = miri(prop, seed, 300 if thorough else 40, tot)
        if m:
            cov["configurations"].append("Miri")
            cov["miri"] = m
        else:
            cov["configurations"].append("Miri not available here")
    cov["phases_s"] = {k: round(v - t0, 1) for k, v in marks.items()}
    cov["digest comparison"] = "one digest per unit over everything observed in its cases, compared between builds"
    return conclude(prop, tier, seed, t0, tot, RULE, TRUST + ["Miri and the address sanitizer see only the cases run under them"], cov, min_evals=1000)


def miri(prop, seed, secs, tot):
    nt = nightly()
    env = env_for(nt, {"MIRIFLAGS": "-Zmiri-disable-isolation"})
    tgt = os.path.join(BUILD, "miri")
    try:
        p = subprocess.run(["cargo", "miri", "setup", "--quiet"], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    except (OSError, subprocess.TimeoutExpired):
        return None
    if p.returncode != 0:
        return None
    base = ["cargo", "miri", "run", "--target-dir", tgt, "--offline", "--quiet", "--"]
    # build once, and probe
    p = subprocess.run(base + ["list", "--prop", "none"], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=500)
    if p.returncode != 0:
        raise NoVerdict("the monitor does not run under Miri:\n" + p.stdout[-2000:])
    groups = ["P01,P03", "P07", "P08", "P09,P11", "P10,P04", "P13", "P14", "P15,P12"]

    def go(g):
        d = tempfile.mkdtemp()
        out = os.path.join(d, "r.json")
        try:
            p = subprocess.run(base + ["run", "--prop", g, "--seed", str(seed), "--num", "1", "--den", "5000", "--threads", "1",
                                       "--max-secs", str(secs), "--stuck-secs", "100000", "--marks", d, "--rotate", str(seed * 7), "--out", out], cwd=HARNESS, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=secs + 240)
            rc, text = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, text = None, ""
        r = json.load(open(out)) if rc == 0 and os.path.exists(out) else None
        mark = open(os.path.join(d, "0")).read() if os.path.exists(os.path.join(d, "0")) else ""
        shutil.rmtree(d)
        return g, rc, text, r, mark
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, groups))
    n, units = 0, 0
    for g, rc, text, r, mark in res:
        if r is not None:
            n += r["evals"]
            units += sum(1 for u in r["units"] if u[1])
            r["units"] = [u for u in r["units"] if u[1]]
            add_report(tot, r, "miri")
        elif rc is not None and "Undefined Behavior" in text:
            unit, lo, _ = (mark.split() + ["?", "0", "0"])[:3]
            i = text.find("error: Undefined Behavior")
            tot["failures"].append({"sig": "%s/Miri: %s:undefined behaviour" % (prop, unit), "unit": unit, "index": int(lo), "count": 1, "detail": text[max(i, 0):][:2500]})
    if n == 0 and not tot["failures"]:
        return None
    return {"cases": n, "units": units}


# ---------------------------------------------------------------- feature combinations
NOSTD_ALL = [f for f in ALL if f != "std"]


def feature_sets(tier):
    """Feature sets the monitor itself is built with, and the share of the workload each runs."""
    fam = [f for f in ALL if f != "std"]
    out = [(NOSTD_ALL, 1.0)]
    # a family on its own (with and without std), and everything but that family
    for k, f in enumerate(fam):
        out.append(([f] if k % 2 == 0 else [f, "std"], 1.0))
    for f in fam:
        if f != "ci":
            out.append(([x for x in ALL if x not in (f, "ci" if f == "sysex7" else f)], 0.25))
    if tier == "thorough":
        for k, f in enumerate(fam):
            out.append(([f, "std"] if k % 2 == 0 else [f], 1.0))
        for i, a in enumerate(fam):
            for j, b in enumerate(fam[i + 1:]):
                if {a, b} != {"ci", "sysex7"}:
                    out.append(([a, b] + (["std"] if (i + j) % 2 else []), 0.25))
        out.append((["channel-voice1", "sysex7", "system-common"], 1.0))
    return out


def check_sets(tier):
    fam = [f for f in ALL if f != "std"]
    sets = [[], ["std"]] + [[f] for f in fam] + [ALL, NOSTD_ALL, None]
    if tier == "thorough":
        sets += [[f, "std"] for f in fam]
        sets += [[a, b] for i, a in enumerate(fam) for b in fam[i + 1:]]
        sets += [[f for f in fam if f != x] for x in fam] + [[f for f in ALL if f != x] for x in fam]
    return sets


def name(s):
    return "default" if s is None else "+".join(s) if s else "none"


def p19(prop, tier, seed, tmp):
    t0 = time.time()
    tot = empty()
    cov = {}
    env = env_for(stable())
    repo = os.path.join(os.environ.get("REPO", "/repo"), "midi2")
    # 1. every combination builds
    built = []

    def chk(k):
        lane, sets = k
        res = []
        for s in sets:
            args = ["check", "--lib", "--offline", "--quiet", "--target-dir", os.path.join(BUILD, "chk%d" % lane)]
            if s is not None:
                args += ["--no-default-features", "--features", ",".join(s)]
            res.append((s,) + cargo(args, env, cwd=repo))
        return res
    sets = check_sets(tier)
    lanes = [(k, sets[k::4]) for k in range(4)]
    fs = feature_sets(tier)
    share = {name(x): w for x, w in fs}
    fs = [x for x, _ in fs]
    with cf.ThreadPoolExecutor(8) as ex:
        fref = ex.submit(build, "monitor", None, "t")
        fchk = [ex.submit(chk, l) for l in lanes]
        lanes2 = [(k, fs[k::5]) for k in range(5)]

        def bl(k):
            lane, ss = k
            r = []
            for s in ss:
                try:
                    b = build("monitor", s, "f%d" % lane)
                    dst = os.path.join(BUILD, "mon-" + hashlib.sha1(name(s).encode()).hexdigest()[:10])
                    shutil.copy2(b, dst)
                    r.append((s, dst, None))
                except NoVerdict as e:
                    r.append((s, None, str(e)))
            return r
        fb = [ex.submit(bl, l) for l in lanes2]
        ref = fref.result()
        for f in fchk:
            for s, rc, out in f.result():
                if rc != 0:
                    tot["failures"].append({"sig": "%s/build %s:does not build" % (prop, name(s)), "unit": "cargo check", "index": 0, "count": 1,
                                            "detail": "features [%s]: %s" % (name(s), out[-1500:])})
                else:
                    built.append(name(s))
        mons = [x for f in fb for x in f.result()]
    cov["combinations built"] = built
    # 2. the enabled types behave as with all features
    props = ",".join(p for p in BEHAVIOUR if p not in ("P16",))
    num, den = (6, 1) if tier == "thorough" else (1, 2)
    scale = ["--num", str(num), "--den", str(den)]
    rr = run_monitor(ref, seed, props, tmp, scale)
    tot["failures"] += aborts(prop, "all features", rr)
    base = {u[0] for u in rr["units"]}
    baseline = {f["sig"] for f in rr["failures"]}
    compared = {}
    runs = {}
    for s, b, err in mons:
        if b is None:
            if not any("does not build" in f["sig"] for f in tot["failures"]):
                raise NoVerdict("features [%s]: %s" % (name(s), err))
            continue
        part = ["--num", str(int(num * 100 * share[name(s)])), "--den", str(den * 100)]
        r = run_monitor(b, seed, props, tmp, part)
        dead = aborts(prop, name(s), r)
        tot["failures"] += dead
        # every unit judges itself, also those that depend on the enabled families (dispatch of the general message)
        tot["failures"] += [dict(f, sig="%s/%s: %s" % (prop, name(s), f["sig"]), detail="with features [%s]: %s" % (name(s), f["detail"]))
                            for f in r["failures"] if f["sig"] not in baseline]
        runs[name(s)] = (s, b, r, dead)
        add_report(tot, r, name(s))
    # digests: combinations with std against all features, the others against all but std, and those two with each other
    nostd = runs.get(name(NOSTD_ALL))
    refs = {(True, 1.0): (ref, rr)}
    if nostd:
        refs[False, 1.0] = (nostd[1], nostd[2])

    def reference(std, w):
        if (std, w) not in refs:
            b = refs[std, 1.0][0]
            refs[std, w] = (b, run_monitor(b, seed, props, tmp, ["--num", str(int(num * 100 * w)), "--den", str(den * 100)]))
        return refs[std, w]
    for n, (s, b, r, dead) in runs.items():
        if dead or tot["failures"]:
            continue
        rb, rep = reference("std" in s or s == NOSTD_ALL, share[n])
        skip = (lambda u: text_checked_only_with_std(u)) if s == NOSTD_ALL else (lambda u: False)
        ro = dict(r, units=[u for u in r["units"] if not depends_on_features(u[0]) and not skip(u[0])])
        tot["failures"] += compare(prop, "features " + n, rb, rep, b, ro, seed)
        compared[n] = sum(1 for u in ro["units"] if u[0] in base)
    cov["units compared with the all-features build"] = compared
    cov["note"] = "arbitrary octets as text are compared only between builds that agree on std (UTF-8 is only checked with std)"
    return conclude(prop, tier, seed, t0, tot, RULE, TRUST, cov, min_evals=1000)


OWN = ("P01/aggregate", "P06/general", "P11/families", "P11/trailing", "P11/sources", "P12/words", "P13/single-packet", "P13/packet-payload",
       "P15/trailing")


def depends_on_features(unit):
    """Units that draw on all enabled families: they judge themselves, but their cases differ between builds."""
    return unit.startswith(OWN)


def text_checked_only_with_std(unit):
    """Units fed with arbitrary octets as text: without std the library does not decode them."""
    p, rest = unit.split("/", 1)
    return p in ("P01", "P02", "P06", "P11", "P12", "P13", "P14") and rest.startswith(("FlexData.", "UmpStream."))


# ---------------------------------------------------------------- other targets
WASM = "wasm32-unknown-unknown"
WASM_FLAGS = ["-Cpanic=unwind", "-Cllvm-args=-wasm-enable-eh", "-Ctarget-feature=+exception-handling"]
WASM_API = ["input", "output", "ask", "start", "doing", "step", "report", "word"]


def build_wasm():
    """The monitor as a 32-bit WebAssembly module, with a standard library built from the toolchain's sources."""
    nt = nightly()
    if not nt or not shutil.which("node"):
        raise NoVerdict("no nightly toolchain or no node: the 32-bit target cannot be built or run")
    root = subprocess.run(["rustc", "--print", "sysroot"], env=env_for(nt), stdout=subprocess.PIPE, text=True).stdout.strip()
    vendor = os.path.join(root, "lib/rustlib/src/rust/library/vendor")
    top = os.path.join(BUILD, "wasm")
    lib = os.path.join(top, "sysroot/lib/rustlib", WASM, "lib")
    if not os.path.exists(os.path.join(top, "ready")):
        crate = os.path.join(top, "std")
        os.makedirs(os.path.join(crate, "src"), exist_ok=True)
        open(os.path.join(crate, "Cargo.toml"), "w").write('[package]\nname="empty"\nversion="0.1.0"\nedition="2021"\n[workspace]\n[profile.release]\npanic="unwind"\n')
        open(os.path.join(crate, "src/lib.rs"), "w").write("")
        rc, out = cargo(["build", "--release", "-Zbuild-std=std,panic_unwind", "--target", WASM, "--offline", "--quiet",
                         "--target-dir", os.path.join(top, "s"),
                         "--config", 'source.crates-io.replace-with="vendored"', "--config", 'source.vendored.directory="%s"' % vendor],
                        env_for(nt, {"RUSTFLAGS": " ".join(WASM_FLAGS)}), cwd=crate)
        if rc != 0:
            raise NoVerdict("no standard library for %s:\n%s" % (WASM, out[-2000:]))
        os.makedirs(lib, exist_ok=True)
        for d, _, fs in os.walk(os.path.join(top, "s", WASM, "release")):
            for f in fs:
                if f.startswith("lib") and not f.startswith("libempty") and f.endswith((".rlib", ".rmeta")):
                    shutil.copy2(os.path.join(d, f), lib)
        open(os.path.join(top, "ready"), "w").close()
    flags = ["--sysroot", os.path.join(top, "sysroot")] + WASM_FLAGS + ["-Clink-arg=-zstack-size=8388608"] + ["-Clink-arg=--export=" + f for f in WASM_API]
    rc, out = cargo(["build", "--profile", "monitor", "--target", WASM, "--offline", "--quiet", "--target-dir", os.path.join(top, "t")],
                    env_for(nt, {"RUSTFLAGS": " ".join(flags), "CARGO_PROFILE_MONITOR_OPT_LEVEL": "1"}))
    if rc != 0:
        if "could not compile `midi2" in out:
            return None, out[-2500:]
        raise NoVerdict("the monitor does not build for %s:\n%s" % (WASM, out[-4000:]))
    return ["node", "--stack-size=4000", os.path.join(VERIF, "tools/wasm.mjs"), os.path.join(top, "t", WASM, "monitor/monitor.wasm")], None


def run_lanes(cmd, env, seed, groups, extra, timeout):
    """The units shared among single-threaded processes: [(exit status or None, output, report, mark)]."""
    def go(k):
        props, lane, lanes = groups[k]
        d = tempfile.mkdtemp()
        out = os.path.join(d, "r.json")
        try:
            p = subprocess.run(cmd + ["run", "--prop", props, "--seed", str(seed), "--lane", str(lane), "--lanes", str(lanes), "--marks", d, "--out", out] + extra,
                               cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
            rc, text = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, text = None, ""
        r = json.load(open(out)) if rc == 0 and os.path.exists(out) else None
        marks = [f for f in os.listdir(d) if f.isdigit()]
        mark = open(os.path.join(d, marks[0])).read() if marks else ""
        shutil.rmtree(d)
        return rc, text, r, mark
    with cf.ThreadPoolExecutor(len(groups)) as ex:
        return list(ex.map(go, range(len(groups))))


def merged(rs):
    t = {"evals": 0, "distinct": 0, "events": {}, "units": [], "samples": [], "failures": []}
    for r in rs:
        t["evals"] += r["evals"]
        t["distinct"] += r["distinct"]
        for k, v in r["events"].items():
            t["events"][k] = t["events"].get(k, 0) + v
        for k in ("units", "samples", "failures"):
            t[k] += r[k]
    return t


def p21(prop, tier, seed, tmp):
    t0 = time.time()
    thorough = tier == "thorough"
    props = ",".join(BEHAVIOUR)
    tot = empty()
    cov = {"targets": []}
    with cf.ThreadPoolExecutor(4) as ex:
        fref = ex.submit(build)
        fwasm = ex.submit(build_wasm)
        fmiri = ex.submit(foreign_miri, prop, seed, ["powerpc-unknown-linux-gnu"] + (["s390x-unknown-linux-gnu"] if thorough else []),
                          400 if thorough else 100, props, fref.result)
        ref = fref.result()
        wasm, err = fwasm.result()
        marks = {"built": time.time()}
        if wasm is None:
            tot["failures"].append({"sig": "%s/%s:does not build" % (prop, WASM), "unit": "cargo build", "index": 0, "count": 1, "detail": err})
        else:
            wasm_run(prop, seed, wasm, ref, props, 30 if thorough else 1, tot, cov, tmp)
        marks["32-bit"] = time.time()
        for t in fmiri.result():
            tot["failures"] += t.pop("failures")
            rep = t.pop("report", None)
            if rep:
                add_report(tot, rep, t["target"])
            cov["targets"].append(t)
        marks["big-endian"] = time.time()
    cov["phases_s"] = {k: round(v - t0, 1) for k, v in marks.items()}
    cov["digest comparison"] = "one digest per unit over everything observed in its cases, compared between the target and the host"
    return conclude(prop, tier, seed, t0, tot, RULE, TRUST + ["Miri and node execute the foreign targets faithfully"], cov, min_evals=1000)


def wasm_run(prop, seed, wasm, ref, props, num, tot, cov, tmp):
    what = "32-bit (%s)" % WASM
    scale = ["--num", str(num), "--max-secs", "200" if num < 20 else "500"]
    res = run_lanes(wasm, None, seed, [(props, k, 8) for k in range(8)], scale + ["--rotate", str(seed * 7)], 700)
    reps = []
    for rc, text, r, mark in res:
        if r is not None:
            reps.append(r)
            continue
        # the process ended in the middle of a chunk, or is stuck in one
        f = mark.split()
        if len(f) != 3:
            raise NoVerdict("the WebAssembly monitor died (%s):\n%s" % (rc, text[-2000:]))
        unit, lo, hi = f[0], int(f[1]), int(f[2])
        for i in range(lo, hi):
            try:
                q = subprocess.run(wasm + ["case", "--unit", unit, "--index", str(i), "--seed", str(seed)], cwd=HARNESS,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
                bad = None if q.returncode == 0 else "abnormal end"
                o = q.stdout
            except subprocess.TimeoutExpired:
                bad, o = "hang", ""
            if bad:
                tot["failures"].append({"sig": "%s/%s: %s:%s" % (prop, what, unit, bad), "unit": unit, "index": i, "count": 1, "seed": seed, "detail": o[:2000]})
                break
        else:
            raise NoVerdict("the WebAssembly monitor died (%s) and no case reproduces it:\n%s" % (rc, text[-2000:]))
    if not reps:
        return
    if any(r["word"] != 4 for r in reps):
        raise NoVerdict("the WebAssembly module is not 32-bit")
    m = merged(reps)
    add_report(tot, m, what)
    counts = os.path.join(tmp, "counts")
    open(counts, "w").write("".join("%s %d\n" % (u[0], u[1]) for u in m["units"]))
    rr = run_monitor(ref, seed, props, tmp, ["--counts", counts])
    tot["failures"] += aborts(prop, "64-bit", rr)
    baseline = {f["sig"] for f in rr["failures"]}
    tot["failures"] += [dict(f, sig="%s/%s: %s" % (prop, what, f["sig"]), seed=seed) for f in m["failures"] if f["sig"] not in baseline]
    if not tot["failures"]:
        tot["failures"] += compare(prop, what, ref, rr, (wasm, None), m, seed)
    cov["targets"].append({"target": what, "cases": m["evals"], "units compared": sum(1 for u in m["units"] if u[1])})


# half of the processes for the fields of messages, where bytes and words are taken apart
FOREIGN_GROUPS = [("P03", 0, 2), ("P03", 1, 2), ("P04", 0, 2), ("P04", 1, 2), ("P07,P10", 0, 1), ("P13,P14", 0, 1), ("P08,P15,P16,P20", 0, 1),
                  ("P01,P02,P05,P06,P09,P11,P12,P18", 0, 1)]


def foreign_miri(prop, seed, targets, secs, props, reference):
    """Samples of every unit interpreted for a foreign target, judged there and compared with the host."""
    out = []
    nt = nightly()
    for t in targets:
        res = {"target": t, "failures": []}
        out.append(res)
        env = env_for(nt, {"MIRIFLAGS": "-Zmiri-disable-isolation"})
        try:
            p = subprocess.run(["cargo", "miri", "setup", "--quiet", "--target", t], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
        except (OSError, subprocess.TimeoutExpired):
            p = None
        if p is None or p.returncode != 0:
            res["cases"] = "not available here"
            continue
        base = ["cargo", "miri", "run", "--target", t, "--target-dir", os.path.join(BUILD, "miri-" + t.split("-")[0]), "--offline", "--quiet", "--"]
        p = subprocess.run(base + ["list", "--prop", "none"], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode != 0:
            if "could not compile `midi2" in p.stdout:
                res["failures"].append({"sig": "%s/%s:does not build" % (prop, t), "unit": "cargo build", "index": 0, "count": 1, "detail": p.stdout[-2500:]})
                continue
            raise NoVerdict("the monitor does not run under Miri for %s:\n%s" % (t, p.stdout[-2000:]))
        small = ["--small"]
        # (the interpreter is slow to set up units: each process takes a few properties)
        rs = run_lanes(base, env, seed, FOREIGN_GROUPS, small + ["--per", "60" if secs > 200 else "10", "--chunk", "1", "--threads", "1", "--max-secs", str(secs), "--stuck-secs", "100000",
                                                       "--rotate", str(seed * 7)], secs + 240)
        ref = reference()
        reps = []
        for rc, text, r, mark in rs:
            if r is not None:
                reps.append(r)
            elif rc is not None and "Undefined Behavior" in text:
                unit, lo, _ = (mark.split() + ["?", "0", "0"])[:3]
                i = max(text.find("error: Undefined Behavior"), 0)
                res["failures"].append({"sig": "%s/%s: %s:undefined behaviour" % (prop, t, unit), "unit": unit, "index": int(lo), "count": 1, "detail": text[i:][:2500]})
        if not reps:
            res["cases"] = 0
            continue
        m = merged(reps)
        m["units"] = [u for u in m["units"] if u[1]]
        tmp = tempfile.mkdtemp()
        try:
            counts = os.path.join(tmp, "counts")
            open(counts, "w").write("".join("%s %d\n" % (u[0], u[1]) for u in m["units"]))
            rr = run_monitor(ref, seed, props, tmp, small + ["--counts", counts])
        finally:
            shutil.rmtree(tmp)
        baseline = {f["sig"] for f in rr["failures"]}
        res["failures"] += [dict(f, sig="%s/%s: %s" % (prop, t, f["sig"]), seed=seed) for f in m["failures"] if f["sig"] not in baseline]
        if not res["failures"]:
            res["failures"] += compare(prop, t, ref, rr, (base, env), m, seed, small)[:3]
        res["cases"] = m["evals"]
        res["units compared"] = len(m["units"])
        res["report"] = m
    return out


# ---------------------------------------------------------------- main
def replay(path):
    r = json.load(open(path))
    b = build()
    p = subprocess.run([b, "case", "--unit", r["unit"], "--index", str(r["index"]), "--seed", str(r["seed"])])
    return p.returncode


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        try:
            b = build()
        except NoVerdict as e:
            log(e)
            return 2
        log("built", b)
        return 0
    if a[:1] == ["--replay"]:
        return replay(a[1])
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tmp = tempfile.mkdtemp(prefix="monitor-")
    try:
        if prop == "P17":
            return p17(prop, tier, seed, tmp)
        if prop == "P19":
            return p19(prop, tier, seed, tmp)
        if prop == "P21":
            return p21(prop, tier, seed, tmp)
        return plain_check(prop, tier, seed, tmp)
    except NoVerdict as e:
        log("NO VERDICT:", e)
        return 2
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    sys.exit(main())
