#!/usr/bin/env python3
"""Run the check of one property: build what it needs from /repo's working tree, explore, report.

usage: run.py <property> [quick|thorough]
exit 0: the property held on everything explored (evidence/<property>.json says what that was)
exit 1: a line VIOLATION property=<id> replay=<path> for it
exit 2: the check itself failed (build error, harness error, nothing explored)
"""
import atexit, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from jobs import JOBS, CONFIGS, NOTES, ASSUMPTIONS

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target")
ENV = dict(os.environ)
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
ENV["CARGO_NET_OFFLINE"] = "true"
ENV.setdefault("HOME", "/root")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "MIRIFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build(cfg, pkg, bins, log):
    """Build the bins of a package in a configuration; returns {bin: path}."""
    c = CONFIGS[cfg]
    d = os.path.join(HERE, "mc" if pkg == "mc" else pkg)
    tdir = os.path.join(TARGET, pkg.replace("/", "-") + "-" + cfg)
    cmd = ["cargo"]
    if c.get("toolchain"):
        cmd.append("+" + c["toolchain"])
    cmd += ["build", "--offline", "--locked", "-q", "--keep-going", "--profile", c["profile"]]
    feats = c.get("features", {})
    f = feats.get(pkg, feats.get("*", []))
    if c.get("no_default"):
        cmd.append("--no-default-features")
    if f:
        cmd += ["--features", ",".join(f)]
    for b in bins:
        cmd += ["--bin", b]
    env = dict(ENV, CARGO_TARGET_DIR=tdir)
    env.update(c.get("build_env", {}))
    cmd += c.get("extra", [])
    sub = {"dev": "debug"}.get(c["profile"], c["profile"])
    if c.get("target"):
        sub = os.path.join(c["target"], sub)
    paths = {b: os.path.join(tdir, sub, b) for b in bins}
    t0 = time.time()
    p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        # which of them cannot be built? the others still have something to say
        ok, out = {}, p.stdout
        for b in bins:
            one = [x for i, x in enumerate(cmd) if x != "--bin" and cmd[i - 1] != "--bin"] + ["--bin", b]
            if subprocess.run(one, cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
                ok[b] = paths[b]
        return ok, out
    log.append("built %s/%s %s in %.1fs" % (pkg, cfg, ",".join(bins), time.time() - t0))
    return paths, None


LIVE = []


def stop_all():
    for p in list(LIVE):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass


atexit.register(stop_all)


def run_job(path, job, timeout):
    """Run a job; several processes of an interpreted one share its units of work."""
    env = dict(ENV)
    env.update(job.get("env", {}))
    env.setdefault("VERIF_SEED", "1")
    n = 1
    if job.get("cmd") == "miri":
        env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "miri-" + job["pkg"])
        env["MIRIFLAGS"] = job.get("miriflags", "-Zmiri-disable-isolation -Zmiri-strict-provenance -Zmiri-symbolic-alignment-check")
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q"] + job.get("cargo", []) + ["--bin", job["bin"], "--"] + job["args"]
        cwd = os.path.join(HERE, job["pkg"])
        n = job.get("procs", 1)
    else:
        cmd = [path] + job["args"]
        cwd = HERE
    queue = None
    if n > 1:
        os.makedirs(TARGET, exist_ok=True)
        queue = tempfile.mkdtemp(prefix="queue", dir=TARGET)
        env["MC_QUEUE"] = queue
    ps = []

    def kill():
        for p in ps:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass

    outs = [None] * n

    def talk(i):
        outs[i] = ps[i].communicate()
        if ps[i].returncode not in (0,):
            # one process has found something: the others need not go on
            kill()

    for i in range(n):
        ps.append(subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True))
        LIVE.append(ps[i])
    timer = threading.Timer(timeout, kill)
    timer.start()
    ths = [threading.Thread(target=talk, args=(i,)) for i in range(n)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    timer.cancel()
    [LIVE.remove(p) for p in ps]
    if queue:
        shutil.rmtree(queue)
    got = [(p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")) for p, (o, e) in zip(ps, outs)]
    return got if job.get("cmd") == "miri" else got[0]


def merge(rs):
    """One result out of those of several processes."""
    m = rs[0]
    for r in rs[1:]:
        m["states"] += r["states"]
        m["transitions"] += r["transitions"]
        for k, c in r["ops"].items():
            a = m["ops"].setdefault(k, [0] * 5)
            for i in range(5):
                a[i] += c[i]
        for k, v in r["notes"].items():
            m["notes"][k] = m["notes"].get(k, 0) + v
        m["samples"] += r["samples"]
        m["violations"] += r["violations"]
        m["violation_count"] = m.get("violation_count", 0) + r.get("violation_count", 0)
    return m


def parse(out):
    res = None
    for line in out.splitlines():
        if line.startswith("@@RESULT "):
            try:
                res = json.loads(line[9:])
            except ValueError:
                pass
    return res


PRELUDE = """#![allow(unused)]
use arraystring::prelude::*;
use arraystring::Error;
use std::fmt::Write;
fn main() {
%s
%s}
"""


def write_replay(prop, n, v, job, cfg):
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, n))
    code = v.get("code", "")
    body = "\n".join("    " + l for l in code.splitlines())
    tail = ""
    if "let r = " in code:
        tail += "    println!(\"result {:?}\", r);\n"
    if "let mut s = " in code:
        tail += "    println!(\"content {:?}\", s.as_str());\n"
    rec = {
        "property": prop,
        "violation": v.get("class"),
        "what": v.get("what"),
        "code": code,
        "program": PRELUDE % (body, tail),
        "configuration": cfg,
        "found_by": " ".join([job["bin"]] + job["args"]),
        "rerun": "python3 /verif/run.py %s %s" % (prop, TIER),
        "replay": "python3 /verif/replay.py %s" % path,
    }
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, ensure_ascii=False)
    return path


def load_known():
    known = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.strip()
            m = re.match(r"known: property=(\S+) match=(.*)$", l)
            if m:
                known.append((m.group(1), m.group(2)))
    return known


def is_known(v):
    return [m for p, m in load_known() if p == PROP and m in (v.get("class", "") + " | " + v.get("code", ""))]


def all_known(violations):
    return all(is_known(v) for v, _ in violations)


def trim(s, n=700):
    return s if len(s) <= n else s[: n - 20] + " ...(%d chars)" % len(s)


def main():
    t0 = time.time()
    spec = JOBS[PROP]
    jobs = spec[TIER] if TIER in spec else spec["quick"]
    log = []
    # build everything needed, configurations in parallel
    want = {}
    for j in jobs:
        if j.get("cmd") == "miri":
            continue
        want.setdefault((j["cfg"], j["pkg"]), set()).add(j["bin"])
    built, errs = {}, []

    def work(k, bins):
        r, e = build(k[0], k[1], sorted(bins), log)
        built[k] = r
        if e:
            errs.append((k, e))

    # interpreted runs go on in the background from the start
    outcome = {}
    budget = 820 if TIER == "quick" else 6 * 3600
    left = lambda: max(30, budget - (time.time() - t0))
    back = [n for n, j in enumerate(jobs) if j.get("cmd") == "miri"]

    def interpret():
        for n in back:
            tj = time.time()
            outcome[n] = run_job(None, jobs[n], left())
            log.append("interpreted %s in %.1fs" % (" ".join([jobs[n]["bin"]] + jobs[n]["args"][1:]), time.time() - tj))
            if any(rc not in (0,) for rc, _, _ in outcome[n]):
                break

    ths = [threading.Thread(target=work, args=(k, b)) for k, b in want.items()]
    [t.start() for t in ths]
    interp = threading.Thread(target=interpret, daemon=True)
    interp.start()
    [t.join() for t in ths]
    tb = time.time()
    results = []
    violations = []
    broken = []
    for k, e in errs:
        broken.append("build of %s in configuration %s failed:\n%s" % (k[1], k[0], e[-6000:]))
    for n in [n for n in range(len(jobs)) if n not in back] + back:
        j = jobs[n]
        if n in back:
            interp.join()
            if n not in outcome:
                continue
            rc, out, err, res = miri_result(outcome[n])
        else:
            path = built[(j["cfg"], j["pkg"])].get(j["bin"])
            if path is None:
                continue
            tj = time.time()
            rc, out, err = run_job(path, j, left())
            res = parse(out)
            log.append("ran %s/%s %s in %.1fs" % (j["pkg"], j["cfg"], " ".join([j["bin"]] + j["args"][1:]), time.time() - tj))
        for l in err.splitlines():
            if re.match(r"C\d\d ", l):
                log.append("[%s] %s" % (j["cfg"], trim(l, 400)))
        if rc in (1, 77) and res is not None and res.get("violations"):
            for v in res["violations"]:
                violations.append((v, j))
            results.append((j, res))
            if spec.get("stop_first", True) and not all_known(violations):
                break
            continue
        if rc != 0 or res is None:
            broken.append("%s (%s) ended with %s and no verdict\n%s\n%s" % (j["bin"], j["cfg"], rc, out[-3000:], err[-3000:]))
        elif res["transitions"] == 0:
            broken.append("%s (%s) explored nothing" % (j["bin"], j["cfg"]))
        elif res.get("notes", {}).get("replay_divergence"):
            broken.append("replaying recorded histories diverged: %d" % res["notes"]["replay_divergence"])
        else:
            results.append((j, res))
    if broken and (not violations or all_known(violations)):
        print("\n".join(broken))
        die("no verdict")

    # comparisons between configurations
    if spec.get("compare") and not violations:
        violations += compare_digests(results)

    fresh = []
    for v, j in violations:
        hit = is_known(v)
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (PROP, hit[0]))
        else:
            fresh.append((v, j))

    # nothing vacuous: every operation named must have been seen succeeding / failing
    if not violations:
        agg = {}
        for _, r in results:
            for k, c in r.get("ops", {}).items():
                a = agg.setdefault(k, [0] * 5)
                for i in range(5):
                    a[i] += c[i]
        for name, cls in spec.get("expect", []):
            if agg.get(name, [0] * 5)[cls] == 0:
                die("vacuous: outcome %d of %s was never observed" % (cls, name))

    write_evidence(results, fresh, spec, log, time.time() - t0, tb - t0)
    for l in log:
        print(l)
    if fresh:
        for n, (v, j) in enumerate(fresh[:5]):
            path = write_replay(PROP, n, v, j, j["cfg"])
            print("%s: %s\n  %s" % (v.get("class"), trim(v.get("what") or ""), trim((v.get("code") or "").replace("\n", "\n  "), 1500)))
            print("VIOLATION property=%s replay=%s" % (PROP, path))
        sys.exit(1)
    tr = sum(r["transitions"] for _, r in results)
    print("OK property=%s tier=%s transitions=%d wall=%.1fs" % (PROP, TIER, tr, time.time() - t0))


def miri_result(got):
    """Verdict of the processes of an interpreted job: (code, stdout, stderr, result)."""
    for rc, out, err in got:
        m = re.search(r"error: (Undefined Behavior: .*|memory leaked.*|abnormal termination.*|the evaluated program deadlocked.*)", err)
        if rc != 0 and m:
            at = err.index(m.group(0))
            last = [l for l in err[:at].splitlines() if l.startswith("@@AT ")]
            return 1, out, err, {
                "violations": [{"class": "undefined behaviour", "size": 0, "what": m.group(1), "code": (last[-1][5:] if last else "") + "\n/* " + err[at:][:2500].replace("*/", "* /") + " */"}],
                "transitions": 0, "states": 0, "notes": {}, "ops": {}, "samples": [], "bounds": "",
            }
    for rc, out, err in got:
        res = parse(out)
        if rc in (1, 77) and res is not None:
            return rc, out, err, res
    for rc, out, err in got:
        if rc != 0 or parse(out) is None:
            return rc or 2, out, err, None
    err = "\n".join(e for _, _, e in got)
    err = "\n".join(l for l in err.splitlines() if re.match(r"C\d\d ", l))
    return 0, "", err, merge([parse(out) for _, out, _ in got])


def compare_digests(results):
    base_job, base = results[0]
    out = []
    for j, r in results[1:]:
        if j.get("group") != base_job.get("group"):
            base_job, base = j, r
            continue
        keys = set(base["digest"]) | set(r["digest"])
        skip = {k for k in keys if k.split("/")[0] in j.get("skip_ops", [])}
        diff = sorted(k for k in keys if base["digest"].get(k) != r["digest"].get(k) and k not in skip)
        # a configuration may compile fewer capacities: compare what both have
        if j.get("common_only"):
            diff = [k for k in diff if k in base["digest"] and k in r["digest"]]
        if diff:
            out.append(({
                "class": "differs between builds: " + diff[0],
                "size": 0,
                "what": "operation/capacity %s gives different results in configurations %s and %s" % (", ".join(diff[:8]), base_job["cfg"], j["cfg"]),
                "code": "// compare: %s [%s]\n//      vs: %s [%s]" % (" ".join([base_job["bin"]] + base_job["args"]), base_job["cfg"], " ".join([j["bin"]] + j["args"]), j["cfg"]),
            }, j))
    return out


def write_evidence(results, fresh, spec, log, wall, build_s):
    level = spec.get("level", "model_checking")
    states = sum(r.get("states", 0) for _, r in results)
    trans = sum(r.get("transitions", 0) for _, r in results)
    hist = sum(r.get("notes", {}).get("histories_replayed", 0) for _, r in results)
    ops = {}
    notes = {}
    samples = []
    for j, r in results:
        for k, c in r.get("ops", {}).items():
            a = ops.setdefault(k, [0] * 5)
            for i in range(5):
                a[i] += c[i]
        for k, v in r.get("notes", {}).items():
            notes[k] = notes.get(k, 0) + v
        samples += ["[%s] %s" % (j["cfg"], trim(s, 400)) for s in r.get("samples", [])[:6]]
    cov = {
        "states": states,
        "transitions": trans,
        "traces_validated_against_impl": trans if spec.get("direct", True) else hist,
        "samples": samples[:24] or ["(none)"],
        "exhaustive": True,
        "outcomes": {k: dict(zip(["ok", "out_of_bounds_or_fmt_error", "utf_error", "none", "panic"], v)) for k, v in ops.items()},
        "runs": [{"configuration": j["cfg"], "what": " ".join([j["bin"]] + j["args"]), "bounds": trim(r.get("bounds", ""), 1500), "states": r.get("states", 0), "transitions": r.get("transitions", 0)} for j, r in results],
        "counters": notes,
        "how_validated": NOTES["direct"] if spec.get("direct", True) else NOTES["model"],
        "log": log,
        "build_s": round(build_s, 1),
    }
    if hist:
        cov["histories_replayed_without_snapshots"] = hist
    ev = {
        "property": PROP,
        "tier": TIER,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level,
        "coverage": cov,
        "assumptions": ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(wall, 1),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", PROP + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)


if __name__ == "__main__":
    PROP = sys.argv[1]
    TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if PROP not in JOBS:
        die("unknown property " + PROP)
    main()
