#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property by seeded simulation
check.py --replay <file>                re-execute a recorded violation exactly

Builds the simulator from /repo's working tree, explores seeds, minimises and re-checks what fails,
rewrites evidence/<property>.json.  Exit 0 held, 1 violated (VIOLATION line), 2 no answer."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, REPO_COMPONENTS  # noqa: E402

REPO = os.environ.get("CAITLYN_REPO", "/repo")
WORKERS = max(1, min(8, os.cpu_count() or 1))


class NoAnswer(Exception):
    pass


def build(scn, mode, out):
    r = subprocess.run(["bash", os.path.join(HERE, "sim/mk.sh"), scn, mode, out, REPO], capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-3000:] + r.stderr[-6000:])
        raise NoAnswer("the simulator for %s does not build against %s" % (scn, REPO))
    return os.path.join(out, "sim")


def symbolise(text, exe):
    """replace addresses of the simulator executable in a sanitizer report by source lines"""
    addrs = re.findall(r"(?:sim\+|pc=\+)(0x[0-9a-f]+)", text)
    if not addrs:
        return text
    try:
        o = subprocess.run(["addr2line", "-Cfpe", exe] + addrs, capture_output=True, text=True, timeout=60).stdout.split("\n")
    except Exception:
        return text
    head = re.split(r"\n\s+#0", text)[0]
    return head + "\n" + "\n".join("    " + l[:220] for l in o[:16] if l)


def known_findings(prop):
    """lines 'KNOWN-FINDING: property=<id> key=<key> <what fails>'; 'fixed:' lines suppress nothing"""
    res = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def run_replay(exe, choices, env):
    with tempfile.TemporaryDirectory() as d:
        cf, of = os.path.join(d, "c"), os.path.join(d, "o")
        open(cf, "w").write(" ".join(map(str, choices)))
        p = subprocess.run([exe, "replay", cf, of], env=env, timeout=120, capture_output=True)
        if p.returncode not in (0, 1):
            raise NoAnswer("replay ended with %d" % p.returncode)
        return json.load(open(of))


def sim_env(prop):
    env = dict(os.environ)
    keys = [k for k, _ in known_findings(prop)]
    env.pop("SIM_KNOWN", None)
    if keys:
        env["SIM_KNOWN"] = ",".join(keys)
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS", "LD_PRELOAD"):
        env.pop(k, None)
    return env


def replay_main(path):
    rec = json.load(open(path))
    work = tempfile.mkdtemp(prefix="simreplay-", dir=os.path.join(HERE, "build") if os.path.isdir(os.path.join(HERE, "build")) else None)
    try:
        exe = build(rec["scenario"], rec["mode"], work)
        r = run_replay(exe, rec["choices"], sim_env(rec["property"]))
        print(r["trace"])
        print("class:", r["class"])
        print(symbolise(r["message"], exe))
        exact = r["failed"] and r["class"] == rec["class"] and r["hash"] == rec["hash"]
        print("reproduced exactly" if exact else ("failed differently" if r["failed"] else "not reproduced: this code does not violate the property on this history"))
        if r["failed"]:
            print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1 if r["failed"] else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(prop, tier):
    t0 = time.time()
    chk = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    env = sim_env(prop)
    base = os.path.join(HERE, "build", "%s-%s-%d" % (prop, tier, os.getpid()))
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    violation = None
    parts = []
    try:
        procs = []
        # all parts are compiled at once, then explored one after another
        for scn, mode, runs, wall in chk["parts"]:
            out = os.path.join(base, scn + "-" + mode)
            procs.append(subprocess.Popen(["bash", os.path.join(HERE, "sim/mk.sh"), scn, mode, out, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for p, (scn, mode, runs, wall) in zip(procs, chk["parts"]):
            o, _ = p.communicate()
            if p.returncode:
                sys.stderr.write(o[-8000:])
                raise NoAnswer("the simulator for %s (%s) does not build against %s" % (scn, mode, REPO))
        build_s = time.time() - t0
        scale = 20 if tier == "thorough" else 1
        for i, (scn, mode, runs, wall) in enumerate(chk["parts"]):
            pseed = seed + 1000003 * i
            out = os.path.join(base, scn + "-" + mode)
            exe = os.path.join(out, "sim")
            res = os.path.join(out, "out.json")
            w = wall * scale if tier == "quick" else min(wall * scale, 780.0 / len(chk["parts"]))
            p = subprocess.run([exe, "explore", str(pseed), str(runs * scale), str(w), str(WORKERS), res, "25"], env=env, timeout=w + 400, capture_output=True, text=True)
            if p.returncode or not os.path.exists(res):
                sys.stderr.write(p.stdout[-2000:] + p.stderr[-2000:])
                raise NoAnswer("exploring %s (%s) ended with %d" % (scn, mode, p.returncode))
            d = json.load(open(res))
            d["mode"] = mode
            parts.append(d)
            if d["runs"] == 0:
                raise NoAnswer("no run of %s finished" % scn)
            if d["mismatched"]:
                sys.stderr.write("warning: %d of %d re-executed runs of %s differed (first: index %d)\n" % (d["mismatched"], d["rechecked"], scn, d["mismatch_index"]))
            f = d.get("fail")
            if f:
                if not f["same"]:
                    raise NoAnswer("a failing run of %s (index %d, %s) did not repeat under its own seed" % (scn, f["index"], f["class"]))
                r = run_replay(exe, f["choices"], env)
                if not (r["failed"] and r["class"] == f["class"] and r["hash"] == f["hash"]):
                    raise NoAnswer("the minimised history of %s (%s) does not replay in a fresh process (%s)" % (scn, f["class"], r["class"]))
                os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
                path = os.path.join(HERE, "replays", "%s-%s-%s-%d-%d.json" % (prop, scn, mode, pseed, f["index"]))
                rec = {"property": prop, "scenario": scn, "mode": mode, "seed": pseed, "run_index": f["index"], "class": f["class"],
                       "message": symbolise(r["message"], exe), "hash": r["hash"], "original_choices": f["original_choices"],
                       "minimiser_attempts": f["attempts"], "choices": f["choices"], "trace": r["trace"].split("\n"),
                       "replay_with": "python3 /verif/check.py --replay " + path}
                with open(path, "w") as fh:
                    json.dump(rec, fh, indent=1)
                violation = (path, rec)
                break
    finally:
        shutil.rmtree(base, ignore_errors=True)
        try:
            os.rmdir(os.path.join(HERE, "build"))
        except OSError:
            pass
    write_evidence(prop, tier, seed, chk, parts, violation, time.time() - t0, build_s)
    for key, what in known_findings(prop):
        n = sum(d["known"].get(key, 0) for d in parts)
        print("KNOWN-FINDING: property=%s %s (seen in %d of %d runs)" % (prop, what, n, sum(d["runs"] for d in parts)))
    runs = sum(d["runs"] for d in parts)
    print("%s %s: %d simulated runs, %d distinct non-trivial, %.0f s simulated, %.1f s wall" % (
        prop, tier, runs, sum(d["distinct_nontrivial"] for d in parts), sum(d["sim_s"] for d in parts), time.time() - t0))
    if violation:
        path, rec = violation
        print("%s: %s" % (rec["class"], rec["message"]))
        print("\n".join(rec["trace"][-60:]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def write_evidence(prop, tier, seed, chk, parts, violation, wall, build_s):
    faults, probes, sched = {}, {}, {}
    for d in parts:
        for name, (n, runs) in d["counters"].items():
            kind, _, label = name.partition(":")
            tgt = {"fault": faults, "probe": probes}.get(kind, sched)
            e = tgt.setdefault(label, {"times": 0, "in_runs": 0})
            e["times"] += n
            e["in_runs"] += runs
    runs = sum(d["runs"] for d in parts)
    ex = sum(d["wall"] for d in parts) or 1e-9
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in parts),
        "rule": "One evaluation is one seeded simulated execution of the scenario (seed %d plus 1000003 per part, run index 0..n). Distinct: by the hash of the full event trace "
                "(operations, system calls and their results, faults, context switches). Non-trivial: %s" % (seed, chk["nontrivial"]),
        "samples": [s for d in parts for s in d["samples"]][:6],
        "simulated_runs_per_hour": int(runs / ex * 3600),
        "seeds_per_hour": int(runs / ex * 3600),
        "simulated_time_s": round(sum(d["sim_s"] for d in parts), 3),
        "faults_injected": faults,
        "situations_reached": probes,
        "scheduling": sched,
        "interleavings_or_states": {"measure": "distinct event-trace hashes", "distinct": sum(d["distinct"] for d in parts)},
        "simulator_steps": sum(d["steps"] for d in parts),
        "recorded_choices": sum(d["choices"] for d in parts),
        "runs_cut_off": sum(d["truncated"] for d in parts),
        "determinism": {"runs_executed_twice": sum(d["rechecked"] for d in parts), "differing": sum(d["mismatched"] for d in parts)},
        "parts": [{"scenario": d["scenario"], "build": d["mode"], "seed": d["seed"], "runs": d["runs"], "distinct_nontrivial": d["distinct_nontrivial"], "wall_s": d["wall"]} for d in parts],
        "components_real": chk.get("real", []) + REPO_COMPONENTS,
        "components_stubbed": chk["stubs"],
        "known_findings_seen": {k: v for d in parts for k, v in d["known"].items()},
        "build_s": round(build_s, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": chk["assumptions"], "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    if violation:
        ev["coverage"]["violation"] = {"class": violation[1]["class"], "replay": violation[0]}
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    try:
        if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
            sys.exit(replay_main(os.path.abspath(sys.argv[2])))
        if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
            sys.stderr.write(__doc__ + "\n")
            sys.exit(2)
        sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except NoAnswer as e:
        sys.stderr.write("no answer: %s\n" % e)
        sys.exit(2)
