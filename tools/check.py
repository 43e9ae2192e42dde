#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: builds the simulator from /repo, searches seeds, gates, minimises and reports.

Exit 0: held on every simulated run. Exit 1: VIOLATION line. Exit 2: the check itself failed.
check.py --replay FILE: rebuilds and replays a reported violation."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
from props import PROPS  # noqa: E402

VERIF = build.VERIF
ENV = {"PATH": "/usr/bin:/bin", "HOME": "/", "LC_ALL": "C"}
WORKERS = 8


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, timeout=timeout)
    return p.returncode, p.stdout, p.stderr


def known_findings(prop):
    """Entries `known: property=<id> code=<code> match=<regex>`; "fixed:" entries suppress nothing."""
    out = []
    path = VERIF + "/known-findings.txt"
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) code=(\S+) match=/(.*)/ (.*)$", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4).strip()))
    return out


def run_batches(jobs, seconds, scratch):
    """jobs: [(binary, mode, first seed, stride)] in parallel. Returns one parsed result per job."""
    procs = []
    for i, (binary, mode, first, stride) in enumerate(jobs):
        out = "%s/batch.%d" % (scratch, i)
        err = open(out + ".err", "w")
        procs.append((subprocess.Popen([binary, "batch", mode, str(first), str(stride), "100000000", str(seconds), out],
                                       stdout=subprocess.DEVNULL, stderr=err, env=ENV), out, binary, mode))
    res = []
    for p, out, binary, mode in procs:
        try:
            p.wait(timeout=seconds + 400)
        except subprocess.TimeoutExpired:
            p.kill()
            raise CheckError("a worker did not end in time")
        if p.returncode == 4:
            res.append({"binary": binary, "mode": mode, "undecided": open(out + ".err").read().strip(), "runs": []})
            continue
        if p.returncode != 0:
            raise CheckError("worker failed (%d): %s" % (p.returncode, open(out + ".err").read()[-2000:]))
        viol, summary = [], None
        for line in open(out):
            d = json.loads(line)
            if "summary" in d:
                summary = d["summary"]
            else:
                viol.append(d)
        with open(out + ".hashes", "rb") as f:
            data = f.read()
        hashes = {data[i:i + 8] for i in range(0, len(data), 8)}
        res.append({"binary": binary, "mode": mode, "summary": summary, "runs": viol, "hashes": hashes})
    return res


def single(args):
    rc, out, err = sh(args)
    if rc != 0:
        raise CheckError("%s: exit %d %s" % (" ".join(args), rc, err[-500:]))
    return json.loads(out.strip().splitlines()[-1])


def codes(r):
    return {v["code"] for v in r["violations"]}


def determinism(jobs, count, scratch):
    """Runs seeds again in fresh processes and compares the hash of the complete event log."""
    seen, same = 0, 0
    bad = []
    for binary, mode, first, stride in jobs:
        cmds = [[binary, "run", mode, str(first + i * stride)] for i in range(count)]
        a = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=ENV) for c in cmds for _ in (0, 1)]
        outs = [p.communicate()[0].strip() for p in a]
        for i in range(0, len(outs), 2):
            seen += 1
            if outs[i] and outs[i] == outs[i + 1]:
                same += 1
            else:
                bad.append((cmds[i // 2], outs[i][:200], outs[i + 1][:200]))
    return seen, same, bad


def report(prop, tier, found, scratch, known):
    """found: [(binary, mode, run)]. Returns (replay path or None, known hits, notes)."""
    notes, hits = [], []
    order = sorted(found, key=lambda f: f[2]["decisions"])
    tried = 0
    for binary, mode, r in order:
        fresh_codes = [v for v in r["violations"]
                       if not any(k[0] == v["code"] and k[1].search(v["msg"]) for k in known)]
        for v in r["violations"]:
            for k in known:
                if k[0] == v["code"] and k[1].search(v["msg"]) and k not in hits:
                    hits.append(k)
        if not fresh_codes:
            continue
        if tried >= 6:
            break
        tried += 1
        # Gate: twice from the seed, in fresh processes, same log.
        dec = scratch + "/decisions"
        a = single([binary, "run", mode, str(r["seed"]), "-", dec])
        b = single([binary, "run", mode, str(r["seed"])])
        code = fresh_codes[0]["code"]
        if a["log_hash"] != r["log_hash"] or b["log_hash"] != r["log_hash"] or code not in codes(a) or code not in codes(b):
            notes.append("seed %s: %s did not reproduce" % (r["seed"], code))
            continue
        small = scratch + "/small"
        rc, out, err = sh([binary, "shrink", mode, dec, code, small, "12" if tier == "quick" else "60"], timeout=300)
        if rc == 0:
            final = small
            note = "minimised: " + out.strip()
        else:
            final = dec
            note = "not minimised: " + err.strip()[:200]
        rep_dir = VERIF + "/evidence/replays"
        os.makedirs(rep_dir, exist_ok=True)
        rep = "%s/%s-%s.replay" % (rep_dir, prop, r["seed"])
        trace = rep[:-7] + ".trace"
        x = single([binary, "replay", mode, final, trace])
        y = single([binary, "replay", mode, final])
        if x["log_hash"] != y["log_hash"] or code not in codes(x) or code not in codes(y):
            notes.append("seed %s: the minimised decisions do not reproduce %s" % (r["seed"], code))
            continue
        msg = [v["msg"] for v in x["violations"] if v["code"] == code][0]
        with open(rep, "w") as f:
            f.write("# property %s\n# simulator %s mode %s seed %s\n# code %s\n# %s\n# log_hash %s\n# %s\n# replay: python3 tools/check.py --replay %s\n"
                    % (prop, os.path.basename(binary), mode, r["seed"], code, msg, x["log_hash"], note, rep))
            f.write(open(final).read())
        log("%s: %s" % (code, msg))
        return rep, hits, notes, {"seed": r["seed"], "code": code, "message": msg, "note": note}
    return None, hits, notes, None


def replay(path):
    head = open(path).read()
    prop = re.search(r"# property (\S+)", head).group(1)
    binary, mode, _ = re.search(r"# simulator (\S+) mode (\S+) seed (\S+)", head).groups()
    code = re.search(r"# code (\S+)", head).group(1)
    want = re.search(r"# log_hash (\S+)", head).group(1)
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        PROPS[prop]["build"](scratch)
        r = single([scratch + "/" + binary, "replay", mode, path, path[:-7] + ".trace"])
    finally:
        shutil.rmtree(scratch)
    print(json.dumps(r))
    print("event log:", path[:-7] + ".trace")
    ok = code in codes(r)
    print("%s %s, event log %s" % (code, "reproduced" if ok else "NOT reproduced", "identical" if r["log_hash"] == want else "different"))
    return 1 if ok else 0


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[prop]
    start = time.time()
    budget = float(os.environ.get("VERIF_SECONDS", spec.get(tier, 25 if tier == "quick" else 600)))
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        spec["build"](scratch)
        built = time.time()
        base = 1 + (seed % 1000003) * 1000000007
        jobs = []
        engines = spec["engines"]  # [(binary, mode, workers)]
        for binary, mode, workers in engines:
            for w in range(workers):
                jobs.append((scratch + "/" + binary, mode, base + w, workers))
        results = run_batches(jobs, budget, scratch)
        searched = time.time()
        found = [(r["binary"], r["mode"], v) for r in results for v in r["runs"]]
        known = known_findings(prop)
        rep, hits, notes, what = report(prop, tier, found, scratch, known) if found else (None, [], [], None)
        if found and not rep and len(hits) == 0:
            raise CheckError("violations were seen but could not be reproduced: %s" % notes)
        if found and not rep and notes:
            raise CheckError("violations were seen but could not be reproduced: %s" % notes)
        dets = spec.get("determinism", {"quick": 8, "thorough": 40})[tier]
        # The cheap engines only: one job per engine.
        probe, names = [], set()
        for j in jobs:
            if j[1] not in names and not j[1].endswith("X"):
                names.add(j[1])
                probe.append(j)
        seen, same, bad = determinism(probe, dets, scratch) if not rep else (0, 0, [])
        if bad:
            raise CheckError("a seed did not repeat its event log: %s" % (bad[0],))
        # ---- evidence
        total = {"runs": 0, "sim_ns": 0, "decisions": 0, "calls": 0, "frames": 0, "stopped": 0, "with_faults": 0}
        counters, hashes = {}, set()
        modes = {}
        for r in results:
            s = r.get("summary")
            if not s:
                notes.append(r["undecided"])
                continue
            modes[r["mode"]] = modes.get(r["mode"], 0) + s["runs"]
            for k in total:
                total[k] += s.get(k, 0)
            for k, (t, n) in s["counters"].items():
                a = counters.setdefault(k, [0, 0])
                a[0] += t
                a[1] += n
            hashes |= r["hashes"]
        samples = []
        if probe:
            b, m, first, _ = probe[0]
            dec = scratch + "/sample"
            one = single([b, "run", m, str(first), "-", dec])
            samples.append({"seed": first, "log_hash": one["log_hash"], "decisions_taken": one["decisions"],
                            "non_default_decisions": open(dec).read().split("\n")[:40]})
        if what:
            samples.insert(0, what)
        wall = time.time() - start
        search = max(0.001, searched - built)
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
            "coverage": {
                "evaluations": total["runs"],
                "distinct_nontrivial": len(hashes),
                "rule": spec["rule"],
                "samples": samples,
                "runs_per_hour": int(total["runs"] / search * 3600),
                "runs_per_engine": modes,
                "simulated_seconds": total["sim_ns"] / 1e9,
                "decisions": total["decisions"],
                "seam_calls": total["calls"],
                "steps": total["frames"],
                "runs_with_faults": total["with_faults"],
                "runs_stopped_loudly_after_a_fault": total["stopped"],
                "faults_injected": {k[2:]: {"times": v[0], "in_runs": v[1]} for k, v in counters.items() if k[0] == "f" and v[0]},
                "conditions_reached": {k[2:]: {"times": v[0], "in_runs": v[1]} for k, v in counters.items() if k[0] == "n" and v[0]},
                "determinism": {"seeds_run_twice_in_fresh_processes": seen, "identical_event_logs": same},
                "real_code": spec["real"], "stubbed": spec["stub"],
                "notes": notes,
            },
            "assumptions": spec["assumptions"],
            "wall_s": round(wall, 2),
            "violations": 1 if rep else 0,
        }
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % prop, "w") as f:
            json.dump(ev, f, indent=1)
        log("%s: %d runs, %d distinct non-trivial, build %.1fs search %.1fs total %.1fs" %
            (prop, total["runs"], len(hashes), built - start, search, wall))
        for k in hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]), flush=True)
        if rep:
            print("VIOLATION property=%s replay=%s" % (prop, rep), flush=True)
            return 1
        for c in spec.get("must_reach", []):
            if counters.get(c, [0, 0])[0] == 0:
                log("warning: %s was never reached" % c)
        return 0
    except (build.BuildError, CheckError, subprocess.TimeoutExpired) as e:
        log("check error: %s" % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
