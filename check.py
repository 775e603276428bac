#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [quick|thorough]
   or replays a failure:            check.py --replay FILE

Builds what the property needs from /repo's working tree, runs its harnesses
(each in an optimised and in a sanitised build), writes evidence/ID.json.
Exit 0: held on everything explored; 1: VIOLATION; 2: could not decide.
"""
import glob, json, os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
RUN = os.environ.get("VERIF_RUN", os.path.join(VERIF, "run"))

# Harness stages other than the default (fast at 100 %, san at 35 %).
DEFAULT = [("fast", 100), ("san", 35)]
STAGES = {}
FUZZ = {}     # property -> runs per libFuzzer process in the thorough tier
exec(open(os.path.join(VERIF, "stages.py")).read())


def known(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f"finding: property={prop} "):
                out.append(line.split(" ", 2)[2].strip())
    return out


def run_harness(prop, fl, h, scale, tier, seed, budget):
    d = os.path.join(RUN, prop, f"{fl}-{h}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out = os.path.join(d, "result.json")
    env = dict(os.environ,
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:max_allocation_size_mb=8000:handle_abort=0:symbolize=1",
               UBSAN_OPTIONS="print_stacktrace=0:abort_on_error=1",
               TSAN_OPTIONS="halt_on_error=1:exitcode=66",
               VERIF_KNOWN=" ".join(known(prop)),
               VERIF_SCRATCH=d)
    cmd = [os.path.join(B.OUT, fl, h), "--seed", str(seed), "--tier", tier, "--out", out, "--dir", d,
           "--scale", str(scale), "--workers", str(os.cpu_count() or 4), "--budget", str(int(budget))]
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    res = json.load(open(out)) if os.path.exists(out) else None
    return p.returncode, res, p.stdout, d


def fuzz(prop, h, runs, seed, ev):
    """Coverage-guided search over the choice sequences of the harness: one
    libFuzzer process per core, each with a fixed number of runs."""
    ok, log = B.build([("fuzz", h), ("san", h)])
    if not ok:
        ev["assumptions"].append("the coverage-guided stage did not build and was left out")
        print(f"{prop}: the fuzz build failed:\n{log[-2000:]}")
        return 0
    d = os.path.join(RUN, prop, "fuzz")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "seeds"))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=8000:symbolize=1",
               VERIF_KNOWN=" ".join(known(prop)), VERIF_SCRATCH=d)
    san = os.path.join(B.OUT, "san", h)
    subprocess.run([san, "--seed", str(seed), "--dir", d, "--corpus", os.path.join(d, "seeds")], env=env)
    t0, ps = time.time(), []
    n = os.cpu_count() or 4
    for i in range(n):
        w = os.path.join(d, f"w{i}")
        os.makedirs(w)
        ps.append(subprocess.Popen([os.path.join(B.OUT, "fuzz", h), f"-runs={runs}", f"-seed={(seed * 64 + i) % 2**31 or 1}", "-max_len=8192",
                                    "-timeout=60", "-rss_limit_mb=3500", "-malloc_limit_mb=8000", "-max_total_time=200", "-print_final_stats=1",
                                    f"-artifact_prefix={w}/", os.path.join(w), os.path.join(d, "seeds")],
                                   env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(w, "log.txt"), "w")))
    for p in ps:
        p.wait()
    total, cover = 0, 0
    rc = 0
    for i in range(n):
        w = os.path.join(d, f"w{i}")
        text = open(os.path.join(w, "log.txt"), errors="replace").read()
        for line in text.splitlines():
            if line.startswith("stat::number_of_executed_units:"):
                total += int(line.split()[-1])
            if " cov: " in line:
                cover = max(cover, int(line.split(" cov: ")[1].split()[0]))
        for art in sorted(glob.glob(f"{w}/crash-*") + glob.glob(f"{w}/timeout-*")):
            if rc:
                break
            # It counts if the sanitised harness fails on it too.
            p = subprocess.run([san, "--dir", d, "--shrink", art], env=env)
            if p.returncode != 1:
                continue
            path = os.path.join(RUN, prop, "replay-fuzz.txt")
            with open(path, "w") as f:
                f.write(f"flavour san\nharness {h}\n" + open(os.path.join(d, "failure.txt"), errors="replace").read())
            msg = open(path, errors="replace").read()[:1500]
            print(f"{prop}: {msg}")
            print(f"VIOLATION property={prop} replay={path}")
            ev["violations"].append({"property": prop, "replay": path, "message": msg})
            rc = 1
    ev["coverage"]["stages"].append({"flavour": "fuzz", "processes": n, "runs": total, "covered_edges": cover,
                                     "wall_s": round(time.time() - t0, 2)})
    ev["coverage"]["evaluations"] += total
    print(f"{prop}: coverage-guided stage: {total} runs, {cover} edges, {time.time() - t0:.0f} s")
    return rc


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        head = {}
        for line in open(sys.argv[2]):
            k, _, v = line.strip().partition(" ")
            head.setdefault(k, v)
        ok, log = B.build([(head["flavour"], head["harness"])])
        if not ok:
            print(log[-4000:])
            return 2
        d = os.path.join(RUN, "replay")
        os.makedirs(d, exist_ok=True)
        return subprocess.run([os.path.join(B.OUT, head["flavour"], head["harness"]), "--replay",
                               os.path.abspath(sys.argv[2]), "--dir", d],
                              env=dict(os.environ, VERIF_KNOWN=" ".join(known(head["harness"].upper())), ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:max_allocation_size_mb=8000:handle_abort=0",
                                       TSAN_OPTIONS="halt_on_error=1:exitcode=66")).returncode
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    stages = [(fl, prop.lower(), sc) for fl, sc in STAGES.get(prop, DEFAULT)]
    # Build; a flavour that does not compile is dropped if another one does.
    ok, log = B.build([(fl, h) for fl, h, _ in stages])
    dropped = []
    if not ok:
        good = []
        for st in stages:
            ok1, log = B.build([(st[0], st[1])])
            if ok1:
                good.append(st)
            else:
                dropped.append(st[0])
                print(f"{prop}: the {st[0]} build failed:\n{log[-3000:]}")
        stages = good
        if not stages:
            return 2
    build_s = time.time() - t0
    total_budget = ((450 if prop in FUZZ else 700) if tier == "thorough" else 420) - min(build_s, 300)
    weights = sum(1.0 for _ in stages)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "stages": []},
          "wall_s": 0, "assumptions": [], "violations": []}
    cov = ev["coverage"]
    rc_final = 0
    for fl, h, sc in stages:
        rc, res, log, d = run_harness(prop, fl, h, sc, tier, seed, total_budget / weights)
        if res is None or rc not in (0, 1):
            print(f"{prop}: harness {fl}/{h} gave no answer (exit {rc}): {log[-2000:]}")
            rc_final = rc_final or 2
            if res is None:
                continue
        cov["evaluations"] += res["evaluations"]
        # The stages share seeds: their cases overlap, so the larger count is the number of distinct ones.
        cov["distinct_nontrivial"] = max(cov["distinct_nontrivial"], res["distinct_nontrivial"])
        cov["rule"] = res["rule"]
        cov["samples"] = cov["samples"] or res["samples"]
        cov["stages"].append({"flavour": fl, "scale_percent": sc, "evaluations": res["evaluations"],
                              "distinct_nontrivial": res["distinct_nontrivial"], "discarded": res["discarded"],
                              "wall_s": round(res["wall_s"], 2), "budget_hit": res["budget_hit"],
                              "subchecks": res["subchecks"]})
        ev["assumptions"] = res["assumptions"]
        if rc == 1:
            fail = open(os.path.join(d, "failure.txt"), errors="replace").read()
            path = os.path.join(RUN, prop, f"replay-{fl}.txt")
            with open(path, "w") as f:
                f.write(f"flavour {fl}\nharness {h}\n" + fail)
            print(f"{prop}: {res['violation'][:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
            ev["violations"].append({"property": prop, "replay": path, "message": res["violation"][:1500]})
            rc_final = 1
            break
    if rc_final == 0 and tier == "thorough":
        if prop in FUZZ:
            rc_final = fuzz(prop, prop.lower(), FUZZ[prop], seed, ev)
    if dropped:
        ev["assumptions"].append(f"builds that did not compile and were left out: {dropped}")
    for k in known(prop):
        print(f"KNOWN-FINDING: property={prop} {k}")
    ev["wall_s"] = round(time.time() - t0, 1)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, "
          f"build {build_s:.0f} s, total {ev['wall_s']:.0f} s, exit {rc_final}")
    return rc_final


if __name__ == "__main__":
    sys.exit(main())
