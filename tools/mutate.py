#!/usr/bin/env python3
"""Development helper: mutate.py SEED COUNT FILE[,FILE...] HARNESS...
Plants random small changes in a scratch copy of /repo (/tmp/mut/repo), one at
a time, and reports those that the quick checks of the harnesses (in the given
order) do not notice. Survivors go to /tmp/mut/survivors.log."""
import os, random, re, shutil, subprocess, sys
W = os.environ.get("MUT_DIR", "/tmp/mut")
V = "/verif"
seed, count, files, hs = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3].split(","), sys.argv[4:]
R = f"{W}/repo"
os.makedirs(R, exist_ok=True)
subprocess.run(f"cd /repo && tar cf - --exclude=./.git --exclude=./experiments/data . | tar xf - -C {R}", shell=True, check=True)
os.environ.update(VERIF_REPO=R, VERIF_BUILD=f"{W}/build")
sys.path.insert(0, V)
import build as B
ns = {"STAGES": {}, "FUZZ": {}}
exec(open(f"{V}/stages.py").read(), ns)
OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\w-])<(?![<=\w:])", "<="), (r"(?<![>\w-])>(?![>=])(?= )", ">="), (r"==", "!="), (r"!=", "=="),
       (r"&&", "||"), (r"\|\|", "&&"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r"\btrue\b", "false"),
       (r"\bfalse\b", "true"), (r" \^ ", " | "), (r" \^= ", " |= "), (r"<<(?= )", ">>"), (r" & ", " | "), (r" % ", " / "), (r" / ", " * "),
       (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])1(?![\w.])", "0"), (r"\+=", "="), (r"\+=", "-="), (r"\^=", "="), (r"!(?=[a-z_(])", ""),
       (r"\+\+(?=[a-z])", "--"), (r"std::max", "std::min"), (r"std::min", "std::max"), (r"\bif \((?!.*\{.*\})", "if (false && "), (r"\bcontinue;", ""), (r"\bbreak;", "")]
def sites(path):
    out, depth_comment = [], False
    for i, l in enumerate(open(f"{R}/{path}").read().split("\n")):
        code = l.split("//")[0]
        st = code.strip()
        if not st or st.startswith(("#", "*", "/*", "static_assert", "using", "template", "namespace")) or '"' in code or "typename" in code: continue
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + rep + code[m.end():]
                if rep.endswith("&& ") and new.count("(") != new.count(")"): new = None
                if new and new != code: out.append((path, i, l, new))
        if re.match(r"^[\w\[\]().>*-]+( [+|^&-]?= .*|\(.*\));$", st) and not st.startswith("return"): out.append((path, i, l, ""))
    return out
all_sites = [x for f in files for x in sites(f)]
random.Random(seed).shuffle(all_sites)
log = open(f"{W}/survivors.log", "a")
stat = {"killed": 0, "survived": 0, "nobuild": 0}
for path, i, old, new in all_sites[:count]:
    p = f"{R}/{path}"
    orig = open(p).read()
    lines = orig.split("\n")
    lines[i] = new
    open(p, "w").write("\n".join(lines))
    verdict = None
    built = False
    try:
        for fls in ("fast", "san"):
            for h in hs:
                st = dict(ns["STAGES"].get(h.upper(), [("fast", 100), ("san", 35)]))
                fl = fls if fls in st else "tsan"
                ok, out = B.build([(fl, h)])
                if not ok:
                    verdict = "nobuild" if not built else verdict
                    break
                built = True
                d = f"{W}/run"
                os.makedirs(d, exist_ok=True)
                try:
                    r = subprocess.run([f"{W}/build/{fl}/{h}", "--seed", "1", "--tier", "quick", "--out", f"{d}/o.json", "--dir", d, "--scale", str(max(1, int(st[fl] * float(os.environ.get('MUT_SCALE', '1'))))), "--workers", "8", "--budget", "200"],
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400,
                                       env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:max_allocation_size_mb=8000:handle_abort=0", TSAN_OPTIONS="halt_on_error=1:exitcode=66", VERIF_KNOWN="[nul-padding]", PBT_NO_SHRINK="1"))
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                if rc != 0:
                    verdict = f"killed {fl}/{h} rc={rc}"
                    break
            if verdict: break
    finally:
        open(p, "w").write(orig)
    verdict = verdict or "SURVIVED"
    stat["killed" if verdict.startswith("killed") else "survived" if verdict == "SURVIVED" else "nobuild"] += 1
    msg = f"{verdict}: {path}:{i+1}\n   - {old.strip()}\n   + {new.strip()}"
    print(msg, flush=True)
    if verdict == "SURVIVED" or "rc=1" not in verdict and verdict != "nobuild":
        log.write(msg + "\n"); log.flush()
print(stat)
