#!/usr/bin/env python3
"""Builds a check's harness, and what it needs of /repo, with ninja.

build.py TARGET...   where a target is <flavour>/<harness>, e.g. san/p01
All output goes to $VERIF_BUILD (default /verif/build), never to /repo.
"""
import glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
# The sources are compiled from a mirror that is written only where the content
# differs, so that what is rebuilt depends on contents and not on time stamps.
SRC = os.path.join(OUT, "src")
CRYPTO = "/usr/lib/x86_64-linux-gnu/android/libcrypto.so"

# clang 18 mangles some templates unlike gcc, which built the installed libraries.
CLANG_ABI = "-fclang-abi-compat=17"

FLAVOURS = {
    "san": ("clang++", "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
            "-fno-sanitize-recover=all -DPBT_ASAN=1 " + CLANG_ABI,
            "-fsanitize=address,undefined -fuse-ld=/usr/bin/ld.lld"),
    "fast": ("g++", "-O2 -g1", "-fuse-ld=gold"),
    "fuzz": ("clang++", "-O1 -g1 -fno-omit-frame-pointer -fsanitize=fuzzer-no-link,address,undefined "
             "-fno-sanitize-recover=all -DPBT_ASAN=1 -DPBT_FUZZER=1 " + CLANG_ABI,
             "-fsanitize=fuzzer,address,undefined"),
    "tsan": ("clang++", "-O1 -g1 -fsanitize=thread -DPBT_ASAN=1 " + CLANG_ABI, "-fsanitize=thread"),
}

# Library groups: sources picked up by name, so that a new file is compiled too.
GROUPS = {
    "core": ["dpf/*.cc", "dpf/internal/*.cc"],
    "dcf": ["dcf/*.cc"],
    "gates": ["dcf/fss_gates/*.cc", "dcf/fss_gates/prng/*.cc"],
    "hashing": ["pir/hashing/*.cc"],
    "prng": ["pir/prng/*.cc"],
    "inner": ["pir/internal/*.cc"],
    "pir": ["pir/*.cc"],
    "pirtest": ["pir/testing/*.cc"],
}
SKIP = {"dpf/internal/status_matchers.cc", "pir/testing/encrypt_decrypt.cc"}
DEPS = {"dcf": ["core"], "gates": ["dcf", "core"], "inner": ["core"],
        "pir": ["inner", "hashing", "prng", "core"], "pirtest": ["pir"],
        "prng": [], "hashing": [], "core": []}
ABSL = ("absl_cord absl_cordz_info absl_cordz_handle absl_cord_internal absl_cordz_functions "
        "absl_status absl_statusor absl_random_distributions absl_random_seed_sequences "
        "absl_random_internal_pool_urbg absl_random_internal_randen absl_random_internal_randen_hwaes "
        "absl_random_internal_randen_hwaes_impl absl_random_internal_randen_slow "
        "absl_random_internal_platform absl_random_internal_seed_material absl_random_seed_gen_exception "
        "absl_raw_hash_set absl_hashtablez_sampler absl_hash absl_city absl_low_level_hash "
        "absl_strings absl_strings_internal absl_str_format_internal absl_time absl_time_zone absl_civil_time "
        "absl_int128 absl_synchronization absl_base absl_raw_logging_internal absl_throw_delegate "
        "absl_bad_optional_access absl_bad_variant_access absl_spinlock_wait absl_stacktrace absl_symbolize "
        "absl_debugging_internal absl_demangle_internal absl_graphcycles_internal absl_malloc_internal "
        "absl_exponential_biased absl_log_severity").split()


def mirror():
    seen = set()
    for top, dirs, files in os.walk(REPO):
        rel = os.path.relpath(top, REPO)
        dirs[:] = [d for d in dirs if not d.startswith((".", "_", "bazel-")) and not (rel == "experiments" and d == "data")]
        for f in files:
            if not f.endswith((".h", ".cc", ".inc", ".hpp", ".cpp", ".c", ".proto")):
                continue
            r = os.path.normpath(os.path.join(rel, f))
            seen.add(r)
            with open(os.path.join(top, f), "rb") as fh:
                data = fh.read()
            to = os.path.join(SRC, r)
            try:
                with open(to, "rb") as fh:
                    if fh.read() == data:
                        continue
            except OSError:
                os.makedirs(os.path.dirname(to), exist_ok=True)
            tmp = f"{to}.tmp{os.getpid()}"
            with open(tmp, "wb") as fh:
                fh.write(data)
            os.replace(tmp, to)
    for top, _, files in os.walk(SRC):
        for f in files:
            r = os.path.relpath(os.path.join(top, f), SRC)
            if r not in seen and ".tmp" not in f:
                os.remove(os.path.join(top, f))


def closure(groups):
    out = []
    def visit(g):
        if g in out:
            return
        for d in DEPS[g]:
            visit(d)
        out.append(g)
    for g in groups:
        visit(g)
    return out


def harnesses():
    """name -> (sources, groups), from the '// LIBS: ...' line of each harness."""
    out = {}
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "[a-z][0-9]*.cc"))):
        name = os.path.basename(f)[:-3]
        groups, srcs = [], [f, os.path.join(VERIF, "harness", "pbt_main.cc")]
        with open(f) as fh:
            for line in fh:
                if line.startswith("// LIBS:"):
                    groups = line.split(":", 1)[1].split()
                if line.startswith("// SRCS:"):
                    srcs += [os.path.join(VERIF, "harness", x) for x in line.split(":", 1)[1].split()]
        out[name] = (srcs, groups)
    return out


def emit(flavours, names=None):
    L = []
    w = L.append
    w("ninja_required_version = 1.5")
    inc = (f"-I{VERIF}/shims -I{VERIF}/harness -isystem /usr/include/android "
           f"-I{SRC} -I{OUT}/gen")
    ccache = "ccache " if os.path.exists("/usr/bin/ccache") else ""
    w(f"rule protoc\n  command = protoc -I{SRC} --cpp_out={OUT}/gen $in && "
      f"python3 {VERIF}/shims/patch_pb.py $hdr\n  description = protoc $in")
    w("rule ar\n  command = rm -f $out && ar rcs $out $in\n  description = ar $out")
    for fl in flavours:
        cxx, cf, lf = FLAVOURS[fl]
        w(f"rule cxx_{fl}\n  command = {ccache}{cxx} -std=c++17 -w {"-Wno-c++11-narrowing " if cxx.startswith("clang") else ""}{cf} {inc} -MMD -MF $out.d -c $in -o $out\n"
          f"  depfile = $out.d\n  deps = gcc\n  description = {fl} $in")
        w(f"rule link_{fl}\n  command = {cxx} {lf} $in -o $out -Wl,--start-group $libs -Wl,--end-group "
          f"{CRYPTO} -lfarmhash -lhwy -lprotobuf {' '.join('-l' + a for a in ABSL)} -lpthread "
          f"-Wl,-rpath,/usr/lib/x86_64-linux-gnu/android\n  description = link $out")
    # protos
    pb_cc, pb_h = [], []
    for d in ("dpf", "dcf", "pir"):
        for f in sorted(glob.glob(f"{SRC}/{d}/**/*.proto", recursive=True)):
            base = os.path.relpath(f, SRC)[:-6]
            w(f"build {OUT}/gen/{base}.pb.cc {OUT}/gen/{base}.pb.h: protoc {f}\n  hdr = {OUT}/gen/{base}.pb.h")
            pb_cc.append(f"{OUT}/gen/{base}.pb.cc")
            pb_h.append(f"{OUT}/gen/{base}.pb.h")
    w(f"build protos: phony {' '.join(pb_h)}")
    hs = harnesses()
    for fl in flavours:
        def obj(src, tag):
            o = f"{OUT}/{fl}/obj/{tag}/{os.path.basename(src)}.o"
            w(f"build {o}: cxx_{fl} {src} || protos")
            return o
        objs = [obj(s, "protos_" + s.count("/") * "_" + os.path.dirname(s).replace("/", "_")) for s in pb_cc]
        w(f"build {OUT}/{fl}/libprotos.a: ar {' '.join(objs)}")
        for g, pats in GROUPS.items():
            srcs = []
            for p in pats:
                for s in sorted(glob.glob(f"{SRC}/{p}")):
                    r = os.path.relpath(s, SRC)
                    if r in SKIP or r.endswith("_test.cc") or r.endswith("_benchmark.cc"):
                        continue
                    srcs.append(s)
            objs = [obj(s, g + "_" + os.path.basename(os.path.dirname(s))) for s in srcs]
            w(f"build {OUT}/{fl}/lib{g}.a: ar {' '.join(objs)}")
        for h, (srcs, groups) in hs.items():
            objs = []
            for s in srcs:
                b = os.path.basename(s)
                o = f"{OUT}/{fl}/obj/harness/{b}.o"
                line = f"build {o}: cxx_{fl} {s} || protos"
                if line not in L:
                    w(line)
                objs.append(o)
            libs = [f"{OUT}/{fl}/lib{g}.a" for g in reversed(closure(groups))] + [f"{OUT}/{fl}/libprotos.a"]
            w(f"build {OUT}/{fl}/{h}: link_{fl} {' '.join(objs)} | {' '.join(libs)}\n  libs = {' '.join(libs)}")
    os.makedirs(f"{OUT}/gen/farmhash", exist_ok=True)
    link = f"{OUT}/gen/farmhash/farmhash.h"
    if not os.path.islink(link):
        os.symlink("/usr/include/farmhash.h", link)
    text = "\n".join(L) + "\n"
    path = f"{OUT}/build.ninja"
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)
    return hs


def build(targets, quiet=True):
    """targets: list of (flavour, harness). Returns (ok, log)."""
    mirror()
    emit(sorted(FLAVOURS))
    env = dict(os.environ, CCACHE_DIR=f"{OUT}/ccache", CCACHE_MAXSIZE="2G",
               LANG="C.UTF-8", LC_ALL="C.UTF-8")
    cmd = ["ninja", "-C", OUT] + [f"{OUT}/{fl}/{h}" for fl, h in targets]
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode == 0, p.stdout


if __name__ == "__main__":
    if sys.argv[1:] == ["--all"]:
        ns = {"STAGES": {}, "FUZZ": {}}
        exec(open(os.path.join(VERIF, "stages.py")).read(), ns)
        todo = [(fl, h) for h in harnesses() for fl, _ in ns["STAGES"].get(h.upper(), [("fast", 0), ("san", 0)])]
    else:
        todo = [tuple(t.split("/")) for t in sys.argv[1:]]
    ok, log = build(todo)
    print(log[-6000:])
    sys.exit(0 if ok else 2)
