#!/usr/bin/env python3
"""Runs one property's check against /repo's working tree.

    run.py <property> <quick|thorough>     the registered check
    run.py --replay <file>                 re-executes a saved failing case

Compiles the library sources and the harness into a scratch directory, runs
the generated cases, writes evidence/<property>.json and removes the scratch
directory.  Exit 0: property held on everything explored.  Exit 1 with a
VIOLATION line: a failing case, confirmed by replaying it three times.
"""
import concurrent.futures, glob, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
OUT = os.path.join(VERIF, "out")

sys.path.insert(0, VERIF)
from groups import GROUPS, ASSUMPTIONS  # noqa: E402

CXX = "g++"
FLAGS = ["-std=c++20", "-O1", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG",
         "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS",
         "-ftrivial-auto-var-init=pattern", "-w",
         "-I" + os.path.join(REPO, "include"), "-I" + HARNESS,
         "-I" + os.path.join(HARNESS, "py")]  # stand-in for pybind11
# edges and compared values of the library guide the generation of cases
COVERAGE = ["-fsanitize-coverage=trace-pc,trace-cmp"]


def scratch_dir():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    d = tempfile.mkdtemp(prefix="sedaman-verif-", dir=base)
    os.chmod(d, 0o711)  # C31 opens files as an unprivileged user
    return d


def build(tmp, group, cxx=CXX, flags=FLAGS, exe="harness", extra=(), link=()):
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    srcs += [os.path.join(REPO, g[1:]) if g[0] == "@" else os.path.join(HARNESS, g)
             for g in group] + list(extra)
    obj = os.path.join(tmp, "obj-" + exe)
    os.makedirs(obj, exist_ok=True)

    def one(i_src):
        i, src = i_src
        o = os.path.join(obj, "%d-%s.o" % (i, os.path.basename(src)))
        cov = [] if src.startswith(HARNESS) else COVERAGE
        r = subprocess.run([cxx, *flags, *cov, "-c", src, "-o", o],
                           capture_output=True, text=True)
        return src, o, r
    # big harness files first
    jobs = sorted(enumerate(srcs), key=lambda x: -os.path.getsize(x[1]) *
                  (4 if x[1].startswith(HARNESS) else 1))
    objs = []
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for src, o, r in ex.map(one, jobs):
            if r.returncode:
                sys.stderr.write("cannot compile %s\n%s\n" % (src, r.stderr[:4000]))
                return None
            objs.append(o)
    out = os.path.join(tmp, exe)
    san = [f for f in flags if f.startswith("-fsanitize")]
    r = subprocess.run([cxx, *san, *link, *objs, "-o", out, "-lpthread"],
                       capture_output=True, text=True)
    shutil.rmtree(obj, ignore_errors=True)
    if r.returncode:
        sys.stderr.write("cannot link\n%s\n" % r.stderr[:4000])
        return None
    return out


def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                res.append(line[len("known: property=%s " % prop):])
    return res


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        prop = open(sys.argv[2]).read().split()[0]
        tmp = scratch_dir()
        try:
            exe = build(tmp, GROUPS[prop])
            if not exe:
                return 2
            os.makedirs(os.path.join(tmp, "s"))
            return subprocess.run([exe, "--replay", sys.argv[2], "--scratch",
                                   os.path.join(tmp, "s")]).returncode
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = scratch_dir()
    try:
        exe = build(tmp, GROUPS[prop])
        if not exe:
            return 2
        scratch = os.path.join(tmp, "s")
        os.makedirs(scratch)
        resf = os.path.join(tmp, "result.json")
        cmd = [exe, "--id", prop, "--seed", str(seed), "--tier", tier,
               "--scratch", scratch, "--out", resf, "--replay-dir",
               os.path.join(OUT, "replay"), "--workers", str(os.cpu_count() or 4),
               "--max-wall", "240" if tier == "quick" else "3600"]
        if os.environ.get("VERIF_SCALE"):
            cmd += ["--scale", os.environ["VERIF_SCALE"]]
        r = subprocess.run(cmd)
        if r.returncode not in (0, 1):
            sys.stderr.write("harness failed: %d\n" % r.returncode)
            return 2
        res = json.load(open(resf))
        checks = res["checks"]
        bad = [c for c in checks if c["failed"]]
        tags = {}
        for c in checks:
            for k, v in c.get("tags", {}).items():
                tags[c["name"] + ": " + k] = v
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": sum(c["evaluations"] for c in checks),
                "distinct_nontrivial": sum(c["distinct_nontrivial"] for c in checks),
                "rule": " | ".join(c["name"] + ": " + c["rule"] for c in checks) +
                        " (distinct = different sequence of generator choices)",
                "samples": [s for c in checks for s in c["samples"]][:8] or
                           ["no non-trivial case"],
                "checks": {c["name"]: {k: c[k] for k in
                           ("planned", "evaluations", "distinct_nontrivial", "wall_s",
                            "unreproducible") if k in c} for c in checks},
                "classes": tags,
            },
            "assumptions": ASSUMPTIONS,
            "wall_s": round(time.time() - t0, 2),
            "violations": len(bad),
        }
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        for c in checks:
            print("%s/%s: %d cases, %d distinct non-trivial, %.1f s" %
                  (prop, c["name"], c["evaluations"], c["distinct_nontrivial"], c["wall_s"]))
        if bad:
            for c in bad:
                print(c["message"])
                print("VIOLATION property=%s replay=%s" % (prop, c["replay"]))
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
