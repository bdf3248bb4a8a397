#!/usr/bin/env python3
"""Driver of the checks.

  run.py check C01 [--tier quick|thorough]     decide one property
  run.py replay replay/C01-....txt             rebuild and replay a failure
  run.py setup                                 sanity of the tool chain

A check builds its harness from the working tree of /repo, runs generated cases
in several workers, and exits 0 (held on everything explored) or 1 (a
reproducible, shrunk counter-example, announced by a VIOLATION line).
"""
import array
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS, MKL_LIBS  # noqa: E402

CLANG = ["clang++", "-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer",
         "-fsanitize=address",
         "-fsanitize=signed-integer-overflow,shift,bounds,alignment,"
         "integer-divide-by-zero,bool,enum,return,unreachable,"
         "float-cast-overflow,vla-bound",
         "-fno-sanitize-recover=all", "-DPBT_SANITIZER", "-DPBT_DEBUG",
         "-DIL_UNIT_TEST"]
COV = ["-fsanitize-coverage=inline-8bit-counters,trace-cmp"]
GCC = ["g++", "-std=c++17", "-O2", "-g1", "-fno-omit-frame-pointer",
       "-fsanitize=address", "-DPBT_SANITIZER", "-DPBT_RELEASE", "-DNDEBUG"]
COMMON = ["-w", "-I" + VERIF + "/pbt", "-I" + REPO, "-I/usr/include/mkl",
          "-DIL_MKL", "-DIL_BLAS", "-include", "cstdint", "-pthread"]
# Checks on as in a user's debug build: a precondition aborts the program
CHK = [x for x in CLANG if x != "-DIL_UNIT_TEST"] + ["-DPBT_ABORTS"]
# The overflows found by the builtins of the compiler
BLT = GCC + ["-DIL_BUILTIN_SAFE_ARITHMETIC=1"]
# ThreadSanitizer
TSN = ["clang++", "-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer",
       "-fsanitize=thread", "-DPBT_DEBUG", "-DIL_UNIT_TEST"]
TSR = ["g++", "-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer",
       "-fsanitize=thread", "-DPBT_RELEASE", "-DNDEBUG"]
VARIANTS = {"dbg": CLANG, "rel": GCC, "chk": CHK, "blt": BLT, "tsn": TSN,
            "tsr": TSR}


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:"
                         "allocator_may_return_null=1:max_allocation_size_mb=2000:"
                         "hard_rss_limit_mb=3500:detect_stack_use_after_return=0:"
                         "alloc_dealloc_mismatch=1:new_delete_type_mismatch=1:handle_abort=1")
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=98"
    e["TSAN_OPTIONS"] = ("halt_on_error=1:exitcode=66:atexit_sleep_ms=0:"
                         "ignore_noninstrumented_modules=1:history_size=4")
    e["MKL_CBWR"] = "COMPATIBLE"
    e["OMP_NUM_THREADS"] = "1"
    e["MKL_NUM_THREADS"] = "1"
    e["LC_ALL"] = "C.UTF-8"
    return e


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          env=env(), **kw)


class BuildError(Exception):
    pass


def build(chk, variants, out):
    """Compile harness + library sources for each variant, in parallel."""
    jobs = []
    exes = {}
    for v in variants:
        objs = []
        flags = VARIANTS[v] + COMMON + chk.get("flags", [])
        srcs = [(VERIF + "/pbt/pbt.cpp", False),
                (VERIF + "/harness/" + chk["src"], True)]
        srcs += [(os.path.join(REPO, x), True) for x in chk.get("repo_src", [])]
        srcs += [(VERIF + "/harness/" + x, True) for x in chk.get("extra_src", [])]
        # A harness which takes long to compile is compiled in parts
        if chk.get("parts"):
            srcs[1:2] = [srcs[1] + (k,) for k in range(chk["parts"])]
        for i, (s, cov, *part) in enumerate(srcs):
            o = os.path.join(out, "%s-%d.o" % (v, i))
            f = flags + (COV if (cov and v == "dbg") else [])
            f = f + ["-DPBT_PART=%d" % k for k in part]
            if i == 0:
                f = f + ["-fno-sanitize=undefined"]
            jobs.append(f + ["-c", s, "-o", o])
            objs.append(o)
        exes[v] = (flags, objs)

    def comp(cmd):
        r = sh(cmd)
        return cmd, r.returncode, r.stdout.decode("utf8", "replace")
    with ThreadPoolExecutor(8) as ex:
        for cmd, rc, o in ex.map(comp, jobs):
            if rc != 0:
                raise BuildError(" ".join(cmd) + "\n" + o[-6000:])
    res = {}
    links = []
    for v, (flags, objs) in exes.items():
        exe = os.path.join(out, "pbt-" + v)
        libs = MKL_LIBS if chk.get("mkl") else []
        links.append([x for x in flags if not x.startswith("-include") and x != "cstdint"] + objs + ["-o", exe] + libs + chk.get("libs", []))
        res[v] = exe
    with ThreadPoolExecutor(8) as ex:
        for cmd, rc, o in ex.map(comp, links):
            if rc != 0:
                raise BuildError(" ".join(cmd) + "\n" + o[-6000:])
    return res


def known(prop):
    """{probe id: text} of the findings listed for this property."""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            w = line.strip().split(None, 3)
            if len(w) >= 3 and w[0] == "finding:" and w[1] == "property=" + prop and w[2].startswith("id="):
                res[w[2][3:]] = w[3] if len(w) > 3 else ""
    return res


def replay_once(exe, path, scratch):
    e = env()
    e["PBT_SCRATCH"] = scratch
    try:
        r = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=e, timeout=120)
    except subprocess.TimeoutExpired:
        return False, "time limit"
    return r.returncode != 0, r.stdout.decode("utf8", "replace")


def check(prop, tier):
    t0 = time.time()
    chk = CHECKS[prop]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:4], "big")
    base_seed = (seed & 0xffffffffffff) + 1
    variants = chk.get("variants", ["dbg", "rel"])
    work = tempfile.mkdtemp(prefix="pbt-%s-" % prop)
    procs = []
    try:
        try:
            exes = build(chk, variants, work)
        except BuildError as e:
            print("BUILD ERROR of the harness for %s:\n%s" % (prop, e))
            return 2
        t_build = time.time() - t0
        info = json.loads(sh([exes[variants[0]], "info"]).stdout.decode())
        mult = float(os.environ.get("PBT_SCALE", "1"))
        total = int(info[tier] * mult)
        limit = float(os.environ.get("PBT_LIMIT", 240 if tier == "quick" else 3000))
        # workers
        nw = chk.get("workers", 8)
        plan = []
        for k in range(nw):
            v = variants[0] if (len(variants) == 1 or k % 4 != 3) else variants[1]
            if len(variants) == 3 and k % 8 == 5:
                v = variants[2]
            plan.append((k, v))
        per = max(1, total // nw)
        violations = []
        flaky = []
        inconclusive = 0
        for k, v in plan:
            out = os.path.join(work, "w%d" % k)
            sc = os.path.join(out, "scratch")
            os.makedirs(sc)
            e = env()
            e["PBT_SCRATCH"] = sc
            args = [exes[v], "run", str(base_seed * 7919 + k), str(per), str(limit), "40", out]
            procs.append((k, v, out, args, e, subprocess.Popen(
                args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e)))
        results = {}
        pending = list(procs)
        stop_at = None
        while pending:
            for p in list(pending):
                if p[5].poll() is not None:
                    results[p[0]] = (p[5].returncode, p[5].stdout.read().decode("utf8", "replace").strip())
                    pending.remove(p)
                    if p[5].returncode == 10:
                        stop_at = min(stop_at or 1e18, time.time() + 1)
            if stop_at and time.time() > stop_at:
                for p in pending:
                    subprocess.run(["pkill", "-KILL", "-P", str(p[5].pid)])
                    p[5].kill()
                    p[5].wait()
                break
            time.sleep(0.02)
        # statistics
        ev = 0
        disc = 0
        mutated = 0
        cut = 0
        hashes = set()
        tags = {}
        cases = {}
        samples = []
        corpus = 0
        for k, v, out, args, e, p in procs:
            st = os.path.join(out, "stats.json")
            if not os.path.exists(st):
                continue
            d = json.load(open(st))
            ev += d["evaluations"]
            disc += d["discarded"]
            mutated += d["mutated"]
            corpus += sum(d["corpus"])
            cut += 1 if d["cut"] else 0
            for n, (a, b) in d["cases"].items():
                x = cases.setdefault(n, [0, 0])
                x[0] += a
                x[1] += b
            for n, a in d["tags"].items():
                tags[n] = tags.get(n, 0) + a
            h = array.array("Q")
            with open(os.path.join(out, "hashes"), "rb") as f:
                h.frombytes(f.read())
            hashes.update(h)
            if len(samples) < 40:
                samples += [dict(x, variant=v) for x in d["samples"]]
        # keep a few samples of each case
        kept = []
        seen = {}
        for s in samples:
            n = seen.get(s["case"], 0)
            if n < 2:
                seen[s["case"]] = n + 1
                kept.append(s)
        # failures
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        for k, v, out, args, e, p in procs:
            if k not in results:
                continue
            rc, txt = results[k]
            if rc == 0:
                continue
            if rc == 10:
                src = os.path.join(out, "failure")
                sc = os.path.join(out, "scratch")
                ok = 0
                last = ""
                for _ in range(3):
                    r, last = replay_once(exes[v], src, sc)
                    ok += 1 if r else 0
                if ok == 3:
                    body = open(src).read()
                    name = "%s-%s.txt" % (prop, hashlib.sha1((body + v).encode()).hexdigest()[:10])
                    path = os.path.join(VERIF, "replay", name)
                    with open(path, "w") as f:
                        f.write("property %s\nvariant %s\n" % (prop, v) + body)
                        f.write("# worker result: %s\n" % txt)
                        for line in last.splitlines()[:120]:
                            f.write("# " + line + "\n")
                    violations.append((path, txt))
                else:
                    flaky.append((k, txt, ok))
            elif rc == 4:
                # the failure needs the history of the process: replay the run
                ok = 0
                for _ in range(2):
                    try:
                        r = subprocess.run(args[:-2] + ["1", out], stdout=subprocess.PIPE,
                                           stderr=subprocess.DEVNULL, env=e, timeout=limit + 200)
                        ok += 1 if r.returncode in (4, 10) else 0
                    except subprocess.TimeoutExpired:
                        pass
                if ok == 2:
                    name = "%s-run-%d.txt" % (prop, k)
                    path = os.path.join(VERIF, "replay", name)
                    with open(path, "w") as f:
                        f.write("property %s\nvariant %s\nrun %s\n" % (prop, v, " ".join(args[2:4])))
                        f.write("# worker result: %s\n" % txt)
                    violations.append((path, txt))
                else:
                    flaky.append((k, txt, ok))
            else:
                inconclusive += 1
        # known findings
        notes = []
        kn = known(prop)
        sc = os.path.join(work, "probe")
        os.makedirs(sc)
        e = env()
        e["PBT_SCRATCH"] = sc
        pr = subprocess.run([exes[variants[0]], "probes"], stdout=subprocess.PIPE,
                            stderr=subprocess.DEVNULL, env=e).stdout.decode()
        for line in pr.splitlines():
            w = line.split()
            if len(w) == 3 and w[0] == "PROBE":
                if w[2] == "present":
                    if w[1] in kn:
                        print("KNOWN-FINDING: property=%s %s: %s" % (prop, w[1], kn[w[1]]))
                        notes.append("known finding still present: " + w[1])
                    else:
                        name = "%s-probe-%s.txt" % (prop, w[1])
                        path = os.path.join(VERIF, "replay", name)
                        with open(path, "w") as f:
                            f.write("property %s\nvariant %s\nprobe %s\n" % (prop, variants[0], w[1]))
                        violations.append((path, "probe " + w[1]))
                else:
                    notes.append("probe no longer fails: " + w[1])
        wall = time.time() - t0
        evd = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": ev,
                "distinct_nontrivial": len(hashes),
                "rule": info["rule"],
                "samples": kept,
                "per_case": {n: {"evaluations": a, "nontrivial": b} for n, (a, b) in sorted(cases.items())},
                "classes": dict(sorted(tags.items())),
                "discarded": disc,
                "coverage_guided_mutants": mutated,
                "coverage_corpus": corpus,
                "workers": ["%d:%s" % (k, v) for k, v in plan],
                "workers_cut_by_time_limit": cut,
                "workers_inconclusive": inconclusive,
                "unreproducible_failures": [str(x) for x in flaky],
                "build_s": round(t_build, 1),
            },
            "assumptions": chk.get("assumptions", []),
            "wall_s": round(wall, 2),
            "violations": len(violations),
        }
        if notes:
            evd["coverage"]["notes"] = notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evd, f, indent=1)
            f.write("\n")
        print("%s %s: %d cases, %d distinct non-trivial, %.1f s (build %.1f s), cut %d, inconclusive %d, flaky %d" % (
            prop, tier, ev, len(hashes), wall, t_build, cut, inconclusive, len(flaky)))
        for x in flaky:
            print("not reproducible, not reported: %s" % (x,))
        if violations:
            violations.sort(key=lambda x: "-run-" in x[0])
            for path, txt in violations[:1]:
                print(txt)
                print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    finally:
        for p in procs:
            if p[5].poll() is None:
                subprocess.run(["pkill", "-KILL", "-P", str(p[5].pid)])
                p[5].kill()
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    meta = {}
    for line in open(path):
        w = line.split(None, 1)
        if len(w) == 2 and w[0] in ("property", "variant", "probe", "run"):
            meta.setdefault(w[0], w[1].strip())
    prop, v = meta["property"], meta["variant"]
    work = tempfile.mkdtemp(prefix="pbt-replay-")
    try:
        exe = build(CHECKS[prop], [v], work)[v]
        if "probe" in meta:
            r = sh([exe, "probes"]).stdout.decode()
            print(r)
            return 1 if ("PROBE %s present" % meta["probe"]) in r else 0
        if "run" in meta:
            seed, cases = meta["run"].split()
            e = env()
            e["PBT_SCRATCH"] = work
            r = subprocess.run([exe, "run", seed, cases, "600", "10", work], env=e)
            return 1 if r.returncode in (4, 10) else 0
        r, txt = replay_once(exe, path, work)
        print(txt)
        return 1 if r else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    a = sys.argv[1:]
    if a and a[0] == "setup":
        for t in ("clang++", "g++"):
            if shutil.which(t) is None:
                print("missing tool", t)
                return 1
        print("ok")
        return 0
    if len(a) >= 2 and a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[1], "thorough" if tier == "thorough" else "quick")
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
