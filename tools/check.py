#!/usr/bin/env python3
"""Builds the harness for one property from /repo's working tree and runs it.

usage: check.py <ID> [--tier quick|thorough] [--only BIN:CASE] [-v]
exit 0: property held on everything explored; 1: VIOLATION printed; 2: harness error.
"""
import sys, os, subprocess, json, hashlib, time, glob, struct, shutil, tempfile, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS, BINARIES  # noqa: E402

JOBS = int(os.environ.get("VERIF_JOBS") or os.cpu_count() or 4)
SCALE = float(os.environ.get("VERIF_SCALE") or 1)  # of the number of cases, for experiments


class HarnessError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def pkg(flag, mods):
    r = sh(["pkg-config", flag] + mods)
    if r.returncode:
        raise HarnessError("pkg-config: " + r.stdout)
    return r.stdout.split()


def is_product(path):
    b = os.path.basename(path)
    return b.endswith(".cpp") and not any(x in b for x in ("Test.cpp", "_test.cpp", "Benchmark.cpp"))


def repo_sources(level):
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, "src", "Engine")):
        out += [os.path.join(d, f) for f in files]
    for d, dirs, files in os.walk(os.path.join(REPO, "src", "ChineseNumbers")):
        out += [os.path.join(d, f) for f in files]
    if level in ("core", "engine"):
        out += glob.glob(os.path.join(REPO, "src", "*.cpp"))
    out = sorted(f for f in out if is_product(f))
    if level == "core":
        out = [f for f in out if os.path.basename(f) != "McBopomofo.cpp"]
    return out


def header_hash():
    h = hashlib.sha256()
    fs = []
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        fs += [os.path.join(d, f) for f in files if f.endswith((".h", ".inc", ".hpp"))]
    fs += glob.glob(os.path.join(VERIF, "harness", "*.h"))
    for f in sorted(fs):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def build(binary):
    """Compile everything the binary needs with sanitizers; returns its path."""
    spec = BINARIES[binary]
    level = spec["level"]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    san = spec.get("san", "address,undefined")
    fsan = ["-fsanitize=" + san, "-fno-sanitize-recover=all"] if san else []
    cxx = ["clang++", "-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer"] + fsan + ["-U_FORTIFY_SOURCE", "-w", "-UNDEBUG",
           '-DFCITX_GETTEXT_DOMAIN="fcitx5-mcbopomofo"']
    inc = ["src", "src/Engine", "src/Engine/Mandarin", "src/Engine/gramambular2", "src/ChineseNumbers"]
    cxx += ["-I" + os.path.join(REPO, i) for i in inc] + ["-I" + os.path.join(VERIF, "harness")]
    libs = []
    if level == "lib":
        cxx += ["-D_GLIBCXX_DEBUG"]
    else:
        cxx += ["-D_GLIBCXX_ASSERTIONS"]
        mods = ["Fcitx5Core", "Fcitx5Utils", "Fcitx5Config", "fmt", "json-c", "icu-uc", "icu-i18n"]
        cxx += pkg("--cflags", mods)
        cxx += [a for a in os.environ.get("VERIF_EXTRA", "").split()]
        extra = sh(["pkg-config", "--cflags", "Fcitx5Module"])
        if extra.returncode == 0:
            cxx += extra.stdout.split()
        if level == "engine":
            # no pkg-config file knows of this one
            for h in glob.glob("/usr/include/Fcitx5/Module/fcitx-module/notifications/notifications_public.h"):
                cxx += ["-I" + os.path.dirname(h)]
        libs += pkg("--libs", mods)
    cxx += spec.get("flags", [])
    hh = header_hash()
    sources = repo_sources(level) + [os.path.join(VERIF, "harness", s) for s in spec["sources"]]

    def compile_one(src):
        h = hashlib.sha256()
        h.update(("\0".join(cxx) + hh + src).encode())
        with open(src, "rb") as f:
            h.update(f.read())
        obj = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + h.hexdigest()[:24] + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            r = sh(cxx + ["-c", src, "-o", tmp])
            if r.returncode:
                return src, None, r.stdout
            os.rename(tmp, obj)
        return src, obj, ""

    # biggest first, so the parallel build is balanced
    sources.sort(key=lambda s: -os.path.getsize(s))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(compile_one, sources))
    bad = [r for r in res if r[1] is None]
    if bad:
        raise HarnessError("compilation of %s failed:\n%s" % (bad[0][0], bad[0][2][-4000:]))
    objs = {s: o for s, o, _ in res}
    key = hashlib.sha256(" ".join(sorted(objs.values())).encode() + " ".join(cxx + libs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "%s-%s" % (binary, key))
    if not os.path.exists(exe):
        mine = [objs[s] for s in sources if s.startswith(VERIF + "/harness")]
        theirs = [objs[s] for s in sources if not s.startswith(VERIF + "/harness")]
        lib = exe + ".a"
        if os.path.exists(lib):
            os.unlink(lib)
        r = sh(["ar", "crs", lib] + theirs)
        if r.returncode:
            raise HarnessError("ar: " + r.stdout)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh(["clang++"] + fsan + ["-g1"] + mine + [lib] + libs + spec.get("libs", []) + ["-o", tmp])
        if r.returncode:
            raise HarnessError("link: " + r.stdout[-4000:])
        os.rename(tmp, exe)
        os.unlink(lib)
    return exe


def run_env(scratch):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "VERIF_SEED", "VERIF_TIER", "VF_BLAME_ALL")}
    env.update({
        "LC_ALL": "C.UTF-8", "TZ": "Asia/Taipei", "HOME": scratch, "TMPDIR": scratch,
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:detect_stack_use_after_return=1:"
                        "handle_abort=1:allocator_may_return_null=1:malloc_context_size=12:quarantine_size_mb=64",
        "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=87",
        "ASAN_SYMBOLIZER_PATH": shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or "",
        "XDG_DATA_HOME": scratch + "/xdg/data", "XDG_CONFIG_HOME": scratch + "/xdg/config",
        "XDG_CACHE_HOME": scratch + "/xdg/cache", "XDG_RUNTIME_DIR": scratch + "/xdg/run",
        "XDG_DATA_DIRS": scratch + "/xdg/share", "XDG_CONFIG_DIRS": scratch + "/xdg/etc",
        "VERIF_REPO": REPO,
    })
    return env


def bin_env(b):
    """What the binary's processes have in their environment besides the usual."""
    spec = BINARIES[b]
    env = dict(spec.get("env", {}))
    loc = spec.get("locale")
    if loc:
        d = os.path.join(BUILD, "locale")
        if not loc.startswith("C.") and not os.path.isdir(os.path.join(d, loc)):
            os.makedirs(d, exist_ok=True)
            lang, charset = loc.split(".")
            tmp = os.path.join(d, loc + ".%d.tmp" % os.getpid())
            r = sh(["localedef", "-c", "-i", lang, "-f", charset, tmp])
            if not os.path.exists(os.path.join(tmp, "LC_NUMERIC")):
                raise HarnessError("localedef: " + r.stdout)
            try:
                os.rename(tmp, os.path.join(d, loc))
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)  # someone else was first
        env.update({"LC_ALL": loc, "LOCPATH": d, "VF_LOCALE": loc})
    return env


def classify(rc, err):
    if rc == 99:
        return "property"
    if rc == 97:
        return "hang"
    if rc in (3, 4):
        return "harness"
    if rc in (-9,):
        return "killed"
    return "crash"


def main():
    t0 = time.time()
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    verbose = False
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 2
        elif args[i] == "--only":
            only = args[i + 1]; i += 2
        elif args[i] == "-v":
            verbose = True; i += 1
        else:
            print("bad argument", args[i]); return 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[prop]
    runs = spec["run"]  # list of binaries
    scratch = tempfile.mkdtemp(prefix="vchk-%s-" % prop, dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
    os.chmod(scratch, 0o755)
    try:
        return go(prop, tier, only, verbose, seed, spec, runs, scratch, t0)
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", scratch])
        shutil.rmtree(scratch, ignore_errors=True)


def go(prop, tier, only, verbose, seed, spec, runs, scratch, t0):
    known = []
    kf = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                known.append(line)
    exes = {}
    for b in runs:
        exes[b] = build(b)
    env = run_env(scratch)
    total = {"evaluations": 0, "counters": {}, "samples": []}
    distinct = set()
    violation = None
    infra = None
    results = {}
    done = {}
    slow = False
    if only:
        b, case = only.split(":")
        wd = os.path.join(scratch, "w")
        os.makedirs(wd)
        cmd = BINARIES[b].get("wrap", []) + [exes[b], "--prop", prop, "--seed", str(seed), "--only", case, "--scratch", wd, "--tier", tier]
        if verbose:
            cmd.append("-v")
        r = subprocess.run(cmd, env={**run_env(wd), **bin_env(b)}, cwd=wd)
        print("exit", r.returncode)
        return 0 if r.returncode == 0 else 1
    budget = spec.get("budget", {}).get(tier, 60 if tier == "quick" else 480) / len(runs)
    listing = {}
    for b in runs:
        lst = subprocess.run([exes[b], "--list"], env=env, stdout=subprocess.PIPE, text=True).stdout
        for l in lst.splitlines():
            p, q, t = l.split()
            if p == prop:
                listing[b] = max(1, int(int(q if tier == "quick" else t) * SCALE * BINARIES[b].get("cases", 1)))
    for b in runs:
        if b not in listing:
            raise HarnessError("%s does not know %s" % (b, prop))
    for b in runs:
        procs = []
        W = spec.get("workers", JOBS)
        for w in range(W):
            wd = os.path.join(scratch, "%s-%d" % (b, w))
            os.makedirs(wd)
            out, rec, errp = wd + ".json", wd + ".rec", wd + ".err"
            cmd = BINARIES[b].get("wrap", []) + [exes[b], "--prop", prop, "--seed", str(seed), "--cases", str(listing[b]), "--worker", str(w),
                   "--workers", str(W), "--tlimit", str(budget), "--out", out, "--rec", rec, "--scratch", wd,
                   "--tier", tier, "--case-timeout", str(spec.get("case_timeout", 60))]
            ef = open(errp, "wb")
            p = subprocess.Popen(cmd, env={**run_env(wd), **bin_env(b)}, cwd=wd, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL)
            procs.append((p, out, rec, errp, wd, w))
        for p, out, rec, errp, wd, w in procs:
            try:
                rc = p.wait(timeout=budget + spec.get("case_timeout", 60) + 60)
            except subprocess.TimeoutExpired:
                p.kill(); rc = p.wait(); infra = infra or "worker %d of %s did not end" % (w, b)
            err = open(errp, "r", errors="replace").read()[-20000:]
            js = None
            if os.path.exists(out):
                js = json.load(open(out))
                total["evaluations"] += js["evaluations"]
                done[b] = done.get(b, 0) + js["evaluations"]
                for k, v in js["counters"].items():
                    total["counters"][k] = total["counters"].get(k, 0) + v
                total["samples"] += js["samples"][:1]
                raw = open(out + ".distinct", "rb").read()
                distinct.update(struct.unpack("<%dQ" % (len(raw) // 8), raw))
                if "wrap" in BINARIES[b]:
                    total["counters"]["under_memcheck"] = total["counters"].get("under_memcheck", 0) + js["evaluations"]
                if os.path.exists(out + ".results"):
                    for l in open(out + ".results"):
                        c, h = l.split()
                        results.setdefault(b, {})[int(c)] = h
            if rc == 0:
                continue
            kind = classify(rc, err)
            trace = ""
            case = None
            if os.path.exists(rec):
                raw = open(rec, "rb").read()
                try:
                    case = int(raw[:64].split(b"\0")[0].strip() or b"0")
                except ValueError:
                    case = None
                trace = raw[64:].split(b"\0")[0].decode("utf-8", "replace")
            msg = js["fail"] if js and js.get("fail") else "%s (exit status %d): %s" % (kind, rc, summarize(err))
            if kind in ("harness", "killed"):
                infra = infra or "%s worker %d: %s" % (b, w, msg)
                continue
            if kind == "hang" and case is not None:
                # confirm, alone: a loaded machine is not a hang
                wd2 = wd + "-again"
                os.makedirs(wd2)
                r = subprocess.run(BINARIES[b].get("wrap", []) + [exes[b], "--prop", prop, "--seed", str(seed), "--only", str(case), "--scratch", wd2,
                                    "--tier", tier, "--case-timeout", str(2 * spec.get("case_timeout", 60))],
                                   env={**run_env(wd2), **bin_env(b)}, cwd=wd2, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if r.returncode == 0:
                    # not a hang; the rest of this worker's share is missing
                    print("note: case %s timed out once but not when repeated" % case)
                    slow = True
                    continue
            v = {"property": prop, "binary": b, "case": case, "seed": seed, "tier": tier, "kind": kind, "message": msg,
                 "trace": trace.splitlines()[-400:], "stderr": err[-6000:],
                 "replay": "cd /verif && VERIF_SEED=%d python3 tools/check.py %s --tier %s --only %s:%s -v" % (seed, prop, tier, b, case)}
            if violation is None or (violation["case"] or 0) > (case or 0):
                violation = v
    if spec.get("compare") and violation is None:
        violation = compare(prop, runs, exes, results, total, scratch, seed, tier)
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"],
          "coverage": {"evaluations": total["evaluations"], "distinct_nontrivial": len(distinct), "rule": spec["rule"],
                       "samples": total["samples"][:4], "observed": total["counters"]},
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    os.makedirs(EVIDENCE, exist_ok=True)
    evp = os.path.join(EVIDENCE, prop + ".json")
    with open(evp + ".tmp", "w") as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
    os.rename(evp + ".tmp", evp)
    if violation:
        rp = os.path.join(BUILD, "replay-%s.json" % prop)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            json.dump(violation, f, ensure_ascii=False, indent=1)
        print("property %s, case %s of %s: %s" % (prop, violation["case"], violation["binary"], violation["message"]))
        print("replay: " + violation["replay"])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    for k in known:
        print(k)
    if infra:
        print("harness error: " + infra)
        return 2
    # The run must have observed something, or it proves nothing. On a slow
    # machine the time budget cuts the runs short, and less is expected.
    part = min([1.0] + [done.get(b, 0) / listing[b] for b in runs])
    for k, minimum in spec.get("expect", {}).items():
        if total["counters"].get(k, 0) < minimum * min(SCALE, 1) * part / (2 if SCALE < 1 or part < 1 or slow else 1):
            print("harness error: only %d of %s observed, at least %d expected" % (total["counters"].get(k, 0), k, minimum))
            return 2
    if total["evaluations"] == 0:
        print("harness error: nothing was evaluated")
        return 2
    print("%s held: %d cases, %d distinct, %s (%.1f s)" % (prop, total["evaluations"], len(distinct),
          ", ".join("%s=%d" % kv for kv in sorted(total["counters"].items())), wall))
    return 0


def compare(prop, runs, exes, results, total, scratch, seed, tier):
    """The cases must give the same in every build."""
    base = results.get(runs[0], {})
    for b in runs[1:]:
        for c in sorted(results.get(b, {})):
            if c not in base:
                continue
            total["counters"]["compared"] = total["counters"].get("compared", 0) + 1
            if results[b][c] == base[c]:
                continue
            recs = []
            for x in (runs[0], b):
                wd = os.path.join(scratch, "diff-" + x)
                os.makedirs(wd)
                subprocess.run(BINARIES[x].get("wrap", []) + [exes[x], "--prop", prop, "--seed", str(seed), "--only", str(c), "--scratch", wd, "--tier", tier],
                               env={**run_env(wd), **bin_env(x), "VF_RECORD": wd + "/record"}, cwd=wd,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                try:
                    recs.append(open(wd + "/record", errors="replace").read().split("\n"))
                except OSError:
                    recs.append([])
            diff = next(((i, p, q) for i, (p, q) in enumerate(zip(*recs)) if p != q), None)
            if diff:
                msg = "line %d of what case %d gives is %s in %s and %s in %s" % (diff[0], c, diff[1][:400], runs[0], diff[2][:400], b)
            else:
                msg = "case %d gives different results in %s and %s, after the same cases before it" % (c, runs[0], b)
            return {"property": prop, "binary": b, "case": c, "seed": seed, "tier": tier, "kind": "property", "message": msg, "trace": [], "stderr": "",
                    "replay": "cd /verif && VERIF_SEED=%d python3 tools/check.py %s --tier %s --only %s:%s -v" % (seed, prop, tier, b, c)}
    return None


def summarize(err):
    keep = []
    for l in err.splitlines():
        if any(x in l for x in ("ERROR: AddressSanitizer", "runtime error", "Assertion", "PROPERTY-FAILED", "terminate called", "uninitialised", "Invalid read", "Invalid write", "Invalid free", "Mismatched free", "what():", "HANG", "Error: attempt")):
            keep.append(l.strip())
    frames = [l.strip() for l in err.splitlines() if l.strip().startswith("#") and "/repo/" in l]
    return "; ".join(keep[:4] + frames[:3]) or err[-300:].replace("\n", " ")


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        print("harness error:", e)
        sys.exit(2)
