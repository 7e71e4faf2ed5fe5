#!/usr/bin/env python3
"""Driver of the monitors.

  check.py <ID> [--tier quick|thorough]   run one check: exit 0 held, 1 + VIOLATION line, 2 error of the check
  check.py --setup                        compile the library and every harness once (warms build/)
  check.py <ID> --replay FILE             run the single case recorded in a replay file
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(V, "build")
CXX = "g++"
BASE = ["-std=c++14", "-Wno-changes-meaning", "-w", "-fpermissive", "-pipe", "-pthread",
        "-include", "cstring", "-include", "cstdlib", "-include", "cmath", "-include", "cxxabi.h",
        "-I" + REPO, "-g1", "-fno-omit-frame-pointer"]
MODES = {
    "asan": ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern",
             "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"],
    "tsan": ["-O0", "-fsanitize=thread", "-DVP_TSAN=1"],
}
ENVS = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:max_malloc_fill_size=1048576:malloc_fill_byte=190:"
                    "hard_rss_limit_mb=3500:allocator_may_return_null=0:detect_stack_use_after_return=1:check_initialization_order=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:report_signal_unsafe=0",
    "LSAN_OPTIONS": "exitcode=98",
    "LC_ALL": "C.UTF-8",
    "TZ": "UTC0",
}
JOBS = 8


class Error(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash():
    h = hashlib.sha256()
    for top in ("flut", "contrib", "external"):
        for d, dn, fn in sorted(os.walk(os.path.join(REPO, top))):
            for f in sorted(fn):
                if f.endswith((".hpp", ".cpp", ".h", ".c", ".inl", ".ipp")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()[:20]


def sources():
    r = []
    for d, dn, fn in sorted(os.walk(os.path.join(REPO, "flut"))):
        r += [os.path.join(d, f) for f in sorted(fn) if f.endswith(".cpp")]
    return r


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def fresh(path, make):
    """make(tmp) writes tmp; it becomes path atomically."""
    if os.path.exists(path):
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = "%s.%d.tmp" % (path, os.getpid())
    make(tmp)
    os.rename(tmp, path)
    return path


def build_lib(mode, th):
    """Static library of every flut source that compiles; returns (path, [files that do not compile])."""
    out = os.path.join(BUILD, "lib", sha(th, mode, CXX, BASE, MODES[mode]))
    lib, bad = out + ".a", out + ".bad"
    if os.path.exists(lib):
        return lib, read(bad).decode().split("\n")[:-1]
    os.makedirs(os.path.dirname(out), exist_ok=True)
    work = tempfile.mkdtemp(prefix="lib", dir=BUILD)
    try:
        def one(src):
            o = os.path.join(work, sha(src) + ".o")
            p = run([CXX] + BASE + MODES[mode] + ["-DFLUT_EXPORTS", "-c", src, "-o", o])
            return src, o, p.returncode, p.stdout
        with cf.ThreadPoolExecutor(JOBS) as ex:
            # largest first
            res = list(ex.map(one, sorted(sources(), key=lambda s: -os.path.getsize(s) - (10 ** 6 if "prop_node" in s else 0))))
        failed = [s for s, o, rc, e in res if rc]
        for s, o, rc, e in res:
            if rc:
                sys.stderr.write("note: %s does not compile\n%s\n" % (s, e.decode(errors="replace")[:2000]))
        objs = sorted(o for s, o, rc, e in res if not rc)
        with open(bad + ".tmp", "w") as f:
            f.write("".join(s + "\n" for s in failed))
        os.rename(bad + ".tmp", bad)

        def make(tmp):
            p = run(["ar", "rcs", tmp] + objs)
            if p.returncode:
                raise Error("ar failed: " + p.stdout.decode(errors="replace"))
        fresh(lib, make)
        return lib, failed
    finally:
        shutil.rmtree(work, ignore_errors=True)


def directives(src):
    text = read(src).decode()
    d = {}
    for m in re.finditer(r"^// vp-(\w+): *(.*)$", text, re.M):
        d.setdefault(m.group(1), m.group(2).strip())
    return d


def harness_src(cid):
    return os.path.join(V, "harness", cid + ".cpp")


def compile_obj(cid, mode, th, flags):
    src = harness_src(cid)
    hdrs = b"".join(read(os.path.join(V, "harness", f)) for f in sorted(os.listdir(os.path.join(V, "harness"))) if f.endswith(".hpp"))
    o = os.path.join(BUILD, "obj", "%s-%s-%s.o" % (cid, mode, sha(th, hdrs, read(src), mode, flags, CXX, BASE, MODES[mode])))

    def make(tmp):
        p = run([CXX] + BASE + MODES[mode] + flags + ["-I" + os.path.join(V, "harness"), "-c", src, "-o", tmp])
        if p.returncode:
            raise Error("harness %s does not compile (%s)\n%s" % (cid, mode, p.stdout.decode(errors="replace")[:6000]))
    return fresh(o, make)


def build_harness(cid, mode, th):
    d = directives(harness_src(cid))
    flags = d.get("flags", "").split()
    link = d.get("link", "").split()
    with cf.ThreadPoolExecutor(2) as ex:
        fo = ex.submit(compile_obj, cid, mode, th, flags)
        fl = ex.submit(build_lib, mode, th)
        lib, failed = fl.result()
        obj = fo.result()
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (cid, mode, sha(obj, lib, link)))

    def make(tmp):
        p = run([CXX] + MODES[mode] + ["-pthread", "-o", tmp, obj] + link + [lib])
        if p.returncode:
            raise Error("harness %s does not link (%s; sources that failed to compile: %s)\n%s" % (
                cid, mode, failed, p.stdout.decode(errors="replace")[:6000]))
    return fresh(exe, make)


def env():
    e = dict(os.environ)
    e.update(ENVS)
    e["VP_SCRATCH"] = SCRATCH
    e["VP_REPO"] = REPO
    return e


SCRATCH = None
ASLR = {}


def launcher(mode, exe):
    """ThreadSanitizer needs a predictable address space on kernels with many random bits."""
    if mode != "tsan":
        return []
    if exe not in ASLR:
        ASLR[exe] = []
        for pre in ([], ["setarch", os.uname().machine, "-R"]):
            p = run(pre + [exe, "--list"], env=env())
            if p.returncode == 0:
                ASLR[exe] = pre
                break
    return ASLR[exe]


def classify(text):
    m = re.search(r"(AddressSanitizer|LeakSanitizer|ThreadSanitizer): ([^\n(]*)", text)
    if m:
        s = re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(2)).strip()
        kind = "%s:%s" % (m.group(1), " ".join(s.split()[:4]))
    else:
        m = re.search(r"([\w./-]+\.(?:hpp|cpp|h)):\d+(?::\d+)?: runtime error: ([^\n]*)", text)
        if m:
            kind = "UBSan:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?", "N", m.group(2))[:60])
        else:
            m = re.search(r"Assertion '([^']*)' failed", text)
            kind = "assertion:" + m.group(1)[:60] if m else "abort"
    frames = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in ([\w:~<>]+)", text)]
    frames += re.findall(r"^\s+#\d+ ([\w:~<>]+) ", text, re.M)
    fr = next((f for f in frames if f.startswith("flut::")), "")
    return kind + ("@" + fr if fr else "")


def run_shard(cid, mode, exe, part, seed, tier, shard, shards, only=None, hang=30, wall=780, stall=None):
    tag = "%s-%s-%s-%d-%s" % (cid, mode, part, shard, only)
    out = os.path.join(SCRATCH, tag + ".json")
    state = os.path.join(SCRATCH, tag + ".state")
    log = os.path.join(SCRATCH, tag + ".log")
    cmd = launcher(mode, exe) + [exe, "--part", part, "--seed", str(seed), "--out", out, "--state", state, "--hang", str(hang)]
    if tier == "thorough":
        cmd.append("--thorough")
    if only is not None:
        cmd += ["--only", str(only)]
    else:
        cmd += ["--shard", str(shard), "--shards", str(shards)]
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=lf, stderr=lf, env=env(), start_new_session=True, cwd=SCRATCH)
        # a run that makes no progress (same case) for `stall` seconds of wall time is blocked; so is one that exceeds `wall`
        stall = stall or (150 if tier == "quick" else 900)
        end, last, since = time.time() + wall, None, time.time()
        while True:
            try:
                rc = p.wait(timeout=1)
                break
            except subprocess.TimeoutExpired:
                now = time.time()
                try:
                    b = read(state)[:16]
                except OSError:
                    b = None
                if b != last:
                    last, since = b, now
                if now > end or now - since > stall:
                    rc = "wall"
                    break
        try:
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
    with open(log, "rb") as lf:
        lf.seek(max(0, os.path.getsize(log) - 60000))
        text = lf.read().decode(errors="replace")
    idx = None
    if os.path.exists(state):
        b = read(state)[:8]
        if len(b) == 8:
            idx = int.from_bytes(b, "little")
            if idx == 2 ** 64 - 1:
                idx = -1
    rep = None
    if os.path.exists(out):
        try:
            rep = json.loads(read(out))
        except ValueError:
            rep = None
    return dict(rc=rc, rep=rep, idx=idx, log=text, part=part, mode=mode, shard=shard)


def check(cid, tier, seed):
    t0 = time.time()
    th = tree_hash()
    src = harness_src(cid)
    if not os.path.exists(src):
        raise Error("no harness for " + cid)
    d = directives(src)
    modes = [m.strip() for m in d.get("builds", "asan").split(",")]
    rule = d.get("rule", "")
    if not rule:
        raise Error("harness without a vp-rule line")
    with cf.ThreadPoolExecutor(len(modes)) as ex:
        exes = dict(zip(modes, ex.map(lambda m: build_harness(cid, m, th), modes)))
    tb = time.time() - t0

    jobs = []
    for m in modes:
        p = run(launcher(m, exes[m]) + [exes[m], "--list"], env=env())
        if p.returncode:
            raise Error("cannot list parts of %s (%s): %s" % (cid, m, p.stdout.decode(errors="replace")[-2000:]))
        lines = [l.split() for l in p.stdout.decode().splitlines() if len(l.split()) == 3]
        if not lines:
            raise Error("no parts in %s (%s)" % (cid, m))
        for name, q, t in lines:
            n = int(t if tier == "thorough" else q)
            shards = max(1, min(JOBS, n // 25)) if m == "asan" else max(1, min(2, n // 25))
            for s in range(shards):
                jobs.append((m, name, s, shards))
    wall = 600 if tier == "quick" else 7200
    with cf.ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(lambda j: run_shard(cid, j[0], exes[j[0]], j[1], seed, tier, j[2], j[3], wall=wall), jobs))

    agg = dict(evaluations=0, checks=0, events={}, samples={}, parts={})
    distinct = set()
    vio, errors = [], []
    # runs that did not end: confirm by running the case alone, one case per part and mode, all at once
    hung = {}
    for r in results:
        if r["rc"] in (97, "wall") and r["idx"] is not None and r["idx"] >= 0:
            hung.setdefault((r["part"], r["mode"]), r)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        alone = dict(zip(hung, ex.map(lambda r: run_shard(cid, r["mode"], exes[r["mode"]], r["part"], seed, tier, 0, 1,
                                                          only=r["idx"], hang=60, wall=160), hung.values())))
    for r in results:
        rep = r["rep"]
        pn = r["part"] + ("@tsan" if r["mode"] == "tsan" else "")
        if rep:
            agg["evaluations"] += rep["evaluations"]
            agg["checks"] += rep["checks"]
            for k, v in rep["events"].items():
                agg["events"][k] = agg["events"].get(k, 0) + v
            s = agg["samples"].setdefault(pn, [])
            if len(s) < 2:
                s += rep["samples"][:2 - len(s)]
            distinct.update(rep["distinct"])
            agg["parts"][pn] = agg["parts"].get(pn, 0) + rep["evaluations"]
            for v in rep["violations"]:
                vio.append(dict(v, mode=r["mode"], log=""))
        if r["rc"] in (97, "wall"):
            if r["idx"] is None or r["idx"] < 0:
                errors.append("part %s did not finish (outside any case)" % r["part"])
                continue
            if hung[(r["part"], r["mode"])] is not r:
                continue
            r2 = alone[(r["part"], r["mode"])]
            if r2["rc"] in (97, "wall"):
                vio.append(dict(key=r["part"] + ":hang", part=r["part"], index=r["idx"], mode=r["mode"],
                                witness="case does not end (confirmed by running it alone)", log=r["log"][-3000:]))
            elif r2["rc"] == 0:
                errors.append("part %s timed out, case %s alone does not" % (r["part"], r["idx"]))
            else:
                vio.append(dict(key="%s:%s" % (r["part"], classify(r2["log"])), part=r["part"], index=r["idx"], mode=r["mode"],
                                witness="abnormal end, exit %s" % r2["rc"], log=r2["log"][-8000:]))
        elif r["rc"] == 90:
            errors.append("part %s: scratch failure: %s" % (r["part"], r["log"][-500:]))
        elif r["rc"] != 0 or not rep:
            if r["rc"] == -9 and "Sanitizer" not in r["log"]:
                errors.append("part %s was killed" % r["part"])
                continue
            if r["rc"] in (127, 126, 77):
                errors.append("part %s could not run: %s" % (r["part"], r["log"][-500:]))
                continue
            vio.append(dict(key="%s:%s" % (r["part"], classify(r["log"])), part=r["part"], index=r["idx"], mode=r["mode"],
                            witness="abnormal end, exit %s" % r["rc"], log=r["log"][-8000:]))

    known = []
    kf = os.path.join(V, "known-findings.json")
    if os.path.exists(kf):
        known = [k for k in json.loads(read(kf)).get("findings", []) if k["property"] == cid]
    seen_known, new = {}, {}
    for v in vio:
        k = next((k for k in known if k["key"] == v["key"]), None)
        if k:
            seen_known[k["key"]] = k
        else:
            new.setdefault(v["key"], v)

    wall_s = time.time() - t0
    quiet_parts = [j[1] for j in jobs if not agg["parts"].get(j[1] + ("@tsan" if j[0] == "tsan" else ""))]
    ev = dict(property=cid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=agg["evaluations"], distinct_nontrivial=len(distinct), rule=rule,
                            samples=[dict(part=p, cases=s) for p, s in sorted(agg["samples"].items())],
                            oracle_checks=agg["checks"], events=agg["events"], cases_per_part=agg["parts"],
                            builds=modes, tree=th, build_s=round(tb, 2), known_findings_seen=sorted(seen_known)),
              assumptions=["reference models in harness/%s.cpp" % cid, "g++ and its sanitizer runtimes",
                           "only the executions of this run were observed"],
              wall_s=round(wall_s, 2), violations=len(new))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (cid, k["what"]))
    if new:
        rd = os.path.join(BUILD, "replay")
        os.makedirs(rd, exist_ok=True)
        for n, (key, v) in enumerate(sorted(new.items())):
            p = os.path.join(rd, "%s-%d.json" % (cid, n))
            with open(p, "w") as f:
                json.dump(dict(property=cid, key=key, part=v["part"], index=v["index"], mode=v["mode"], seed=seed, tier=tier,
                               witness=v["witness"], log=v["log"],
                               how="python3 check.py %s --replay %s" % (cid, p)), f, indent=1)
            print("  %s case %s: %s" % (key, v["index"], v["witness"][:600]))
            if v["log"]:
                print("    " + "\n    ".join(v["log"].splitlines()[:14]))
            print("VIOLATION property=%s replay=%s" % (cid, p))
        return 1
    if errors:
        raise Error("; ".join(errors))
    if not agg["evaluations"] or not distinct or not agg["checks"] or quiet_parts:
        raise Error("nothing observed (parts without cases: %s)" % quiet_parts)
    print("held: property=%s %d cases, %d distinct non-trivial, %d oracle checks, %.1f s" % (
        cid, agg["evaluations"], len(distinct), agg["checks"], wall_s))
    return 0


def setup():
    th = tree_hash()
    ids = sorted(f[:-4] for f in os.listdir(os.path.join(V, "harness")) if re.match(r"C\d+\.cpp$", f))
    work = [(c, m.strip()) for c in ids for m in directives(harness_src(c)).get("builds", "asan").split(",")]
    for m in sorted(set(m for c, m in work)):
        build_lib(m, th)
    bad = []

    def one(w):
        try:
            build_harness(w[0], w[1], th)
        except Error as e:
            bad.append(str(e))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, work))
    for b in bad:
        print(b)
    return 2 if bad else 0


def replay(cid, path):
    d = json.loads(read(path))
    exe = build_harness(cid, d["mode"], tree_hash())
    r = run_shard(cid, d["mode"], exe, d["part"], d["seed"], d["tier"], 0, 1, only=max(0, d["index"] or 0), wall=600)
    print(r["log"])
    bad = r["rc"] != 0 or (r["rep"] and r["rep"]["violations"])
    print("reproduced" if bad else "not reproduced")
    return 1 if bad else 0


def main():
    global SCRATCH
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    SCRATCH = tempfile.mkdtemp(prefix="vprun", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        if "--setup" in a:
            return setup()
        if not a or a[0].startswith("-"):
            print(__doc__)
            return 2
        if "--replay" in a:
            return replay(a[0], a[a.index("--replay") + 1])
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            raise Error("tier?")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        return check(a[0], tier, seed)
    except Error as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
