#!/usr/bin/env python3
"""Builds the monitors against /repo's working tree, runs the jobs of one
property and judges what they observed.

  run.py C01            one property, VERIF_SEED / VERIF_TIER from the environment
  run.py setup          fetch nothing, build the common configurations once
"""
import concurrent.futures, json, os, re, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")
REPLAY = os.path.join(HERE, "replay")
TARGET = "x86_64-unknown-linux-gnu"
I686 = "i686-unknown-linux-gnu"

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"

FAST = {"CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "true", "CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "true"}
# name: (crate, cargo arguments, path of the program, environment, toolchain)
BUILDS = {
    "dev": ("mon", [], "debug/mon", {}, "stable"),
    "full": ("mon", ["--features", "full"], "debug/mon", {}, "stable"),
    "std": ("mon", ["--features", "std_only"], "debug/mon", {}, "stable"),
    "ser": ("mon", ["--features", "serialize_only"], "debug/mon", {}, "stable"),
    "stdser": ("mon", ["--features", "std_serialize"], "debug/mon", {}, "stable"),
    "all": ("mon", ["--features", "everything"], "debug/mon", {}, "stable"),
    "rel": ("mon", ["--release"], "release/mon", {}, "stable"),
    "relchk": ("mon", ["--release"], "release/mon", FAST, "stable"),
    "relfull": ("mon", ["--release", "--features", "full"], "release/mon", {}, "stable"),
    "size": ("mon", ["--release"], "release/mon", {"CARGO_PROFILE_RELEASE_OPT_LEVEL": "s"}, "stable"),
    "o1": ("mon", ["--release"], "release/mon", {"CARGO_PROFILE_RELEASE_OPT_LEVEL": "1", "CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "true"}, "stable"),
    "lto": ("mon", ["--release"], "release/mon", {"CARGO_PROFILE_RELEASE_LTO": "fat", "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "1", "CARGO_PROFILE_RELEASE_PANIC": "unwind"}, "stable"),
    "devoff": ("mon", [], "debug/mon", {"CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false", "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false"}, "stable"),
    "avx": ("mon", ["--release"], "release/mon", {"RUSTFLAGS": "-Ctarget-cpu=native"}, "stable"),
    "nightly": ("mon", ["--release"], "release/mon", {}, "nightly"),
    "walk": ("walk", ["--release"], "release/walk", {}, "stable"),
    "free": ("free", ["--bin", "free"], "debug/free", {}, "stable"),
    "freeser": ("free", ["--bin", "free", "--features", "serialize"], "debug/free", {}, "stable"),
    "freerel": ("free", ["--release", "--bin", "free"], "release/free", {}, "stable"),
    "free32": ("free", ["--bin", "free", "--target", I686, "-Zbuild-std=core"], I686 + "/debug/free", {}, "nightly"),
    "free32rel": ("free", ["--release", "--bin", "free", "--target", I686, "-Zbuild-std=core"], I686 + "/release/free", {}, "nightly"),
    "hosted": ("free", ["--release", "--bin", "hosted"], "release/hosted", {}, "stable"),
    "guide": ("guide", [], "debug/guide", {"RUSTC_WRAPPER": os.path.join(HERE, "guide", "covrustc")}, "stable"),
    "guided": ("guide", ["--features", "display"], "debug/guide", {"RUSTC_WRAPPER": os.path.join(HERE, "guide", "covrustc")}, "stable"),
    "bin": ("/repo", ["--features", "cli", "--bin", "cpuid"], "debug/cpuid", {}, "stable"),
    "tsan": ("mon", ["-Zbuild-std", "--target", TARGET], TARGET + "/debug/mon", {"RUSTFLAGS": "-Zsanitizer=thread"}, "nightly"),
    "asan": ("mon", ["--target", TARGET], TARGET + "/debug/mon", {"RUSTFLAGS": "-Zsanitizer=address"}, "nightly"),
}
BUILD_S = {"quick": 600, "thorough": 1800}[TIER]
RUN_S = {"quick": 600, "thorough": 4 * 3600}[TIER]
# a quick check answers before this, whatever its jobs do
ALL_S = {"quick": 800, "thorough": 24 * 3600}[TIER]
START = time.time()


def base_env(extra=None):
    e = {k: v for k, v in os.environ.items() if not (k.startswith("CARGO_") and k not in ("CARGO_HOME",)) and k not in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTDOCFLAGS", "MIRIFLAGS")}
    e.update({"CARGO_NET_OFFLINE": "true", "RUST_BACKTRACE": "0", "CARGO_TERM_COLOR": "never"})
    e.update(extra or {})
    return e


class Inconclusive(Exception):
    pass


def build(name):
    if name == "emu":
        os.makedirs(BUILD, exist_ok=True)
        so = os.path.join(BUILD, "emu.so")
        p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "emu", "emu.c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Inconclusive("emu.c does not build: " + p.stdout[-2000:])
        return so
    crate, args, prog, env, tc = BUILDS[name]
    path = crate if crate.startswith("/") else os.path.join(HERE, crate)
    target = os.path.join(BUILD, name)
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(path, "Cargo.toml")] + args
    e = base_env(env)
    e.update({"CARGO_TARGET_DIR": target, "RUSTUP_TOOLCHAIN": tc})
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=BUILD_S)
    except subprocess.TimeoutExpired:
        raise Inconclusive("the build of configuration %s took more than %d s" % (name, BUILD_S))
    if p.returncode != 0:
        err = "\n".join(l for l in p.stdout.splitlines() if not l.startswith("warning"))
        raise Inconclusive("configuration %s does not build:\n%s" % (name, err[-3000:]))
    return os.path.join(target, prog)


def run(cmd, env=None, timeout=None):
    """(return code, stdout, stderr); None as code on a timeout."""
    p = subprocess.Popen(cmd, env=base_env(env), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=max(10, min(timeout or RUN_S, START + ALL_S - time.time())))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "", ""
    return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


CRASH = {-signal.SIGSEGV: "SIGSEGV", -signal.SIGBUS: "SIGBUS", -signal.SIGILL: "SIGILL", -signal.SIGFPE: "SIGFPE", -signal.SIGABRT: "SIGABRT"}


def empty():
    return {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "exhaustive": [], "counters": {}, "samples": [], "violations": []}


def crashed(rc, err, what, repro):
    """A report for a monitor ended by a signal, or Inconclusive."""
    if rc in CRASH and "memory allocation of" not in err:
        r = empty()
        r["violations"].append({"sig": "crash:" + CRASH[rc], "count": 1, "machine": "", "detail": "%s was ended by %s: %s" % (what, CRASH[rc], err[-1500:]), "repro": repro})
        return r
    raise Inconclusive("%s ended with %s: %s" % (what, "a timeout" if rc is None else rc, err[-1500:]))


def job_check(prog, prop, seed, tier, tag, extra=()):
    out = os.path.join(BUILD, "out", "%s-%s-%d.json" % (prop, tag, os.getpid()))
    cmd = [prog, "check", prop, "--seed", str(seed), "--tier", tier, "--out", out] + list(extra)
    rc, _, err = run(cmd)
    if rc != 0:
        return crashed(rc, err, "the monitor of %s (%s)" % (prop, tag), cmd)
    with open(out) as f:
        r = json.load(f)
    os.unlink(out)
    for v in r["violations"]:
        v["repro"] = cmd
    return r


def job_isolate(prog, seed, shard, tier, extra=()):
    out = os.path.join(BUILD, "out", "isolate-%d-%d.json" % (shard, os.getpid()))
    cmd = [prog, "isolate", "--seed", str(seed), "--shard", str(shard), "--tier", tier, "--out", out] + list(extra)
    rc, _, err = run(cmd)
    if rc != 0:
        return crashed(rc, err, "the isolation monitor", cmd)
    with open(out) as f:
        r = json.load(f)
    os.unlink(out)
    r["rule"] = ""
    for v in r["violations"]:
        v["repro"] = cmd
    return r


def job_effects(prog, tag, seed, shard, tier, extra=()):
    out = os.path.join(BUILD, "out", "effects-%s-%d-%d.json" % (tag, shard, os.getpid()))
    cmd = [prog, "effects", "--seed", str(seed), "--shard", str(shard), "--tier", tier, "--out", out] + list(extra)
    rc, _, err = run(cmd)
    if rc != 0:
        return crashed(rc, err, "the effects monitor (%s)" % tag, cmd)
    with open(out) as f:
        r = json.load(f)
    os.unlink(out)
    for v in r["violations"]:
        v["repro"] = cmd
    return r


def job_free(name, hosted, seed, n):
    """The decoder in a program without an operating system, against the same
    in an ordinary program."""
    r = empty()
    ref = [hosted, str(seed), str(n)]
    rc, want, err = run(ref, timeout=300)
    if rc != 0:
        return crashed(rc, err, "the hosted decoder", ref)
    try:
        prog = build(name)
    except Inconclusive as e:
        if "does not build" not in str(e):
            raise
        # the same sources build with an operating system, or we were not here
        r["violations"].append({"sig": "free:build", "count": 1, "machine": "", "detail": "a program without operating system and allocator cannot use the crate: " + str(e), "repro": ["cargo", "build", "--offline", "--manifest-path", os.path.join(HERE, BUILDS[name][0], "Cargo.toml")] + BUILDS[name][1]})
        return r
    cmd = [prog, str(seed), str(n)]
    rc, got, err = run(cmd, timeout=300)
    if rc is None:
        raise Inconclusive("the program without operating system took too long")
    a, b = want.splitlines(), got.splitlines()
    lock = b.pop() if b and b[-1] in ("locked", "open") else None
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    if rc == -signal.SIGKILL and k == len(b) and lock is None:
        # ended by the lock, or by something outside
        rc2, got2, _ = run(cmd, timeout=300)
        if (rc2, got2) != (rc, got):
            raise Inconclusive("the program without operating system was killed once")
    if rc != 0 or a != b:
        r["violations"].append({"sig": "free:" + (CRASH.get(rc, "killed by its lock" if rc == -signal.SIGKILL else "exit %s" % rc) if rc else "values"), "count": 1, "machine": "", "detail": "without an operating system (%s): CPU %d of seed %d: %s; in an ordinary program: %s (exit %s)" % (name, k, seed, (b[k] if k < len(b) else "nothing"), (a[k] if k < len(a) else "nothing"), rc), "repro": cmd})
    r["evaluations"] = len(b)
    r["samples"] = ["CPU %d of seed %d without an operating system: digest and bytes of text %s" % (i, seed, x) for i, x in enumerate(b[:2])]
    r["distinct_nontrivial"] = len(set(b))
    r["counters"] = {"CPUs decoded without an operating system (%s)" % name: len(b), "bytes of text folded into their digests": sum(int(f[1]) + int(f[3]) for f in map(str.split, b) if len(f) == 4 and f[1].isdigit() and f[3].isdigit()), "programs locked to reading, writing and ending (strict seccomp)": int(lock == "locked")}
    return r


# what the coverage-guided workload evolves for a property, and for how long
GUIDE = {
    "C13": ("guided", [("raw", 600, 10_000)]),
    "C14": ("guided", [("report", 160, 4_000)]),
    "C16": ("guide", [("", 400, 20_000), ("native", 20_000, 400_000)]),
}
GUIDE["C23"] = ("guide", [])
GUIDE_DEFAULT = ("guide", [("", 3000, 60_000)])


def guide(prop, prog):
    """(arguments that make a monitor judge the corpus, report of the search).
    Without the corpus the monitors still run their own workloads."""
    r = empty()
    if not prog:
        r["counters"]["guided searches that could not be built"] = 1
    corpus = os.path.join(BUILD, "out", "corpus-%s-%d" % (prop, os.getpid()))
    open(corpus, "w").close()
    for only, quick, deep in GUIDE.get(prop, GUIDE_DEFAULT)[1] if prog else []:
        out, stats = corpus + ".part", corpus + ".stats"
        cmd = [prog, "--seed", str(SEED), "--n", str(deep if THOROUGH else quick), "--sources", "/repo/src", "--out", out, "--stats", stats] + (["--only", only] if only else [])
        rc, _, err = run(cmd, timeout=3600 if THOROUGH else 150)
        if rc == 0:
            with open(out) as f, open(corpus, "a") as g:
                g.write(f.read())
            with open(stats) as f:
                for k, v in json.load(f).items():
                    r["counters"]["guided search: " + k] = max(r["counters"].get("guided search: " + k, 0), v)
        elif prop == "C01" and rc in CRASH and "memory allocation of" not in err:
            return [], crashed(rc, err, "the decoder under the coverage-guided workload", cmd)
        else:
            r["counters"]["guided searches without an answer"] = 1
            r["note"] = "the coverage-guided workload gave no answer (%s); the property was judged on the other workloads" % rc
        for f in (out, stats):
            if os.path.exists(f):
                os.unlink(f)
    return ["--corpus", corpus], r


SHORT = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 100, 127, 128, 253, 254, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 4095, 4096, 5000, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 100000, 131072, 1000003, 16777215, 16777216, 16777217]
ALL = 1 << 32  # every sub-leaf
# the longest enumeration of each kind, and (deeper) those that end just before
LONGEST = {"cache": ALL, "cacheamd": ALL, "topo": ALL, "topo2": ALL, "ect": ALL, "sgx": ALL - 2, "dat": ALL - 1, "sparse": ALL - 1, "soc": ALL - 1}


def job_walk(prog, kind, lengths):
    cmd = [prog, kind] + [str(n) for n in lengths]
    rc, o, err = run(cmd, timeout=400 if not THOROUGH else 3600)
    r = empty()
    if rc is None:
        r["counters"]["sub-leaf walks not finished in time"] = 1
        return r
    if rc != 0:
        return crashed(rc, err, "the walk of %s" % kind, cmd)
    for line in o.splitlines():
        f = line.split(None, 4)
        n, reads = int(f[2]), int(f[3])
        r["evaluations"] += 1
        r["distinct_nontrivial"] += reads > 3
        r["counters"]["enumerations of chosen lengths walked"] = r["counters"].get("enumerations of chosen lengths walked", 0) + 1
        r["counters"]["reads in enumerations of chosen lengths"] = r["counters"].get("reads in enumerations of chosen lengths", 0) + reads
        k = "max reads in one enumeration (%s)" % kind
        r["counters"][k] = max(r["counters"].get(k, 0), reads)
        if f[0] == "bad":
            v = {"sig": "walk:" + kind, "count": 1, "machine": "", "detail": "enumerating a CPU with %d %s sub-leaves: %s" % (n, kind, f[4].strip() if len(f) > 4 else ""), "repro": [prog, kind, str(n)]}
            old = next((x for x in r["violations"] if x["sig"] == v["sig"]), None)
            if old:
                old["count"] += 1
            else:
                r["violations"].append(v)
    return r


def walks(g, short):
    """Jobs that walk enumerations of each kind."""
    j = [lambda k=k: job_walk(g["walk"], k, SHORT) for k in LONGEST] if short else []
    for k, n in LONGEST.items():
        j.append(lambda k=k, n=n: job_walk(g["walk"], k, [n] + ([n - 1, n - 2, n // 2 + 1] if THOROUGH else [])))
    return j


def job_miri(prop, n, seed):
    """Under the interpreter; undefined behaviour is a violation, an
    interpreter limitation or a timeout is only recorded."""
    target = os.path.join(BUILD, "miri")
    cmd = ["cargo", "miri", "run", "--offline", "-q", "--manifest-path", os.path.join(HERE, "mon", "Cargo.toml"), "--", "small", prop, "--seed", str(seed), "--n", str(n)]
    env = {"CARGO_TARGET_DIR": target, "RUSTUP_TOOLCHAIN": "nightly", "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks"}
    rc, o, err = run(cmd, env, timeout=400 if not THOROUGH else 3600)
    r = empty()
    i = o.find('{"property"')
    if rc == 0 and i >= 0:
        d = json.loads(o[i:])
        for v in d["violations"]:
            v["sig"] = "miri:" + v["sig"]
            v["repro"] = cmd
        d["counters"] = {"interpreted by Miri: " + k: v for k, v in d["counters"].items()}
        d["rule"] = ""
        return d
    m = re.search(r"error: (Undefined Behavior: .*)", err)
    if m:
        where = re.search(r"--> (\S+?):\d+", err)
        sig = "miri:%s:%s" % (re.sub(r"0x[0-9a-f]+|alloc\d+|\d+", "#", m.group(1))[:120], os.path.basename(where.group(1)) if where else "")
        r["violations"].append({"sig": sig, "count": 1, "machine": "", "detail": err[err.find(m.group(0)):][:3000], "repro": cmd})
        return r
    r["counters"]["Miri runs without an answer"] = 1
    r["note"] = err[-800:]
    return r


def job_host(target, shard, n, native, seed):
    """The small workload interpreted for another kind of host; what also
    happens on this one is not about hosts."""
    args = ["small", "C23", "--seed", str(seed), "--shard", str(shard), "--n", str(n)]
    r = empty()
    none = lambda why, note: r["counters"].update({"runs on interpreted hosts without an answer (%s)" % why: 1}) or r.update({"note": "%s: %s" % (target, note[-800:])}) or r
    ref = [native] + args
    rc, o, err = run(ref, timeout=300)
    if rc != 0:
        return crashed(rc, err, "the native run", ref)
    here = {v["sig"] for v in json.loads(o)["violations"]}
    env = {"CARGO_TARGET_DIR": os.path.join(BUILD, "host-" + target.split("-")[0]), "RUSTUP_TOOLCHAIN": "nightly", "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows"}
    limit = 3600 if THOROUGH else 420
    rc, _, err = run(["cargo", "miri", "setup", "--target", target], env, timeout=limit)
    if rc != 0:
        return none("no interpreter for it", err)
    cmd = ["cargo", "miri", "run", "--offline", "-q", "--manifest-path", os.path.join(HERE, "mon", "Cargo.toml"), "--target", target, "--"] + args
    rc, o, err = run(cmd, env, timeout=limit)
    i = o.find('{"property"')
    host = target.split("-")[0]
    bad = lambda sig, detail: r["violations"].append({"sig": "host:%s:%s" % (host, sig), "count": 1, "machine": "", "detail": detail, "repro": cmd})
    if rc == 0 and i >= 0:
        d = json.loads(o[i:])
        d["violations"] = [dict(v, sig="host:%s:%s" % (host, v["sig"]), repro=cmd, detail="on %s, unlike here: %s" % (target, v["detail"])) for v in d["violations"] if v["sig"] not in here]
        d["counters"] = {"interpreted for %s: %s" % (host, k) if " on " not in k else k: v for k, v in d["counters"].items()}
        d["rule"] = ""
        return d
    m = re.search(r"error: (Undefined Behavior: .*)", err)
    if m:
        bad("undefined behaviour:" + re.sub(r"0x[0-9a-f]+|alloc\d+|\d+", "#", m.group(1))[:100], err[err.find(m.group(0)):][:3000])
    elif "could not compile `raw-cpuid`" in err:
        bad("build", "the crate builds for this host but not for %s: %s" % (target, err[-3000:]))
    elif rc is not None and "panicked at" in err and "/repo/src/" in err:
        bad("panic", err[-3000:])
    else:
        return none("timeout" if rc is None else "exit %s" % rc, err)
    return r


def job_ia32(name, hosted, seed, n):
    """The decoder in a 32-bit program on this processor, against the 64-bit
    one: values (renderings may pad by word size), and native reads."""
    r = empty()
    ref = [hosted, str(seed), str(n)]
    rc, want, err = run(ref, timeout=300)
    if rc != 0:
        return crashed(rc, err, "the 64-bit decoder", ref)
    try:
        prog = build(name)
    except Inconclusive as e:
        if "could not compile `raw-cpuid`" in str(e):
            r["violations"].append({"sig": "ia32:build", "count": 1, "machine": "", "detail": "the crate builds for 64-bit x86 but not for 32-bit: " + str(e), "repro": []})
        else:
            r["counters"]["32-bit programs that could not be built"] = 1
            r["note"] = str(e)[-800:]
        return r
    cmd = [prog, str(seed), str(n), "native"]
    try:
        rc, got, err = run(cmd, timeout=300)
    except OSError as e:
        r["counters"]["32-bit programs that this kernel does not run"] = 1
        r["note"] = str(e)
        return r
    if rc is None:
        r["counters"]["32-bit programs not finished in time"] = 1
        return r
    a, b = want.splitlines(), got.splitlines()
    rows = [x for x in b if re.match(r"[0-9a-f]{16} ", x)]
    same = [x.split()[2:] for x in a], [x.split()[2:] for x in rows]
    k = next((i for i, (x, y) in enumerate(zip(*same)) if x != y), min(len(a), len(rows)))
    native = next((x.split() for x in b if x.startswith("native ")), None)
    add = lambda sig, detail: r["violations"].append({"sig": "ia32:" + sig, "count": 1, "machine": "", "detail": detail, "repro": cmd})
    if rc == -signal.SIGKILL:
        raise Inconclusive("the 32-bit program was killed")
    if rc != 0:
        add(CRASH.get(rc, "exit %s" % rc), "in a 32-bit program: CPU %d of seed %d: %s (exit %s)" % (k, seed, " ".join(b[len(rows):])[-600:], rc))
    elif same[0] != same[1]:
        add("values", "CPU %d of seed %d decodes to %s in a 32-bit program and to %s in a 64-bit one" % (k, seed, rows[k] if k < len(rows) else "nothing", a[k] if k < len(a) else "nothing"))
    for x in [x for x in b if x.startswith("bad ")][:5]:
        add("native", x)
    r["evaluations"] = len(rows) + (int(native[2]) if native else 0)
    r["distinct_nontrivial"] = len(set(map(tuple, same[1])))
    r["counters"] = {"CPUs decoded in a 32-bit program (%s)" % name: len(rows), "values' text compared between word sizes (bytes)": sum(int(x[1]) for x in same[1] if len(x) == 2), "native CPUID reads in a 32-bit program": int(native[1]) if native else 0, "of them with a steady register reading": int(native[2]) if native else 0}
    r["samples"] = ["CPU %d of seed %d in a 32-bit program: values digest and bytes %s" % (i, seed, " ".join(x)) for i, x in enumerate(same[1][:2])]
    return r


def job_tsan(prog, seed, rounds):
    out = os.path.join(BUILD, "out", "tsan-%d.json" % os.getpid())
    cmd = [prog, "small", "C11", "--seed", str(seed), "--n", str(rounds), "--out", out]
    rc, _, err = run(cmd, {"TSAN_OPTIONS": "halt_on_error=0 exitcode=66"}, timeout=1800)
    r = empty()
    if "WARNING: ThreadSanitizer: data race" in err:
        r["violations"].append({"sig": "tsan:data race", "count": err.count("WARNING: ThreadSanitizer"), "machine": "", "detail": err[:3000], "repro": cmd})
    elif rc == 0:
        with open(out) as f:
            r = json.load(f)
        os.unlink(out)
        for v in r["violations"]:
            v["repro"] = cmd
        r["counters"] = {"under ThreadSanitizer: " + k: v for k, v in r["counters"].items()}
        r["rule"] = ""
    else:
        r["counters"]["ThreadSanitizer runs without an answer"] = 1
    return r


def job_asan(prog, prop, seed):
    out = os.path.join(BUILD, "out", "asan-%s-%d.json" % (prop, os.getpid()))
    cmd = [prog, "check", prop, "--seed", str(seed), "--tier", "quick", "--out", out]
    rc, _, err = run(cmd, {"ASAN_OPTIONS": "detect_leaks=0"}, timeout=3600)
    r = empty()
    if "ERROR: AddressSanitizer" in err:
        m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
        r["violations"].append({"sig": "asan:" + (m.group(1) if m else ""), "count": 1, "machine": "", "detail": err[:3000], "repro": cmd})
    elif rc == 0:
        with open(out) as f:
            r = json.load(f)
        os.unlink(out)
        for v in r["violations"]:
            v["repro"] = cmd
        r["counters"] = {"under AddressSanitizer: " + k: v for k, v in r["counters"].items()}
        r["rule"] = ""
    else:
        r["counters"]["AddressSanitizer runs without an answer"] = 1
    return r


def job_digest(progs, seed, tier, extra=()):
    """progs: {configuration: program}. Every configuration must reproduce the
    digests of the first."""
    texts = {}
    for name, prog in progs.items():
        out = os.path.join(BUILD, "out", "digest-%s-%d" % (name, os.getpid()))
        cmd = [prog, "digest", "--seed", str(seed), "--tier", tier, "--out", out] + list(extra)
        rc, _, err = run(cmd)
        if rc != 0 or os.path.exists(out + ".hang"):
            return crashed(rc, err, "the build " + name, cmd)
        with open(out) as f:
            texts[name] = f.read().splitlines()
        os.unlink(out)
    ref = next(iter(texts))
    r = empty()
    cells = set()
    values = 0
    for l in texts[ref]:
        f = l.split()
        cells.add((f[0] if int(f[0]) >= 32 else "w", f[3]))
        values += int(f[4])
    r["evaluations"] = sum(len(t) for t in texts.values())
    r["distinct_nontrivial"] = len(cells)
    r["counters"] = {"build configurations compared": len(texts), "cases per configuration": len(texts[ref]), "values digested per configuration": values}
    r["samples"] = ["case %s of job %s: digest %s of %s values in %s" % (l.split()[1], l.split()[0], l.split()[2], l.split()[4], ", ".join(texts)) for l in texts[ref][:: max(1, len(texts[ref]) // 6)]][:8]
    r["rule"] = "A case is one CPU (whole, or the registers of one structure) decoded by one build; the digest of all values must equal the one of every other build. Distinct: CPUs by register contents."
    for name, t in texts.items():
        if t == texts[ref]:
            continue
        bad = [(a, b) for a, b in zip(texts[ref], t) if a != b]
        if len(t) != len(texts[ref]):
            raise Inconclusive("build %s made %d cases, %s %d" % (name, len(t), ref, len(texts[ref])))
        seen = set()
        for a, b in bad[:40]:
            f, g = a.split(), b.split()
            if f[3] != g[3]:
                raise Inconclusive("the generated cases differ between builds %s and %s" % (ref, name))
            dump = []
            for prog in (progs[ref], progs[name]):
                cmd = [prog, "digest-one", "--seed", str(seed), "--job", f[0], "--idx", f[1]] + list(extra)
                rc, o, err = run(cmd)
                dump.append(o.split("---\n", 1))
            if len(dump[0]) != 2 or len(dump[1]) != 2:
                raise Inconclusive("a differing case could not be shown")
            x, y = dump[0][1].splitlines(), dump[1][1].splitlines()
            d = next(((p, q) for p, q in zip(x, y) if p != q), ("%d values" % len(x), "%d values" % len(y)))
            label = re.sub(r"\[\d+\]", "[]", d[0].split(" = ")[0])
            if label in seen:
                continue
            seen.add(label)
            r["violations"].append({"sig": "build:%s" % label, "count": len(bad), "machine": dump[0][0], "detail": "build %s: %s; build %s: %s (%d of %d cases differ)" % (ref, d[0], name, d[1], len(bad), len(t)), "repro": cmd})
    return r


def merge(reports):
    m = empty()
    notes = []
    for r in reports:
        m["evaluations"] += r["evaluations"]
        m["distinct_nontrivial"] += r["distinct_nontrivial"]
        m["rule"] = m["rule"] or r["rule"]
        m["exhaustive"] += [e for e in r["exhaustive"] if e not in m["exhaustive"]]
        for k, v in r["counters"].items():
            m["counters"][k] = max(m["counters"].get(k, 0), v) if "max " in k else m["counters"].get(k, 0) + v
        m["samples"] += r["samples"][: max(2, 12 - len(m["samples"]))]
        for v in r["violations"]:
            old = next((x for x in m["violations"] if x["sig"] == v["sig"]), None)
            if old:
                old["count"] += v["count"]
            else:
                m["violations"].append(v)
        if r.get("note"):
            notes.append(r["note"])
    return m, notes


DEV = ["C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C15", "C18", "C19", "C20", "C21"]


def plan(p):
    """(configurations to build, function of their programs giving the jobs)"""
    s2 = SEED + 1000003
    T = TIER
    if p == "C01":
        b = ["dev", "walk"] + (["relchk", "asan"] if THOROUGH else [])
        def jobs(g, x):
            j = [lambda: job_check(g["dev"], p, SEED, "quick", "dev", x)] + walks(g, True)
            if THOROUGH:
                j += [lambda k=k: job_check(g["relchk"], p, SEED + k, "thorough", "relchk%d" % k, x) for k in range(4)]
                j += [lambda: job_asan(g["asan"], p, s2)]
            return j
    elif p == "C02":
        b = ["dev"] + (["relchk", "asan"] if THOROUGH else [])
        def jobs(g, x):
            j = [lambda: job_check(g["dev"], p, SEED, "quick", "dev", x), lambda: job_miri(p, 400 if THOROUGH else 24, SEED)]
            if THOROUGH:
                j += [lambda k=k: job_check(g["relchk"], p, SEED + k, "thorough", "relchk%d" % k, x) for k in range(4)]
                j += [lambda: job_asan(g["asan"], p, s2)]
            return j
    elif p == "C11":
        b = ["dev"] + (["relchk", "tsan"] if THOROUGH else [])
        def jobs(g, x):
            j = [lambda: job_check(g["dev"], p, SEED, "quick", "dev", x), lambda: job_miri(p, 4 if THOROUGH else 1, SEED)]
            j += [lambda k=k: job_isolate(g["dev"], SEED, k, T, x) for k in range(6)]
            if THOROUGH:
                j += [lambda k=k: job_check(g["relchk"], p, SEED + k, "thorough", "relchk%d" % k, x) for k in range(4)]
                j += [lambda k=k: job_tsan(g["tsan"], SEED + k, 60) for k in range(3)]
            return j
    elif p in ("C12", "C13", "C14", "C24"):
        b = ["full"] + (["bin", "emu"] if p != "C12" else []) + (["relfull"] if THOROUGH else [])
        def jobs(g, x):
            b = ["--bin", g["bin"], "--emu", g["emu"]] if "bin" in g else []
            j = [lambda: job_check(g["full"], p, SEED, "quick", "full", b + x)]
            if THOROUGH:
                j += [lambda k=k: job_check(g["relfull"], p, SEED + k, "thorough", "relfull%d" % k, (b if k == 0 else []) + x) for k in range(4)]
            return j
    elif p == "C16":
        b = ["dev", "rel"]
        def jobs(g, x):
            return [lambda: job_check(g["dev"], p, SEED, T, "dev", x), lambda: job_check(g["rel"], p, s2, T, "rel", x)]
    elif p == "C22":
        b = ["dev", "full", "relfull", "hosted"]
        def jobs(g, x):
            j = [lambda f=f, k=k: job_free(f, g["hosted"], SEED + k, 200_000 if THOROUGH else 1500) for k, f in enumerate(["free", "freeser", "freerel"])]
            j += [lambda c=c, k=k: job_effects(g[c], c, SEED, k, T, x) for k, c in enumerate(["dev", "full", "relfull"] * (4 if THOROUGH else 2))]
            return j
    elif p == "C23":
        b = ["dev", "hosted"]
        def jobs(g, x):
            j = [lambda t=t, k=k, n=n: job_host(t, k, n, g["dev"], SEED) for t, k, n in (HOSTS_DEEP if THOROUGH else HOSTS)]
            return j + [lambda c=c, k=k: job_ia32(c, g["hosted"], SEED + k, 40_000 if THOROUGH else 3000) for k, c in enumerate(["free32", "free32rel"])]
    elif p == "C17":
        b = ["dev", "rel", "std", "ser", "stdser", "all", "relfull", "devoff"] + (["full", "relchk", "size", "o1", "lto", "devoff", "avx", "nightly"] if THOROUGH else [])
        def jobs(g, x):
            return [lambda k=k: job_digest(g, SEED + k, T, x) for k in range(3 if THOROUGH else 1)]
    elif p in DEV:
        b = ["dev"] + (["walk"] if p == "C09" else []) + (["relchk"] if THOROUGH else [])
        def jobs(g, x):
            j = [lambda: job_check(g["dev"], p, SEED, "quick", "dev", x)]
            if p == "C09":
                j += [lambda k=k: job_walk(g["walk"], k, SHORT) for k in LONGEST]
            if THOROUGH:
                j += [lambda k=k: job_check(g["relchk"], p, SEED + k, "thorough", "relchk%d" % k, x) for k in range(4)]
            return j
    else:
        raise SystemExit("unknown property " + p)
    return b, jobs


# (target, shard, CPUs) interpreted
S390, ARM, PPC = "s390x-unknown-linux-gnu", "aarch64-unknown-linux-gnu", "powerpc-unknown-linux-gnu"
HOSTS = [(S390, 0, 2), (PPC, 1, 2), (S390, 2, 2), (PPC, 3, 2), (I686, 4, 2), (ARM, 5, 2)]
HOSTS_DEEP = [(t, k, 24) for k in range(16) for t in (S390, I686, ARM, PPC)]


ASSUME = {
    "*": ["the reference tables in mon/src are the authors' reading of the Intel and AMD manuals"],
    "C13": ["standard output is file descriptor 1"],
    "C14": ["texts passed through the markdown formatter contain no markup", "the reference of rows was reviewed against the labels, not generated at run time"],
    "C22": ["a counter says whether system calls, CPUID and the time-stamp counter could be trapped where the check ran"],
    "C16": ["the kernel supports CPUID faulting or single-stepping", "a register that differs twice from a steady independent reading is not volatile"],
    "C23": ["Miri interprets foreign targets as the hardware would", "counters say which hosts gave no answer where the check ran"],
    "C24": ["a reader that fails does so by panicking (the trait has no other way)", "the program's output is cut short by a full device and by pipes that nobody empties"],
    "C17": ["the compiler produces the same monitor semantics in every configuration"],
}


def check(p):
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, "out"), exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    evf = os.path.join(EVID, p + ".json")
    if os.path.exists(evf):
        os.unlink(evf)
    with open(os.path.join(HERE, "known-findings.json")) as f:
        known = {(k["property"], k["sig"]): k for k in json.load(f)["findings"]}
    configs, jobs = plan(p)
    with concurrent.futures.ThreadPoolExecutor(16) as ex:
        seeker = GUIDE.get(p, GUIDE_DEFAULT)[0]
        found = ex.submit(build, seeker)
        progs = dict(zip(configs, ex.map(build, configs)))
        try:
            seek = found.result()
        except Inconclusive:
            seek = None
    built = time.time() - t0
    extra, searched = guide(p, seek)
    js = jobs(progs, extra)
    # monitors use every core by themselves; the others may overlap
    with concurrent.futures.ThreadPoolExecutor(2 if THOROUGH else 4) as ex:
        futs = [ex.submit(j) for j in js]
        reports, trouble = [], []
        for f in futs:
            try:
                reports.append(f.result())
            except Inconclusive as e:
                trouble.append(str(e))
    if extra:
        os.unlink(extra[1])
    m, notes = merge(reports + [searched])
    new = [v for v in m["violations"] if (p, v["sig"]) not in known]
    old = [v for v in m["violations"] if (p, v["sig"]) in known]
    if not new and not trouble and (m["evaluations"] == 0 or m["distinct_nontrivial"] < 2):
        trouble.append("nothing was observed")
    ev = {
        "property": p,
        "tier": TIER,
        "seed": SEED,
        "level": "exploration",
        "coverage": {
            "evaluations": m["evaluations"],
            "distinct_nontrivial": m["distinct_nontrivial"],
            "rule": m["rule"] or "see the counters",
            "samples": m["samples"][:16] or ["none"],
            "counters": m["counters"],
            "spaces_enumerated_completely": m["exhaustive"],
            "build_configurations": configs + [seeker],
            "jobs": len(js),
            "build_s": round(built, 2),
        },
        "assumptions": ASSUME["*"] + ASSUME.get(p, []) + notes,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
        "known_findings_observed": [v["sig"] for v in old],
    }
    with open(evf, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for v in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (p, v["sig"], known[(p, v["sig"])]["what"]))
    if new:
        os.makedirs(REPLAY, exist_ok=True)
        path = os.path.join(REPLAY, "%s-%s-%d.json" % (p, TIER, SEED))
        with open(path, "w") as f:
            json.dump({"property": p, "seed": SEED, "tier": TIER, "rerun": "cd %s && VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s" % (HERE, SEED, TIER, p), "violations": new}, f, indent=1, ensure_ascii=False)
        for v in new[:20]:
            print("  %s (x%d): %s" % (v["sig"], v["count"], v["detail"][:600]))
            print("VIOLATION property=%s replay=%s" % (p, path))
        return 1
    if trouble:
        for t in trouble:
            print("INCONCLUSIVE property=%s %s" % (p, t))
        return 3
    print("%s: held on %d evaluations (%d distinct non-trivial), %.1f s" % (p, m["evaluations"], m["distinct_nontrivial"], time.time() - t0))
    return 0


def main():
    if len(sys.argv) != 2:
        raise SystemExit(__doc__)
    if sys.argv[1] == "setup":
        # checks build what they need; this only shows early that they can
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for p in ex.map(build, ["dev", "full", "walk", "guide", "guided"]):
                print("built", p)
        return 0
    try:
        return check(sys.argv[1])
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (sys.argv[1], e))
        return 3


if __name__ == "__main__":
    sys.exit(main())
