#!/usr/bin/env python3
"""Decides one property: python3 run.py <id>  (VERIF_SEED, VERIF_TIER from the environment).

Builds the library from /repo's working tree together with the harness, explores generated cases
in parallel shards, shrinks and replays failures, writes evidence/<id>.json.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ONEX_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
JOBS = 8

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
COMMON = ["-g1", "-O1", "-fno-omit-frame-pointer", "-pipe"]
FLAVOURS = {
    # name: (compiler, flags for everything, single precision)
    "asan": ("g++", COMMON + SAN, False),
    "asan32": ("g++", COMMON + SAN, True),
    "plain": ("g++", COMMON + ["-D_GLIBCXX_ASSERTIONS"], False),
    "fuzz": ("clang++", COMMON + ["-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all"], False),
}
LINK = {"fuzz": ["-fsanitize=fuzzer,address,undefined"]}

# Per property: flavour, number of quick and thorough cases, seconds of libFuzzer per job in the
# thorough tier (0: none), extra build inputs.
PROPS = json.load(open(os.path.join(HARNESS, "props.json")))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class BuildError(Exception):
    pass


def digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def tree(sub, exts):
    r = []
    for base, dirs, files in os.walk(os.path.join(REPO, sub)):
        dirs.sort()
        r += [os.path.join(base, f) for f in sorted(files) if os.path.splitext(f)[1] in exts]
    return r


SRC_EXT = {".cpp", ".hpp", ".h", ".c", ".cc", ".hh", ".inl", ".ipp", ".tcc"}


def make_config(d, single):
    """config.hpp as CMake would generate it from config.hpp.in."""
    out = []
    with open(os.path.join(REPO, "config.hpp.in")) as f:
        for line in f:
            m = re.match(r"\s*#\s*cmakedefine\s+(\w+)(.*)", line)
            if m:
                on = single if m.group(1) == "SINGLE_PRECISION" else False
                out.append("#define %s%s\n" % (m.group(1), m.group(2)) if on else "/* #undef %s */\n" % m.group(1))
            else:
                out.append(line)
    with open(os.path.join(d, "config.hpp"), "w") as f:
        f.writelines(out)


def compile_all(jobs):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for cmd, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode:
                raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])


def build(prop, flavour, fuzzer=False):
    """Returns the harness binary (and, for C20, the program next to it)."""
    cc, flags, single = FLAVOURS[flavour]
    conf = PROPS[prop]
    lib_src = [p for p in tree("src", {".cpp"})]
    cli_src = [p for p in tree("cli", {".cpp"})] if conf.get("cli") else []
    inputs = tree("src", SRC_EXT) + [os.path.join(REPO, "config.hpp.in")]
    if cli_src:
        inputs += tree("cli", SRC_EXT)
    main = os.path.join(HARNESS, conf.get("source", prop + ".cpp"))
    own = sorted(glob.glob(os.path.join(HARNESS, "*.hpp"))) + sorted(glob.glob(os.path.join(HARNESS, "*.cpp")))
    key = digest(inputs + own, (prop, flavour, flags, fuzzer, conf.get("defines")))
    d = os.path.join(VERIF, "build", "%s-%s-%s" % (prop, flavour, key))
    exe = os.path.join(d, "harness")
    if os.path.exists(os.path.join(d, "done")):
        return exe
    # another run may be using or making any of these: only old ones go, and the new one appears at once
    for old in glob.glob(os.path.join(VERIF, "build", "%s-%s-*" % (prop, flavour))):
        try:
            if time.time() - os.stat(old).st_mtime > 7200:
                shutil.rmtree(old, ignore_errors=True)
        except OSError:
            pass
    final, d = d, d + ".%d.tmp" % os.getpid()
    os.makedirs(d)
    exe = os.path.join(d, "harness")
    make_config(d, single)
    inc = ["-I" + d, "-I" + os.path.join(REPO, "src"), "-I" + REPO]
    jobs, objs, cli_objs = [], [], []
    def add(src, std, extra, where):
        o = os.path.join(d, "o%d.o" % len(jobs))
        jobs.append([cc, "-std=" + std] + flags + inc + extra + ["-c", src, "-o", o])
        where.append(o)
    hf = ["-I" + HARNESS] + conf.get("defines", [])
    hobjs = []
    add(main, "c++17", hf + (["-DPBT_LIBFUZZER"] if fuzzer else []), hobjs)
    for s in lib_src:
        add(s, "c++11", ["-w"], objs)
    for s in cli_src:
        add(s, "c++11", ["-w"], cli_objs)
    if conf.get("cli") == "meter": # its own readline, see there
        add(os.path.join(HARNESS, "readline_meter.cpp"), "c++17", ["-fno-sanitize=all"], cli_objs)
    compile_all(jobs)
    # as a static library, as in the project's own build: unreferenced objects are not linked
    lib = os.path.join(d, "libonex.a")
    r = sh(["ar", "rcs", lib] + objs)
    if r.returncode:
        raise BuildError(r.stdout)
    link = LINK["fuzz"] if fuzzer else [f for f in flags if f.startswith("-fsanitize")]
    clocks = [] if fuzzer else ["-Wl,--wrap=_ZNSt6chrono3_V212%s_clock3nowEv" % k for k in ("system", "steady")]
    r = sh([cc] + link + hobjs + [lib] + ["-o", exe] + clocks + conf.get("libs", []))
    if r.returncode:
        raise BuildError(r.stdout[-4000:])
    if cli_objs:
        r = sh([cc] + link + cli_objs + [lib, "-lreadline", "-o", os.path.join(d, "onex")])
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
    for o in glob.glob(os.path.join(d, "*.o")) + [lib]:
        os.unlink(o)
    open(os.path.join(d, "done"), "w").close()
    try:
        os.rename(d, final)
    except OSError: # made meanwhile by another run
        shutil.rmtree(d, ignore_errors=True)
    return os.path.join(final, "harness")


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=4096",
           UBSAN_OPTIONS="print_stacktrace=0", LC_ALL="C", TERM="dumb")


# Freed memory is handed out again at once: what was remembered by address then meets other data.
REUSE = dict(ENV, ASAN_OPTIONS=ENV["ASAN_OPTIONS"] + ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0")


def known_findings():
    """known-findings.txt: 'fixed: ...' lines suppress nothing; 'finding: property=<id> match=<text> ...' lines do."""
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+match=(\"[^\"]*\"|\S+)\s*(.*)", line)
            if m:
                r.append((m.group(1), m.group(2).strip('"'), m.group(3).strip()))
    return r


def run_shards(prop, exe, seed, tier, cases, budget, work, replays):
    procs = []
    for s in range(JOBS):
        sd = os.path.join(work, "s%d" % s)
        os.makedirs(sd)
        out = os.path.join(work, "out%d.json" % s)
        rep = os.path.join(work, "replay%d.txt" % s)
        procs.append((subprocess.Popen(
            [exe, "run", "--seed", str(seed), "--cases", str(cases), "--shard", str(s), "--shards", str(JOBS), "--out", out,
             "--replay", rep, "--budget", str(budget), "--dir", sd, "--tier", tier],
            env=REUSE if s % 2 else ENV, stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, "err%d.txt" % s), "w"), start_new_session=True), out, rep, sd))
    res = []
    deadline = time.time() + budget + 150
    for p, out, rep, sd in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        data = None
        if os.path.exists(out):
            try:
                data = json.load(open(out))
            except ValueError:
                pass
        res.append((p.returncode, data, rep))
    return res


def confirm(exe, rep, work, tier, env):
    """Replays a failure three times in fresh processes; it counts when at least two fail."""
    n, text = 0, ""
    for k in range(3):
        sd = os.path.join(work, "confirm%d" % k)
        os.makedirs(sd, exist_ok=True)
        r = sh([exe, "replay", "--file", rep, "--dir", sd, "--tier", tier], env=env)
        if r.returncode == 1:
            n += 1
            text = r.stdout
        if n == 2 or n + 2 - k < 2: # decided
            break
    return n >= 2, text


def fuzz(prop, seed, seconds, work):
    """Coverage-guided campaign over the same property; returns (executions, crash files)."""
    exe = build(prop, "fuzz", True)
    procs = []
    for s in range(JOBS):
        sd = os.path.join(work, "fuzz%d" % s)
        corpus = os.path.join(sd, "corpus")
        os.makedirs(corpus)
        env = dict(ENV, PBT_DIR=sd)
        # half of the jobs start from nothing, half from random byte strings of useful length
        if s % 2:
            import random
            rnd = random.Random(seed * 100 + s)
            for k in range(20):
                with open(os.path.join(corpus, "seed%d" % k), "wb") as f:
                    f.write(bytes(rnd.randrange(256) for _ in range(rnd.choice([50, 200, 800, 3000]))))
        procs.append((subprocess.Popen(
            [exe, "-seed=%d" % (seed * 64 + s + 1), "-max_total_time=%d" % seconds, "-max_len=4096", "-timeout=60", "-rss_limit_mb=3500",
             "-close_fd_mask=1", "-print_final_stats=1", "-artifact_prefix=" + sd + "/", corpus],
            env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(sd, "log"), "w"), start_new_session=True), sd))
    execs, crashes = 0, []
    for p, sd in procs:
        try:
            p.wait(seconds + 120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        log = open(os.path.join(sd, "log"), errors="replace").read()
        m = re.search(r"stat::number_of_executed_units:\s+(\d+)", log)
        if m:
            execs += int(m.group(1))
        crashes += glob.glob(sd + "/crash-*") + glob.glob(sd + "/timeout-*")
    return execs, crashes


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        exe = build(prop, os.environ.get("PBT_FLAVOUR") or PROPS[prop].get("flavour", "asan"))
        work = os.path.join(VERIF, "build", "replay-work-%d" % os.getpid())
        os.makedirs(work, exist_ok=True)
        for env in ENV, REUSE:
            r = sh([exe, "replay", "--file", sys.argv[3], "--dir", work, "--tier", tier], env=env)
            if r.returncode:
                break
        print(r.stdout)
        shutil.rmtree(work, ignore_errors=True)
        return r.returncode
    conf = PROPS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    work = os.path.join(VERIF, "build", "work-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        exe = build(prop, os.environ.get("PBT_FLAVOUR") or conf.get("flavour", "asan"))
    except BuildError as e:
        print("cannot build the harness for %s:\n%s" % (prop, e))
        shutil.rmtree(work, ignore_errors=True)
        return 2
    cases = conf["quick"] if tier == "quick" else conf["thorough"]
    if os.environ.get("PBT_CASES"):
        cases = int(os.environ["PBT_CASES"])
    budget = float(os.environ.get("PBT_BUDGET", "150" if tier == "quick" else "420"))
    t1 = time.time()
    res = run_shards(prop, exe, seed, tier, cases, budget, work, replays)
    t2 = time.time()

    failures = [(rep, REUSE if k % 2 else ENV) for k, (rc, data, rep) in enumerate(res) if rc == 1 and os.path.exists(rep)]
    broken = [rc for rc, data, rep in res if rc not in (0, 1) or data is None]
    fuzz_execs = None
    if tier == "thorough" and conf.get("fuzz") and not failures:
        try:
            fuzz_execs, crashes = fuzz(prop, seed, int(os.environ.get("PBT_FUZZ_S", conf["fuzz"])), work)
            for k, f in enumerate(sorted(crashes)[:8]):
                rep = os.path.join(work, "fuzzreplay%d.txt" % k)
                sd = os.path.join(work, "fb%d" % k)
                os.makedirs(sd)
                r = sh([exe, "frombytes", "--file", f, "--replay", rep, "--dir", sd, "--tier", tier], env=ENV)
                if r.returncode == 1:
                    failures.append((rep, ENV))
        except BuildError as e:
            print("cannot build the fuzz target for %s:\n%s" % (prop, e))
            broken.append(2)

    violations, known, unconfirmed = [], [], 0
    for rep, env in failures:
        ok, text = confirm(exe, rep, work, tier, env)
        if not ok:
            unconfirmed += 1
            continue
        hit = [k for k in known_findings() if k[0] == prop and k[1] in text]
        if hit:
            known.append(hit[0])
            continue
        dst = os.path.join(replays, "%s-seed%d-%s.txt" % (prop, seed, hashlib.sha256(open(rep, "rb").read()).hexdigest()[:8]))
        shutil.copy(rep, dst)
        violations.append((dst, text))
        break # one unlisted violation decides

    ev = nt = disc = flaky = 0
    labels, samples, hashes = {}, [], set()
    rule = ""
    truncated = False
    for rc, data, rep in res:
        if not data:
            continue
        ev += data["evaluations"]
        disc += data["discarded"]
        flaky += data["flaky"]
        truncated |= data["truncated"]
        rule = data["rule"]
        for k, v in data["labels"].items():
            labels[k] = labels.get(k, 0) + v
        hashes.update(data["hashes"])
        samples += data["samples"][:1 if len(samples) > 3 else 2]
    cov = {"evaluations": ev, "distinct_nontrivial": len(hashes), "rule": rule, "samples": samples[:5],
           "discarded": disc, "labels": dict(sorted(labels.items())), "time_budget_hit": truncated,
           "flaky_not_counted": flaky + unconfirmed, "build_s": round(t1 - t0, 1), "explore_s": round(t2 - t1, 1)}
    if fuzz_execs is not None:
        cov["coverage_guided_executions"] = fuzz_execs
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "exploration"), "coverage": cov,
               "assumptions": conf.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(violations)},
              open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if os.environ.get("PBT_KEEP"):
        print("kept", work)
    else:
        shutil.rmtree(work, ignore_errors=True)

    print("%s %s seed %d: %d cases, %d distinct non-trivial, %d discarded, build %.0f s, exploration %.0f s%s" % (
        prop, tier, seed, ev, len(hashes), disc, t1 - t0, t2 - t1,
        "" if fuzz_execs is None else ", %d coverage-guided executions" % fuzz_execs))
    for pid, match, what in dict.fromkeys(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if violations:
        dst, text = violations[0]
        print(text[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(dst, VERIF)))
        return 1
    if broken:
        print("the harness itself failed: %s" % broken)
        return 2
    if ev == 0 or (not hashes and not known):
        print("nothing was explored")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
