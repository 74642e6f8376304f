#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  vsim.py check <property>            build from /repo, search, report
  vsim.py replay <file> [--verbose]   re-execute a replay file
  vsim.py determinism <property> [n]  compare logs over seeds and worker counts
  vsim.py build                       build everything once (setup)

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough).
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
HARNESS = os.path.join(HERE, "harness")
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
NCPU = max(1, min(8, os.cpu_count() or 1))
CXX = "g++"

sys.path.insert(0, HERE)
from propinfo import PROPS  # noqa: E402

WRAPS_A = ["exit", "_exit", "_Exit", "quick_exit", "abort", "time", "clock_gettime", "gettimeofday",
           "clock", "rand", "random", "getpid",
           "fprintf", "vfprintf", "fputs", "fputc", "putc", "fwrite", "write", "fflush", "__fprintf_chk", "__vfprintf_chk",
           "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv",
           "_ZNSt13random_device9_M_getvalEv",
           "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]
WRAPS_B = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock",
           "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock",
           "pthread_once", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
           "pthread_spin_lock", "pthread_spin_unlock", "sched_yield", "usleep", "nanosleep",
           "exit", "time", "clock_gettime", "gettimeofday",
           "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv",
           "_ZNSt13random_device9_M_getvalEv",
           "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE",
           "_ZNSt18condition_variable10notify_oneEv",
           "memcpy", "memmove", "memset",
           "_ZNSt10_Sp_lockerC1EPKv", "_ZNSt10_Sp_lockerC1EPKvS1_", "_ZNSt10_Sp_lockerD1Ev",
           "_ZNSt18condition_variable10notify_allEv"]
BASE = ["-g1", "-fno-pie", "-w", "-fwrapv", "-ftrivial-auto-var-init=pattern", "-fwrapv-pointer", "-fno-strict-aliasing", "-fno-delete-null-pointer-checks", "-include", "stdint.h", "-I", os.path.join(SRC, "include"), "-I", HARNESS]
WORLDS = {
    "A": {
        "lib": ["-std=c++11", "-O1", "-fsanitize=address", "-fsanitize-coverage=trace-pc",
                "-fno-omit-frame-pointer", "-include", "simengine.h"],
        "prop": ["-std=c++14", "-O1", "-fsanitize=address", "-fsanitize-coverage=trace-pc",
                 "-fno-omit-frame-pointer", "-include", "simengine.h"],
        "rt": ["-std=c++14", "-O1"],
        "rt_src": "sim.cpp",
        "link": ["-no-pie", "-fsanitize=address", "-pthread"] + ["-Wl,--wrap=" + w for w in WRAPS_A],
    },
    "B": {
        "lib": ["-std=c++11", "-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"],
        "prop": ["-std=c++14", "-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"],
        "rt": ["-std=c++14", "-O2"],
        "rt_src": "tsim.cpp",
        "link": ["-no-pie", "-pthread"] + ["-Wl,--wrap=" + w for w in WRAPS_B],
    },
}


class BuildError(Exception):
    pass


def log(*a):
    print("[vsim]", *a, file=sys.stderr, flush=True)


def sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_digest(dirs):
    h = hashlib.sha1()
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".inc", ".ipp", ".tpp")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0" + read(p))
    return h.hexdigest()


def compile_one(src, flags, key, outdir):
    obj = os.path.join(outdir, os.path.basename(src).replace(".cpp", "") + "-" + key[:20] + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX] + BASE + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    os.replace(tmp, obj)
    return obj


def build(prop):
    info = PROPS[prop]
    w = WORLDS[info["world"]]
    out = os.path.join(BUILD, info["world"])
    os.makedirs(out, exist_ok=True)
    libsrc = sorted(glob.glob(os.path.join(SRC, "*", "**", "*.cpp"), recursive=True))
    hd_lib = headers_digest([SRC])
    hd_all = sha(hd_lib, headers_digest([HARNESS]))
    extra = ["-DVERIF_PROP_" + prop] + info.get("flags", [])
    jobs = []
    for s in libsrc:
        fl = w["lib"]
        jobs.append((s, fl, sha(s, read(s), fl, BASE, hd_lib, read(os.path.join(HARNESS, "simengine.h")))))
    ps = os.path.join(HARNESS, "props", info["source"])
    parts = info.get("parts", 1)
    for part in range(parts):
        fl = w["prop"] + extra + ["-DPART=%d" % part]
        jobs.append((ps, fl, sha(ps, read(ps), fl, BASE, hd_all)))
    rs = os.path.join(HARNESS, w["rt_src"])
    jobs.append((rs, w["rt"], sha(rs, read(rs), w["rt"], BASE, hd_all)))
    # the biggest first
    order = sorted(range(len(jobs)), key=lambda i: -(os.path.getsize(jobs[i][0]) + (10 ** 6 if i >= len(libsrc) else 0)))
    objs = [None] * len(jobs)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {ex.submit(compile_one, *jobs[i], out): i for i in order}
        for f in cf.as_completed(futs):
            objs[futs[f]] = f.result()
    # property first (its instrumented template instances win), runtime last
    objs = objs[len(libsrc):-1] + objs[:len(libsrc)] + [objs[-1]]
    exe = os.path.join(out, prop + "-" + sha(*objs, w["link"])[:20])
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + objs + w["link"] + ["-o", tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("linking failed:\n" + r.stdout[-4000:])
        os.replace(tmp, exe)
    return exe


# ------------------------------------------------------------------ execution
VIOL = re.compile(r"^VIOL run=(-?\d+) class=(\S+) env=(\d+) hash=(\S+) events=(\d+) msg=(.*)$", re.M)


def run_env():
    e = dict(os.environ)
    e.pop("ASAN_OPTIONS", None)
    e["LC_ALL"] = "C"
    return e


def parse_result(out, rc):
    m = VIOL.search(out)
    if m:
        return {"class": m[2], "env": m[3], "hash": m[4], "events": m[5], "msg": m[6], "run": int(m[1])}
    if rc == 0:
        return None
    return {"class": "died-rc%d" % rc, "env": "?", "hash": "?", "events": "?", "msg": "process ended with %d" % rc,
            "run": -1}


def replay_text(exe, text, scratch, verbose=False, timeout=200):
    fd, path = tempfile.mkstemp(dir=scratch, suffix=".plan")
    os.write(fd, text.encode("latin-1"))
    os.close(fd)
    try:
        r = subprocess.run([exe, "replay", "--plan", path, "--verbose", "1" if verbose else "0"],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=run_env(),
                           cwd=scratch)
        out, rc = r.stdout.decode("latin-1"), r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode("latin-1"), -99
    finally:
        os.unlink(path)
    return parse_result(out, rc), out


def split_plans(text):
    plans, cur = [], None
    for line in text.splitlines():
        if line.startswith("plan "):
            cur = {"head": line, "cfg": [], "steps": []}
            plans.append(cur)
        elif line.startswith("cfg ") and cur:
            cur["cfg"].append(line)
        elif line.startswith("step ") and cur:
            cur["steps"].append(line)
    return plans


def join_plans(plans):
    out = []
    for p in plans:
        out.append(p["head"])
        out += p["cfg"]
        out += p["steps"]
    return "\n".join(out) + "\n"


class Minimiser:
    def __init__(self, exe, cls, scratch, deadline):
        self.exe, self.cls, self.scratch, self.deadline = exe, cls, scratch, deadline
        self.tried = {}
        self.count = 0

    def bad(self, plans):
        t = join_plans(plans)
        k = sha(t)
        if k not in self.tried:
            self.count += 1
            r, _ = replay_text(self.exe, t, self.scratch)
            self.tried[k] = bool(r and r["class"] == self.cls)
        return self.tried[k]

    def first_bad(self, cands):
        """First candidate (in order) that still fails; evaluated in parallel."""
        cands = list(cands)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for i in range(0, len(cands), NCPU):
                if time.time() > self.deadline:
                    return None
                chunk = cands[i:i + NCPU]
                res = list(ex.map(self.bad, chunk))
                for c, b in zip(chunk, res):
                    if b:
                        return c
        return None

    def ddmin_list(self, items, rebuild):
        n = 2
        while len(items) >= 1 and time.time() < self.deadline:
            size = max(1, (len(items) + n - 1) // n)
            cands = []
            for i in range(0, len(items), size):
                cands.append(items[:i] + items[i + size:])
            hit = None
            wrapped = [rebuild(c) for c in cands]
            h = self.first_bad(wrapped)
            if h is not None:
                hit = cands[[join_plans(x) for x in wrapped].index(join_plans(h))]
            if hit is not None:
                items = hit
                n = max(2, n - 1)
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items

    def run(self, plans):
        plans = [dict(p) for p in plans]
        if len(plans) > 1:
            keep = self.ddmin_list(plans[:-1], lambda c: c + [plans[-1]])
            plans = keep + [plans[-1]]
        for pi in range(len(plans) - 1, -1, -1):
            def rebuild(steps, pi=pi):
                q = list(plans)
                q[pi] = dict(plans[pi], steps=list(steps))
                return q
            plans = rebuild(self.ddmin_list(plans[pi]["steps"], rebuild))
            # drop faults, shrink arguments
            changed = True
            rounds = 0
            while changed and rounds < 4 and time.time() < self.deadline:
                changed = False
                rounds += 1
                for si in range(len(plans[pi]["steps"])):
                    for cand in self.simpler(plans[pi]["steps"][si]):
                        if time.time() > self.deadline:
                            break
                        st = list(plans[pi]["steps"])
                        st[si] = cand
                        q = rebuild(st)
                        if self.bad(q):
                            plans = q
                            changed = True
                            break
        return plans

    @staticmethod
    def simpler(line):
        f = line.split(" ")
        # step op N args a0..a5 fault k a b text .xxx
        out = []
        if f[11] != "0":
            out.append(f[:11] + ["0", "0", "0"] + f[14:])
            if f[12] != "0":
                out.append(f[:12] + [str(int(f[12]) // 2)] + f[13:])
        text = f[15][1:] if len(f) > 15 else ""
        toks = re.findall(r"%[0-9a-f]{2}|.", text)
        if toks:
            n = len(toks)
            for a, b in ((0, n // 2), (n // 2, n), (0, 1), (n - 1, n)):
                if a < b:
                    out.append(f[:15] + ["." + "".join(toks[:a] + toks[b:])])
        for i in range(4, 10):
            v = int(f[i])
            if v:
                for nv in dict.fromkeys([0, 1 if v > 1 else v, int(v / 2)]):
                    if nv != v:
                        out.append(f[:i] + [str(nv)] + f[i + 1:])
        return [" ".join(x) for x in out]


def search(prop, exe, seed, tier, scratch):
    info = PROPS[prop]
    runs = info["runs"][tier]
    limit = info["limit"][tier]
    t_end = time.time() + limit
    segs = []    # one process each: first run, worker, process, output file

    def start(w, first):
        n = len(segs)
        cmd = [exe, "work", "--seed", str(seed), "--from", str(first), "--to", str(runs), "--stride", str(NCPU),
               "--limit", str(max(1.0, t_end - time.time())), "--progress", os.path.join(scratch, "p%d" % n),
               "--hashes", os.path.join(scratch, "h%d" % n)]
        out = open(os.path.join(scratch, "o%d" % n), "wb")
        segs.append((first, w, subprocess.Popen(cmd, stdout=out, stderr=subprocess.DEVNULL, env=run_env(), cwd=scratch)))
        out.close()
        return n

    def stats_of(n):
        m = re.search(r"^STATS (\{.*\})$", read(os.path.join(scratch, "o%d" % n)).decode("latin-1"), re.M)
        return json.loads(m[1]) if m else None

    pend = {start(w, w) for w in range(NCPU)}
    failed = False
    while pend and time.time() < t_end + 200:
        for n in sorted(pend):
            first, w, p = segs[n]
            if p.poll() is None:
                continue
            pend.discard(n)
            st = stats_of(n) if p.returncode == 0 else None
            if p.returncode != 0:
                failed = True
            elif st and not st["time_up"] and st["next"] < runs and time.time() < t_end - 1:
                pend.add(start(w, st["next"]))   # it stopped to get rid of what its runs left behind
        if failed:
            # let the others go on for a moment, then stop
            t1 = time.time() + 0.5
            while time.time() < t1 and any(segs[n][2].poll() is None for n in pend):
                time.sleep(0.05)
            break
        time.sleep(0.05)
    for _, _, p in segs:
        if p.poll() is None:
            p.kill()
        p.wait()
    stats, viols, hashes = [], [], set()
    for n, (first, w, p) in enumerate(segs):
        st = stats_of(n)
        if st:
            stats.append(st)
        elif p.returncode not in (0, -9):
            r = parse_result(read(os.path.join(scratch, "o%d" % n)).decode("latin-1"), p.returncode)
            if r["run"] < 0:
                try:
                    r["run"] = struct.unpack("<q", read(os.path.join(scratch, "p%d" % n))[:8])[0]
                except Exception:
                    pass
            r["worker"] = first
            viols.append(r)
        try:
            d = read(os.path.join(scratch, "h%d" % n))
            hashes.update(struct.unpack("<%dQ" % (len(d) // 8), d))
        except FileNotFoundError:
            pass
    return stats, viols, hashes


def gen_plan(exe, seed, run, last=-1):
    r = subprocess.run([exe, "gen", "--seed", str(seed), "--run", str(run), "--last", str(last), "--stride", str(NCPU)], stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, env=run_env())
    return r.stdout.decode("latin-1")


def settle(prop, exe, seed, v, scratch):
    """Gate a violation: reproduce it in fresh processes, minimise it, write the replay file."""
    run, w = v["run"], v["worker"]
    base = split_plans(gen_plan(exe, seed, run))
    if not base:
        return None
    plans = None
    n = 1
    while True:
        seq = []
        lo = max(w, run - NCPU * (n - 1))
        if lo < run:   # the failure may need what earlier runs left in the process
            seq = split_plans(gen_plan(exe, seed, lo, run - NCPU))
        cand = seq + base
        r, _ = replay_text(exe, join_plans(cand), scratch)
        if r:
            plans = cand
            break
        if lo == w or PROPS[prop]["world"] == "B":
            break
        n = n * 8 if n < 500 else 1 << 40
    if plans is None:
        return None
    cls = r["class"]
    r2, _ = replay_text(exe, join_plans(plans), scratch)
    if not r2 or (r2["class"], r2["hash"]) != (cls, r["hash"]):
        return None
    mini = Minimiser(exe, cls, scratch, time.time() + 45)
    small = mini.run(plans)
    a, _ = replay_text(exe, join_plans(small), scratch)
    b, vout = replay_text(exe, join_plans(small), scratch, verbose=True)
    if not a or not b or a["class"] != cls or b["class"] != cls or a["hash"] != b["hash"]:
        small = plans
        a, vout = replay_text(exe, join_plans(small), scratch, verbose=True)
    os.makedirs(REPLAYS, exist_ok=True)
    text = join_plans(small)
    path = os.path.join(REPLAYS, "%s-%s.plan" % (prop, sha(text)[:10]))
    with open(path, "w", encoding="latin-1") as f:
        f.write("# property %s: %s\n" % (prop, PROPS[prop]["title"]))
        f.write("# class %s\n# %s\n" % (cls, a["msg"]))
        f.write("# VERIF_SEED=%s run=%s; minimised with %d replays, %d -> %d steps\n" % (
            seed, run, mini.count, sum(len(p["steps"]) for p in plans), sum(len(p["steps"]) for p in small)))
        f.write("# transcript hash %s\n" % a["hash"])
        f.write("# replay: python3 /verif/vsim.py replay %s --verbose\n" % path)
        f.write(text)
        f.write("# trace of the failing execution (simulator log):\n")
        for line in vout.splitlines()[-60:]:
            f.write("#   " + line + "\n")
    return {"class": cls, "msg": a["msg"], "path": path, "hash": a["hash"]}


def open_findings(prop):
    """Lines "finding: property=<id> class=<class> match=<text in the message> what=<what fails>"."""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in read(path).decode().splitlines():
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(.*?) what=(.*)$", line)
            if m and m[1] == prop:
                out.append((m[2], m[3], m[4]))
    return out


def check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    info = PROPS[prop]
    print("property %s: %s" % (prop, info["title"]))
    print("VERIF_SEED=%d tier=%s" % (seed, tier), flush=True)
    try:
        exe = build(prop)
    except BuildError as e:
        print(e)
        return 2
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="vsim-")
    try:
        t1 = time.time()
        stats, viols, hashes = search(prop, exe, seed, tier, scratch)
        t_search = time.time() - t1
        reports, unsettled = [], []
        seen = set()
        for v in sorted(viols, key=lambda x: x["run"]):
            if v["class"] in seen:
                continue
            if len(reports) >= 2:
                break
            log("violation candidate run=%d class=%s: %s" % (v["run"], v["class"], v["msg"][:200]))
            s = settle(prop, exe, seed, v, scratch)
            if s is None:
                unsettled.append(v)
            else:
                seen.add(v["class"])
                reports.append(s)
        write_evidence(prop, info, tier, seed, stats, hashes, reports, t_search, time.time() - t0, t_build, exe)
        known = open_findings(prop)
        for c, m, what in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        reports = [r for r in reports if not any(r["class"] == c and m in r["msg"] for c, m, _ in known)]
        for r in reports:
            print("violated: class=%s %s" % (r["class"], r["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, r["path"]))
        if reports:
            return 1
        if unsettled:
            print("ERROR: %d candidate(s) did not reproduce: %s" % (len(unsettled), unsettled[:2]))
            return 2
        total = sum(s["runs"] for s in stats)
        print("held on %d simulated runs (%d distinct executions), build %.1f s, search %.1f s" % (
            total, len(hashes), t_build, t_search))
        if not stats or total == 0:
            print("ERROR: no run completed")
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(prop, info, tier, seed, stats, hashes, reports, t_search, wall, t_build, exe):
    runs = sum(s["runs"] for s in stats)
    faults, probes = {}, {}
    for s in stats:
        for k, n in s["faults"].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in s["probes"].items():
            probes[k] = probes.get(k, 0) + n
    nontrivial = len([h for h in hashes if h & 1])
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": info.get("level", "exploration"),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nontrivial,
            "rule": info["rule"],
            "samples": [gen_plan(exe, seed, i).splitlines()[:14] for i in (0, 1)],
            "distinct_executions": len(hashes),
            "runs_with_a_fired_fault": sum(s["runs_with_faults"] for s in stats),
            "seeds_per_hour": int(runs / max(t_search, 0.01) * 3600),
            "simulated_time": {"unit": info.get("time_unit", "basic-block steps of the code under test"),
                               "covered": sum(s["steps"] for s in stats)},
            "logged_events": sum(s["events"] for s in stats),
            "faults_fired": faults,
            "probes": probes,
            "library_blocks_reached": max([s["blocks"] for s in stats] or [0]),
            "cut_short_by_time": sum(s["time_up"] for s in stats),
            "real_components": info["real"],
            "stub_components": info["stub"],
            "search_s": round(t_search, 2),
            "build_s": round(t_build, 2),
        },
        "assumptions": info.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(reports),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay_cmd(path, verbose):
    text = read(path).decode("latin-1")
    m = re.search(r"^plan (\S+) seed", text, re.M)
    if not m:
        print("no plan in", path)
        return 2
    prop = m[1]
    exe = build(prop)
    scratch = tempfile.mkdtemp(prefix="vsim-")
    try:
        body = "\n".join(x for x in text.splitlines() if not x.startswith("#")) + "\n"
        r, out = replay_text(exe, body, scratch, verbose=True)
        if verbose:
            print(out)
        if r:
            print("reproduced: class=%s hash=%s %s" % (r["class"], r["hash"], r["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("not reproduced: the property holds on this execution")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def determinism(prop, n):
    """Many seeds, two executions each in different processes and shardings; logs must agree."""
    exe = build(prop)
    scratch = tempfile.mkdtemp(prefix="vsim-")
    bad = 0
    try:
        def shard(args):
            tag, seed, frm, stride = args
            hp = os.path.join(scratch, "d%s-%d-%d" % (tag, seed, frm))
            subprocess.run([exe, "work", "--seed", str(seed), "--from", str(frm), "--to", str(n), "--stride",
                            str(stride), "--hashes", hp, "--limit", "600"], stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, env=run_env(), cwd=scratch)
            d = read(hp)
            return dict(zip(range(frm, n, stride), struct.unpack("<%dQ" % (len(d) // 8), d)))
        jobs = []
        for seed in range(1, 11):
            jobs += [("a", seed, w, 5) for w in range(5)] + [("b", seed, w, 2) for w in range(2)] + [("c", seed, 0, 1)]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(shard, jobs))
        table = {}
        for j, r in zip(jobs, res):
            for i, h in r.items():
                table.setdefault((j[1], i), set()).add(h)
        total = len(table)
        bad = sum(1 for v in table.values() if len(v) != 1)
        print("%s: %d runs, each executed in 3 shardings: %d disagree" % (prop, total, bad))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if len(a) >= 2 and a[0] == "check":
        sys.exit(check(a[1]))
    if len(a) >= 2 and a[0] == "replay":
        sys.exit(replay_cmd(a[1], "--verbose" in a))
    if len(a) >= 2 and a[0] == "determinism":
        sys.exit(determinism(a[1], int(a[2]) if len(a) > 2 else 200))
    if a and a[0] == "build":
        rc = 0
        for p in PROPS:
            try:
                print(p, build(p))
            except BuildError as e:
                print(e)
                rc = 2
        sys.exit(rc)
    print(__doc__)
    sys.exit(2)


if __name__ == "__main__":
    main()
