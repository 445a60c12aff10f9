#!/usr/bin/env python3
"""Builds the library from /repo in the configurations a property needs, runs
the monitors over it, and reports.

  run.py <ID>                    one check (VERIF_SEED, VERIF_TIER from the environment)
  run.py --setup                 prebuild the harness
  run.py <ID> --replay <file>    run the single case a VIOLATION line points at
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
HARNESS = os.path.join(ROOT, "harness")
NCPU = os.cpu_count() or 4

from plans import VARIANTS, binaries_for, jobs_for, RULES, ASSUME, LEVEL, post  # noqa: E402

LIBS = "-lsecp256k1 -lcrypto -lgmp -lpthread -ldl"
CORE = ["core", "ref", "ops"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                if not os.path.isfile(p):
                    continue
                h.update(os.path.relpath(p, base).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class Builder:
    def __init__(self):
        self.objdir = os.path.join(BUILD, "obj")
        os.makedirs(self.objdir, exist_ok=True)
        names = os.listdir(self.objdir)
        if len(names) > 4000:  # old configurations pile up while developing
            for n in names:
                try:
                    os.unlink(os.path.join(self.objdir, n))
                except OSError:
                    pass
        self.repo_hash = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "include")])
        self.inc_hash = tree_hash([os.path.join(REPO, "include")])
        self.har_hash = tree_hash([HARNESS])
        self.sources = []
        for d, dirs, files in os.walk(os.path.join(REPO, "src")):
            dirs.sort()
            self.sources += [os.path.join(d, f) for f in sorted(files) if f.endswith(".c")]

    def compile(self, cmd, key, src):
        o = os.path.join(self.objdir, hashlib.sha256((key + "\0" + " ".join(cmd)).encode()).hexdigest()[:32] + ".o")
        if os.path.exists(o):
            return o
        tmp = o + ".%d.%d.tmp" % (os.getpid(), hash(src) & 0xffffff)
        r = sh(cmd + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-3000:]))
        os.rename(tmp, o)
        return o

    def lib_jobs(self, variant):
        v = VARIANTS[variant]
        jobs = []
        for s in self.sources:
            cmd = [v["cc"], "-std=gnu99", "-w"] + v["flags"].split() + ["-I" + REPO + "/include", "-I" + REPO + "/src"]
            jobs.append((cmd, "lib" + self.repo_hash + s, s))
        return jobs

    def harness_jobs(self, names, hflags="", uflags=None):
        jobs = []
        for n in names:
            flags = hflags + " " + (uflags or {}).get(n, "")
            src = os.path.join(HARNESS, n + ".cpp")
            cmd = ["g++", "-std=c++17", "-O1", "-g1", "-w", "-I" + REPO + "/include"] + flags.split()
            if not os.path.exists(src):
                src = os.path.join(HARNESS, n + ".c")
                cmd = ["gcc", "-std=gnu11", "-O1", "-g1", "-w", "-I" + REPO + "/include"] + flags.split()
            jobs.append((cmd, "har" + self.inc_hash + self.har_hash + n, src))
        return jobs

    def build(self, binaries, outdir):
        """binaries: {name: dict(variant, units, link, hflags)} -> {name: path}"""
        tasks = {}
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for b in binaries.values():
                hf = b.get("hflags", "")
                b["_jobs"] = self.harness_jobs(b["units"], hf, b.get("uflags")) + self.lib_jobs(b["variant"])
                for j in b["_jobs"]:
                    k = (" ".join(j[0]), j[1], j[2])
                    if k not in tasks:
                        tasks[k] = ex.submit(self.compile, *j)
            done = {k: f.result() for k, f in tasks.items()}

            def link(name, b):
                objs = [done[(" ".join(j[0]), j[1], j[2])] for j in b["_jobs"]]
                path = os.path.join(outdir, name)
                r = sh([VARIANTS[b["variant"]].get("ld", "g++")] + (VARIANTS[b["variant"]]["link"] + " " + b.get("link", "")).split() + objs + ["-o", path] + (b.get("libs", "") + " " + LIBS).split())
                if r.returncode != 0:
                    raise BuildError("linking %s failed:\n%s" % (name, r.stdout.decode(errors="replace")[-3000:]))
                return path
            links = {n: ex.submit(link, n, b) for n, b in binaries.items()}
            return {n: f.result() for n, f in links.items()}


# ---------------------------------------------------------------------- jobs
def crash_kind(rc, err):
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", err)
    if m:
        where = re.search(r"#\d+ 0x[0-9a-f]+ in (fingera_\w+|_\w+|\w+) (/repo|%s)/(src\S*?):\d+" % re.escape(REPO), err)
        return m.group(2) + ((" in " + where.group(1)) if where else "")
    m = re.search(r"([\w./-]+):(\d+):\d+: runtime error: ([^\n]{0,160})", err)
    if m:
        return "undefined behaviour in %s: %s" % (os.path.basename(m.group(1)), re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(3)))
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", err)
    if m:
        return m.group(1).strip()
    m = re.search(r"Assertion `([^']*)' failed", err)
    if m:
        return "assertion " + m.group(1)
    m = re.search(r"FATAL [^\n]{0,120}", err)
    if m:
        return "fatal exit"
    m = re.search(r"==\d+== (Conditional jump[^\n]*|Use of uninit[^\n]*|Invalid (?:read|write|free)[^\n]*|Syscall param[^\n]*)", err)
    if m:
        return "valgrind: " + re.sub(r"\d+", "N", m.group(1))
    if rc is not None and rc < 0:
        return "signal " + signal.Signals(-rc).name
    return "exit status %s" % rc


def read_cur(outdir):
    try:
        raw = open(os.path.join(outdir, "cur"), "rb").read()
        sec = raw[:64].split(b"\0")[0].decode(errors="replace")
        idx = struct.unpack("<Q", raw[64:72])[0]
        what = raw[72:].split(b"\0")[0].decode(errors="replace")
        return sec, idx, what
    except Exception:
        return "?", 0, "?"


STALL = {"quick": 100, "thorough": 400}  # seconds without a new case


class Runner:
    def __init__(self, prop, tier, seed, outdir):
        self.prop, self.tier, self.seed, self.outdir = prop, tier, seed, outdir
        self.violations = []
        self.problems = []
        self.evals = 0
        self.counters = {}
        self.samples = []
        self.needs = []
        self.distinct = set()
        self.runs = []
        self.hung = False
        self.skipped = 0

    def run_job(self, j, paths, n, only=None):
        d = os.path.join(self.outdir, "run%03d" % n)
        if self.hung:   # one confirmed hang is enough; spend no more time
            return j, n, None, None, 0, []
        for attempt in (0, 1):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            v = BINARIES_USED[j.binary]["variant"]
            cmd = j.wrap + [paths[j.binary], "--prop", self.prop, "--variant", j.binary, "--seed", str(self.seed), "--tier", self.tier,
                            "--shard", str(j.shard), "--shards", str(j.shards), "--outdir", d,
                            "--extra", (VARIANTS[v]["extra"] + " " + j.extra).strip()]
            if j.scale:
                cmd += ["--scale", str(j.scale)]
            if only:
                cmd += ["--only", only]
            env = dict(os.environ)
            env.update({"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=1:handle_abort=0:disable_coredump=1:quarantine_size_mb=32",
                        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1", "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:history_size=4:second_deadlock_stack=1",
                        "LC_ALL": "C", "LOCPATH": os.path.join(self.outdir, "loc")})
            env.update(j.env)
            to = j.timeout or (240 if self.tier == "quick" else 3000)
            t0 = time.time()
            with open(d + "/err", "wb") as ferr, open(d + "/out", "wb") as fout:
                p = subprocess.Popen(cmd, stdout=fout, stderr=ferr, stdin=subprocess.DEVNULL, env=env, start_new_session=True)
                rc, seen, since, stall = None, None, time.time(), STALL[self.tier]
                while time.time() - t0 < to:
                    try:
                        rc = p.wait(timeout=min(2, to))
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    now = self.progress(d)
                    if now != seen:
                        seen, since = now, time.time()
                    elif time.time() - since > stall or (self.hung and time.time() - since > 30):
                        self.hung = True   # no new case for a long time
                        break
                if rc is None:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
            if rc is not None or attempt or self.hung:
                break
        return j, n, d, rc, time.time() - t0, cmd

    @staticmethod
    def progress(d):
        try:
            with open(os.path.join(d, "cur"), "rb") as f:
                return hashlib.sha1(f.read()).digest()
        except OSError:
            return None

    def collect(self, res):
        j, n, d, rc, wall, cmd = res
        if d is None:
            self.skipped += 1
            return None
        err = open(d + "/err", "rb").read(4000000).decode(errors="replace")
        viol = []
        try:
            for line in open(d + "/violations.log", errors="replace"):
                try:
                    viol.append(json.loads(line))
                except ValueError:
                    pass
        except OSError:
            pass
        st = None
        try:
            st = json.load(open(d + "/stats.json"))
        except Exception:
            pass
        for v in viol:
            self.add_violation(j, v["key"], v["section"], v["index"], v["msg"], v["case"], cmd)
        if rc in (0, 1) and st and st.get("done"):
            pass
        elif rc == 66 and "ThreadSanitizer" in err:
            sec, idx, what = read_cur(d)
            for m in sorted(set(re.findall(r"SUMMARY: ThreadSanitizer: ([^\n]*)", err)))[:5]:
                self.add_violation(j, "%s:tsan" % sec, sec, idx, m + "\n" + err[:2500], what, cmd)
        elif rc == 99 and "valgrind" in " ".join(j.wrap):
            sec, idx, what = read_cur(d)
            self.add_violation(j, "%s:valgrind" % sec, sec, idx, crash_kind(rc, err) + "\n" + err[:3000], what, cmd)
        elif rc == 2:
            self.problems.append("harness error in %s: %s" % (" ".join(cmd), err[-800:]))
        else:
            sec, idx, what = read_cur(d)
            kind = "hang" if rc is None else crash_kind(rc, err)
            self.add_violation(j, "%s:%s" % (sec, kind), sec, idx, ("no answer within the time limit" if rc is None else kind) + "\n" + err[-3000:], what, cmd)
        if st:
            self.evals += st["evaluations"]
            for k, c in st["counters"].items():
                self.counters[k] = self.counters.get(k, 0) + c
            for s in st["samples"]:
                if len(self.samples) < 12 and s not in self.samples:
                    self.samples.append(s)
            for k, c in st["needs"]:
                if [k, c] not in self.needs:
                    self.needs.append([k, c])
            self.runs.append({"binary": j.binary, "extra": j.extra, "shard": "%d/%d" % (j.shard, j.shards), "evaluations": st["evaluations"], "wall_s": round(wall, 2)})
        try:
            raw = open(d + "/distinct.bin", "rb").read()
            if len(self.distinct) < 6000000:  # keep memory bounded; a lower bound then
                self.distinct.update(struct.unpack("<%dQ" % (len(raw) // 8), raw))
        except OSError:
            pass
        return st

    def add_violation(self, j, key, sec, idx, msg, case, cmd):
        self.violations.append({"key": key, "section": sec, "index": idx, "msg": msg, "case": case, "binary": j.binary, "extra": j.extra,
                                "scale": j.scale, "cmd": " ".join(cmd)})


def known_findings():
    out = []
    try:
        for line in open(os.path.join(ROOT, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\".*?\"|\S+) (.*)", line)
            if m:
                out.append((m.group(1), m.group(2).strip('"'), m.group(3).strip()))
    except OSError:
        pass
    return out


BINARIES_USED = {}


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        args.remove("--thorough")
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if args[0] == "--setup":
        b = Builder()
        bins = {}
        for i in range(1, 30):
            bins.update(binaries_for("C%02d" % i, "quick"))
        out = os.path.join(BUILD, "setup-%d" % os.getpid())
        os.makedirs(out, exist_ok=True)
        try:
            b.build(bins, out)
        finally:
            shutil.rmtree(out, ignore_errors=True)
        print("setup: built %d binaries" % len(bins))
        return 0
    prop = args[0]
    t0 = time.time()
    replay = None
    if len(args) > 2 and args[1] == "--replay":
        replay = json.load(open(args[2]))
        tier, seed = replay.get("tier", tier), replay.get("seed", seed)
    outdir = os.path.join(BUILD, "out-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    code = 2
    try:
        code = check(prop, tier, seed, outdir, replay, t0)
    except BuildError as e:
        print("BUILD FAILED: %s" % e)
        code = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(outdir, ignore_errors=True)
    return code


def make_locale(where):
    """Compile the locale in which part of the calls are made (skipped, and not counted, where localedef is missing)."""
    os.makedirs(where)
    try:
        subprocess.run(["localedef", "-c", "--quiet", "-i", os.path.join(ROOT, "tools/locale/hostile"), "-f", "ISO-8859-9", os.path.join(where, "hostile")],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
    except (OSError, subprocess.SubprocessError):
        pass


def check(prop, tier, seed, outdir, replay, t0):
    bins = binaries_for(prop, tier)
    BINARIES_USED.update(bins)
    paths = Builder().build(bins, outdir)
    build_s = time.time() - t0
    make_locale(os.path.join(outdir, "loc"))
    R = Runner(prop, tier, seed, outdir)
    R.paths = paths
    jobs = jobs_for(prop, tier)
    if replay:
        jobs = [j for j in jobs if j.binary == replay["binary"] and j.extra == replay["extra"]][:1]
        for j in jobs:
            j.shard, j.shards, j.scale = 0, 1, replay.get("scale")
            r = R.run_job(j, paths, 0, only="%s:%d" % (replay["section"], replay["index"]))
            sys.stdout.write(open(r[2] + "/err", errors="replace").read()[-6000:])
            R.collect(r)
        for v in R.violations:
            print("reproduced: %s\n  %s\n  %s" % (v["key"], v["case"], v["msg"][:1500]))
        return 1 if R.violations else 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(lambda a: R.run_job(a[1], paths, a[0]), enumerate(jobs)))
    for r in results:
        R.collect(r)
    extra_cov = post(prop, R, results, jobs) or {}
    # report
    known = known_findings()
    new, seen_known = {}, {}
    for v in R.violations:
        hit = [k for k in known if k[0] == prop and k[1] == v["key"]]
        if hit:
            seen_known[hit[0][1]] = hit[0]
        else:
            new.setdefault(v["key"], []).append(v)
    missing = [[k, c] for k, c in R.needs if R.counters.get(k, 0) < c]
    cov = {"evaluations": R.evals, "distinct_nontrivial": len(R.distinct), "rule": RULES[prop], "samples": R.samples[:12] or ["(none)"],
           "observed": dict(sorted(R.counters.items())), "builds": {b: VARIANTS[bins[b]["variant"]]["cc"] + " " + VARIANTS[bins[b]["variant"]]["flags"] for b in bins},
           "processes": len(jobs), "build_s": round(build_s, 1)}
    cov.update(extra_cov)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"), "coverage": cov, "assumptions": ASSUME.get(prop, []) + ASSUME["*"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known:
        if k[0] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    for i, (key, vs) in enumerate(sorted(new.items())):
        v = vs[0]
        path = os.path.join(ROOT, "evidence", "replay-%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump(dict(v, property=prop, tier=tier, seed=seed, how="python3 run.py %s --replay %s" % (prop, path)), f, indent=1)
            f.write("\n")
        if i < 10:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s (%d report(s), build %s)\n  case: %s\n  %s" % (key, len(vs), v["binary"], v["case"][:400], v["msg"][:700].replace("\n", "\n  ")))
    print("%s %s seed=%d: %d evaluations, %d distinct, %d processes, %d violation key(s), build %.1fs, total %.1fs" % (prop, tier, seed, R.evals, len(R.distinct), len(jobs), len(new), build_s, time.time() - t0))
    if new:
        return 1
    if R.problems:
        for p in R.problems[:5]:
            print("PROBLEM: " + p)
        return 2
    if missing:
        print("PROBLEM: the workload did not observe enough: %s" % missing)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
