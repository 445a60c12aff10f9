"""What each check builds and runs."""
import os
import shutil
import zlib

# Configurations the library is built in.  'cc' compiles, 'flags' are added,
# 'link' goes to the link line as well.
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
# for the processor at hand; the define keeps objects of another one out of the cache
with open("/proc/cpuinfo") as _f:
    NATIVE = " -march=native -DVERIF_CPU=%d" % (zlib.crc32("".join(sorted({l for l in _f if l.startswith(("model", "flags", "vendor"))})).encode()))
VARIANTS = {
    "dbg": dict(cc="gcc", flags="-O1 -g " + SAN, link="-fsanitize=address,undefined", extra="asan"),
    "rel": dict(cc="gcc", flags="-O2 -g1 -DNDEBUG", link="", extra="ndebug"),
    "plain": dict(cc="gcc", flags="-O1 -g", link="", extra=""),
    "tsan": dict(cc="gcc", flags="-O1 -g -fsanitize=thread -DNDEBUG", link="-fsanitize=thread", extra="ndebug tsan"),
    "ndsan": dict(cc="gcc", flags="-O2 -g -DNDEBUG " + SAN, link="-fsanitize=address,undefined", extra="asan ndebug"),
    "g0": dict(cc="gcc", flags="-O0 -g", link="", extra=""),
    "g2": dict(cc="gcc", flags="-O2 -g1", link="", extra=""),
    "g3n": dict(cc="gcc", flags="-O3 -DNDEBUG -U_FORTIFY_SOURCE -fno-stack-protector -g1", link="", extra="ndebug"),
    "gs": dict(cc="gcc", flags="-Os -fPIC -g1", link="", extra=""),
    "guc": dict(cc="gcc", flags="-O2 -funsigned-char -g1", link="", extra=""),
    "gnat": dict(cc="gcc", flags="-O3 -DNDEBUG -fno-strict-aliasing -fwrapv -pthread" + NATIVE + " -g1", link="", extra="ndebug"),
    "c0": dict(cc="clang", flags="-O0 -g1", link="", extra=""),
    "c2": dict(cc="clang", flags="-O2 -g1", link="", extra=""),
    "c3n": dict(cc="clang", flags="-O3 -DNDEBUG -funsigned-char" + NATIVE + " -g1", link="", extra="ndebug"),
    "g3": dict(cc="gcc", flags="-O3 -g1", link="", extra=""),
    "fuzz": dict(cc="clang", flags="-O1 -g -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer", ld="clang++",
                 link="-fsanitize=address,undefined", extra="asan"),
    "lto": dict(cc="gcc", flags="-O3 -flto=1 -ffat-lto-objects", link="-O3 -flto=1", extra=""),
}


class Job:
    """One process: which binary, which shard, how much of the workload."""

    def __init__(self, binary, extra="", shard=0, shards=1, scale=None, wrap=None, env=None, timeout=None, tag=""):
        self.binary, self.extra, self.shard, self.shards = binary, extra, shard, shards
        self.scale, self.wrap, self.env, self.timeout, self.tag = scale, wrap or [], env or {}, timeout, tag


C21_BUILDS = ["g0", "g2", "g3", "c2", "lto"]
C24_BUILDS = ["g0", "g2", "g3", "g3n", "gs", "guc", "gnat", "c0", "c2", "c3n"]
CORE = ["core", "ref", "ops"]
_WRAPPED = ("context_randomize context_destroy context_set_illegal_callback context_set_error_callback ec_seckey_verify ec_privkey_tweak_add ec_seckey_tweak_add ec_privkey_tweak_mul "
            "ec_seckey_tweak_mul ec_pubkey_create ec_pubkey_parse ec_pubkey_serialize ec_pubkey_tweak_add ecdsa_sign ecdsa_verify ecdsa_signature_normalize ecdsa_signature_parse_compact "
            "ecdsa_signature_serialize_compact ecdsa_signature_serialize_der").split()
WRAP = " ".join("-Wl,--wrap=secp256k1_" + w for w in _WRAPPED)
MON = ["core", "ref", "ops", "mon", "giant", "lenunit"]
ASSUME = {"*": ["the reference implementations in harness/ref.cpp (written from the standards over OpenSSL's digests and curve arithmetic) are right",
                "inputs beyond the generated ones behave like them; allocation never fails"]}
LEVEL = {"C20": "fault_enumeration"}
RULES = {}
CHEAP = ("C08", "C09", "C10", "C12", "C14", "C17", "C19")   # checks with time to spare
VALUE = ["C%02d" % i for i in range(4, 20)]
for _p in VALUE:
    RULES[_p] = ("each evaluation is one library call in guarded memory with random surroundings, compared with an independent reference; cases come from seeded generators and "
                 "exhaustive sections over small input spaces; distinct cases are counted by a hash of operation and inputs")
RULES["C01"] = RULES["C02"] = RULES["C03"] = RULES["C04"]


def mon(*variants):
    return {"mon." + v: dict(variant=v, units=MON) for v in variants}


def shards(binary, n, **kw):
    return [Job(binary, shard=i, shards=n, **kw) for i in range(n)]


VALGRIND = ["valgrind", "-q", "--error-exitcode=99", "--vgdb=no"] if shutil.which("valgrind") else []
FUZZ_LIB = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a"
FUZZED = ("C01", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C14", "C15", "C17", "C18", "C19")


def binaries_for(prop, tier):
    b = quick_binaries(prop, tier)
    if tier == "thorough":
        if prop in VALUE or prop in ("C01", "C02", "C03"):
            b.update(mon("ndsan"))
        if prop in FUZZED and os.path.exists(FUZZ_LIB):
            b["fuzz"] = dict(variant="fuzz", units=CORE + ["fuzz"], libs=FUZZ_LIB)
    return b


def quick_binaries(prop, tier):
    if prop in VALUE or prop in ("C01", "C03"):
        return mon("dbg", "rel")
    if prop == "C02":
        return mon("dbg", "rel", "plain")
    if prop == "C20":
        return {"rnd.dbg": dict(variant="dbg", units=CORE + ["rnd"]), "rnd.rel": dict(variant="rel", units=CORE + ["rnd"]), "rnd.c2": dict(variant="c2", units=CORE + ["rnd"])}
    if prop == "C21":
        return {"sec." + v: dict(variant=v, units=CORE + ["secrets", "victim"], link="-Wl,-z,now -Wl,--wrap=secp256k1_context_randomize -Wl,--wrap=secp256k1_ecdsa_sign",
                                 uflags={"victim": "-O3 -flto=1 -ffat-lto-objects" if v == "lto" else "-O3"}) for v in C21_BUILDS}
    if prop == "C22":
        return {"thr.tsan": dict(variant="tsan", units=CORE + ["threads", "secpwrap"], link=WRAP), "thr.rel": dict(variant="rel", units=CORE + ["threads"]),
                "thr.plain": dict(variant="plain", units=CORE + ["threads"])}
    if prop == "C23":
        return {"alloc.rel": dict(variant="rel", units=CORE + ["alloc"]), "alloc.plain": dict(variant="plain", units=CORE + ["alloc"]), "mon.dbg": dict(variant="dbg", units=MON)}
    if prop == "C24":
        return mon(*C24_BUILDS)
    if prop in ("C25", "C26"):   # the units stand for a user's code: compiled in the configuration under test
        return {"misc." + v: dict(variant=v, units=["core", "misc", "endianunit", "fatalunit"], uflags={u: VARIANTS[v]["flags"] for u in ("endianunit", "fatalunit")})
                for v in (["dbg", "rel", "g0", "g3"] if prop == "C25" else ["dbg", "rel", "c2"])}
    if prop == "C27":
        return {"pure." + v: dict(variant=v, units=CORE + ["pure"]) for v in ("dbg", "rel")}
    if prop == "C28":
        return {"pure." + v: dict(variant=v, units=CORE + ["pure"]) for v in ("plain", "rel")}
    if prop == "C29":
        return {"cost." + v: dict(variant=v, units=CORE + ["cost"]) for v in ("plain", "rel", "c2")}
    return {}


def jobs_for(prop, tier):
    jobs = quick_jobs(prop, tier)
    if tier == "thorough":
        if prop in VALUE or prop in ("C01", "C02", "C03"):
            jobs += shards("mon.ndsan", 8, scale=1000)
        if prop in FUZZED and os.path.exists(FUZZ_LIB):
            jobs += [Job("fuzz", extra="worker=%d" % i, scale=500) for i in range(8)]
    return jobs


# inputs of more than 4 GiB: how many processes share the work
GIANT = {"C04": 4, "C05": 4, "C06": 5, "C08": 4, "C09": 4, "C10": 1, "C12": 8, "C13": 4, "C14": 1, "C15": 1, "C17": 2, "C18": 1, "C19": 1}


def quick_jobs(prop, tier):
    k = 1 if tier == "quick" else 20
    if prop in VALUE or prop in ("C01", "C02", "C03"):
        jobs = []
        if prop in ("C11", "C13") or prop == "C12":
            if prop == "C11":
                jobs += shards("mon.rel", 4, extra="big_huge") + shards("mon.rel", 4, extra="big_large")
            if prop == "C12":
                jobs += shards("mon.rel", 4, extra="big_hmac")
        if prop in GIANT:
            jobs += shards("mon.rel", GIANT[prop], extra="giant")
        if prop == "C02" and VALGRIND:   # reads of uninitialised memory, whatever it holds
            jobs += shards("mon.plain", 8, scale=8 if tier == "quick" else 80, wrap=VALGRIND)
        if prop in CHEAP:
            k *= 3
        jobs += shards("mon.dbg", 8, scale=100 * k) + shards("mon.rel", 8, scale=200 * k)
        return jobs
    if prop == "C20":
        return shards("rnd.rel", 8, scale=200 * k) + shards("rnd.dbg", 4, scale=100 * k) + shards("rnd.c2", 4, scale=100 * k)
    if prop == "C21":
        jobs = []
        for b in C21_BUILDS:
            jobs += shards("sec." + b, 4, scale=300 * k, env={"LD_BIND_NOW": "1"})
        return jobs
    if prop == "C22":
        return shards("thr.tsan", 8, scale=100 * k) + shards("thr.rel", 4, scale=200 * k) + shards("thr.plain", 4, scale=100 * k)
    if prop == "C23":
        return shards("alloc.rel", 4, scale=300 * k) + shards("alloc.plain", 4, scale=300 * k) + shards("mon.dbg", 8, scale=100 * k)
    if prop == "C24":
        jobs = []
        for b in C24_BUILDS:
            jobs += shards("mon." + b, 4, scale=100 * k)
        return jobs
    if prop == "C25":
        return [j for b in ("dbg", "rel", "g0", "g3") for j in shards("misc." + b, 2, scale=100 * k)]
    if prop == "C26":
        return shards("misc.dbg", 6, scale=600 * k) + shards("misc.rel", 6, scale=1200 * k) + shards("misc.c2", 4, scale=600 * k)
    if prop == "C27":
        return shards("pure.dbg", 8, scale=400 * k) + shards("pure.rel", 8, scale=1200 * k)
    if prop == "C28":
        return shards("pure.plain", 8, scale=400 * k) + shards("pure.rel", 8, scale=800 * k)
    if prop == "C29":
        return [j for b in ("plain", "rel", "c2") for j in shards("cost." + b, 4, scale=100 * k, env={"LD_BIND_NOW": "1"})]
    return []


def post(prop, R, results, jobs):
    if prop == "C24":
        return post_c24(R, results)
    if prop == "C21":
        return post_c21(R)
    return {}


# A copy only one optimiser leaves (a vector it spilled, say) is the compiler's
# doing; a copy the code leaves shows without optimisation or under several.
C21_GROUP = {"sec.g0": "unoptimised", "sec.g2": "gcc -O2", "sec.g3": "gcc -O3", "sec.lto": "gcc -O3", "sec.c2": "clang -O2"}


def post_c21(R):
    groups = {}
    for v in R.violations:
        groups.setdefault(v["key"], set()).add(C21_GROUP.get(v["binary"], "?"))
    keep, spilled = [], {}
    for v in R.violations:
        g = groups[v["key"]]
        if not v["key"].endswith((":stack", ":heap")) or v["key"].startswith("dead_") or "unoptimised" in g or len(g) > 1:
            keep.append(v)
        else:
            spilled[v["key"]] = sorted(g)
    R.violations[:] = keep
    return {"compiler_temporaries_not_judged": spilled}


def post_c24(R, results):
    """Compares the answers of all builds, case by case."""
    import struct
    tables = {}
    for j, n, d, rc, wall, cmd in results:
        if d is None:
            continue
        t = tables.setdefault(j.binary, {})
        try:
            raw = open(d + "/transcript.bin", "rb").read()
        except OSError:
            continue
        for sec, idx, h in struct.iter_unpack("<QQQ", raw[:len(raw) // 24 * 24]):
            t[(sec, idx)] = h
    names = sorted(tables)
    compared = 0
    base = {}
    for b in names:
        for k, h in tables[b].items():
            base.setdefault(k, {}).setdefault(h, []).append(b)
    bad = []
    for k, hs in base.items():
        compared += 1
        if len(hs) > 1:
            bad.append((k, hs))
    ops = {fnv(("op." + o).encode()): "op." + o for o in [c[3:] for c in R.counters if c.startswith("op:")]}
    for (sec, idx), hs in sorted(bad)[:400]:
        name = ops.get(sec, str(sec))
        groups = sorted(hs.values(), key=len)
        answers = []
        job = [j for j, *_ in results if j.binary == groups[0][0]][0]
        if sum(1 for v in R.violations if v["key"] == name[3:] + ":builds") == 0:
            from run_one import answer
            case = ""
            for g in groups:
                a, case = answer(R, g[0], name, idx)
                answers.append("%s -> %s" % (",".join(g), a[:500]))
            R.violations.append({"key": name[3:] + ":builds", "section": name, "index": idx, "msg": " | ".join(answers), "case": case, "binary": groups[0][0], "extra": "", "scale": job.scale, "cmd": ""})
    return {"builds_compared": names, "cases_compared_across_builds": compared}


def fnv(b):
    h = 1469598103934665603
    for x in b:
        h = ((h ^ x) * 1099511628211) & (2 ** 64 - 1)
    return h


# ------------------------------------------------------------- manifest texts
_V = "runtime monitoring: ASan+UBSan (asserting) and NDEBUG builds driven in guard-page memory, answers checked online against an independent reference"
_N = ("Holds for every execution observed: seeded random cases plus exhaustive sections over small spaces (listed in the evidence). Trusts the reference implementation, "
      "OpenSSL and libsecp256k1; other inputs are not proved.")
RULES["C22"] = ("each evaluation is one library call made by one of 8 threads while others run; every operation is started cold (fresh process after initialisation), called some two thousand times in one process, and mixed with others; "
                "distinct counts (thread, operation, inputs)")
RULES["C23"] = "each evaluation is one whole call (or life cycle) watched for unreleased blocks, double frees, writes after free and descriptors; distinct counts operation and inputs"
RULES["C24"] = "each evaluation is one call in one build; the answers of the same case in all builds are compared; distinct counts operation and inputs"
TECHNIQUE = {p: _V for p in VALUE + ["C01", "C02", "C03"]}
NOTE = {p: _N for p in TECHNIQUE}

TECHNIQUE["C22"] = "runtime monitoring: ThreadSanitizer (with wrappers describing the uninstrumented libsecp256k1) and stress runs of 8 threads, cold starts per operation, answers compared with serial runs"
NOTE["C22"] = "Race-free and equal to serial on the executions observed; TSan finds a race whenever both sides execute without ordering, whatever the timing. libsecp256k1's inside is trusted to be const-correct on its context."
TECHNIQUE["C23"] = "runtime monitoring: interposed allocator and descriptor probe with per-call balance and free quarantine, plus ASan"
NOTE["C23"] = "Every call observed returned what it took, on success and failure paths of all operations. Failing allocations are not modelled."
TECHNIQUE["C24"] = "runtime monitoring: differential transcripts of the same workload over ten build configurations (gcc and clang, -O0 to -O3, assertions on and off, both char signednesses)"
NOTE["C24"] = "Equal answers in all builds for every case run. Other compilers and 32-bit or big-endian targets are not available here."

RULES["C21"] = ("each evaluation is one call run on a private painted stack that is searched afterwards, its freed blocks searched when freed; distinct counts call kind and secret patterns")
TECHNIQUE["C21"] = "runtime monitoring: private painted stacks, interposed free, static and thread-local memory searched for 16-byte windows of every secret after each call, in five optimisation levels including LTO"
NOTE["C21"] = "No copy (16 contiguous bytes, raw, as hash words, as base58 digits or HMAC pads) seen after any observed call. Words an optimiser spills one by one, registers and libsecp256k1's own frames are not judged."

RULES["C20"] = ("each evaluation is one request under one plan of open/read outcomes (enumerated up to depth 3 or 4, then random long plans); distinct counts request and plan")
TECHNIQUE["C20"] = "runtime monitoring with fault injection: interposed open/read/close/getrandom, outcome sequences enumerated, the result compared with the delivered stream, fatal paths in child processes"
NOTE["C20"] = "Every outcome sequence up to the depth in the evidence, plus random longer ones, every descriptor number the system may hand out, and requests of 2 GiB and more, on Linux. A source reached by a raw system call would not be under the plan (the check then reports missing bytes)."

RULES["C25"] = "each evaluation is one accessor call on bytes in guarded memory, compared with an assembly of the value byte by byte; distinct counts accessor, bytes and alignment"
TECHNIQUE["C25"] = "runtime monitoring: accessors compiled as user code at -O0 to -O3 and under ASan+UBSan, run in guard-page memory at every alignment, compared with a byte-by-byte reference"
NOTE["C25"] = "Every byte value at every place, every alignment, offsets beyond 32 bits, arguments with side effects, objects of other types. Only a little-endian target is available here."
RULES["C26"] = "each evaluation is one process stopped by a fatal error, its streams and end recorded by the parent; distinct counts message, place, errno and state of the streams"
TECHNIQUE["C26"] = "runtime monitoring: each fatal call runs in a child process whose standard streams (pipe, file, full, closed, broken) and end the parent records and compares with the expected diagnostic"
NOTE["C26"] = "Messages to 200 kB, errno values, stream states and calls from a thread as generated; the layout of the diagnostic is judged only by its parts and their order."
RULES["C27"] = "each evaluation is one call at a stage of the library's life (before, between, after initialisation; other thread; child process), compared with the reference; distinct counts stage, operation and inputs"
TECHNIQUE["C27"] = "runtime monitoring: histories of initialise / call / uninitialise / exit over threads and forked children in ASan and NDEBUG builds, every answer compared with an independent reference"
NOTE["C27"] = "Holds on the histories run. Calls that need the context outside its life are not specified."
RULES["C28"] = "each evaluation is one call under a system-call filter with process-wide state compared before and after; distinct counts operation and inputs"
TECHNIQUE["C28"] = "runtime monitoring: every operation runs under a seccomp filter that traps any system call but memory management, with snapshots of locale, floating-point mode, environment, stream buffers and network parameters, and interposed stateful C functions; calls of megabytes and hex dumps to streams of every buffering too"
NOTE["C28"] = "Holds for every call observed. State that neither a system call nor the snapshots show (clock reads through the vDSO, errno) is not judged."
RULES["C29"] = "each evaluation is one call run on a private painted stack, under an interposed allocator and the thread's clock; distinct counts kind of call and size"
TECHNIQUE["C29"] = "runtime monitoring: stack depth (painted private stack before a 4 GiB guard), peak heap (interposed allocator) and CPU time against input size, for every kind of call, in three builds"
NOTE["C29"] = "Bounds checked at sizes to 4 MiB (6000 bytes for base58 numerals): stack below 64 KiB and independent of the size, heap at most 8 bytes per input byte, time within 8 times linear (base58: quadratic) growth. Times are the best of several."
