#!/usr/bin/env python3
"""Builds the monitored library from /repo's working tree and decides one property.

  run_check.py <property> quick|thorough     exit 0 held, 1 violated, 3 no answer
  run_check.py --replay <file>               runs one recorded violation again
  run_check.py --setup                       compiles what does not depend on /repo
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
HARN = os.path.join(HERE, "harness")
NCPU = max(2, min(8, os.cpu_count() or 8))
CLANG = next((c for c in ("/usr/bin/clang++", "/usr/bin/clang++-18") if os.path.exists(c)), "clang++")
GXX = "/usr/bin/g++" if os.path.exists("/usr/bin/g++") else "g++"

HARNESS_SRC = ["main", "engine", "trace", "scen_alg", "scen_mag", "scen_exp", "scen_cmp", "scen_io", "scen_sys", "scen_type", "scen_geo"]
SUT_SRC = ["sut_mul1", "sut_mul2", "sut_mul3", "sut_mul4", "sut_add", "sut_uni", "sut_func", "sut_cmp", "sut_io",
           "sut_konst1", "sut_konst2", "sut_thr", "sut_arr", "sut_main"]
IDENTITY = "built-by-the-checks"

# compiler, flags for the library side, link flags, relative speed
VARIANTS = {
    "opt": (GXX, "-std=c++17 -O2 -DNDEBUG", "", 1.0),
    "dbg": (GXX, "-std=c++17 -O0 -ftrivial-auto-var-init=pattern -D_GLIBCXX_ASSERTIONS", "", 0.35),
    "zero": (GXX, "-std=c++17 -O1 -ftrivial-auto-var-init=zero", "", 0.9),
    "patt": (GXX, "-std=c++17 -O1 -ftrivial-auto-var-init=pattern", "", 0.9),
    "clang": (CLANG, "-std=c++17 -O3 -DNDEBUG", "", 1.0),
    "san": (GXX, "-std=c++17 -O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow"
                 " -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", 0.25),
    "csan": (CLANG, "-std=c++17 -O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined,integer-divide-by-zero,float-cast-overflow"
                    " -fno-sanitize-recover=all -fsanitize-address-use-after-scope -fsanitize-address-use-after-return=always",
             "-fsanitize=address,undefined", 0.15),
    "trace": (GXX, "-std=c++17 -O1 -fsanitize-coverage=trace-pc,trace-cmp", "", 0.2),
    "tsan": (GXX, "-std=c++17 -O1 -g -fsanitize=thread", "-fsanitize=thread", 0.1),
    "vg": (GXX, "-std=c++17 -O1 -g -DOWN_ALLOCATOR", "", 0.02),
}
# monitored cases per second and process of the "opt" build (measured)
RATE = dict(C01=800e3, C02=800e3, C03=170e3, C04=900e3, C05=1000e3, C06=1800e3, C07=1000e3, C08=700e3, C09=240e3, C10=36e3,
            C11=220e3, C12=140e3, C13=60e3, C14=750e3, C15=1000e3, C16=1800e3, C17=1400e3, C18=85e3, C19=58e3, C20=39e3,
            C21=18e3, C22=800e3, C23=150e3, C24=1600e3, C25=60e3, C27=600e3, C28=500e3, C29=750e3, C30=550e3, ALL=60e3)


def plan(prop, tier):
    """list of (variant, mode, seconds of work)"""
    q = tier == "quick"
    t = 14 if q else 200
    if prop == "C21":
        p = [("opt", "random", t), ("clang", "random", t), ("tsan", "random", t), ("tsan", "random", t)]
        p += [("opt", "dump%d" % k, 0) for k in range(8 if q else 24)]
        p += [(v, "cold%d" % k, 0) for v, n in (("tsan", 16), ("opt", 80), ("clang", 40)) for k in range(n if q else 20 * n)]
    elif prop == "C22":
        p = [("opt", "random", t)] * 3 + [("clang", "random", t), ("dbg", "random", t), ("san", "random", t), ("trace", "guided", t)]
    elif prop == "C23":
        p = [("opt", "random", t), ("clang", "random", t), ("dbg", "random", t), ("san", "random", t), ("san", "random", t),
             ("csan", "random", t), ("vg", "random", t), ("trace", "guided", t), ("zero", "dump0", 0), ("patt", "dump0", 0)]
    else:
        p = [("opt", "random", t)] * 3 + [("clang", "random", t), ("dbg", "random", t), ("san", "random", t),
                                          ("trace", "guided", t), ("trace", "guided", t)]
    if not q:
        p = p + [x for x in p if not x[1].startswith(("dump", "cold"))]
    return p


class NoAnswer(Exception):
    pass


def sh(cmd, timeout=600, env=None, cwd=None):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                          env=env, cwd=cwd, stdin=subprocess.DEVNULL)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_digest(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def declared_version():
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r'set\s*\(\s*aProjVersion\s+"([^"]*)"', txt) or re.search(r"project\s*\([^)]*?VERSION\s+\"?([0-9.]+)", txt, re.S)
    if not m:
        raise NoAnswer("no project version in CMakeLists.txt")
    return m.group(1)


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))


def prune(pattern, own):
    """removes builds of other trees, unless so young that another run may be using them"""
    for old in glob.glob(pattern):
        if old == own or time.time() - os.path.getmtime(old) > 1200:
            shutil.rmtree(old, ignore_errors=True)


def harness_objects(force_flags=None):
    """objects that do not depend on the library"""
    ver = declared_version()
    flags = "-std=gnu++17 -O2 -I%s -DHARNESS_VERSION='\"%s\"' -DHARNESS_IDENTITY='\"%s\"'" % (HARN, ver, IDENTITY)
    key = digest(tree_digest([HARN]), flags)
    out = os.path.join(BUILD, "harness-" + key)
    jobs = []
    if not os.path.exists(os.path.join(out, "ok")):
        prune(os.path.join(BUILD, "harness-*"), out)
        os.makedirs(out, exist_ok=True)
        jobs = ["%s %s -c %s/%s.cpp -o %s/%s.o" % (GXX, flags, HARN, s, out, s) for s in HARNESS_SRC]
    return out, jobs


def sut_jobs(name, cxx, flags, out):
    ver = declared_version()
    ident = "-DEngabra_Project_Version='\"%s\"' -DEngabra_Source_Identity='\"%s\"'" % (ver, IDENTITY)
    jobs = ["%s %s -I%s/include -I%s -c %s/%s.cpp -o %s/%s.o" % (cxx, flags, REPO, HARN, HARN, s, out, s) for s in SUT_SRC]
    jobs += ["%s %s -I%s/include %s -c %s -o %s/lib_%s.o" % (cxx, flags, REPO, ident, s, out, os.path.basename(s)[:-4]) for s in lib_sources()]
    return jobs


def run_job(cmd):
    try:
        r = sh(cmd, timeout=600)
        return cmd, r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return cmd, 124, "compiler timed out"


def build(variants):
    """one builder at a time"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        return build_locked(variants)


def build_locked(variants, extra=None):
    """variants: {name: (cxx, flags, ldflags)}; returns {name: binary or None}, {name: log}"""
    os.makedirs(BUILD, exist_ok=True)
    hdir, hjobs = harness_objects()
    libdig = tree_digest([os.path.join(REPO, "include"), os.path.join(REPO, "src")])
    bins, logs, todo = {}, {}, []
    for n, (cxx, flags, ld) in variants.items():
        key = digest(libdig, hdir, cxx, flags, ld)
        out = os.path.join(BUILD, "v-%s-%s" % (n, key))
        bins[n] = os.path.join(out, "drv")
        if not os.path.exists(bins[n]):
            prune(os.path.join(BUILD, "v-%s-*" % glob.escape(n)), out)
            os.makedirs(out, exist_ok=True)
            todo += [(n, j) for j in sut_jobs(n, cxx, flags, out)]
    bad = set()
    with cf.ThreadPoolExecutor(NCPU) as ex:
        hf = [ex.submit(run_job, j) for j in hjobs]
        vf = [(n, ex.submit(run_job, j)) for n, j in todo]
        for f in hf:
            c, rc, log = f.result()
            if rc:
                raise NoAnswer("harness does not compile: %s\n%s" % (c, log[-3000:]))
        if hjobs:
            open(os.path.join(hdir, "ok"), "w").close()
        for n, f in vf:
            c, rc, log = f.result()
            if rc:
                bad.add(n)
                logs[n] = c + "\n" + log[:3000]
        links = []
        for n in {n for n, _ in todo} - bad:
            out = os.path.dirname(bins[n])
            objs = " ".join("%s/%s.o" % (hdir, s) for s in HARNESS_SRC) + " " + " ".join(sorted(glob.glob(out + "/*.o")))
            links.append((n, ex.submit(run_job, "%s %s -o %s/drv.tmp %s -lquadmath -pthread" % (GXX if "clang" not in variants[n][0] or not variants[n][2] else CLANG, variants[n][2], out, objs))))
        for n, f in links:
            c, rc, log = f.result()
            if rc:
                bad.add(n)
                logs[n] = c[:300] + "\n" + log[:3000]
            else:
                os.rename(os.path.join(os.path.dirname(bins[n]), "drv.tmp"), bins[n])
                for o in glob.glob(os.path.dirname(bins[n]) + "/*.o"):
                    os.unlink(o)
    for n in bad:
        bins[n] = None
    return bins, logs


def dictionary(path):
    """every number written in the library's sources"""
    nums = set()
    for f in glob.glob(REPO + "/include/*.hpp") + lib_sources():
        txt = re.sub(r"/\*.*?\*/|//[^\n]*", " ", open(f, errors="replace").read(), flags=re.S)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F.]+(?:[pP][+-]?\d+)?|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)", txt):
            try:
                t = m.group(1)
                x = float.fromhex(t) if t[:2] in ("0x", "0X") else float(t)
            except (ValueError, OverflowError):
                continue
            if x == x and abs(x) < 1e308:
                nums.add(x)
    with open(path, "w") as o:
        for x in sorted(nums):
            o.write("%r\n" % x)
    return len(nums)


def run_env(log):
    e = dict(os.environ)
    e.pop("GLIBC_TUNABLES", None)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=55:log_path=%s:detect_stack_use_after_return=1" % log
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=55:log_path=%s" % log
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:log_path=%s" % log
    return e


def foreign_locale(where):
    """a C locale with a decimal comma, if one can be made here"""
    try:
        os.makedirs(where, exist_ok=True)
        sh(["localedef", "-i", "de_DE", "-f", "UTF-8", os.path.join(where, "de_DE.UTF-8")], timeout=120)
        os.environ["LOCPATH"] = where
    except (OSError, subprocess.SubprocessError):
        pass


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(BUILD, "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.viols = []     # (scen, detail, case, replay text, variant)
        self.named = {}     # key -> [count, detail, case, replay text, variant]
        self.runs = []
        self.notes = []
        if prop in ("C18", "C19", "C20"):
            foreign_locale(os.path.join(self.work, "locale"))
        self.dict = os.path.join(self.work, "dict")
        self.dict_n = dictionary(self.dict)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def process(self, k, variant, binary, mode, cases, prop=None):
        prop = prop or self.prop
        base = os.path.join(self.work, "p%d" % k)
        cmd = [binary, "--prop", prop, "--mode", mode, "--seed", str(self.seed * 1000 + k), "--cases", str(cases), "--out", base + ".json",
               "--cur", base + ".cur", "--dict", self.dict, "--bloom", base + ".bloom"]
        if variant in ("san", "csan", "tsan", "dbg", "vg"):
            cmd += ["--slow", "1"]
        if variant == "vg":
            cmd = ["valgrind", "-q", "--error-exitcode=0", "--log-file=" + base + ".vg"] + cmd
        elif variant == "tsan":
            cmd = ["setarch", "-R"] + cmd
        t0 = time.time()
        for attempt in (0, 1):
            try:
                with open(base + ".txt", "wb") as so:
                    rc = subprocess.run(cmd, stdout=so, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=run_env(base + ".san"),
                                        timeout=600 if self.tier == "quick" else 3000).returncode
            except subprocess.TimeoutExpired:
                rc = 124
            if rc not in (-9, 124) or attempt:
                break
        return dict(k=k, variant=variant, mode=mode, rc=rc, base=base, binary=binary, wall=time.time() - t0, prop=prop)

    def collect(self, r):
        """turns the end of one process into results"""
        base, rc = r["base"], r["rc"]
        if rc == 0:
            d = json.load(open(base + ".json"))
            r["json"] = d
            for v in d["viols"]:
                self.viols.append((v["scen"], v["detail"], v["case"], v["replay"], r["variant"]))
            for key, v in d["named"].items():
                if key not in self.named:
                    self.named[key] = [0, v["detail"], v["case"], v["replay"], r["variant"]]
                self.named[key][0] += v["count"]
            if r["variant"] == "vg" and os.path.exists(base + ".vg"):
                log = open(base + ".vg", errors="replace").read()
                m = re.search(r"==\d+== .*(Invalid (read|write)|Conditional jump|Use of uninit|overlap|Mismatched|Invalid free)", log)
                if m:
                    self.viols.append(("valgrind", log[:1500], "-", "valgrind\n" + log[:3000], "vg"))
            self.runs.append(r)
            return
        tail = open(base + ".txt", errors="replace").read()[-1500:]
        logs = "".join(open(f, errors="replace").read()[:4000] for f in sorted(glob.glob(base + ".san*")))
        if rc in (2, 3, 124, 126, 127, -9):
            raise NoAnswer("run of %s %s ended with %d: %s %s" % (r["variant"], r["mode"], rc, tail, logs[:1000]))
        p = sh([r["binary"], "--decode", base + ".cur"])
        dec = p.stdout.decode(errors="replace")
        what = "did not return" if rc == 77 else "the process died (%d)" % rc
        scen = dec.split("\n")[0] if p.returncode == 0 else "?"
        detail = what + " " + (logs or tail)[:1200]
        self.viols.append((scen, detail, dec[-400:], dec if p.returncode == 0 else "?\n", r["variant"]))
        self.runs.append(r)

    def write_replay(self, v, n):
        path = os.path.join(self.replays, "%s-%d-%d.txt" % (self.prop, self.seed, n))
        with open(path, "w") as o:
            o.write("property %s\nvariant %s\nseed %d\ndetail %s\ncase %s\n----\n%s" % (self.prop, v[4], self.seed, v[1].replace("\n", " | "), v[2].replace("\n", " "), v[3]))
        return path


def known_findings(prop):
    known = {}
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3).strip()
    return known


def finish(R, t0, coverage, assumptions):
    """prints the verdict, writes the evidence"""
    known = known_findings(R.prop)
    out, seen = [], set()
    for key, n in sorted(R.named.items()):
        if key in known:
            print("KNOWN-FINDING: property=%s %s (%s; %d times in this run, e.g. %s)" % (R.prop, key, known[key], n[0], n[2][:200]))
        else:
            out.append((key, n[1], n[2], n[3], n[4]))
    for v in R.viols:
        if v[0] not in seen:
            out.append(v)
            seen.add(v[0])
    coverage["known_findings_seen"] = {k: n[0] for k, n in R.named.items() if k in known}
    if R.notes:
        coverage["notes"] = R.notes
    os.makedirs(EVID, exist_ok=True)
    ev = dict(property=R.prop, tier=R.tier, seed=R.seed, level="exploration", coverage=coverage, assumptions=assumptions,
              wall_s=round(time.time() - t0, 1), violations=len(out))
    with open(os.path.join(EVID, R.prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    for n, v in enumerate(out[:12]):
        path = R.write_replay(v, n)
        print("  %s [%s build]: %s  case: %s" % (v[0], v[4], v[1][:500], v[2][:400]))
        print("VIOLATION property=%s replay=%s" % (R.prop, path))
    for n in R.notes:
        print("note:", n)
    print("%s %s: %d cases, %d distinct and non-trivial, %.1f s, %d violation(s)" % (R.prop, R.tier, coverage["evaluations"], coverage["distinct_nontrivial"], ev["wall_s"], len(out)))
    return 1 if out else 0


def bloom_count(files):
    tot = 0
    for f in files:
        if os.path.exists(f):
            tot |= int.from_bytes(open(f, "rb").read(), "little")
    return bin(tot).count("1") if tot else 0


RULE = ("Cases come from seeded generators per scenario (random magnitudes over the property's domain, small integers, basis and sparse values, near-unit, "
        "equal/opposite/proportional/permuted components and operands, aliased operands, one-ulp neighbours, numbers written in the sources) with neighbour "
        "mutations and re-runs of earlier cases; guided runs also keep cases reaching new branch outcomes of the instrumented library and push "
        "one-sided comparisons to their other outcome. A case counts as distinct and non-trivial when it was inside the property's domain, has at least one "
        "non-zero component (or is a seeded program of calls), and its bit pattern was not counted before in any process of this run (one shared bitmap; collisions undercount).")

ASSUME = ["IEEE-754 binary64 arithmetic in round-to-nearest, x86-64, the installed gcc/clang and libm",
          "the reference algebra in harness/ref.hpp (bitmask Clifford product in long double/quad) is right"]


def aggregate(R):
    cov = dict(evaluations=0, distinct_nontrivial=bloom_count([r["base"] + ".bloom" for r in R.runs]), rule=RULE, samples=[], library_calls=0, definedness_checks=0,
               specials=[], processes=[], numbers_from_sources=R.dict_n)
    scen = {}
    for r in R.runs:
        d = r.get("json")
        p = dict(build=r["variant"], mode=r["mode"], seed=R.seed * 1000 + r["k"], wall_s=round(r["wall"], 1))
        if d:
            cov["evaluations"] += d["evaluations"]
            cov["library_calls"] += d["calls"]
            if R.prop in ("C18", "C19", "C20"):
                cov["calls_under_a_comma_c_locale"] = cov.get("calls_under_a_comma_c_locale", 0) + d.get("foreign", 0)
            cov["definedness_checks"] += d["defined_checks"]
            cov["samples"] += d["samples"][:2]
            p["cases"] = d["evaluations"]
            if d["special_names"]:
                for s in d["special_names"].split(","):
                    if s not in cov["specials"]:
                        cov["specials"].append(s)
            if "trace" in d:
                p["trace"] = d["trace"]
            for k, v in d["scenarios"].items():
                t = scen.setdefault(k, [0, 0, 0])
                for i in range(3):
                    t[i] += v[i]
        cov["processes"].append(p)
    cov["samples"] = cov["samples"][:10]
    cov["scenarios"] = len(scen)
    if scen:
        cov["least_run_scenario"] = min(((v[0], k) for k, v in scen.items()))
        cov["checked_inside_domain"] = sum(v[0] for v in scen.values())
        cov["skipped_outside_domain"] = sum(v[1] for v in scen.values())
    if not cov["samples"]:
        cov["samples"] = ["special: " + s for s in cov["specials"]] or ["none"]
    return cov


def check_plain(prop, tier, seed):
    t0 = time.time()
    pl = plan(prop, tier)
    names = sorted({p[0] for p in pl})
    bins, logs = build({n: VARIANTS[n][:3] for n in names})
    R = Runner(prop, tier, seed)
    try:
        for n in names:
            if not bins[n]:
                R.notes.append("the %s build does not compile (reported by C26): %s" % (n, logs[n][:400]))
        if not bins.get("opt"):
            raise NoAnswer("the library does not compile with the harness: " + logs.get("opt", "")[:3000])
        dumps = [(k, v, m) for k, (v, m, _) in enumerate(pl) if m.startswith("dump") and bins[v]]
        ndump = 60000 if tier == "quick" else 600000
        with cf.ThreadPoolExecutor(NCPU) as ex:
            fs = [ex.submit(R.process, k, v, bins[v], m, max(2000, int(RATE[prop] * VARIANTS[v][3] * s)))
                  for k, (v, m, s) in enumerate(pl) if not m.startswith(("dump", "cold")) and bins[v]]

            # any name written in the library's sources might be looked up in the environment
            text = "".join(open(f, errors="replace").read() for f in glob.glob(os.path.join(REPO, "include", "*")) + lib_sources())
            names = {n: "1" for n in re.findall(r'"([A-Za-z_][A-Za-z0-9_]{2,60})"', text)}

            def dump(k, v, m):
                f = os.path.join(R.work, "d%d" % k)
                # each process in surroundings of its own
                cwd = os.path.join(R.work, "cwd%d" % k)
                os.makedirs(cwd, exist_ok=True)
                env = dict(PATH=os.environ.get("PATH", "/usr/bin:/bin")) if k % 2 else dict(os.environ)
                if k % 2:
                    env.update(HOME=cwd, LANG="de_DE.UTF-8", LC_ALL="tr_TR.UTF-8", LC_NUMERIC="de_DE", TZ="Asia/Kathmandu", TMPDIR=cwd,
                               USER="u%d" % k, **names)
                    env.update(DEBUG=str(k), VERBOSE="1", OMP_NUM_THREADS="3", NOISE="x" * (997 * k))
                r = sh([os.path.abspath(bins[v]), "--mode", "dump", "--seed", str(seed), "--cases", str(ndump), "--perm", m[4:], "--out", os.path.abspath(f)],
                       timeout=1500, env=env, cwd=cwd)
                return k, v, m, f, r.returncode, r.stdout.decode(errors="replace")[-800:]
            ds = [ex.submit(dump, *d) for d in dumps]

            def cold(k, v, m):
                base = os.path.join(R.work, "c%d" % k)
                cmd = [bins[v], "--mode", "cold", "--seed", str(seed), "--perm", m[4:], "--cases", "1500" if v == "tsan" else "4000"]
                env = dict(run_env(base + ".san"), VERIF_COLD="1")
                for attempt in (0, 1):
                    try:
                        r = sh((["setarch", "-R"] if v == "tsan" else []) + cmd, timeout=300, env=env)
                        rc, txt = r.returncode, r.stdout.decode(errors="replace")[-1500:]
                    except subprocess.TimeoutExpired:
                        rc, txt = 124, "no end after 300 s"
                    if rc not in (-9, 124) or attempt:
                        break
                txt += "".join(open(f, errors="replace").read()[:4000] for f in sorted(glob.glob(base + ".san*")))
                return v, m, rc, txt
            with cf.ThreadPoolExecutor(2) as few:
                cs = [c.result() for c in [few.submit(cold, k, v, m) for k, (v, m, s) in enumerate(pl) if m.startswith("cold") and bins[v]]]
            for v, m, rc, txt in cs:
                if rc in (2, 3, 124, 126, 127, -9):
                    raise NoAnswer("cold start failed (%d): %s" % (rc, txt[-800:]))
                if rc:
                    what = txt.strip() if rc == 1 else "first calls made by several threads at once: the process died (%d) %s" % (rc, txt[:1200])
                    R.viols.append(("cold start", what, "-", "cold %s seed %d\n" % (m, seed), v))
            for f in fs:
                R.collect(f.result())
            first = None
            for f in ds:
                k, v, m, path, rc, log = f.result()
                if rc in (2, 3, 124, 126, 127, -9):
                    raise NoAnswer("dump failed: " + log)
                if rc:
                    R.viols.append(("dump", "the process died (%d) %s" % (rc, log), "-", "dump %s seed %d\n" % (m, seed), v))
                    continue
                if first is None:
                    first = (path, v, m)
                    continue
                a, b = open(first[0], "rb").read(), open(path, "rb").read()
                if a != b:
                    i = next(i for i in range(0, min(len(a), len(b)), 144) if a[i:i + 144] != b[i:i + 144]) // 144
                    what = sh([bins[v], "--mode", "dumpname", "--seed", str(seed), "--cases", str(i)]).stdout.decode(errors="replace").strip()
                    R.viols.append(("process comparison", "%s gives different results in process %s/%s and %s/%s" % (what, first[1], first[2], v, m), what,
                                    "dump\nseed %d index %d\n" % (seed, i), v))
        cov = aggregate(R)
        if dumps:
            cov["process_dumps_compared"] = len(dumps)
            cov["calls_per_dump"] = ndump
            cov["cold_start_processes"] = len(cs)
        return finish(R, t0, cov, ASSUME)
    finally:
        R.close()


def main():
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        build({"opt": VARIANTS["opt"][:3]})
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        head, body = open(sys.argv[2]).read().split("\n----\n", 1)
        h = dict(line.split(" ", 1) for line in head.split("\n"))
        v = h["variant"] if h["variant"] in VARIANTS else "opt"
        bins, logs = build({v: VARIANTS[v][:3]})
        m = re.match(r"cold cold(\d+) seed (\d+)", body)
        if m:
            cmd = [bins[v], "--mode", "cold", "--seed", m.group(2), "--perm", m.group(1), "--cases", "1500" if v == "tsan" else "4000"]
            env = dict(os.environ, VERIF_COLD="1", TSAN_OPTIONS="exitcode=66:halt_on_error=1")
            # what threads do differs from run to run
            return max(subprocess.run((["setarch", "-R"] if v == "tsan" else []) + cmd, env=env).returncode for _ in range(20))
        if h["property"] in ("C18", "C19", "C20"):
            foreign_locale(os.path.join(BUILD, "replay-locale"))
        f = os.path.join(BUILD, "replay-case")
        open(f, "w").write(body)
        if h["property"] == "C22":
            os.environ["VERIF_COLD"] = "1"
        cmd = (["setarch", "-R"] if v == "tsan" else []) + [bins[v], "--prop", h["property"], "--seed", h["seed"], "--replay", f]
        return subprocess.run(cmd).returncode
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        if prop == "C26":
            import check_config
            return check_config.check(tier, seed)
        return check_plain(prop, tier, seed)
    except NoAnswer as e:
        print("no answer:", e)
        return 3


if __name__ == "__main__":
    sys.modules.setdefault("run_check", sys.modules["__main__"])
    sys.path.insert(0, HERE)
    sys.exit(main())
