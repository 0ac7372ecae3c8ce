"""Common machinery of the checks: sanitized builds of /repo's current tree, process runner, verdicts, evidence."""
import os, sys, json, time, glob, hashlib, subprocess, fcntl, shutil, random, re, signal, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILDROOT = os.environ.get("VERIF_BUILDROOT", os.path.join(VERIF, ".build"))
REPLAYS = os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays"))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
NCPU = max(1, min(8, os.cpu_count() or 1))

SANFLAGS = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
CXX = ["clang++", "-std=c++17", "-include", "cstdint", "-O1", "-g1", "-fno-omit-frame-pointer",
       "-D_GLIBCXX_ASSERTIONS", "-w", "-fPIC"] + SANFLAGS
LUAINC = ["-I/usr/include/lua5.2"]


class BuildError(Exception):
    pass


def _run_all(cmds):
    def one(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return p.returncode, cmd, p.stdout
    with ThreadPoolExecutor(NCPU) as ex:
        for rc, cmd, out in ex.map(one, cmds):
            if rc:
                raise BuildError("%s\n%s" % (" ".join(cmd), out[-4000:]))


def _hash_files(files, extra):
    hh = hashlib.sha256(repr(extra).encode())
    for f in sorted(files):
        hh.update(f.encode())
        with open(f, "rb") as fh:
            hh.update(fh.read())
    return hh.hexdigest()[:20]


def build():
    """Build the sanitized 'mewa' program and 'luahost' from the sources in /repo; returns the directory."""
    src = os.path.join(REPO, "src")
    cpps = sorted(glob.glob(src + "/*.cpp"))
    files = cpps + sorted(glob.glob(src + "/*.hpp")) + sorted(glob.glob(src + "/*.h"))
    host = os.path.join(VERIF, "harness", "luahost.cpp")
    api = os.path.join(VERIF, "harness", "luaapi.cpp")
    with open(api) as f:
        wraps = ["lua_getstack"] + re.findall(r"^WRAP\( [^,]*, (lua[L]?_[a-z]*)", f.read(), re.M)
    key = _hash_files(files + [host, api], CXX)
    os.makedirs(BUILDROOT, exist_ok=True)
    bdir = os.path.join(BUILDROOT, key)
    with open(os.path.join(BUILDROOT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(bdir, "ok")):
            os.utime(bdir)
            return bdir
        # keep the build directory bounded: remove all but the three most recent builds
        old = sorted((d for d in glob.glob(BUILDROOT + "/*") if os.path.isdir(d)), key=os.path.getmtime)
        for d in old[:-3]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(bdir, ignore_errors=True)
        os.makedirs(bdir)
        cmds, objs = [], []
        for c in cpps + [host, api]:
            o = os.path.join(bdir, os.path.basename(c)[:-4] + ".o")
            objs.append(o)
            cmds.append(CXX + ["-I" + src] + LUAINC + ["-c", c, "-o", o])
        _run_all(cmds)
        hosto = [os.path.join(bdir, "luahost.o"), os.path.join(bdir, "luaapi.o")]
        mainos = [os.path.join(bdir, "mewa.o")]
        lib = [o for o in objs if o not in hosto and o not in mainos]
        link = ["clang++"] + SANFLAGS
        _run_all([link + lib + hosto + ["-Wl,--wrap=" + w for w in wraps] + ["-llua5.2", "-o", os.path.join(bdir, "luahost")],
                  link + lib + mainos + ["-llua5.2", "-o", os.path.join(bdir, "mewa")]])
        open(os.path.join(bdir, "ok"), "w").close()
    return bdir


TSANFLAGS = ["-fsanitize=thread"]


def build_threads():
    """Build harness/threads.cpp with the sources in /repo and ThreadSanitizer; returns the path of the program."""
    src = os.path.join(REPO, "src")
    cpps = [c for c in sorted(glob.glob(src + "/*.cpp")) if os.path.basename(c) != "mewa.cpp"]
    files = cpps + sorted(glob.glob(src + "/*.hpp")) + sorted(glob.glob(src + "/*.h"))
    host = os.path.join(VERIF, "harness", "threads.cpp")
    cxx = ["clang++", "-std=c++17", "-include", "cstdint", "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-fPIC"] + TSANFLAGS
    os.makedirs(BUILDROOT, exist_ok=True)
    bdir = os.path.join(BUILDROOT, "t" + _hash_files(files + [host], cxx))
    with open(os.path.join(BUILDROOT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(bdir, "ok")):
            shutil.rmtree(bdir, ignore_errors=True)
            os.makedirs(bdir)
            objs = [os.path.join(bdir, os.path.basename(c)[:-4] + ".o") for c in cpps + [host]]
            _run_all([cxx + ["-I" + src] + LUAINC + ["-c", c, "-o", o] for c, o in zip(cpps + [host], objs)])
            _run_all([["clang++"] + TSANFLAGS + objs + ["-llua5.2", "-lpthread", "-o", os.path.join(bdir, "threads")]])
            open(os.path.join(bdir, "ok"), "w").close()
        os.utime(bdir)
    return os.path.join(bdir, "threads")


def san_env(extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith("LUA_")}
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4096:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:malloc_context_size=8"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99"
    env["LC_ALL"] = "C"
    if extra:
        env.update(extra)
    return env


class Proc:
    __slots__ = ("rc", "out", "err", "timeout", "cmd", "done")

    def __init__(self, cmd, rc, out, err, timeout):
        self.cmd, self.rc, self.out, self.err, self.timeout, self.done = cmd, rc, out, err, timeout, False

    def sanitizer(self):
        """a key of the report of a sanitizer or of a crash, None if there is none"""
        err = self.err
        m = re.search(r"ERROR: AddressSanitizer: ([a-zA-Z0-9_-]+)", err)
        if m:
            return "asan:" + m.group(1) + self._where()
        m = re.search(r"runtime error: (.*)", err)
        if m:
            return "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:80] + self._where()
        m = re.search(r"WARNING: ThreadSanitizer: ([a-zA-Z -]+)", err)
        if m:
            return "tsan:" + m.group(1).strip() + self._where()
        m = re.search(r"LUA API VIOLATION: ([^(]*)", err)
        if m:
            return "luaapi:" + m.group(1).strip()
        if "hard rss limit exhausted" in err:
            return "memory-exhausted"
        if self.timeout:
            return "hang"
        if self.rc is not None and self.rc < 0:
            return "signal:%d" % -self.rc
        if "Assertion" in err and "failed" in err:
            return "assertion"
        if self.rc in (134, 139):
            return "crash:%d" % self.rc
        return None

    def _where(self):
        m = re.search(r"#\d+ 0x[0-9a-f]+ in (?:mewa::)?([A-Za-z_0-9:~]+)[^\n]*?/src/([a-z_0-9]+\.[ch]pp)", self.err)
        return " in %s (%s)" % (m.group(1), m.group(2)) if m else ""


def _once(cmd, cwd, inp, timeout, env):
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                             stdout=fo, stderr=fe, env=env, start_new_session=True)
        to = False
        try:
            p.communicate(inp, timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        def rd(f):
            f.seek(0, 2)
            n = f.tell()
            f.seek(0)
            return f.read(min(n, 1 << 24)).decode("utf-8", "surrogateescape")
        return Proc(cmd, p.returncode, rd(fo), rd(fe), to)


def run(cmd, cwd=None, inp=None, timeout=30, env=None):
    """Run a command; a time out is confirmed by a second run with three times the limit before it is believed."""
    if isinstance(inp, str):
        inp = inp.encode("utf-8", "surrogateescape")
    e = san_env(env)
    p = _once(cmd, cwd, inp, timeout, e)
    if p.timeout:
        p = _once(cmd, cwd, inp, timeout * 3, e)
    return p


def pmap(fn, items):
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(fn, items))


class Scratch:
    def __init__(self, prefix="vf"):
        self.path = tempfile.mkdtemp(prefix="mewa-%s-" % prefix)

    def sub(self, name):
        d = os.path.join(self.path, name)
        os.makedirs(d, exist_ok=True)
        return d

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


class Check:
    """Collects observations and violations of one property and delivers the verdict."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = {}     # key -> (message, replay)
        self.rule = ""
        self.assumptions = []
        self.bdir = None
        self.scratch = Scratch(pid.lower())
        self.known = {}
        self.known_seen = {}
        kf = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if line and line.startswith("{"):
                    k = json.loads(line)
                    if k.get("property") == pid and k.get("status") == "known":
                        self.known[k["key"]] = k

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, *salt):
        return random.Random("%s/%s/%s" % (self.pid, self.seed, "/".join(map(str, salt))))

    def build(self):
        self.bdir = build()
        return self.bdir

    @property
    def mewa(self):
        return os.path.join(self.bdir, "mewa")

    @property
    def luahost(self):
        return os.path.join(self.bdir, "luahost")

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, ident, nontrivial=True, sample=None, n=1):
        self.evaluations += n
        if nontrivial:
            self.distinct.add(hashlib.md5(repr(ident).encode("utf-8", "surrogateescape")).digest())
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def violation(self, key, message, replay=None):
        if key in self.known:
            self.known_seen[key] = message
            return
        if key not in self.violations:
            self.violations[key] = (message, replay)

    def fork_map(self, fn, n, workers=NCPU):
        """fn(i) for i in range(n) in several processes, what they record being collected here"""
        import pickle, traceback
        jobs = []
        sys.stdout.flush()
        for w in range(min(workers, n)):
            path = os.path.join(self.scratch.path, "w%d.%d" % (w, len(self.counters) + self.evaluations))
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    self.evaluations, self.distinct, self.counters, self.samples = 0, set(), {}, self.samples[:]
                    self.violations, self.known_seen = {}, {}
                    ns = len(self.samples)
                    for i in range(w, n, workers):
                        fn(i)
                    with open(path, "wb") as f:
                        pickle.dump((self.evaluations, self.distinct, self.counters, self.samples[ns:], self.violations, self.known_seen), f)
                    rc = 0
                except BaseException:
                    traceback.print_exc()
                    sys.stderr.flush()
                finally:
                    os._exit(rc)
            jobs.append((pid, path))
        bad = 0
        for pid, path in jobs:
            _, st = os.waitpid(pid, 0)
            if st or not os.path.exists(path):
                bad += 1
                continue
            with open(path, "rb") as f:
                ev, di, co, sa, vi, kn = pickle.load(f)
            os.unlink(path)
            self.evaluations += ev
            self.distinct |= di
            for k, v in co.items():
                self.count(k, v)
            self.samples = (self.samples + sa)[:6]
            for k, v in vi.items():
                self.violations.setdefault(k, v)
            self.known_seen.update(kn)
        if bad:
            raise RuntimeError("%d workers of the check failed" % bad)

    def proc_ok(self, p, what, replay=None, prefix=""):
        """False (and a violation) if the process crashed, hung or was stopped by a sanitizer."""
        s = p.sanitizer()
        if s:
            self.violation(prefix + s, "%s: %s\n%s" % (what, s, p.err if len(p.err) < 6000 else p.err[:4000] + "\n...\n" + p.err[-2000:]), replay)
            return False
        return True

    def finish(self):
        rc = 0
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples or ["(none)"]}
        cov.update({k: v for k, v in sorted(self.counters.items())})
        if self.known_seen:
            cov["known_findings_seen"] = sorted(self.known_seen)
        os.makedirs(EVIDENCE, exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for k, k_ in sorted(self.known.items()):
            if k in self.known_seen:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k_["what"]))
        if self.violations:
            rc = 1
            os.makedirs(REPLAYS, exist_ok=True)
            for i, (key, (msg, replay)) in enumerate(sorted(self.violations.items())[:5]):
                h = hashlib.md5(key.encode("utf-8", "surrogateescape")).hexdigest()[:10]
                path = os.path.join(REPLAYS, "%s-%s.json" % (self.pid, h))
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "key": key, "message": msg, "seed": self.seed, "tier": self.tier, "case": replay}, f, indent=1, default=str)
                print("--- %s: %s\n%s" % (self.pid, key, msg[:3000].encode("utf-8", "replace").decode()))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %s, %.1fs" % (
            self.pid, self.tier, self.seed, self.evaluations, len(self.distinct), len(self.violations),
            ", ".join("%s=%s" % kv for kv in sorted(self.counters.items())), time.time() - self.t0))
        self.scratch.close()
        return rc


def luastr(s):
    """a Lua string literal for arbitrary bytes"""
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogateescape")
    out = []
    for b in s:
        c = chr(b)
        if c in '"\\':
            out.append("\\" + c)
        elif 32 <= b < 127:
            out.append(c)
        else:
            out.append("\\%03d" % b)
    return '"' + "".join(out) + '"'
