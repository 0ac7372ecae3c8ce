"""Coverage guided fuzzing of the real code in-process (libFuzzer with the address and undefined behaviour sanitizers), see harness/fuzz.cpp."""
import os, re, glob, shutil, subprocess, fcntl
import vlib

FLAGS = ["-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all"]
DICT_GRAMMAR = ["%", "/L1", "/R2", "3L", "=", "→", ":", ";", "ε", "{", "}", ",", "(", ")", "|", ">>", "{}", "(f)", "(>> f)", "({} g)", "{a=1}", "LANGUAGE", "TYPESYSTEM", "CMDLINE", "IGNORE", "INDENTL", "COMMENT", "BAD",
                "% IGNORE ", "% COMMENT ", "% INDENTL A B C 4;", "\"a?\"", "'x'", "[a-z]", "[^\\\"]", "\\d", "\\x", "\\u", "{2,3}", "*", "+", "?", "a|b", "(?:", "(?=", "[[:alpha:]]", ".", "^", "$", "\xff", "\xf0", "\xe2\x86", "\xc3\xa9",
                "# @a b", "/*", "*/", "//", "S = ", "\" 1;", "99999999999", "\\", "\0"]
DICT_SOURCE = ["/*", "*/", "//", "#", "--", "\"", "'", "\\", "\n", "\n\t", "\n  ", "\r\n", "\0", "\xff", "\xf0", "\xe2\x86\x92", "\xc3", "0", "9999999999", "1.5e3", "abc", "((", "))", "+", "<<", "{", "}", ";"]


def build():
    """the fuzzer, built from the sources in /repo"""
    src = os.path.join(vlib.REPO, "src")
    cpps = sorted(glob.glob(src + "/*.cpp"))
    files = cpps + sorted(glob.glob(src + "/*.hpp")) + sorted(glob.glob(src + "/*.h"))
    host = os.path.join(vlib.VERIF, "harness", "fuzz.cpp")
    cxx = ["clang++", "-std=c++17", "-include", "cstdint", "-O2", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-w"] + FLAGS
    os.makedirs(vlib.BUILDROOT, exist_ok=True)
    bdir = os.path.join(vlib.BUILDROOT, "f" + vlib._hash_files(files + [host], cxx))
    with open(os.path.join(vlib.BUILDROOT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(bdir, "ok")):
            shutil.rmtree(bdir, ignore_errors=True)
            os.makedirs(bdir)
            cmds, objs = [], []
            for c in cpps + [host]:
                o = os.path.join(bdir, os.path.basename(c)[:-4] + ".o")
                objs.append(o)
                cmds.append(cxx + (["-Dmain=mewa_main"] if os.path.basename(c) == "mewa.cpp" else []) + ["-I" + src] + vlib.LUAINC + ["-c", c, "-o", o])
            vlib._run_all(cmds)
            vlib._run_all([["clang++", "-fsanitize=fuzzer,address,undefined"] + objs + ["-llua5.2", "-o", os.path.join(bdir, "fuzz")]])
            open(os.path.join(bdir, "ok"), "w").close()
        os.utime(bdir)
    return os.path.join(bdir, "fuzz")


def dictionary(path, words):
    with open(path, "w") as f:
        for w in words:
            b = w.encode("latin-1") if all(ord(c) < 256 for c in w) else w.encode("utf-8")
            if b:
                f.write('"' + "".join(chr(c) if 32 < c < 127 and c not in (34, 92) else "\\x%02x" % c for c in b) + '"\n')


def fuzz(ck, exe, d, mode, seeds, words, runs, seconds, max_len, env=None, tag="", context=""):
    """one fuzzing process; seeds: texts to start from; context: text added to the messages"""
    corpus, work = os.path.join(d, "corpus"), os.path.join(d, "work")
    os.makedirs(corpus)
    os.makedirs(work)
    for i, s in enumerate(seeds):
        with open(os.path.join(corpus, "s%d" % i), "wb") as f:
            f.write(s)
    dictionary(os.path.join(d, "dict"), words)
    e = {"FUZZ_MODE": mode, "FUZZ_DIR": work}
    e.update(env or {})
    e["ASAN_OPTIONS"] = vlib.san_env()["ASAN_OPTIONS"] + ":quarantine_size_mb=16"
    seed = ck.rng("fuzz", tag).randrange(1, 2 ** 31 - 1)
    cmd = [exe, corpus, "-runs=%d" % runs, "-seed=%d" % seed, "-max_len=%d" % max_len, "-max_total_time=%d" % seconds, "-timeout=60", "-rss_limit_mb=5000", "-malloc_limit_mb=4096",
           "-print_final_stats=1", "-verbosity=1", "-detect_leaks=0", "-len_control=0", "-dict=" + os.path.join(d, "dict"), "-artifact_prefix=" + d + "/found-"]
    p = vlib._once(cmd, work, None, seconds + 150, vlib.san_env(e))
    m = re.search(r"stat::number_of_executed_units: (\d+)", p.err)
    n = int(m.group(1)) if m else 0
    ck.count("fuzz_executions_" + mode, n)
    m = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", p.err)
    if m:
        ck.count("fuzz_edges_" + mode, int(m[-1][0]))
        ck.count("fuzz_inputs_kept_" + mode, int(m[-1][2]))
        for k in range(int(m[-1][2])):
            ck.distinct.add(("fuzz", mode, tag, k))
    ck.evaluations += n
    for a, b in re.findall(r"(accepted|rejected|compiled|failed)=(\d+)", p.err.split("FUZZ STATS")[-1] if "FUZZ STATS" in p.err else ""):
        if int(b):
            ck.count("fuzz_" + a, int(b))
    found = sorted(glob.glob(d + "/found-*"))
    if not found and p.rc == 0:
        return p
    inp = b""
    if found:
        with open(found[0], "rb") as f:
            inp = f.read()
    kind = os.path.basename(found[0]).split("-")[1] if found else "none"
    replay = {"mode": mode, "input": inp.decode("latin-1"), "kind": kind, "env": env, "context": context}
    if kind in ("timeout", "slow") or kind == "none" and p.timeout:
        # slowness belongs to other checks (C19, C23): the machine may be loaded
        ck.count("fuzz_slow_inputs")
        return p
    if "FUZZ HARNESS" in p.err:
        raise RuntimeError(p.err[-2000:])
    m = re.search(r"FUZZ VIOLATION: (.*?)(?=\n==\d|\Z)", p.err, re.S)
    text = "on the input %r %s" % (inp[:2500], context)
    if m:
        ck.violation("fuzz-%s:%s" % (mode, re.sub(r"\d+|'[^']*'|\"[^\"]*\"", "N", m.group(1))[:60]), "%s %s" % (m.group(1)[:1500], text), replay)
        return p
    if not ck.proc_ok(p, "fuzzing (%s) %s" % (mode, text), replay):
        return p
    ck.violation("fuzz-%s-crash" % mode, "the program stops %s: %s" % (text, p.err[-1500:]), replay)
    return p
