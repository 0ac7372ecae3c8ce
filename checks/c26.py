"""C26: Lua states do not interfere with each other, also in threads running at the same time."""
import os, shutil
import vlib
from gengram import *
from gram import generate, derive, leaves
from parsecheck import sources
from pgrams import maker

TPL = "%automaton%\n"


def setup(ck, r, d):
    """generated compilers with sources in d"""
    out = []
    while len(out) < 4:
        g = maker(["structured"], calls=(0.7, 1.0), nocalls=0)(r)
        if g is None:
            continue
        for p in g.prods:       # functions of their own for each compiler
            if p.call:
                at = p.call[1] if p.call[1] in (None, "{a=1}", "17", '"str"') else None
                p.call = ("g%d_%s" % (len(out), p.call[0].replace(".", "_")), at, None)
        nm = "c%d" % len(out)
        gen = generate(ck, d, g.text(r), template=TPL, name=nm)
        if not gen.ok:
            continue
        for k, (s, _) in enumerate(sources(g, r, 4, 2)):
            with open(os.path.join(d, "%s.%d.src" % (nm, k)), "wb") as f:
                f.write(s)
        out.append(os.path.join(d, nm))
    return out


def run(ck):
    prog = vlib.build_threads()
    script = os.path.join(vlib.VERIF, "lua", "states.lua")

    def job(i):
        r = ck.rng("states", i)
        d = ck.scratch.sub("t%d" % i)
        comps = setup(ck, r, d)
        seed, n, rounds = r.randrange(1, 2 ** 31 - 2), r.choice([2, 4, 4, 6, 8]), ck.n(30, 60)
        got = {}
        for how in ("seq", "par"):
            p = vlib.run([prog, how, str(n), script, d, str(seed), str(rounds)] + comps, cwd=d, timeout=300)
            rp = {"seed": seed, "states": n, "how": how, "files": {f: open(os.path.join(d, f), "rb").read().decode("latin-1") for f in sorted(os.listdir(d)) if not f.startswith("out")}}
            if not ck.proc_ok(p, "%d states %s, seed %d" % (n, how, seed), rp, how + ":"):
                shutil.rmtree(d, ignore_errors=True)
                return
            if "DONE 0" not in p.out:
                ck.violation(how + ":failed", "%d states %s, seed %d: %s %s" % (n, how, seed, p.out[-500:], p.err[-1500:]), rp)
                return
            got[how] = [open(os.path.join(d, "out%d" % k), "rb").read() for k in range(n)]
        for k in range(n):
            a, b = got["seq"][k], got["par"][k]
            ck.evaluations += a.count(b"\n")
            ck.distinct.add((i, k))
            if a != b:
                x = next((j for j, (u, v) in enumerate(zip(a.split(b"\n"), b.split(b"\n"))) if u != v), -1)
                ck.violation("differs", "state %d of %d, seed %d: line %d is %r when alone and %r with others" % (
                    k, n, seed, x, a.split(b"\n")[x][:300], b.split(b"\n")[x][:300]), rp)
            if k % 2 and got["seq"][k - 1] != a:
                ck.violation("twins", "states %d and %d of the same work differ, seed %d" % (k - 1, k, seed), rp)
            ck.count("runs_compared", a.count(b"run\t"))
            ck.count("lines_compared", a.count(b"\n"))
        ck.count("states", n)
        ck.count("groups")
        shutil.rmtree(d, ignore_errors=True)
    ck.fork_map(job, ck.n(24, 300))
    ck.rule = "a state is distinct by its group, number and seed"
    ck.assumptions = ["each Lua state is used by one thread only and states write different files", "interleavings are those the scheduler makes with 8 processors, under ThreadSanitizer"]
