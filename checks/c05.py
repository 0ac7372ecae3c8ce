"""C05: reductions: what is defined is what is found, per scope, tag and weight; invalid definitions are refused and have no effect."""
from tdb import *
from luascript import run_script


def mk(rng, c, st):
    c.set_scope((0, -1))
    ts = [c.def_type(0, "t%d" % i) for i in range(rng.choice([2, 3, 4, 6]))]
    scopes = [(0, -1)] + scope_tree(rng, 0, 24, 3, 3)
    pts = sorted({x for s in scopes for y in normscope(s) for x in (y - 1, y) if 0 <= x < INF})
    tags = rng.choice([[1, 2], [1, 32], list(range(1, 33)), [3, 31, 32]])
    for k in range(rng.randint(8, 50)):
        if rng.random() < 0.5:
            c.set_scope(rng.choice(scopes))
        a, b = rng.choice(ts), rng.choice(ts + [0] if rng.random() < 0.1 else ts)
        r = rng.random()
        if r < 0.5:
            if a == b and rng.random() < 0.8:
                continue
            tag = rng.choice(tags)
            if rng.random() < 0.05:
                tag = rng.choice([33, 64, 255, 257, 0])
            w = rng.choice([None, 0, 0.5, 1, 2.25, 1000.5, 3])
            if rng.random() < 0.05:
                w = rng.choice([-0.5, -1])
            before = len(c.checks)
            c.def_reduction(b, a, rng.choice([None, "c%d" % k, "$o%d" % k, "$f%d" % k, k]), tag, w)
            st("definitions")
        else:
            c.set_step(rng.choice(pts))
            mask = rng.choice([None, 0, 0xffffffff, rng.getrandbits(32), sum(1 << (t - 1) for t in tags if rng.random() < 0.5)])
            if r < 0.7:
                c.get_reduction(b, a, mask)
            else:
                c.get_reductions(a, mask, rng.choice([None, 0xffffffff, rng.getrandbits(32)]))
            st("queries")
    for x in rng.sample(pts, min(6, len(pts))):
        c.set_step(x)
        for a in ts:
            c.get_reductions(a)
            c.get_reductions(a, 1 << (rng.choice(tags) - 1))
            for b in ts:
                c.get_reduction(b, a)
            st("queries")
    # tag sets
    for _ in range(4):
        sel = [rng.choice(list(range(1, 33))) for _ in range(rng.randint(0, 6))]
        m = 0
        for t in sel:
            m |= 1 << (t - 1)
        c.call("reduction_tagmask", sel, want_mask(m))
        st("tagmasks")
    c.call("reduction_tagmask", [rng.choice([33, 100, 0])], want_err())
    # handles that were never returned are refused wherever a type is expected
    bad = rng.choice([4711, 1000000, 2147483647])
    a = rng.choice(ts)
    for meth, args in (("get_reduction", [a, bad]), ("get_reduction", [bad, a]), ("get_reductions", [bad]),
                       ("def_reduction", [a, bad, 1, 1, 1]), ("def_reduction", [bad, a, 1, 1, 1])):
        c.call(meth, args, want_err(455))
        st("invalid handles")
    # ... without effect on what is found
    c.get_reductions(a)


def want_mask(m):
    def f(r, env):
        v = r.get("r")
        if not v or len(v) != 1 or (int(v[0]) & 0xffffffff) != m:
            raise Mismatch("the tag set %x" % m)
    return f


def run(ck):
    ck.rule = "large databases (forests of up to 4097 scopes, 32767 parameters, 4097 overloads, chains of 2000 reductions) with answers known from their construction; random sequences of definitions (valid, duplicate, invalid) and queries of reductions in nested scopes; distinct = different call sequences"
    run_cases(ck, "reductions", mk, ck.n(2500, 25000))
    run_script(ck, "scale.lua", ck.n(8, 32), ck.n(40, 200), timeout=400, extra=["derive", "get_reduction,get_reductions"], salt="scale")
