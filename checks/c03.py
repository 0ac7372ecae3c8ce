"""C03: derive_type returns a minimum weight derivation, honours tags and the counted length and reports ambiguity."""
from tdb import *
from luascript import run_script

WEIGHTS = [0.25, 0.5, 0.75, 1, 1.5, 2, 3, 8, 0.125, 64]
# sums differing by little, all of them exact in single precision and differing by more than its epsilon
CLOSE = [[k / 2.0**20 for k in range(1, 6)], [0.125 + k / 2.0**18 for k in range(4)], [1 + k / 2.0**14 for k in (0, 0, 1, 2)] + [2, 2 + 1 / 2.0**14], [0, 1 / 2.0**20, 1 / 2.0**10]]


def graph(rng, c, st, n, wpool, multi=True):
    """types and reductions in nested scopes; weights distinct per (scope, src, dest) if tags differ; returns types"""
    c.set_scope((0, -1))
    ts = [c.def_type(rng.choice([0, 0, 0] + [T(i) for i in range(1, c.ntypes)]) if c.ntypes > 1 else 0, "n%d" % i) for i in range(n)]
    scopes = [(0, -1)] + scope_tree(rng, 0, 20, rng.randint(0, 3), 2)
    ne = rng.randint(n - 1, int(n * 2.2) + 1)
    ndef = 0
    shape = rng.choice(["random", "random", "dag", "chain", "layers"])
    nt = rng.choice([1, 2, 3, 32])
    for k in range(ne):
        i, j = rng.sample(range(n), 2)
        if shape == "dag" and i > j:
            i, j = j, i
        elif shape == "chain":
            i = k % n
            j = (i + 1) % n if rng.random() < 0.8 else j
        elif shape == "layers":
            i = rng.randrange(n)
            j = min(n - 1, i + rng.randint(1, 2))
        if i == j:
            continue
        c.set_scope(rng.choice(scopes))
        tag = rng.randint(1, nt)
        w = rng.choice(wpool)
        if w is not None and w < 0:
            w = None
        d = c.m.redu.get(ts[i], {}).get(c.m.scope, [])
        if any(x[0] == ts[j] and (x[3] == (w or 0.0) or x[2] == tag) for x in d):
            continue
        c.def_reduction(ts[j], ts[i], rng.choice(["r%d" % k, "$o%d" % k, k, "$f%d" % k, None]), tag, w)
        ndef += 1
    return ts, nt, scopes


def queries(rng, c, st, ts, nt, scopes, q, resolve=None):
    pts = sorted({x for s in scopes for y in normscope(s) for x in (y - 1, y) if 0 <= x < INF})
    for _ in range(q):
        c.set_step(rng.choice(pts))
        mask = rng.choice([None, None, 0xffffffff, rng.getrandbits(32) | 1, sum(1 << (t - 1) for t in range(1, nt + 1) if rng.random() < 0.7)])
        cm = rng.choice([None, None, 0xffffffff, rng.getrandbits(32), sum(1 << (t - 1) for t in range(1, nt + 1) if rng.random() < 0.5)])
        ml = rng.choice([None, 0, 1, 2, 3, -1]) if cm is not None else rng.choice([None, None, 0, 1, -1])
        a, b = rng.choice(ts), rng.choice(ts)
        dest = b if rng.random() < 0.97 else 0
        if not c.derive_type(dest, a, mask, cm, ml, st):
            st("skipped_dense")
        if rng.random() < 0.15:
            c.get_reductions(a, mask, cm)
        if rng.random() < 0.1:
            c.get_reduction(b, a, mask)


def mk(rng, c, st):
    n = rng.choice([2, 3, 4, 5, 6, 7])
    wpool = rng.choice([WEIGHTS, [1, 1, 2], [1, 2, 3, 4], [-1, 0, 1], [0.5, 1], [0.25, 0.25, 0.5, 0.125], rng.choice(CLOSE)])
    ts, nt, scopes = graph(rng, c, st, n, wpool)
    queries(rng, c, st, ts, nt, scopes, 14)


def mk_long(rng, c, st):
    """long chains and ladders: many elements in the search queue"""
    c.set_scope((0, -1))
    n = rng.randint(20, 60)
    ts = [c.def_type(0, "n%d" % i) for i in range(n)]
    wide = rng.random() < 0.5
    if wide:      # star of many alternatives: start -> m_i -> end
        ws = [rng.choice([1, 2, 3, 5, 7]) + rng.choice([0, 0.5, 0.25]) for _ in range(n)]
        for i in range(1, n - 1):
            c.def_reduction(ts[i], ts[0], "a%d" % i, 1, float(ws[i]))
            c.def_reduction(ts[n - 1], ts[i], "b%d" % i, 2, float(rng.choice([1, 2, 3, 4]) * 0.5))
    else:
        for i in range(n - 1):
            c.def_reduction(ts[i + 1], ts[i], "a%d" % i, 1, rng.choice(WEIGHTS))
        if rng.random() < 0.5:
            i = rng.randrange(n - 2)
            c.def_reduction(ts[i + 2], ts[i], "s", 2, rng.choice(WEIGHTS))
    for a, b in [(0, n - 1), (0, n // 2), (n // 2, n - 1), (n - 1, 0)]:
        c.derive_type(ts[b], ts[a], None, None, None, st)
        c.derive_type(ts[b], ts[a], 3, 1, rng.choice([1, 2, n, -1]), st)
        st("long_graphs")


def mk_limit(rng, c, st):
    """dense graphs where cheap derivations are long: the limit on the counted reductions decides"""
    c.set_scope((0, -1))
    n = rng.choice([3, 4, 4, 5])
    ts = [c.def_type(0, "n%d" % i) for i in range(n)]
    nt = rng.choice([1, 2, 3])
    longcheap = rng.random() < 0.7
    for i in range(n):
        for j in range(n):
            if i != j and rng.random() < (0.75 if i < j else 0.3):
                d = abs(j - i)
                w = 0.25 * d * d + rng.choice([0, 0.125, 0.25]) if longcheap else rng.choice(WEIGHTS)
                c.def_reduction(ts[j], ts[i], "r%d_%d" % (i, j), rng.randint(1, nt), w)
    c.set_step(rng.choice([0, 1, 100]))
    for _ in range(10):
        i, j = sorted(rng.sample(range(n), 2)) if rng.random() < 0.8 else rng.sample(range(n), 2)
        cm = rng.choice([None, 1, 2, 3, 7, 0xffffffff])
        c.derive_type(ts[j], ts[i], rng.choice([None, None, 0xffffffff, 3, 6]), cm, rng.choice([0, 1, 1, 2, 2, 3, -1, None]), st)
        st("limited")


def mk_bad(rng, c, st):
    a, b = c.def_type(0, "a"), c.def_type(0, "b")
    c.def_reduction(b, a, "x", 1, 1)
    c.call("derive_type", [b, 4711], want_err(455))
    c.call("derive_type", [4711, a], want_err(455))
    c.call("derive_type", [b, a, None, None, -2], want_err())
    c.derive_type(a, a)
    c.derive_type(b, b, 0)
    st("errors")


def run(ck):
    ck.rule = ("large databases (forests of up to 4097 scopes, 32767 parameters, 4097 overloads, chains of 2000 reductions) with answers known from their construction; random graphs of reductions (2..60 types, tags, weights with ties and zeros, nested scopes with shadowing), every result compared with "
               "an exhaustive enumeration of the derivations; non-trivial = at least one query; distinct = different call sequences")
    ck.assumptions = ["weights are multiples of 1/8, so that sums are exact", "no two reductions of equal weight with different tags between the same types in one scope"]
    run_cases(ck, "graphs", mk, ck.n(2600, 25000))
    run_cases(ck, "limit", mk_limit, ck.n(900, 15000))
    run_cases(ck, "long", mk_long, ck.n(160, 1500), per=20)
    run_cases(ck, "bad", mk_bad, 1)
    run_script(ck, "scale.lua", ck.n(8, 32), ck.n(40, 200), timeout=400, extra=["derive", "derive_type"], salt="scale")
