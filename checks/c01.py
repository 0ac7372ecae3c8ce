"""C01: a query sees the definition of the innermost scope covering the step, whatever the order of the definitions."""
from tdb import *
from luascript import run_script


def mk_instances(rng, c, st):
    """instances: every name has its own scope hierarchy, the scopes are defined in random order with overwriting"""
    big = rng.random() < 0.15
    span = rng.choice([6, 12, 40, 300]) if not big else 100000
    names = [rng.choice(["reg", "x", "frame", "\xe4\x00\xff", "a b", "N" * 300]) + str(i) for i in range(rng.randint(1, 3))]
    trees = {}
    for n in names:
        t = scope_tree(rng, 0, span, rng.randint(1, 5), rng.randint(1, 5))
        if rng.random() < 0.4:
            t.append((0, -1))
        elif rng.random() < 0.3:
            t.append((0, span))
        trees[n] = list(dict.fromkeys(t))[:40]
    ops = [(n, s) for n in names for s in trees[n]]
    rng.shuffle(ops)
    if rng.random() < 0.5:
        ops += [rng.choice(ops) for _ in range(len(ops) // 4)] if ops else []
    k = 0
    pts = sorted({x + d for n in names for s in trees[n] for x in normscope(s) for d in (-1, 0) if 0 <= x + d <= INF})
    for i, (n, s) in enumerate(ops):
        c.set_scope(s)
        k += 1
        c.set_instance(n, rng.choice(["v%d" % k, k, "$o%d" % k, "$f%d" % k, False]))
        if rng.random() < 0.3:
            c.set_step(rng.choice(pts))
            c.get_instance(rng.choice(names))
            st("instance_queries")
    for n in names:
        for s in trees[n] + [(0, span), (1, span + 1)]:
            c.set_scope(s, rng.choice(pts + [0]))
            c.this_instance(n)
        for x in (pts if len(pts) < 60 else rng.sample(pts, 60)):
            c.set_step(x)
            c.get_instance(n)
            st("instance_queries")
            st("depth%d" % min(5, len(Model.inner(c.m.inst.get(n, {}), x))))
    c.get_instance("undefined")
    c.this_instance("undefined")
    c.get_scope()


def mk_types(rng, c, st):
    """types and reductions: visibility per key"""
    span = rng.choice([8, 20, 100])
    names = ["t%d" % i for i in range(rng.randint(1, 3))]
    c.set_scope((0, -1))
    ctxs = [0] + [c.def_type(0, "ctx%d" % i) for i in range(rng.randint(0, 2))]
    base = [c.def_type(0, "base%d" % i) for i in range(4)]
    keys = [(x, n) for x in ctxs for n in names]
    trees = {k: list(dict.fromkeys(scope_tree(rng, 0, span, rng.randint(1, 4), 3) + ([(0, -1)] if rng.random() < 0.4 else []))) for k in keys + base}
    ops = [(k, s) for k in trees for s in trees[k]]
    ops += rng.sample(ops, len(ops) // 3)
    rng.shuffle(ops)
    pts = sorted({x + d for k in trees for s in trees[k] for x in normscope(s) for d in (-1, 0) if 0 <= x + d <= INF}) or [0]
    i = 0
    for k, s in ops:
        i += 1
        c.set_scope(s)
        if isinstance(k, tuple):
            c.def_type(k[0], k[1], "c%d" % i, [(rng.choice(base), None) for _ in range(rng.choice([0, 0, 1, 2]))])
        else:
            d = rng.choice([b for b in base if b != k])
            if not c.redu_tag_used(d, k, 1):
                c.def_reduction(d, k, "r%d" % i, 1, rng.choice([None, 0.5, 2]))
    for x in (pts if len(pts) < 40 else rng.sample(pts, 40)):
        c.set_step(x)
        for k in rng.sample(keys, min(4, len(keys))):
            c.resolve_type(k[0], k[1])
            st("type_queries")
            st("depth%d" % min(5, len(Model.inner(c.m.chain.get(k, {}), x))))
        b, d = rng.sample(base, 2)
        c.get_reduction(d, b)
        c.get_reductions(b)
        st("reduction_queries")
    for k in keys:
        for s in trees[k]:
            c.set_scope(s)
            c.this_types(k[0], k[1])


def mk_exhaustive(perm_scopes):
    def mk(rng, c, st):
        scs, order = perm_scopes[c.ci]
        for i in order:
            c.set_scope(scs[i])
            c.set_instance("x", "v%d" % i)
        for x in range(0, 9):
            c.set_step(x)
            c.get_instance("x")
        st("order_exhaustive_cases")
    return mk


def run(ck):
    ck.rule = ("large databases (forests of up to 4097 scopes, 32767 parameters, 4097 overloads, chains of 2000 reductions) with answers known from their construction; random properly nested scope hierarchies per name, definitions in random order with overwrites, queries at all "
               "scope boundaries +-1; plus all orders of definition of small hierarchies; distinct = different call sequences")
    ck.assumptions = ["scopes of one key are properly nested (documented use: scopes come from a syntax tree)"]
    run_cases(ck, "instances", mk_instances, ck.n(900, 12000))
    run_cases(ck, "types", mk_types, ck.n(500, 8000))
    # every order of definition of every nested hierarchy of up to 4 scopes over [0,6) (sampled in the quick tier)
    allsc = [(a, b) for a in range(0, 6) for b in range(a + 1, 7)]
    nested = lambda p, q: p[1] <= q[0] or q[1] <= p[0] or (p[0] <= q[0] and q[1] <= p[1]) or (q[0] <= p[0] and p[1] <= q[1])
    fam = []
    rng = ck.rng("exh")
    while len(fam) < ck.n(1500, 20000):
        n = rng.randint(3, 5)
        scs = rng.sample(allsc, n)
        if all(nested(p, q) for p, q in itertools.combinations(scs, 2)):
            o = list(range(n))
            rng.shuffle(o)
            fam.append((scs, o))
    run_cases(ck, "orders", mk_exhaustive(fam), len(fam), per=200)
    run_script(ck, "scale.lua", ck.n(8, 32), ck.n(8, 40), timeout=400, extra=["scopes"], salt="scale")
