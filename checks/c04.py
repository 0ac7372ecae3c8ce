"""C04: resolve_type finds the cheapest context having the name, its visible overloads, the reductions leading there, and ambiguities."""
from tdb import *
from c03 import graph, WEIGHTS, CLOSE
from luascript import run_script


def mk(rng, c, st):
    n = rng.choice([2, 3, 4, 5, 6])
    wpool = rng.choice([WEIGHTS, [1, 1, 2], [1, 2, 3, 4], [-1, 0, 1], [0.5, 1], rng.choice(CLOSE)])
    ts, nt, scopes = graph(rng, c, st, n, wpool)
    names = ["m", "member", "len"]
    for k in range(rng.randint(1, 8)):
        c.set_scope(rng.choice(scopes))
        ctx = rng.choice(ts + [0])
        for _ in range(rng.choice([1, 1, 2, 3])):
            c.def_type(ctx, rng.choice(names[:2]), "m%d" % k, [(rng.choice(ts), None) for _ in range(rng.randint(0, 2))])
    if rng.random() < 0.5:       # reductions to the global context 0
        for k in range(rng.randint(1, 2)):
            c.set_scope(rng.choice(scopes))
            s = rng.choice(ts)
            if not any(x[0] == 0 for x in c.m.redu.get(s, {}).get(c.m.scope, [])):
                c.def_reduction(0, s, "g%d" % k, rng.randint(1, nt), rng.choice(wpool if min(wpool) > 0 else WEIGHTS))
    pts = sorted({x for s in scopes for y in normscope(s) for x in (y - 1, y) if 0 <= x < INF})
    for q in range(14):
        c.set_step(rng.choice(pts))
        mask = rng.choice([None, None, 0xffffffff, rng.getrandbits(32) | 1])
        nm = rng.choice(names)
        if rng.random() < 0.45:
            # lists of type/constructor pairs, or of plain handles
            lst = [(t, "root%d" % i) for i, t in enumerate(rng.choices(ts, k=rng.randint(1, 4)))]
            if not c.resolve_type(lst, nm, mask, stats=st):
                st("skipped_dense")
            st("list_queries")
        else:
            if not c.resolve_type(rng.choice(ts + [0]), nm, mask, stats=st):
                st("skipped_dense")


def mk_bad(rng, c, st):
    a = c.def_type(0, "a")
    c.call("resolve_type", [4711, "a"], want_err(455))
    c.call("resolve_type", [[a, 4711], "a"], want_err(455))
    c.resolve_type(0, "undefined")
    st("errors")


def run(ck):
    ck.rule = ("large databases (forests of up to 4097 scopes, 32767 parameters, 4097 overloads, chains of 2000 reductions) with answers known from their construction; random graphs of reductions with members defined in random contexts and scopes; every result compared with an enumeration of all reachable "
               "contexts; distinct = different call sequences")
    ck.assumptions = ["weights whose sums are exact in single precision", "the origin of the path is only checked for lists of type/constructor pairs"]
    run_cases(ck, "graphs", mk, ck.n(2600, 25000))
    run_cases(ck, "bad", mk_bad, 1)
    run_script(ck, "scale.lua", ck.n(8, 32), ck.n(40, 200), timeout=400, extra=["derive", "resolve_type"], salt="scale")
