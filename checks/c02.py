"""C02: types: definition, duplicates, lookup in the current scope, attributes read back, aliases."""
from tdb import *
from luascript import run_script

NAMES = ["int", "f", "+", "a b", "", "\xc3\xa4", "x" * 200, "!", "const", "\x01\xff"]


def slen(c, t):
    """length of the string of a type"""
    if t == 0:
        return 0
    if "slen" not in c.m.types[t]:
        r = c.m.types[t]
        r["slen"] = slen(c, r["ctx"]) + len(r["name"]) + sum(slen(c, p[0]) + 1 for p in r["params"])
    return c.m.types[t]["slen"]


def mk(rng, c, st):
    m = c.m
    span = 30
    scopes = [(0, -1)] + scope_tree(rng, 0, span, 3, 3)
    names = rng.sample(NAMES, rng.randint(1, 4))
    types = []
    k = 0
    for _ in range(rng.randint(10, 60)):
        if rng.random() < 0.35:
            c.set_scope(rng.choice(scopes))
        ctx = rng.choice([0, 0] + [t for t in types[-6:] if slen(c, t) < 600]) if types else 0
        n = rng.choice(names)
        r = rng.random()
        if r < 0.5:
            if ((ctx, n), m.scope) in m.alias:
                continue
            k += 1
            np = rng.choice([0, 0, 1, 1, 2, 3, 5]) if types else 0
            if rng.random() < 0.02 and types:
                np = rng.choice([40, 300])
            pool = [t for t in types[-3:] + types[:2] if slen(c, t) < (60 if np > 3 else 400)] or types[:1]
            params = [(rng.choice(pool), rng.choice([None, None, "p%d" % k, "$o%d" % k])) for _ in range(np)]
            ex = m.chain.get((ctx, n), {}).get(m.scope, [])
            if ex and rng.random() < 0.3:      # provoke duplicates, also with other constructors
                params = [(p[0], rng.choice([None, "q%d" % k])) for p in m.types[rng.choice(ex)]["params"]]
            t = c.def_type(ctx, n, rng.choice([None, None, "c%d" % k, k, "$o%d" % k, "$fc%d" % k, True]), params, rng.randint(0, 2))
            st("def_type_new" if t else "def_type_duplicate")
            if t:
                types.append(t)
                if rng.random() < 0.3:
                    c.attributes(t, rng.choice([None, ".", "", "::"]))
        elif r < 0.6 and types:
            # aliases of types whose name has no overloads, under names used for nothing else
            an = "alias%d" % rng.randint(0, 3)
            cn = "solo%d" % k
            k += 1
            t = c.def_type(0, cn, "c%d" % k)
            types.append(t)
            ok = c.def_type_as(ctx, an, t)
            st("alias_new" if ok else "alias_duplicate")
            c.this_type(ctx, an)
            c.this_types(ctx, an)
            c.resolve_type(ctx, an)
            if rng.random() < 0.3:
                c.call("def_type", [ctx, an, "x"], want_vals(-1))
        elif r < 0.8 and types:
            ex = m.chain.get((ctx, n), {}).get(m.scope, [])
            if ex and rng.random() < 0.7:
                params = [p[0] for p in m.types[rng.choice(ex)]["params"]]
                if rng.random() < 0.3 and params:
                    params[rng.randrange(len(params))] = rng.choice(types)
            else:
                params = [rng.choice(types) for _ in range(rng.randint(0, 3))]
            c.this_type(ctx, n, params if params or rng.random() < 0.5 else None)
            st("this_type")
        else:
            c.this_types(ctx, n)
            st("this_types")
        if rng.random() < 0.06:
            bad = rng.choice([100000, 5000, INF])
            which = rng.randint(0, 5)
            if which == 0:
                c.call("def_type", [bad, n, "c"], want_err(455))
            elif which == 1:
                c.call("this_type", [bad, n], want_err(455))
            elif which == 2:
                c.call("def_type_as", [0, "bad", bad], want_err(455))
            elif which == 3:
                c.call(rng.choice(["type_name", "type_string", "type_context", "type_scope", "type_constructor", "type_parameters", "type_nof_parameters"]), [bad], want_err(455))
            elif which == 4:
                c.call("def_reduction", [bad, 1, "x", 1], want_err())
            else:
                c.call("this_types", [bad, n], want_err(455))
            st("invalid_handles")
    for t in types:
        c.attributes(t, rng.choice([None, None, "."]))
    for (ctx, n), d in list(m.chain.items()):
        for s in d:
            c.set_scope(s)
            c.this_types(ctx, n)


def alias_chain(ck):
    """overloads defined under the name of an alias (known finding): the aliased type's own name has to keep its own list"""
    c = TdbCase(0)
    a = c.def_type(0, "a", "ca")
    b = c.def_type(0, "b", "cb")
    c.def_type_as(0, "c", a)
    c.def_type(0, "c", "cc", [(b, None)])
    c.this_types(0, "a")
    from luabatch import run_batch
    p, res, done = run_batch(ck, "alias", [c.text()])
    ck.proc_ok(p, "alias chain")
    bad = c.verify(res.get(0, {}))
    ck.case("aliaschain")
    if bad:
        ck.violation("alias-overload-chain" if bad[0] == len(c.checks) - 1 else "alias-overload-chain:other", bad[1], {"lua": c.lines})


def run(ck):
    ck.rule = "large databases (forests of up to 4097 scopes, 32767 parameters, 4097 overloads, chains of 2000 reductions) with answers known from their construction; random sequences of definitions (with provoked duplicates, overloads, aliases), lookups and attribute queries in nested scopes; distinct = different call sequences"
    ck.assumptions = ["no overload is defined under the name of an alias, no alias is made of an overloaded name (separate known finding)"]
    run_cases(ck, "types", mk, ck.n(2500, 25000))
    alias_chain(ck)
    run_script(ck, "scale.lua", ck.n(8, 32), ck.n(40, 200), timeout=400, extra=["types"], salt="scale")
