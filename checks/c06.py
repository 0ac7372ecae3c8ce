"""C06: the introspection trees show every definition exactly once, in its scope, below the innermost enclosing scope."""
from tdb import *
from luabatch import Raw
from luascript import run_script

HELP = r'''
local function tree(t, kind)
	local n = {scope = t:scope(), chld = {}}
	if kind == "i" then n.val = {t:instance()} else
		n.list = {}
		for e in t:list() do n.list[#n.list+1] = e end
	end
	for c in t:chld() do n.chld[#n.chld+1] = tree(c, kind) end
	n.nchld = #n.chld; n.dummy = 1
	return n
end
'''


def expected_tree(scopes):
    """parent of each scope: the smallest other scope containing it; the root (0,INF) is always there"""
    root = (0, INF)
    al = set(scopes) | {root}
    par = {}
    for s in al:
        if s != root:
            par[s] = min((p for p in al if p != s and p[0] <= s[0] and s[1] <= p[1]), key=lambda p: p[1] - p[0])
    return al, par


def flatten(node, parent, out):
    sc = tuple(node["scope"])
    out.append((sc, parent, node))
    ch = node["chld"]
    for c in (ch if isinstance(ch, list) else []):
        flatten(c, sc, out)


def ckshape(v, scopes):
    out = []
    flatten(v, None, out)
    al, par = expected_tree(scopes)
    got = [o[0] for o in out]
    if sorted(got) != sorted(al):
        raise Mismatch("the scopes %s once each, got %s" % (sorted(al), sorted(got)))
    for sc, p, n in out:
        if par.get(sc) != p:
            raise Mismatch("scope %s below %s, is below %s" % (sc, par.get(sc), p))
    return {o[0]: o[2] for o in out}


def mk(rng, c, st):
    c.lines.append(HELP)
    span = rng.choice([10, 30, 200])
    scopes = list(dict.fromkeys(scope_tree(rng, 0, span, rng.randint(1, 5), rng.randint(1, 4))))
    if rng.random() < 0.7:
        scopes.append((0, -1))
    scopes = scopes[:60] or [(1, 4)]
    rng.shuffle(scopes)
    c.set_scope(rng.choice(scopes))
    ts = [c.def_type(0, "n%d" % i) for i in range(4)]
    k = 0
    # sometimes many types in few scopes
    names = rng.choice([["a", "b", "c"], ["t%d" % i for i in range(rng.choice([20, 40]))]])
    if len(names) > 3:
        scopes = rng.sample(scopes, min(len(scopes), rng.randint(1, 3)))
        many = rng.randint(30, 200)
    else:
        many = rng.randint(5, 80)
    for _ in range(many):
        k += 1
        c.set_scope(rng.choice(scopes))
        r = rng.random()
        if r < 0.4:
            c.set_instance(rng.choice(["x", "y"]), "v%d" % k)
        elif r < 0.7:
            c.def_type(rng.choice([0] + ts[:2]), rng.choice(names), "c%d" % k, [(rng.choice(ts), None) for _ in range(rng.choice([0, 0, 1, 2]))])
        else:
            a, b = rng.sample(ts, 2)
            c.def_reduction(b, a, rng.choice(["r%d" % k, "$o%d" % k]), rng.randint(1, 6), rng.choice([None, 0.5, 2]))
        if rng.random() < 4 / many:
            trees(rng, c, st)
    trees(rng, c, st)


def trees(rng, c, st):
    m = c.m
    for name in ("x", "y", "undefined"):
        inst = dict(m.inst.get(name, {}))

        def ck1(r, env, inst=inst):
            v = r.get("r")
            if not v or len(v) != 1:
                raise Mismatch("a tree")
            nodes = ckshape(v[0], inst)
            for s, n in nodes.items():
                w = [ctorval(inst[s])] if s in inst else []
                g = n["val"] if isinstance(n["val"], list) else []
                if [x for x in g if x is not None] != w:
                    raise Mismatch("instance %s of scope %s" % (w, s))
        tcall(c, "instance_tree", "db:instance_tree(%s)" % lit(name), "i", ck1)
    tl = {}
    for key, d in m.chain.items():
        for s, l in d.items():
            tl.setdefault(s, []).extend(l)

    def ck2(r, env):
        v = r.get("r")
        if not v or len(v) != 1:
            raise Mismatch("a tree")
        for s, n in ckshape(v[0], tl).items():
            w = sorted(env[t] for t in tl.get(s, []))
            if sorted(n["list"]) != w:
                raise Mismatch("types %s of scope %s" % (w, s))
    tcall(c, "type_tree", "db:type_tree()", "l", ck2)
    rl = {}
    for src, d in m.redu.items():
        for s, l in d.items():
            rl.setdefault(s, []).extend((src,) + x for x in l)

    def ck3(r, env):
        v = r.get("r")
        if not v or len(v) != 1:
            raise Mismatch("a tree")
        key = lambda e: repr(sorted(e.items(), key=repr))
        for s, n in ckshape(v[0], rl).items():
            w = sorted(({"from": env[a], "to": env[b], "constructor": ctorval(ct), "tag": tag, "weight": wt} for a, b, ct, tag, wt in rl.get(s, [])), key=key)
            g = sorted(({k: (float(x) if k == "weight" else x) for k, x in e.items()} for e in n["list"]), key=key)
            w = [{k: (float(x) if k == "weight" else x) for k, x in e.items()} for e in w]
            if g != w:
                raise Mismatch("reductions %s of scope %s" % (w, s))
    tcall(c, "reduction_tree", "db:reduction_tree()", "l", ck3)
    st("tree_triples")
    st("tree_nodes", ) if False else None


def tcall(c, what, expr, kind, check):
    oi = len(c.checks)
    c.lines.append("op(%d,%d,function() local t = %s; local r = tree(t,%s); t:__gc(); t:__gc(); return r end)" % (c.ci, oi, expr, lit(kind)))
    c.checks.append((what + "()", check))
    c.desc.append(what + "()")


def run(ck):
    ck.rule = "large databases (forests of up to 4097 scopes, 32767 parameters, 4097 overloads, chains of 2000 reductions) with answers known from their construction; random definitions in properly nested scopes in random order; all three trees compared with the definitions made; distinct = different call sequences"
    ck.assumptions = ["all scopes of a case are properly nested"]
    run_cases(ck, "trees", mk, ck.n(900, 10000), per=40)
    run_script(ck, "scale.lua", ck.n(8, 32), ck.n(40, 200), timeout=400, extra=["trees"], salt="scale")
