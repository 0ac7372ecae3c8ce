"""C15: generation is deterministic and the Lua tables carry the whole automaton."""
import os, re, shutil
import vlib
from vlib import luastr
from gram import Gram, Prod, generate, run_sources, TEMPLATE
from anygram import NAMES, TOKN, KWS, FNS, PATTERNS
from gramtext import emit, calltoks
from gengram import structured_grammar, add_calls, comments_of, classify
from luabatch import run_batch

ARGS = [None, None, "1", "42", "ref", "mod.ref", '""', '"str"', "'str'", "'d\"q'", '"s\'q"', '"a\\\\b"', '"\\n"', '"# // /*"', '"\u00e9\u2192"', "{a=1}", "{a=1,b=2}", '{a="x"}', "{a='\"'}", '{_x="= , }",y=7,z=\'\'}', '"two  words"', '" lead"', '"\\065\\x41"']
REFS = ["ref", "mod.ref", "vfalse", "vtrue", "vzero", "vempty", "vtable"]


def weird(g, r):
    """other names for everything, what is accepted stays the same"""
    m = {}
    nts = []
    for p in g.prods:
        if p.lhs not in nts:
            nts.append(p.lhs)
    names = [n for n in NAMES if n not in g.keywords()]
    new = r.sample(names, min(len(nts), len(names), r.randint(0, 8)))
    for a, b in zip(r.sample(nts, len(new)), new):
        m["n", a] = b
    keep = {n for n in nts if ("n", n) not in m}
    tn = []
    for t in g.toks:
        if t[0] not in tn:
            tn.append(t[0])
    used = set(m.values()) | keep
    for t in tn:
        c = [x for x in TOKN if x not in used]
        if r.random() < 0.6 and c:
            m["t", t] = r.choice(c)
            used.add(m["t", t])
        else:
            used.add(t)
    kws = g.keywords()
    left = [k for k in KWS if k not in used and k not in kws]
    r.shuffle(left)
    for k in kws:
        if left and r.random() < 0.5:
            m["k", k] = left.pop()
    for p in g.prods:
        p.lhs = m.get(("n", p.lhs), p.lhs)
        p.rhs = [(k, m.get((k, n), n)) for k, n in p.rhs]
        if p.call:
            p.call = (r.choice(FNS) if r.random() < 0.6 else p.call[0], r.choice(ARGS) if r.random() < 0.6 else p.call[1], None)
    g.toks = [(m.get(("t", a), a), b, c) for a, b, c in g.toks]
    if r.random() < 0.3:
        for x in r.sample(PATTERNS, 2):
            g.ignores.append(x)
    if r.random() < 0.3:
        n = r.choice([x for x in TOKN if x not in used] or ["Qq"])
        g.toks.insert(r.randint(0, len(g.toks)), (n, r.choice(PATTERNS), 0))
    if r.random() < 0.2:
        g.bad = r.choice(["ERR", "bad one", "'", "?x", '"'])
    return g


def make(r):
    while True:
        g = structured_grammar(r)
        add_calls(g, r, 0.7, True)
        comments_of(g, r)
        if classify(g) == "slr":
            break
    g = weird(g, r)
    g.meta = {}
    for k in ("LANGUAGE", "TYPESYSTEM", "CMDLINE"):
        if r.random() < 0.6:
            g.meta[k] = r.choice(["x", "lang/x", "a b", "it's", 'q"t', "\\\\n", "\u00e9", "l%s", "end"])
    if r.random() < 0.15:
        g.indentl = ("INDX", "DEDX", "NLX", r.choice([1, 4, 8, 100]))
    return g


PRE = r'''
local function deq(a, b, d)
	if a == b then return true end
	if type(a) ~= "table" or type(b) ~= "table" or d > 20 then return false end
	for k,v in pairs(a) do if not deq(v, rawget(b,k), d+1) then return false, k end end
	for k,v in pairs(b) do if rawget(a,k) == nil then return false, k end end
	return true
end
local function put(t, path, v)
	local last
	for w in path:gmatch("[^.]+") do
		if last then t[last] = t[last] or {} t = t[last] end
		last = w
	end
	t[last] = t[last] or v
end
function get(t, path) for w in path:gmatch("[^.]+") do t = t[w] end return t end
function check(file, fns, meta)
	typesystem = {}
	for _,f in ipairs({"ref", "mod.ref"}) do put(typesystem, f, {f}) end
	for k,v in pairs({vfalse = false, vtrue = true, vzero = 0, vempty = {}, vtable = {x = 1, y = "z"}}) do typesystem[k] = v end
	for _,f in ipairs(fns) do put(typesystem, f, function() end) end
	local f = io.open(file, "rb")
	local text = f:read("*a")
	f:close()
	local def = assert(load("return " .. text, "@" .. file))()
	local comp = mewa.compiler(def)
	local back = assert(load("return " .. tostring(comp), "@back"))()
	for _,k in ipairs({"language", "typesystem", "cmdline"}) do
		if not (back[k] == nil or back[k] == def[k] or def[k]:find("\\", 1, true)) then error("LOST:" .. k) end
		back[k] = def[k]
	end
	local same, where = deq(def, back, 0)
	if not same then error("ROUNDTRIP:" .. tostring(where)) end
	local lang = {}
	for _,k in ipairs({"language", "typesystem", "cmdline"}) do if def[k] ~= meta[k] then error("META:" .. k .. " " .. tostring(def[k])) end end
	local calls = {}
	for i,c in ipairs(def.call) do
		local name = c.name:match("^%S+")
		calls[i] = {name = c.name, proc = rawequal(c.proc, get(typesystem, name)), extra = 0}
		for k in pairs(c) do if k ~= "name" and k ~= "proc" and k ~= "obj" then calls[i].extra = k end end
	end
	DEF = def
	return {lexer = def.lexer, nonterminal = def.nonterminal, call = calls, other = #def.action}
end
function obj(i, v) local o = DEF.call[i].obj; return o == v or deq(o, v, 0) end
'''


def tobyte(v):
    if isinstance(v, str):
        return v.encode("utf-8", "surrogateescape").decode("latin-1")
    if isinstance(v, (list, tuple)):
        return [tobyte(e) for e in v]
    return v


def expected_calls(g):
    out = []
    for p in g.prods:
        if p.call:
            c = (p.call[0], None if p.call[1] is None else calltoks(p.call[1]))
            if c not in out:
                out.append(c)
    return out


def argkey(t):
    """tokens of an argument, strings with both kinds of quotes are the same"""
    return None if t is None else [("s", x[1:-1]) if x[0] in "\"'" else x for x in t]


def tables(ck, i, todo):
    bodies = []
    for k, (g, rec, rp, fn, mode) in enumerate(todo):
        fns = sorted({p.call[0] for p in g.prods if p.call})
        q = lambda s: luastr(s.encode("utf-8"))
        lit = lambda s: '"%s"' % s if '"' not in s else "'%s'" % s
        meta = ", ".join("%s = %s" % (a.lower(), lit(b)) for a, b in g.meta.items() if b)
        b = "op(%d, 1, function() return check( %s, {%s}, {%s}) end)\n" % (k, q(fn), ",".join(q(f) for f in fns), meta)
        calls, n = [], []
        for c in expected_calls(g):
            key = (c[0], argkey(c[1]))
            if key not in n:
                n.append(key)
                calls.append(c)
        for j, (f, a) in enumerate(calls):
            t = "nil" if a is None else "".join(a)
            if t in REFS:
                t = "typesystem." + t
            b += "op(%d, %d, function() return obj( %d, %s) end)\n" % (k, j + 2, j + 1, t)
        bodies.append(b)
    p, res, done = run_batch(ck, "t%d" % i, bodies, extra_prelude=PRE)
    ck.proc_ok(p, "loading of tables", None)
    for k, (g, rec, rp, fn, mode) in enumerate(todo):
        x = res.get(k, {}).get(1)
        if x is None or "e" in x:
            m = re.search(r"(LOST|ROUNDTRIP|META):[^\"]*", x["e"]) if x else None
            ck.violation(m.group(1).lower() if m else "tables-broken", "the tables do not load: %r" % (x,), rp)
            continue
        r = x["r"][0]
        ck.count("tables")

        def cmp(what, got, exp):
            exp = tobyte(exp)
            if (got or []) != exp:
                ck.violation("table:" + what, "%s is %r, expected %r" % (what, got, exp), rp)
        lx = r.get("lexer") or {}
        if isinstance(lx, list):
            lx = {}
        ind = [[n, ""] for n in g.indentl[:3]] if g.indentl else []
        cmp("token", lx.get("token"), ind + [[t["name"], t["pattern"]] + ([t["select"]] if t["select"] else []) for t in rec["toks"]])
        cmp("ignore", lx.get("ignore"), [t["pattern"] for t in rec["ignores"]])
        cmp("bad", lx.get("bad"), [g.bad] if g.bad is not None else [])
        com = sorted(([c] if isinstance(c, str) else c for c in lx.get("comment") or []), key=str)
        cmp("comment", com, [[y.encode("latin-1").decode("utf-8") for y in x] for x in sorted((tobyte([t["open"]] + ([] if t["close"] is None else [t["close"]])) for t in rec["comments"]), key=str)])
        cmp("keyword", sorted((lx.get("keyword") or []), key=lambda x: x.encode("latin-1")), sorted(g.keywords(), key=lambda x: x.encode("utf-8")))
        cmp("nonterminal", sorted(r.get("nonterminal") or []), sorted({p.lhs for p in g.prods}))
        if bool(g.indentl) != bool(lx.get("indentl")) or g.indentl and lx["indentl"][1] != g.indentl[3]:
            ck.violation("table:indentl", "indentl is %r, expected %r" % (lx.get("indentl"), g.indentl), rp)
        got = []
        for c in r.get("call") or []:
            n, _, a = c["name"].encode("latin-1").decode("utf-8").partition(" ")
            got.append((n, a))
            if not c["proc"] or c["extra"]:
                ck.violation("table:call", "call %s has the wrong function" % c["name"], rp)
        exp, keys = [], []
        for c in expected_calls(g):
            key = (c[0], argkey(c[1]))
            if key not in keys:
                keys.append(key)
                exp.append(c[0])
        if [n for n, a in got] != exp:
            ck.violation("table:calls", "calls are %r, expected %r" % (got, keys), rp)
            continue
        for j, key in enumerate(keys):
            y = res[k].get(j + 2)
            ck.count("calls")
            if y is None or y.get("r") != [True]:
                ck.violation("table:obj", "argument of call %r is wrong: %r" % (key, y), rp)


def job(ck, i):
    r = ck.rng("c15", i)
    d = ck.scratch.sub("j%d" % i)
    with open(os.path.join(d, "a.tpl"), "w") as f:
        f.write("%automaton%")
    todo = []
    for j in range(6):
        g = make(r)
        ref = None
        for k, mode in enumerate(["plain", "plain", "wide", "wide", "dense", "deco"]):
            if k != 1:         # otherwise the same text again
                text, rec = emit(g, r, mode)
            gf, of = os.path.join(d, "g%d_%d.g" % (j, k)), os.path.join(d, "g%d_%d.lua" % (j, k))
            with open(gf, "w", encoding="utf-8", newline="") as f:
                f.write(text)
            env = {"MALLOC_PERTURB_": str(k * 37), "LC_ALL": r.choice(["C", "C.UTF-8"]), "PADDING": "x" * r.randint(0, 3000)}
            args = ["-t", os.path.join(d, "a.tpl")]
            if r.random() < 0.2:
                args += ["-d", os.path.join(d, "dbg")]
            p = vlib.run([ck.mewa, "-g"] + args + ["-o", of, gf], cwd=d, env=env)
            rp = {"grammar": text, "mode": mode}
            if not ck.proc_ok(p, "mewa -g", rp):
                break
            if p.rc:
                ck.violation("refused", "grammar without conflicts (%s) refused: %s" % (mode, p.err[:300]), rp)
                break
            with open(of, "rb") as f:
                out = f.read()
            ck.case(text, True, text[:300])
            ck.count("generated_" + mode)
            if ref is None:
                ref, reftext = out, text
            elif out != ref:
                n = next((x for x, (a, b) in enumerate(zip(out, ref)) if a != b), min(len(out), len(ref)))
                # a string argument is printed with other quotes if it was written with others
                ck.violation("layout" if k != 1 else "not-deterministic", "tables differ at %d: %r instead of %r" % (n, out[max(0, n - 40):n + 60], ref[max(0, n - 40):n + 60]), dict(rp, other=reftext))
                break
        else:
            todo.append((g, rec, rp, of, mode))
    tables(ck, i, todo)
    shutil.rmtree(d, ignore_errors=True)


def large(ck, i):
    """grammars near the limits: what is packed into the tables has to come back when a source is compiled"""
    r = ck.rng("c15large", i)
    d = ck.scratch.sub("big%d" % i)
    g = Gram()
    g.toks.append(("ID", "[a-z]+", 0))
    g.toks.append(("N", "[0-9]+", 0))
    nn = r.choice([3, 100, 200, 250])
    prods, kws = [], []
    maxt, maxp, maxs = r.choice([60, 400, 900, 1015]), r.choice([50, 300, 490]), 3900
    states = 10
    g.prods = [Prod("S", [("n", "L")]), Prod("L", [("n", "L"), ("n", "C")]), Prod("L", [])]
    for k in range(nn):
        g.prods.append(Prod("C", [("n", "C%d" % k)]))
    ncall = 0
    longp = r.random() < 0.5
    same = ("f0", "{a=1}", {"a": 1})
    for k in range(min(maxp - 3 - nn, 5000)):
        lhs = "C%d" % (k % nn)
        if len(kws) >= maxt - 5 or states > maxs:
            break
        kw = "k%d" % k
        kws.append(kw)
        n = r.choice([0, 1, 2, 3, 13, 14]) if longp else r.choice([0, 1, 2])
        rest = []
        for _ in range(n):
            if r.random() < 0.3 and len(kws) < maxt - 5:
                kws.append("q%d" % len(kws))
                rest.append(("k", kws[-1]))
            else:
                rest.append(("t", r.choice(["ID", "N"])))
        p = Prod(lhs, [("k", kw)] + rest)
        states += len(p.rhs) + 1
        if r.random() < 0.95:
            # numbers are part of function names too
            p.call = r.choice([("f%d" % k, None, None), ("f%d" % (k % 7), '"arg%d"' % k, "arg%d" % k), ("g%d" % k, "%d" % k, k), ("f", "{x=%d}" % k, {"x": k})])
            p.scope = r.choice([None, None, ">>", "{}"])
        g.prods.append(p)
        prods.append(p)
    for k in range(nn):
        if k >= len(prods):
            g.prods.append(Prod("C%d" % k, [("k", "z%d" % k)]))
    # productions of the same nonterminal stand together
    order = {}
    for p in g.prods:
        order.setdefault(p.lhs, []).append(p)
    g.prods = [p for l in order.values() for p in l]
    g.meta = {"LANGUAGE": "x", "TYPESYSTEM": "x"}
    text = g.text(r)
    rp = {"grammar": text[:20000]}
    gen = generate(ck, d, text, timeout=240)
    what = "%d productions, %d nonterminals, %d keywords, about %d states" % (len(g.prods), len(order), len(kws), states)
    if not ck.proc_ok(gen.p, "mewa -g of " + what, rp):
        return
    if gen.p.rc:
        ck.violation("large-refused", "%s: %s" % (what, gen.p.err[:300]), rp)
        return
    ck.count("large_productions", len(g.prods))
    ck.case(("large", text), True, what)
    srcs, exps = [], []
    q = prods[:]
    r.shuffle(q)
    called = [p for p in q if p.call]
    for k in range(0, len(called), 40):
        part = called[k:k + 40]
        src, exp = [], []
        for p in part:
            vals = []
            for kind, n in p.rhs:
                v = n if kind == "k" else "".join(r.choice("abc") for _ in range(3)) if n == "ID" else str(r.randint(0, 999))
                src.append(v)
                if kind == "t":
                    vals.append((n, v))
            exp.append((p.call[0], p.call[2], vals, p.scope))
        srcs.append(" ".join(src).encode())
        exps.append(exp)
    p, res = run_sources(ck, d, gen.out, srcs, timeout=120)
    if not ck.proc_ok(p, "compilation with " + what, rp):
        return
    for x, exp, s in zip(res, exps, srcs):
        if x.ok is not True:
            ck.violation("large-source", "%s: valid source refused: %s" % (what, x.msg[:300]), dict(rp, source=s.decode()))
            return
        if len(x.tops) != len(exp):
            ck.violation("large-calls", "%s: %d calls instead of %d" % (what, len(x.tops), len(exp)), dict(rp, source=s.decode()))
            return
        for t, e in zip(x.tops, exp):
            rows = t[4]
            c = rows[0]
            lv = [(row[2], row[3].decode()) for row in rows[1:] if row[0] == "L"]
            obj = c[3]
            if c[2] != e[0] or (obj or None) != (e[1] or None) and obj != e[1] or lv != e[2] or (e[3] == "{}") != (c[6] is not None):
                ck.violation("large-node", "%s: node is %r %r with %r, expected %r" % (what, c[2], obj, lv, e), dict(rp, source=s.decode()))
                return
            ck.count("large_nodes")
    shutil.rmtree(d, ignore_errors=True)


def run(ck):
    nl = ck.n(6, 60)
    ck.fork_map(lambda i: large(ck, i) if i < nl else job(ck, i), ck.n(140, 1500) + nl)
    ck.rule = "grammars distinct by their text, every one is generated in six layouts"
    ck.assumptions = ["string arguments of calls are valid Lua string literals", "names of functions are not reserved words of Lua"]
