"""Reference model of the type database and a builder of checked call sequences for it.

The model is written from the documented semantics: definitions live in a scope [start,end); a query at a step sees, for
every key, the innermost scope that covers the step. It knows nothing of how the implementation stores them.
"""
import zlib
import itertools
from luabatch import lit, Raw, errcode

INF = 2147483647
EPS = 1.2e-7


class T:
    """symbolic type handle"""
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return "T%d" % self.i

    def __eq__(self, o):
        return isinstance(o, T) and o.i == self.i

    def __hash__(self):
        return hash(("T", self.i))


def covers(sc, step):
    return sc[0] <= step < sc[1]


def normscope(sc):
    s, e = sc
    if e < 0:
        e = INF + e + 1
    if s < 0:
        s = INF + s + 1
    return (s, e)


class Model:
    def __init__(self):
        self.scope, self.step = (0, INF), 0
        self.types = {}          # T -> dict(ctx,name,ctor,params,scope)
        self.chain = {}          # (ctx,name) -> {scope: [T...]}
        self.alias = set()       # ((ctx,name),scope) defined with def_type_as
        self.inst = {}           # name -> {scope: value}
        self.redu = {}           # src T -> {scope: [(dest,ctor,tag,weight)]}

    # -- visibility ------------------------------------------------------------------------------------------
    @staticmethod
    def inner(scopes, step):
        """scopes covering the step, innermost first"""
        c = [s for s in scopes if covers(s, step)]
        return sorted(c, key=lambda s: (s[1] - s[0]))

    def get_instance(self, name, step):
        d = self.inst.get(name, {})
        l = self.inner(d, step)
        return d[l[0]] if l else None

    def visible_types(self, ctx, name, step):
        d = self.chain.get((ctx, name), {})
        l = self.inner(d, step)
        return d[l[0]] if l else []

    def edges(self, src, step, mask=None):
        """{dest: (weight, [(ctor,tag)...])} of the reductions selected from src, visible at step"""
        res = {}
        d = self.redu.get(src, {})
        for sc in self.inner(d, step):
            loc = {}
            for dest, ctor, tag, w in d[sc]:
                if mask is None or (mask >> (tag - 1)) & 1:
                    cur = loc.get(dest)
                    if cur is None or w < cur[0]:
                        loc[dest] = (w, [(ctor, tag)])
                    elif w == cur[0]:
                        cur[1].append((ctor, tag))
            for dest, v in loc.items():
                res.setdefault(dest, v)
        return res

    def paths(self, src, step, mask, maskcnt, maxlen, limit=4000):
        """all derivations without repeated type from src: list of (weight, [(type,ctor)...], counted); None if too many"""
        out = []
        todo = [(0.0, (), (src,), 0)]
        while todo:
            w, path, seen, cnt = todo.pop()
            out.append((w, path, cnt))
            if len(out) > limit:
                return None
            for dest, (ew, ct) in self.edges(seen[-1], step, mask).items():
                if dest in seen:
                    continue
                ctor, tag = ct[0]
                c = cnt + (1 if (maskcnt >> (tag - 1)) & 1 else 0)
                if c > maxlen:
                    continue
                todo.append((w + ew, path + ((dest, tuple(x[0] for x in ct)),), seen + (dest,), c))
        return out


class Mismatch(Exception):
    pass


def ctorlit(c):
    if isinstance(c, str) and c[:2] == "$o":
        return Raw("obj(%s)" % lit(c[1:]))
    if isinstance(c, str) and c[:2] == "$f":
        return Raw("obj(%s)" % lit(c[1:]))
    return c


def ctorval(c):
    """how a constructor comes back in the output"""
    if isinstance(c, str) and c[:2] in ("$o", "$f"):
        return {"$": c[1:]}
    return c


class Case:
    """Lua text and expectations of one call sequence on a fresh type database"""

    def __init__(self, ci):
        self.ci, self.m = ci, Model()
        self.lines = ["local db = mewa.typedb()", "local T = {}"]
        self.checks = []          # oi -> (description, fn(result, env))
        self.ntypes = 0
        self.desc = []

    def text(self):
        return "\n".join(self.lines)

    @staticmethod
    def arg(v):
        if isinstance(v, T):
            return Raw("T[%d]" % v.i)
        if isinstance(v, (list, tuple)):
            items = [lit(Case.arg(e)) for e in v]
            k = zlib.crc32(repr(items).encode()) % 4
            if k == 0:
                # in the hash part of the table, from the last to the first
                return Raw("{" + ",".join("[%d]=%s" % (n, items[n - 1]) for n in range(len(items), 0, -1)) + "}")
            if k == 1 and len(items) > 1:
                return Raw("{" + items[0] + "," + ",".join("[%d]=%s" % (n, items[n - 1]) for n in range(len(items), 1, -1)) + "}")
            return Raw("{" + ",".join(items) + "}")
        if isinstance(v, dict):
            return Raw("{" + ",".join("%s=%s" % (k, lit(Case.arg(e))) for k, e in v.items() if e is not None) + "}")
        return ctorlit(v)

    def call(self, meth, args, check, assign=None):
        oi = len(self.checks)
        a = ",".join(lit(self.arg(x)) for x in args)
        d = "%s(%s)" % (meth, ", ".join(repr(x) for x in args))
        self.lines.append("%sop(%d,%d,db.%s,db%s)" % (assign + " = " if assign else "", self.ci, oi, meth, "," + a if a else ""))
        self.checks.append((d, check))
        self.desc.append(d)
        return oi

    # -- verification ----------------------------------------------------------------------------------------
    def verify(self, results):
        """None or a message for the first wrong result"""
        env = {0: 0}
        for oi, (d, check) in enumerate(self.checks):
            r = results.get(oi)
            if r is None:
                return oi, "no result for call %d: %s" % (oi, d)
            try:
                check(r, env)
            except Mismatch as e:
                return oi, "call %d: %s\n  expected %s\n  got %s\ncalls:\n  %s" % (
                    oi, d, e, r, "\n  ".join(self.desc[:oi + 1]))
        return None


def h2t(env, h):
    """actual handle to symbolic"""
    if h == 0 and not isinstance(h, bool):
        return 0
    inv = env.get("inv", {})
    try:
        return inv.get(h, ("unknown handle", h))
    except TypeError:
        return ("unknown handle", h)


def want_err(code=None):
    def f(r, env):
        if "e" not in r:
            raise Mismatch("an error%s" % (" %d" % code if code else ""))
        if code and errcode(r) != code:
            raise Mismatch("error %d" % code)
    return f


def want_vals(*vals):
    def f(r, env):
        if r.get("r") != list(vals):
            raise Mismatch("values %r" % (list(vals),))
    return f


def want_opt(v):
    """v, or nothing / nil if v is None"""
    def f(r, env):
        if "r" not in r or (r["r"] not in ([], [None]) if v is None else r["r"] != [v]):
            raise Mismatch("value %r" % (v,))
    return f


class TdbCase(Case):
    """the calls of the type database with their expectations"""

    def set_scope(self, sc, step=None):
        old = [list(self.m.scope), self.m.step]
        self.m.scope = normscope(sc)
        self.m.step = self.m.scope[1] - 1 if step is None else step
        self.call("scope", [list(sc)] + ([step] if step is not None else []), want_vals(*old))

    def set_step(self, step):
        old = self.m.step
        self.m.step = step
        self.call("step", [step], want_vals(old))

    def get_scope(self):
        self.call("scope", [], want_vals(list(self.m.scope), self.m.step))

    def set_instance(self, name, val):
        self.m.inst.setdefault(name, {})[self.m.scope] = val
        self.call("set_instance", [name, val], want_vals())

    def get_instance(self, name):
        self.call("get_instance", [name], want_opt(ctorval(self.m.get_instance(name, self.m.step))))

    def this_instance(self, name):
        self.call("this_instance", [name], want_opt(ctorval(self.m.inst.get(name, {}).get(self.m.scope))))

    # types
    def would_duplicate(self, ctx, name, params):
        l = self.m.chain.get((ctx, name), {}).get(self.m.scope, [])
        return any([p[0] for p in self.m.types[t]["params"]] == [p[0] for p in params] for t in l)

    def def_type(self, ctx, name, ctor=None, params=(), pstyle=0):
        """params: list of (type, ctor); returns the symbolic handle or None if it is a duplicate"""
        m = self.m
        params = list(params)
        pa = [p[0] if (p[1] is None and (pstyle + k) % 2 == 0) else {"type": p[0], "constructor": p[1]} for k, p in enumerate(params)]
        args = [ctx, name]
        if params or pstyle == 1:
            args += [ctor, pa]
        elif ctor is not None or pstyle == 2:
            args += [ctor]
        if self.would_duplicate(ctx, name, params):
            self.call("def_type", args, want_vals(-1))
            return None
        self.ntypes += 1
        t = T(self.ntypes)
        m.types[t] = {"ctx": ctx, "name": name, "ctor": ctor, "params": params, "scope": m.scope}
        m.chain.setdefault((ctx, name), {}).setdefault(m.scope, []).append(t)

        def check(r, env):
            v = r.get("r")
            if not (isinstance(v, list) and len(v) == 1 and isinstance(v[0], int) and v[0] > 0):
                raise Mismatch("a new type handle > 0")
            if v[0] in env.setdefault("inv", {}):
                raise Mismatch("a handle that differs from all others (%s has it)" % env["inv"][v[0]])
            env["inv"][v[0]] = t
            env[t] = v[0]
        self.call("def_type", args, check, assign="T[%d]" % t.i)
        return t

    def def_type_as(self, ctx, name, t):
        m = self.m
        if m.chain.get((ctx, name), {}).get(m.scope):
            self.call("def_type_as", [ctx, name, t], want_vals(-1))
            return False
        m.chain.setdefault((ctx, name), {})[m.scope] = [t]
        m.alias.add(((ctx, name), m.scope))

        def check(r, env):
            if r.get("r") != [env[t]]:
                raise Mismatch("the handle %r of %s" % (env[t], t))
        self.call("def_type_as", [ctx, name, t], check)
        return True

    def this_type(self, ctx, name, params=None, deprecated=False):
        l = self.m.chain.get((ctx, name), {}).get(self.m.scope, [])
        w = None
        for t in l:
            if [p[0] for p in self.m.types[t]["params"]] == list(params or []):
                w = t

        def check(r, env):
            if w is None:
                if r.get("r") not in ([], [None]):
                    raise Mismatch("nothing")
            elif r.get("r") != [env[w]]:
                raise Mismatch("%s = %d" % (w, env[w]))
        self.call("get_type" if deprecated else "this_type", [ctx, name] + ([list(params)] if params is not None else []), check)

    def this_types(self, ctx, name, deprecated=False):
        l = list(self.m.chain.get((ctx, name), {}).get(self.m.scope, []))

        def check(r, env):
            if r.get("r") != [[env[t] for t in l]]:
                raise Mismatch("the list %s" % [env[t] for t in l])
        self.call("get_types" if deprecated else "this_types", [ctx, name], check)

    def tstring(self, t, sep=" "):
        if t == 0:
            return ""
        r = self.m.types[t]
        s = (self.tstring(r["ctx"], sep) + sep if r["ctx"] != 0 else "") + r["name"]
        if r["params"]:
            s += "(" + ",".join(self.tstring(p[0], sep) for p in r["params"]) + ")"
        return s

    def attributes(self, t, sep=None):
        """all attributes of a type"""
        r = self.m.types[t]
        self.call("type_name", [t], want_vals(lat(r["name"])))
        self.call("type_string", [t] + ([sep] if sep is not None else []), want_vals(lat(self.tstring(t, " " if sep is None else sep))))

        def ckctx(x, env):
            if x.get("r") != [0 if r["ctx"] == 0 else env[r["ctx"]]]:
                raise Mismatch("context %s" % (r["ctx"],))
        self.call("type_context", [t], ckctx)
        self.call("type_nof_parameters", [t], want_vals(len(r["params"])))
        ps = list(r["params"])

        def ckpar(x, env):
            w = [dict([("type", env[p[0]])] + ([("constructor", ctorval(p[1]))] if p[1] is not None else [])) for p in ps]
            if x.get("r") != [w]:
                raise Mismatch("parameters %s" % w)
        self.call("type_parameters", [t], ckpar)
        self.call("type_constructor", [t], want_opt(ctorval(r["ctor"])))
        self.call("type_scope", [t], want_vals(list(r["scope"])))

    # reductions
    def redu_tag_used(self, dest, src, tag):
        return [x for x in self.m.redu.get(src, {}).get(self.m.scope, []) if x[0] == dest and x[2] == tag]

    def def_reduction(self, dest, src, ctor, tag, weight=None):
        w = 0.0 if weight is None else weight
        args = [dest, src, ctor, tag] + ([weight] if weight is not None else [])
        if (dest == src) + (not 1 <= tag <= 32) + (w < 0) > 1:
            return self.call("def_reduction", args, want_err())
        if not 1 <= tag <= 32:
            return self.call("def_reduction", args, want_err(454 if tag > 0 else None))
        if dest == src:
            return self.call("def_reduction", args, want_err(464))
        if w < 0:
            return self.call("def_reduction", args, want_err(453))
        ex = self.redu_tag_used(dest, src, tag)
        if ex:
            if ctor is None and ex[0][1] is None and ex[0][3] == w:
                self.call("def_reduction", args, want_vals())       # the same definition again
            else:
                self.call("def_reduction", args, want_err(452))
            return
        self.m.redu.setdefault(src, {}).setdefault(self.m.scope, []).append((dest, ctor, tag, w))
        self.call("def_reduction", args, want_vals())

    def get_reduction(self, dest, src, mask=None):
        e = self.m.edges(src, self.m.step, mask).get(dest)

        def check(r, env):
            v = r.get("r")
            if e is None:
                if v not in ([], [None]):
                    raise Mismatch("nothing")
                return
            w, cands = e
            if v is None or len(v) not in (1, 2) or v[0] != w or (v[1] if len(v) == 2 else None) not in [ctorval(c[0]) for c in cands]:
                raise Mismatch("weight %g and a constructor of %s" % (w, [ctorval(c[0]) for c in cands]))
        self.call("get_reduction", [dest, src] + ([mask] if mask is not None else []), check)

    def get_reductions(self, src, mask=None, cntmask=None):
        e = self.m.edges(src, self.m.step, mask)

        def check(r, env):
            v = r.get("r")
            bad = "one of each: %s" % {k: (x[0], [ctorval(c[0]) for c in x[1]]) for k, x in e.items()}
            if not (isinstance(v, list) and len(v) == 1 and isinstance(v[0], list)) or len(v[0]) != len(e):
                raise Mismatch(bad)
            seen = set()
            for x in v[0]:
                t = h2t(env, x.get("type"))
                if t not in e or t in seen or set(x) - {"type", "constructor", "weight", "count"}:
                    raise Mismatch(bad)
                seen.add(t)
                w, cands = e[t]
                ok = [c for c in cands if ctorval(c[0]) == x.get("constructor")]
                if x.get("weight") != w or not ok:
                    raise Mismatch(bad)
                cnts = {cntmask is not None and bool((cntmask >> (c[1] - 1)) & 1) for c in ok}
                if bool(x.get("count")) not in cnts:
                    raise Mismatch("count flag %s of %s" % (sorted(cnts), t))
        a = [src] + ([mask] if mask is not None or cntmask is not None else []) + ([cntmask] if cntmask is not None else [])
        self.call("get_reductions", a, check)

    def derive_type(self, dest, src, mask=None, cntmask=None, maxlen=None, stats=None):
        ps = self.m.paths(src, self.m.step, mask, cntmask or 0, 1 if maxlen is None else (10 ** 9 if maxlen == -1 else maxlen))
        if ps is None:
            return False
        ps = [p for p in ps if (p[1][-1][0] if p[1] else src) == dest]
        args = [dest, src]
        tail = [mask, cntmask, maxlen]
        while tail and tail[-1] is None:
            tail.pop()
        best = min((p[0] for p in ps), default=None)
        mins = [p for p in ps if p[0] == best] if ps else []
        types = {tuple(x[0] for x in p[1]): p for p in mins}
        if stats is not None:
            stats("derive:none" if not ps else "derive:unique" if len(mins) == 1 else "derive:ambiguous")
            if mins:
                stats("derive:pathlen%d" % min(4, len(mins[0][1])))

        def check(r, env):
            v = r.get("r")
            if not ps:
                if v not in ([], [None]):
                    raise Mismatch("nothing: there is no derivation")
                return
            if v is None or len(v) != (2 if len(mins) == 1 else 3):
                raise Mismatch("%d solutions of weight %g: %s" % (len(mins), best, list(types)))
            tp = tuple(h2t(env, x["type"]) for x in v[0])
            if tp not in types:
                raise Mismatch("one of the derivations %s of weight %g" % (list(types), best))
            for x, (t, ctors) in zip(v[0], types[tp][1]):
                if x.get("constructor") not in [ctorval(c) for c in ctors]:
                    raise Mismatch("constructor of %s one of %s" % (t, ctors))
            if v[1] != best:
                raise Mismatch("weight %g" % best)
            if len(v) == 3:
                alt = tuple(h2t(env, x) for x in v[2])
                if alt not in types or alt == tp:
                    raise Mismatch("another derivation of %s of weight %g as alternative" % (list(types), best))
        self.call("derive_type", args + tail, check)
        return True

    def resolve_type(self, ctx, name, mask=None, rootctor=None, stats=None):
        """ctx: a type (or 0) or a list of (type, ctor) with ctor None for a plain handle"""
        roots, arg = [], []
        if isinstance(ctx, list):
            for t, c in ctx:
                if t not in [r[0] for r in roots]:
                    roots.append((t, c))
                arg.append(t if c is None else {"type": t, "constructor": c})
        else:
            roots, arg = [(ctx, None)], ctx
        sols = []
        for root, rc in roots:
            ps = self.m.paths(root, self.m.step, mask, 0, 10 ** 9)
            if ps is None:
                return False
            for w, path, _ in ps:
                end = path[-1][0] if path else root
                items = self.m.visible_types(end, name, self.m.step)
                if items:
                    sols.append((w, root, rc, path, end, list(items)))
        best = min((s[0] for s in sols), default=None)
        mins = [s for s in sols if s[0] == best]
        if stats is not None:
            stats("resolve:none" if not sols else "resolve:unique" if len(mins) == 1 else "resolve:ambiguous")
            if mins:
                stats("resolve:pathlen%d" % min(4, len(mins[0][3])))

        def check(r, env):
            v = r.get("r")
            if not sols:
                if v not in ([], [None]):
                    raise Mismatch("nothing: the name cannot be resolved")
                return
            descr = "%s of weight %g" % ([(s[1], [x[0] for x in s[3]], s[5]) for s in mins], best)
            if v is None or len(v) < 1:
                raise Mismatch(descr)
            if len(mins) > 1:
                if not (isinstance(v[0], list) and len(v[0]) == 2):
                    raise Mismatch("two context types as the result is ambiguous: " + descr)
                c1, c2 = (h2t(env, x) for x in v[0])
                ends = [s[4] for s in mins]
                if c1 not in ends or c2 not in ends or (c1 == c2 and ends.count(c1) < 2):
                    raise Mismatch("two of " + descr)
                return
            else:
                if isinstance(v[0], list):
                    raise Mismatch("no ambiguity: " + descr)
                c1 = h2t(env, v[0])
            if len(v) != 3:
                raise Mismatch("three values: " + descr)
            tp = [(h2t(env, x.get("type")), x.get("constructor")) for x in v[1]]
            for w, root, rc, path, end, items in mins:
                exp = list(path)
                if end != c1 or [env[t] for t in items] != v[2]:
                    continue
                if rc is not None:
                    exp = [(root, (rc,))] + exp
                if len(exp) == len(tp) and all(a[0] == b[0] and b[1] in [ctorval(c) for c in a[1]] for a, b in zip(exp, tp)):
                    return
            raise Mismatch(descr)
        self.call("resolve_type", [arg, name] + ([mask] if mask is not None else []), check)
        return True


def lat(s):
    """bytes of a name as they come back in the output (one character per byte)"""
    return s.encode("utf-8", "surrogateescape").decode("latin-1")


def scope_tree(rng, lo, hi, depth, fan=4):
    """random properly nested scopes inside [lo,hi): list of (start,end), the children of a scope disjoint"""
    out = []
    if hi - lo < 1 or depth <= 0:
        return out
    n = rng.randint(0, fan)
    cuts = sorted(rng.sample(range(lo, hi + 1), min(2 * n, hi + 1 - lo)))
    if rng.random() < 0.3:      # adjacent siblings and shared boundaries
        cuts = sorted(cuts + cuts[1:-1])
    for a, b in zip(cuts[0::2], cuts[1::2]):
        if a < b:
            out.append((a, b))
            out += scope_tree(rng, a, b, depth - 1, fan)
    return out


def run_cases(ck, label, mk, total, per=60, keyfn=None, ident=None, timeout=120):
    """mk(rng, case) fills a TdbCase; runs them in batches in parallel and reports the first mismatch of each case"""
    import vlib
    from luabatch import run_batch
    batches = [list(range(b, min(total, b + per))) for b in range(0, total, per)]

    def one(b):
        cases, stats = [], []
        for ci in b:
            c = TdbCase(ci)
            st = {}
            mk(ck.rng(label, ci), c, lambda n, st=st: st.__setitem__(n, st.get(n, 0) + 1))
            cases.append(c)
            stats.append(st)
        p, res, done = run_batch(ck, "%s%d" % (label, b[0]), [c.text() for c in cases], timeout=timeout)
        return cases, stats, p, res, done
    for cases, stats, p, res, done in vlib.pmap(one, batches):
        if not ck.proc_ok(p, "%s cases %d.." % (label, cases[0].ci), {"calls": [c.desc for c in cases if c.ci not in res or len(res[c.ci]) < len(c.checks)][:1]}):
            pass
        elif not done:
            ck.violation("%s:aborted" % label, "script did not end: rc=%s %s" % (p.rc, p.err[-1500:]), {"calls": cases[0].desc})
        for c, st in zip(cases, stats):
            if c.ci not in res and not done:
                continue
            bad = c.verify(res.get(c.ci, {})) if done else None
            ck.case((label, tuple(c.desc)), bool(st) or len(c.desc) > 5, c.desc[:25] if c.ci % 97 == 3 else None)
            ck.count("calls_checked", len(c.checks))
            for k, v in st.items():
                ck.count(k, v)
            if bad:
                oi, msg = bad
                meth = c.desc[oi].split("(")[0]
                ck.violation("%s:%s" % (label, meth), "case %d, %s" % (c.ci, msg), {"calls": c.desc[:oi + 1], "lua": c.lines[:oi + 3]})
