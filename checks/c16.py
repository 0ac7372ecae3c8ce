"""C16: the description of a language written with option -l is the grammar."""
import os, shutil
import vlib
from anygram import any_grammar
from gramtext import emit, calltoks
from luabatch import run_batch


def val(v):
    """as it is read from Lua, bytes as characters"""
    if isinstance(v, str):
        return v.encode("utf-8").decode("latin-1")
    if isinstance(v, list):
        return [val(e) for e in v]
    if isinstance(v, dict):
        return {k: val(e) for k, e in v.items()}
    return v


def deco(d):
    return {val(k): val(v) for k, v in d.items()}


def prio(p):
    p = str(p)
    return p + "0" if p in ("L", "R") else p


def calltext(c):
    return c[0] + ("" if c[1] is None else " " + "".join(calltoks(c[1])))


def expected(g, rec):
    out = {"TOKEN": [], "IGNORE": [], "COMMENT": [], "BAD": [], "INDENTL": [], "PROD": []}
    for t in rec["toks"]:
        e = {"op": "TOKEN", "name": t["name"], "pattern": t["pattern"], "line": t["line"]}
        if t["select"]:
            e["select"] = t["select"]
        out["TOKEN"].append((e, t["deco"]))
    for t in rec["ignores"]:
        out["IGNORE"].append(({"op": "IGNORE", "pattern": t["pattern"], "line": t["line"]}, t["deco"]))
    for t in rec["comments"]:
        e = {"op": "COMMENT", "open": t["open"], "line": t["line"]}
        if t["close"] is not None:
            e["close"] = t["close"]
        out["COMMENT"].append((e, t["deco"]))
    for t in rec["bad"]:
        out["BAD"].append(({"op": "BAD", "name": t["name"], "line": t["line"]}, t["deco"]))
    for t in rec["indentl"]:
        e = {k: t[k] for k in ("open", "close", "nl", "tabsize", "line")}
        e["op"] = "INDENTL"
        out["INDENTL"].append((e, t["deco"]))
    for t in rec["prods"]:
        p = t["prod"]
        e = {"op": "PROD", "left": p.lhs, "line": t["line"], "right": [{"type": "symbol" if k == "k" else "name", "value": n} for k, n in p.rhs]}
        if p.prio is not None:
            e["priority"] = prio(p.prio)
        if p.scope:
            e["scope"] = p.scope
        if p.call:
            e["call"] = calltext(p.call)
        out["PROD"].append((e, t["deco"]))
    return out


# the quotes of a string argument are chosen by the generator, the strings are compared without
def samecall(a, b):
    if a == b:
        return True
    i = a.find(" ")
    return i >= 0 and a[:i + 1] == b[:i + 1] and len(a) == len(b) and a[i + 1:i + 2] in "'\"" and b[i + 1:i + 2] in "'\"" and a[i + 2:-1] == b[i + 2:-1] and b[-1] == b[i + 1] and b[i + 1] not in b[i + 2:-1]


def compare(ck, g, rec, r, rp, what):
    if not isinstance(r, dict) or "RULES" not in r:
        ck.violation("description-broken", "%s: no table with RULES: %r" % (what, r), rp)
        return
    for k in ("LANGUAGE", "TYPESYSTEM", "CMDLINE"):
        if r.get(k, "") != val(g.meta.get(k, "")):
            ck.violation("meta:" + k, "%s: %s is %r, expected %r" % (what, k, r.get(k), g.meta.get(k)), rp)
    got = {}
    for e in r["RULES"]:
        got.setdefault(e.get("op"), []).append(e)
    exp = expected(g, rec)
    for op in set(got) | set(exp):
        a, b = got.get(op, []), exp.get(op, [])
        if op == "COMMENT":
            # the order between comments of both kinds has no meaning
            a = sorted(a, key=lambda e: ("close" in e, e.get("line")))
            b = sorted(b, key=lambda e: ("close" in e[0], e[0]["line"]))
        if op == "IGNORE" or op == "TOKEN" or op == "PROD" or op == "COMMENT":
            ck.count(op, len(b))
        if len(a) != len(b):
            ck.violation("number:%s" % op, "%s: %d declarations %s instead of %d" % (what, len(a), op, len(b)), rp)
            continue
        for i, (x, (y, d)) in enumerate(zip(a, b)):
            want = val(y)
            want.update(deco(d))
            ck.count("attributes", len(d))
            for f in sorted(set(x) | set(want)):
                u, v = x.get(f), want.get(f)
                if f == "call" and u is not None and v is not None and samecall(v, u):
                    continue
                if u != v:
                    kind = f if f in y else "attribute" if f in deco(d) else "extra"
                    ck.violation("%s:%s" % (op, kind), "%s: %s number %d: %s is %r, expected %r" % (what, op, i + 1, f, u, v), rp)
                    break


def run(ck):
    per = 12

    def job(i):
        r = ck.rng("c16", i)
        d = ck.scratch.sub("j%d" % i)
        todo = []
        for j in range(per):
            g = any_grammar(r)
            mode = r.choice(["plain", "wide", "wide", "dense", "deco", "deco"])
            text, rec = emit(g, r, mode, r.choice([None, "mixed"]))
            fn, on = os.path.join(d, "g%d.g" % j), os.path.join(d, "g%d.lua" % j)
            with open(fn, "w", encoding="utf-8", newline="") as f:
                f.write(text)
            how = r.choice(["file", "stdout"])
            p = vlib.run([ck.mewa, r.choice(["-l", "--generate-language"])] + (["-o", on] if how == "file" else []) + [fn], cwd=d)
            rp = {"grammar": text, "mode": mode}
            if not ck.proc_ok(p, "mewa -l", rp):
                continue
            if p.rc != 0:
                ck.violation("rejected", "description of a valid grammar (%s) refused: %s" % (mode, p.err[:400]), rp)
                continue
            if how == "stdout":
                with open(on, "w", encoding="utf-8", errors="surrogateescape", newline="") as f:
                    f.write(p.out)
            ck.count("layout_" + mode)
            ck.case(text, len(g.prods) > 3, text[:300])
            todo.append((g, rec, rp, on, mode))
        if not todo:
            return
        bodies = ["op(%d, 1, function() return assert( loadfile( %s))() end)" % (k, vlib.luastr(t[3])) for k, t in enumerate(todo)]
        p, res, done = run_batch(ck, "l%d" % i, bodies)
        ck.proc_ok(p, "loading of descriptions", None)
        for k, (g, rec, rp, on, mode) in enumerate(todo):
            x = res.get(k, {}).get(1)
            if x is None or "e" in x:
                ck.violation("not-valid-lua", "the description does not load: %r" % (x,), rp)
                continue
            compare(ck, g, rec, x["r"][0], rp, "layout " + mode)
        shutil.rmtree(d, ignore_errors=True)
    ck.fork_map(job, ck.n(280, 3000))
    ck.rule = "grammars are distinct by their text; non trivial with more than 3 productions"
    ck.assumptions = ["attributes are written in comments directly before a declaration that starts on its own line",
                      "the line of a production is the one of its '=' or '|', that of other declarations the one of the ';'"]
