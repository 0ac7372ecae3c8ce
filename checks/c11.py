"""C11: operators with priorities and associativity against a precedence parser; contradicting declarations are rejected."""
from parsecheck import *

OPS = ["+", "-", "*", "/", "%%", "^", "==", "<", "<=", "&&", "||", "!", "~", "++", "->", ".", "and", "or", "not", "in", "is", "new", "..", "=", ":=", "@", "&", "|", "**", "=>", "..."]
OPTOK = [("ADDOP", "[+][+-]*", 0, lambda r: "+" + r.choice(["", "-", "+-", "++"])), ("RELOP", "[<]=?", 0, lambda r: r.choice(["<", "<="])), ("WORDOP", "[%][a-z]+", 0, lambda r: r.choice(["%mod", "%x"])),
         ("QOP", "[?]([a-z]*)[?]", 1, lambda r: r.choice(["??", "?x?"]))]
BR = [("[", "]"), ("{", "}"), ("<<", ">>"), ("begin", "end")]


class Op:
    """kind: bin, pre, post, tern, index, call; sym: list of symbols; prod: Prod"""

    def __init__(self, kind, sym, level):
        self.kind, self.sym, self.level, self.prod = kind, sym, level, None

    def right(self):
        return self.kind in ("bin", "pre", "tern")

    def left(self):
        return self.kind != "pre"


def mk(rng, consistent=True):
    g = Gram()
    E = ("n", rng.choice(["E", "Expr", "expression", "X"]))
    e = E[1]
    g.toks = [("ID", "[a-z_]+[a-z_0-9]*", 0), ("NUM", "[0-9]+", 0)]
    g.valgen = {"ID": lambda r: r.choice(["a", "b", "xyz", "_i"]), "NUM": lambda r: str(r.randint(0, 999))}
    ops = [o for o in OPS]
    rng.shuffle(ops)
    many = rng.random() < 0.05
    nlev = rng.randint(8, 24) if many else rng.randint(1, 7)
    vals = rng.sample(range(0, 32), nlev)
    vals.sort()
    levels = [(v, rng.choice("LR")) for v in vals]
    opl = []
    infix, prefix = [], []      # symbols taken after and before an operand

    def newop(l, n):
        taken = infix if l else prefix
        for _ in range(30):
            if n and rng.random() < 0.15:
                # the same symbol in both positions
                o = rng.choice(n)
            elif rng.random() < 0.15:
                t = rng.choice(OPTOK)
                if t[0] not in [x[0] for x in g.toks]:
                    if any(s[0] == "k" and s[1][0] == t[3](rng)[0] for s in infix + prefix):
                        continue
                    g.toks.append(t[:3])
                    g.valgen[t[0]] = t[3]
                o = ("t", t[0])
            else:
                o = ("k", rng.choice(ops))
                if any(s[0] == "t" and g.valgen[s[1]](rng)[0] == o[1][0] for s in infix + prefix):
                    continue
            if o not in taken:
                taken.append(o)
                return o
        return None
    for k in range(rng.randint(10, 24) if many else rng.randint(1, 9)):
        lv = rng.choice(levels)
        kind = rng.choice(["bin", "bin", "bin", "bin", "pre", "pre", "post", "tern", "index"])
        if kind == "tern" and any(o.kind == "tern" for o in opl):
            kind = "bin"
        if kind == "index":
            used = [s[1] for o in opl for s in o.sym]
            br = [b for b in BR if b[0] not in used]
            if not br:
                continue
            b = rng.choice(br)
            opl.append(Op("index", [("k", b[0]), ("k", b[1])], lv))
            continue
        if kind == "tern":
            if ("k", "?") in infix or any(x[0] == "QOP" for x in g.toks):
                continue
            infix.append(("k", "?"))
            opl.append(Op("tern", [("k", "?"), ("k", ":")], lv))
            continue
        s = newop(kind != "pre", prefix if kind != "pre" else infix)
        if s:
            opl.append(Op(kind, [s], lv))
    if not any(o.kind == "bin" for o in opl):
        opl.append(Op("bin", [("k", "plus")], rng.choice(levels)))
    fn = 0
    prods = []
    for o in opl:
        s = o.sym
        rhs = {"bin": lambda: [E, s[0], E], "pre": lambda: [s[0], E], "post": lambda: [E, s[0]], "tern": lambda: [E, s[0], E, s[1], E], "index": lambda: [E, s[0], E, s[1]]}[o.kind]()
        fn += 1
        o.prod = Prod(e, rhs, "%s%d" % (o.level[1], o.level[0]), ("f%d" % rng.randint(0, fn), str(fn) if rng.random() < 0.7 else None, None))
        o.prod.call = o.prod.call[:2] + (fn if o.prod.call[1] else None,)
        if rng.random() < 0.15:
            o.prod.scope = rng.choice([">>", "{}"])
        prods.append(o.prod)
    g.paren = rng.random() < 0.8
    atoms = [Prod(e, [("t", "ID")], None, ("var", None, None) if rng.random() < 0.6 else None), Prod(e, [("t", "NUM")], None, None)]
    if g.paren:
        atoms.append(Prod(e, [("k", "("), E, ("k", ")")], None, ("par", None, None) if rng.random() < 0.3 else None))
    rng.shuffle(prods)
    if rng.random() < 0.5:
        prods.sort(key=lambda p: p.prio)
    prods = atoms + prods if rng.random() < 0.5 else prods + atoms
    g.atoms = atoms
    form = rng.choice(["one", "list", "stm"])
    g.form = form
    top = ("top", None, None)
    if form == "one":
        head = [Prod("S", [E], None, top)]
    elif form == "stm":
        head = [Prod("S", [("n", "LL")], None, top), Prod("LL", [("n", "LL"), ("n", "ST")]), Prod("LL", [("n", "ST")]), Prod("ST", [E, ("k", ";")], None, ("st", None, None))]
    else:
        head = [Prod("S", [("n", "LL")], None, top), Prod("LL", [("n", "LL"), ("k", ","), E]), Prod("LL", [E])]
    g.head = head
    g.prods = head + prods
    g.ops, g.E = opl, E
    g.meta = {"LANGUAGE": "x", "TYPESYSTEM": "x"}
    g.order = rng.choice([None, "mixed", "toks_last"])
    g.cls = "ops"
    # one associativity per level was drawn, so the declarations are consistent
    if not consistent:
        k = rng.choice(["assoc", "none", "none", "both"])
        for o in rng.sample(opl, rng.randint(1, min(2, len(opl)))):
            if k in ("assoc", "both"):
                o.level = (o.level[0], "L" if o.level[1] == "R" else "R")
                o.prod.prio = "%s%d" % (o.level[1], o.level[0])
            if k in ("none", "both") and rng.random() < 0.8:
                o.level = None
                o.prod.prio = None
    return g


def contradictions(g):
    """pairs of operators no priority decides about"""
    out = []
    for p in g.ops:
        for q in g.ops:
            if p.right() and q.left():
                if not p.level or not q.level or p.level[0] == q.level[0] and p.level[1] != q.level[1]:
                    out.append((p.prod, q.prod))
    return out


class Prec:
    """precedence parser: the tree of a sequence of symbols"""

    def __init__(self, g):
        self.g = g
        self.infix = {o.sym[0]: o for o in g.ops if o.left()}
        self.prefix = {o.sym[0]: o for o in g.ops if not o.left()}
        self.atom = {p.rhs[0]: p for p in g.atoms}

    def expr(self, s, i):
        """returns (tree, next position); stack of trees and pending operators"""
        out, pend = [], []     # pend: (op, children so far)

        def close(o):
            op, kids = pend.pop()
            out.append(["n", op.prod, kids + [out.pop()]])
        while True:
            # operand
            while s[i] in self.prefix:
                pend.append((self.prefix[s[i]], [["t", s[i]]]))
                i += 1
            p = self.atom[s[i]]
            if len(p.rhs) == 1:
                out.append(["n", p, [["t", s[i]]]])
                i += 1
            else:
                t, j = self.expr(s, i + 1)
                assert s[j] == p.rhs[2]
                out.append(["n", p, [["t", s[i]], t, ["t", s[j]]]])
                i = j + 1
            while True:
                q = self.infix.get(s[i]) if i < len(s) else None
                while pend:
                    o = pend[-1][0]
                    if q and not (o.level[0] > q.level[0] or o.level[0] == q.level[0] and q.level[1] == "L"):
                        break
                    close(o)
                if not q:
                    return out.pop(), i
                if q.kind == "post":
                    out.append(["n", q.prod, [out.pop(), ["t", s[i]]]])
                    i += 1
                    continue
                if q.kind in ("index", "tern"):
                    t, j = self.expr(s, i + 1)
                    assert s[j] == q.sym[1]
                    kids = [out.pop(), ["t", s[i]], t, ["t", s[j]]]
                    i = j + 1
                    if q.kind == "index":
                        out.append(["n", q.prod, kids])
                        continue
                    pend.append((q, kids))
                else:
                    pend.append((q, [out.pop(), ["t", s[i]]]))
                    i += 1
                break

    def tree(self, s):
        g = self.g
        if g.form == "one":
            t, i = self.expr(s, 0)
            r = ["n", g.head[0], [t]]
        else:
            i, l = 0, None
            while i < len(s) or l is None:
                if g.form == "stm":
                    t, i = self.expr(s, i)
                    t = ["n", g.head[3], [t, ["t", s[i]]]]
                    i += 1
                    l = ["n", g.head[2], [t]] if l is None else ["n", g.head[1], [l, t]]
                else:
                    if l is not None:
                        c = ["t", s[i]]
                        t, i = self.expr(s, i + 1)
                        l = ["n", g.head[1], [l, c, t]]
                    else:
                        t, i = self.expr(s, i)
                        l = ["n", g.head[2], [t]]
            r = ["n", g.head[0], [l]]
        assert i == len(s), (i, s)
        return r


def sentence(g, rng, n):
    pre = [o for o in g.ops if not o.left()]
    inf = [o for o in g.ops if o.left()]

    def expr(budget, depth):
        out = []
        while pre and rng.random() < 0.35:
            out.append(rng.choice(pre).sym[0])
        if g.paren and depth < 4 and rng.random() < 0.15:
            out += [("k", "(")] + expr(budget // 2, depth + 1) + [("k", ")")]
        else:
            out.append(rng.choice([("t", "ID"), ("t", "NUM")]))
        while True:
            if budget <= 0:
                return out
            o = rng.choice(inf)
            budget -= 1
            if o.kind == "post":
                out.append(o.sym[0])
            elif o.kind == "index":
                out += [o.sym[0]] + expr(min(budget // 2, 2), depth + 1) + [o.sym[1]]
            else:
                out.append(o.sym[0])
                if o.kind == "tern":
                    out += expr(min(budget // 2, 3), depth + 1) + [o.sym[1]]
                return out + expr(budget - rng.choice([0, 0, 1]), depth)
    if g.form == "one":
        return expr(n, 0)
    out = []
    for i in range(rng.randint(1, 3)):
        if g.form == "list" and i:
            out.append(("k", ","))
        out += expr(n, 0)
        if g.form == "stm":
            out.append(("k", ";"))
    return out


def srcs(g, rng):
    pr = Prec(g)
    out = []
    for i in range(14):
        s = sentence(g, rng, rng.choice([1, 2, 3, 5, 8, 14]))
        out.append((layout(g, rng, s, dense=False), pr.tree(s)))
    for i in range(3):
        out.append((layout(g, rng, mutate_syms(g, rng, sentence(g, rng, 4)), dense=False), None))
    return out


# conflicts outside of operator expressions
def dangling(rng):
    g = Gram()
    g.toks = [("ID", "[a-z]+", 0)]
    g.valgen = {"ID": lambda r: r.choice(["x", "y", "zz"])}
    k = lambda s: ("k", s)
    x = ("n", "St")
    a, b = rng.sample(range(0, 32), 2)
    inner = rng.random() < 0.6
    g.inner = inner
    lo, hi = min(a, b), max(a, b)
    pa, pb = (lo, hi) if inner else (hi, lo)       # priority of the one without and of the one with else
    if rng.random() < 0.4:
        pb = pa
        sa = sb = "R" if inner else "L"
    else:
        sa, sb = rng.choice("LR"), rng.choice("LR")
    # the shift of the condition has to have one priority in a state: the one with else is split
    g.prods = [Prod("S", [x], None, ("top", None, None)),
               Prod("St", [k("IF"), ("t", "ID"), ("n", "Tail")], None, ("cond", None, None)),
               Prod("Tail", [x], "%s%d" % (sa, pa), ("thn", None, None)),
               Prod("Tail", [x, k("ELSE"), x], "%s%d" % (sb, pb), ("thenelse", None, None)),
               Prod("St", [("t", "ID")], None, ("act", None, None))]
    g.meta = {"LANGUAGE": "x", "TYPESYSTEM": "x"}
    g.order = None
    g.cls = "ops"
    return g


def dsrcs(g, rng):
    P = g.prods

    def parse(s, i):
        if s[i] == ("k", "IF"):
            kids = [["t", s[i]], ["t", s[i + 1]]]
            t, j = parse(s, i + 2)
            if j < len(s):
                t2, e = parse(s, j + 1)
                return ["n", P[1], kids + [["n", P[3], [t, ["t", s[j]], t2]]]], e
            return ["n", P[1], kids + [["n", P[2], [t]]]], j
        return ["n", P[4], [["t", s[i]]]], i + 1
    out = []
    for _ in range(8):
        n = rng.randint(1, 5)
        s = []
        for _ in range(n):
            s += [("k", "IF"), ("t", "ID")]
        s.append(("t", "ID"))
        # every else that follows belongs to the innermost open one
        m = rng.randint(0, n) if g.inner else 0
        for _ in range(m):
            s.append(("k", "ELSE"))
            for _ in range(rng.choice([0, 0, 0])):
                s += [("k", "IF"), ("t", "ID")]
            s.append(("t", "ID"))
        if g.inner:
            # inner conditionals take the else: the first m from inside out have one
            kids = ["n", P[4], [["t", ("t", "ID")]]]
            t = kids
            for d in range(n):
                if d < m:
                    body = ["n", P[3], [t, ["t", ("k", "ELSE")], ["n", P[4], [["t", ("t", "ID")]]]]]
                else:
                    body = ["n", P[2], [t]]
                t = ["n", P[1], [["t", ("k", "IF")], ["t", ("t", "ID")], body]]
            tree = ["n", P[0], [t]]
        else:
            tree = ["n", P[0], [parse(s, 0)[0]]]
        assert [l[1] for l in leaves(tree)] == s, (s, tree)
        out.append((layout(g, rng, s, dense=False), tree))
    return out


def reject(ck, i):
    rng = ck.rng("rej", i)
    g = mk(rng, False)
    bad = contradictions(g)
    d = ck.scratch.sub("r%d" % i)
    text = g.text(rng, g.order)
    rp = {"grammar": text}
    try:
        gen = generate(ck, d, text)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if not ck.proc_ok(gen.p, "generating a parser for\n" + text, rp, "gen:"):
        return
    ck.case(text, True)
    ck.count("contradicting" if bad else "undecided_harmless")
    if bad and (gen.ok or gen.p.rc == 0):
        ck.violation("accepted", "operators without order are accepted: %s\n%s" % (bad[:3], text), rp)
    elif bad and not re.search(r"\b561\b", gen.p.err):
        ck.violation("message", "conflict 561 expected: %s\n%s" % (gen.p.err, text), rp)
    elif not bad and not gen.ok:
        ck.violation("rejected", "the grammar is rejected: %s\n%s" % (gen.p.err, text), rp)


def shiftprio(ck, i):
    """productions of different priority that shift the same token in a state ("Priorities of SHIFT actions must be consistent for a state", doc/grammar.md)"""
    rng = ck.rng("shift", i)
    g = mk(rng, True)
    cand = [o for o in g.ops if o.prod in g.prods]
    o = rng.choice(cand)
    p = o.prod
    lv = rng.choice([None] + ["%s%d" % (a, n) for a in "LR" for n in rng.sample(range(32), 3)])
    if lv == p.prio:
        return
    # shares a beginning with the production of the operator, so that both shift the symbol there
    at = max(k for k, x in enumerate(p.rhs) if x[0] != "n")
    rhs = p.rhs[:at + 1] + [("k", "@@end")]
    q = Prod(p.lhs, rhs, lv, ("other", None, None) if rng.random() < 0.5 else None)
    g.prods.insert(rng.choice([g.prods.index(p), g.prods.index(p) + 1, len(g.prods)]), q)
    d = ck.scratch.sub("p%d" % i)
    text = g.text(rng, g.order)
    rp = {"grammar": text}
    try:
        gen = generate(ck, d, text)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if not ck.proc_ok(gen.p, "generating a parser for\n" + text, rp, "gen:"):
        return
    ck.case(text, True)
    ck.count("shift_priorities")
    if gen.ok or gen.p.rc == 0:
        ck.violation("shift-accepted", "the productions %s /%s and %s /%s shift the same token with different priorities and are accepted\n%s" % (p, p.prio, q, q.prio, text), rp)
    elif not re.search(r"\b557\b", gen.p.err):
        ck.violation("shift-message", "conflict 557 of %s /%s and %s /%s expected: %s\n%s" % (p, p.prio, q, q.prio, gen.p.err, text), rp)


def run(ck):
    explore(ck, "ops", ck.n(1500, 40000), 0, 0, {"accept", "ast"}, mk, per_grammar=srcs, must_accept=("ops",))
    explore(ck, "dangling", ck.n(60, 1000), 0, 0, {"accept", "ast"}, dangling, per_grammar=dsrcs, must_accept=("ops",))
    ck.fork_map(lambda i: reject(ck, i), ck.n(1000, 20000))
    ck.fork_map(lambda i: shiftprio(ck, i), ck.n(500, 8000))
    ck.rule = "a (grammar, source) pair or a rejected grammar is distinct by its texts; non-trivial if the source has at least two tokens"
    ck.assumptions = ["operators of one expression nonterminal: binary, prefix, postfix, ternary and bracketed ones, 1 to 9 of them in 1 to 7 levels; conditionals with optional else"]
