"""Grammars using all of the grammar language without regard of conflicts: for the description, the tables and the rejection of
texts, nothing is compiled with them."""
from gram import Gram, Prod
from gengram import POOL, COMMENTS

NAMES = ["expr", "term", "X", "_", "_1", "a_b", "end", "nil", "function", "L1", "R", "L", "Stmt9", "e", "IGNORE", "LANGUAGE", "i" * 70, "op", "line", "left"]
TOKN = ["IDENT", "num", "T1", "and", "_t", "WS", "STR", "R2", "tok_", "Q" * 60]
PATTERNS = [p[1] for p in POOL] + ["a", "[ab]c*", "\\\\\\\\", "[']", '["]', "[\\\\]", "x{2,3}", "(a)(b)(c)", "[^a-z]", "[a-zA-Z_][0-9]+", "(abc|d(e)f)", "a\\\\.b", "%d%s", "--a", "\\]\\]"]
KWS = ["+", "if", "\\\\", "\\\\n", "'", '"', "''", '""', "é", "→", "#", "//", "/*", "*/", "--", "%", "]]", "[[", "{}", ">>", "$", "a b", "\x7f", "ÿ", "nil", "X", "_", "|", ";", "(", "k" * 100]
FNS = ["f", "g1", "_h", "mod.f", "a.b.c", "f_", "end_", "F" * 50]
ARGS = [None, None, "1", "42", "007", "ref", "mod.ref", '""', '"str"', "'str'", "'d\"q'", '"s\'q"', '"a\\\\b"', '"\\n"', '"# // /*"', '"é→"', "{a=1}", "{a=1,b=2}", "{a=ref}", '{a="x"}', "{a='\"'}", '{_x="= , }",y=7,z=\'\'}']


LONG = [200, 255, 256, 257, 300, 511, 1023, 1024, 2047, 2048, 2500]


def any_grammar(r):
    g = Gram()
    # names, words, patterns and arguments of any length
    long = (lambda: r.random() < 0.15) if r.random() < 0.12 else (lambda: False)

    def stretch(s, c=None):
        return s + (c or r.choice("xyzQ_")) * r.choice(LONG) if long() else s
    for k in ("LANGUAGE", "TYPESYSTEM", "CMDLINE"):
        if r.random() < 0.7:
            g.meta[k] = stretch( r.choice(["x", "lang/x", "a b", "it's", 'q"t', "\\\\n", "x.y", "é", "{}", "l%s", "_", "end"]))
    tn = [stretch(n) for n in r.sample(TOKN, r.randint(0, 4))]
    for t in tn:
        for _ in range(r.choice([1, 1, 1, 2])):
            p = r.choice(PATTERNS) + (stretch("", r.choice("ab")) if r.random() < 0.5 else "")
            g.toks.append((t, p, r.choice([0, 0, 0, 1]) if "(" in p and "{" not in p and "\\(" not in p else 0))
    for p in r.sample(PATTERNS, r.choice([0, 0, 1, 2])):
        g.ignores.append(p)
    seen = set()
    for o, c in r.sample(COMMENTS + [("'", "'"), ('"', "\\\\"), ("\\\\", None), ("é", "→")], r.choice([0, 1, 2, 3])):
        if o not in seen:
            seen.add(o)
            g.comments.append((o, c))
    if r.random() < 0.2:
        g.bad = r.choice(["ERR", "bad one", "'", "?x", '"'])
    used = []
    if r.random() < 0.25:
        g.indentl = ("IND", "DED", "NL", r.choice([1, 4, 8, 100]))
        used = [("t", x) for x in ("IND", "DED", "NL")]
    kws = [stretch(k) if k[-1:] not in "\\" else k for k in r.sample([k for k in KWS if k not in tn], r.randint(1, 8))]
    nts = ["S" if r.random() < 0.5 else "start_"] + [n for n in map(stretch, r.sample(NAMES, r.randint(1, 6))) if n not in tn and n not in kws]
    if len(nts) < 2:
        nts.append("lastone")
    kws = [k for k in kws if k not in nts]
    if not kws:
        kws = ["+"]
    terms = [("t", t) for t in tn] + [("k", k) for k in kws] + used
    seen = set()

    def call(p):
        if r.random() < 0.5:
            fn = stretch(r.choice(FNS))
            a = r.choice(ARGS)
            if a and long():
                a = r.choice(["%s", "'%s'", '"%s"', "{a=%s}", "{%s=1}", "{a='%s'}"]) % ("w" * r.choice(LONG))
            p.call = (fn, a, None)
        if r.random() < 0.3:
            p.scope = r.choice([">>", "{}"])

    def add(lhs, rhs):
        key = (lhs, tuple(rhs))
        if key in seen:
            return
        seen.add(key)
        p = Prod(lhs, rhs)
        call(p)
        g.prods.append(p)
    # the start refers to all, so that all are reachable
    order = nts[1:]
    add(nts[0], [("n", n) for n in order[:10]])
    for n in order:
        pr = None if r.random() < 0.6 else r.choice(["L1", "R1", "L31", "R7", "1", "12", "L", "R"])
        k0 = len(g.prods)
        for _ in range(r.randint(1, 5)):
            add(n, [("n", r.choice(order)) if r.random() < 0.35 else r.choice(terms) for _ in range(r.choice([0, 1, 2, 2, 3, 5, 14]))])
        for p in g.prods[k0:]:
            p.prio = pr
        if r.random() < 0.3:
            add(n, [r.choice(terms) for _ in range(6)])
    if r.random() < 0.3:
        rest = g.prods[1:]
        r.shuffle(rest)
        g.prods[1:] = rest
    return g
