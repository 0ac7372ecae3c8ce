"""C08: block start, block end and line end tokens of sources with indentation."""
import c07
from parsecheck import *

NAMES = [("IND", "END", "NL"), ("OPEN_IND", "CLOSE_IND", "NEW_LINE"), ("a", "b", "c"), ("B", "E", "L_"), ("NL", "IND", "END")]


def white(rng, ind, tab):
    """whitespace of the width ind"""
    out = ""
    while ind > 0:
        if ind >= tab and rng.random() < 0.4:
            out += "\t"
            ind -= tab
        else:
            out += rng.choice([" ", " ", " ", " ", " ", "\r", "\x0b", "\x0c", "\x01"]) if rng.random() < 0.1 else " "
            ind -= 1
    return "".join(rng.sample(out, len(out))) if rng.random() < 0.5 else out


def filler(g, rng, tab):
    """lines without effect"""
    k = rng.choice(["empty", "blank", "comment", "ignored"])
    w = white(rng, rng.randint(0, 12), tab)
    if k == "comment" and g.comments:
        o, c = rng.choice(g.comments)
        return w + o + (" x y" if c is None else rng.choice([" x ", " x\n  y ", "\n\n\t"]) + c + rng.choice(["", " ", "\t"])) + "\n"
    if k == "ignored" and g.ignores:
        return w + "~~~" + "\n"
    return w + "\n" if k == "blank" else "\n"


def lines(g, rng, words, tab, nlines, wild):
    """lines at random indentation; wild: any width after any other, else widths of open blocks or deeper ones"""
    out, stack = "", [0]
    mode = rng.choice(["deep", "wide", "far"]) if rng.random() < 0.01 else ""
    if mode == "deep":
        nlines = rng.choice([130, 300])
    if rng.random() < 0.2:
        stack = [rng.randint(0, 5)]
    for i in range(nlines):
        while rng.random() < 0.15:
            out += filler(g, rng, tab)
        if mode == "far" and rng.random() < 0.2:
            out += "\n" * rng.choice([256, 32768, 65536])
        if mode == "wide":
            ind = rng.choice([0, 0, 4, 12, 127, 128, 255, 256, 260, 32768, 65536, 65540, 65548])
        elif mode == "deep":
            stack = stack + [stack[-1] + rng.randint(1, tab)] if rng.random() < 0.95 else stack[:-rng.randint(1, len(stack))] or [0]
            ind = stack[-1]
        elif wild:
            ind = rng.randint(0, 3 * tab)
        else:
            x = rng.random()
            if x < 0.35:
                stack.append(stack[-1] + rng.randint(1, tab + 2))
            elif x < 0.6 and len(stack) > 1:
                del stack[-rng.randint(1, len(stack) - 1):]
            ind = stack[-1]
        ln = white(rng, ind, tab)
        n = rng.choice([1, 1, 2, 3, 5])
        for k in range(n):
            ln += rng.choice(words)(rng) + rng.choice([" ", "  ", "\t", ""] if k == n - 1 else [" ", "  ", "\t"])
            if rng.random() < 0.06 and g.comments:
                o, c = rng.choice(g.comments)
                ln += o + rng.choice([" z", ""]) + ("\n" if c is None else rng.choice(["", "\n", "\n\t "]) + c)
                if c is None:
                    break
        if rng.random() < 0.05 and any(c for o, c in g.comments):
            o, c = [x for x in g.comments if x[1]][0]
            ln = o + c + ln
        if not ln.endswith("\n"):
            ln += rng.choice(["\n", "\n", "\n", "\r\n"])
        out += ln
    while rng.random() < 0.3:
        out += filler(g, rng, tab)
    if rng.random() < 0.3:
        out = out.rstrip("\n")
    return out.encode()


def base(rng):
    g = Gram()
    tab = rng.choice([1, 2, 3, 4, 4, 8, 8, 12])
    g.indentl = rng.choice(NAMES) + (tab,)
    g.toks.append(("ID", "[a-z]+", 0))
    g.toks.append(("NUM", "[0-9]+", 0))
    if rng.random() < 0.5:
        g.toks.append(("TEXT", "<([^>]*)>", 1))
    if rng.random() < 0.3:
        g.ignores.append("~+")
    for o, c in rng.sample([("//", None), ("#", None), ("/*", "*/"), ("(*", "*)"), ("--", None)], rng.randint(0, 2)):
        if not any(x[0][0] == o[0] for x in g.comments):
            g.comments.append((o, c))
    g.meta = {"LANGUAGE": "x", "TYPESYSTEM": "x"}
    g.pypat = {p: p for p in [t[1] for t in g.toks] + g.ignores}
    g.words = [lambda r: r.choice(["abc", "x", "if", "long" * r.randint(1, 20)]), lambda r: str(r.randint(0, 10 ** r.randint(1, 9)))]
    if len(g.toks) > 2:
        g.words.append(lambda r: r.choice(["<>", "<a b>", "<a\nb>", "<\n\n\t x\n>"]))
    g.order = rng.choice([None, "mixed", "toks_last"])
    g.cls = "slr"
    return g


def mkflat(rng):
    g = base(rng)
    kws = [k for k in pick_kws(rng, rng.randint(0, 4)) if not any(k[0] == o[0] for o, c in g.comments) and k[0] not in "<~"]
    g.prods.append(Prod("S", [("n", "LL")], None, ("top", None, None)))
    g.prods.append(Prod("LL", [("n", "LL"), ("n", "T")]))
    g.prods.append(Prod("LL", []))
    for n in [t[0] for t in g.toks] + list(g.indentl[:3]):
        g.prods.append(Prod("T", [("t", n)], None, ("tok", None, None)))
    for i, k in enumerate(kws):
        g.prods.append(Prod("T", [("k", k)], None, ("kw", str(i), i)))
        g.words.append(lambda r, k=k: k)
    g.kws = kws
    return g


def srcsflat(g, rng):
    return [(lines(g, rng, g.words, g.indentl[3], rng.choice([0, 1, 2, 4, 8, 20, 60]), rng.random() < 0.4), None) for _ in range(12)]


def mkblock(rng):
    """a language of blocks by indentation"""
    g = base(rng)
    t = lambda n: ("t", n)
    i, e, nl = g.indentl[:3]
    kws = rng.sample([":", "do", "then", "=", "..."], 2)
    k = lambda n: ("k", kws[n])
    st = ("n", "Stm")
    g.prods.append(Prod("S", [("n", "List")], None, ("top", None, None)))
    form = rng.choice(["colon", "open", "nested"])
    lst = [Prod("List", [("n", "List"), st]), Prod("List", [st])] if rng.random() < 0.5 else [Prod("List", [st, ("n", "List")]), Prod("List", [st])]
    g.prods += lst
    if form == "colon":
        g.prods.append(Prod("Stm", [t(nl), ("n", "Expr")], None, ("line", None, None), ">>"))
        g.prods.append(Prod("Stm", [t(nl), ("n", "Expr"), k(0), t(i), ("n", "List"), t(e)], None, ("block", None, None), "{}"))
    elif form == "open":
        g.prods.append(Prod("Stm", [t(nl), ("n", "Expr")], None, ("line", None, None), ">>"))
        g.prods.append(Prod("Stm", [t(i), ("n", "List"), t(e)], None, ("block", None, None), "{}"))
    else:
        g.prods.append(Prod("Stm", [t(nl), ("n", "Expr"), ("n", "Body")], None, ("stm", None, None)))
        g.prods.append(Prod("Body", [t(i), ("n", "List"), t(e)], None, ("body", None, None), "{}"))
        g.prods.append(Prod("Body", []))
    for x in [[t("ID")], [t("ID"), t("NUM")], [t("NUM")]][:rng.randint(1, 3)]:
        g.prods.append(Prod("Expr", x))
    if len(g.toks) > 2:
        g.prods.append(Prod("Expr", [t("TEXT")]))
    g.form, g.kws = form, kws
    g.lr = None
    return g


def srcsblock(g, rng):
    def expr(r):
        return g.words[0](r)

    def exact(depth, w, first):
        """a well formed list of statements"""
        out = ""
        tab = g.indentl[3]
        for n in range(rng.choice([1, 1, 2, 4])):
            while rng.random() < 0.1:
                out += filler(g, rng, tab)
            sub = depth < 6 and rng.random() < 0.4 and not (g.form == "open" and first and n == 0)
            if g.form == "open":
                if sub:
                    out += exact(depth + 1, w + rng.randint(1, tab + 1), True)
                else:
                    out += white(rng, w, tab) + expr(rng) + "\n"
            else:
                out += white(rng, w, tab) + expr(rng) + (" " + g.kws[0] if sub and g.form == "colon" else "") + "\n"
                if sub:
                    out += exact(depth + 1, w + rng.randint(1, tab + 1), True)
        return out
    out = []
    for _ in range(10):
        s = exact(0, 0, True)
        if rng.random() < 0.4:
            # damage: a line moved, a line removed, a colon added
            ls = s.split("\n")
            k = rng.randrange(len(ls))
            z = rng.random()
            if z < 0.5:
                ls[k] = rng.choice([" ", "\t", "  ", ""]) + ls[k].lstrip()
            elif z < 0.8:
                del ls[k]
            else:
                ls[k] += " " + g.kws[0]
            s = "\n".join(ls)
        if rng.random() < 0.3:
            s = s.rstrip("\n")
        out.append((s.encode(), None))
    return out


def mkb(rng):
    g = mkblock(rng)
    c = classify(g)
    g.cls = c
    return g if c in ("slr", "lalr") else None


def run(ck):
    ck.fork_map(lambda i: c07.judge(ck, i, "ind", mkflat, srcsflat), ck.n(700, 20000))
    explore(ck, "blk", ck.n(500, 15000), 0, 0, {"accept", "error"}, mkb, per_grammar=srcsblock)
    ck.rule = "a (grammar, source) pair is distinct by its texts; non-trivial if the source has at least two tokens"
    ck.assumptions = ["a line whose first token follows the end of a comment on the same line yields no indentation tokens (it is no indented line)",
                      "characters up to 32 other than tab and line end count one column"]
