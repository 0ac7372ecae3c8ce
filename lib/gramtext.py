"""Grammars written as text in a random layout, with a record of the line of every declaration and of the attributes in the
comments before it."""
import re
from gram import Gram, Prod, quote

LIST = ("toks", "ignores", "comments", "bad", "indentl", "prods")


class Writer:
    """mode: 'plain' one declaration per line; 'wide' every token separated by random white spaces and comments;
    'dense' no separator where the language needs none; 'deco' attributes before declarations"""

    def __init__(self, rng, mode):
        self.r, self.mode, self.out, self.line, self.last = rng, mode, [], 1, ""

    def raw(self, s):
        if s:
            self.out.append(s)
            self.line += s.count("\n")
            self.last = s[-1]

    def sep(self, nxt):
        r = self.r
        need = bool(re.match(r"[A-Za-z_0-9.\-]", nxt)) and bool(re.match(r"[A-Za-z_0-9.\-]", self.last)) or (self.last == "/" and nxt[:1] in "/*") or (self.last == "{" and nxt[:1] == "}") or (self.last == ">" and nxt[:1] == ">")
        if self.last in ("", "\n", " "):
            need = False
        if self.mode == "plain":
            return " " if self.last not in ("", "\n") else ""
        if self.mode == "dense":
            return " " if need else ""
        if self.mode == "deco":
            return r.choice([" ", " ", "  ", "\t", "\n  "])
        s = r.choice(["", "", " ", " ", "\n", "\t", "\r\n", "  ", " /* c */ ", "/*;*/", " # c ; = |\n", "\n// 'x \"y /*\n", " /* a\n b */", "\n\n\n", "\f", "/***/", "#\n", "/*/ */"])
        if need and not s:
            s = " "
        # a comment must not be glued to a slash
        if self.last == "/" and s[:1] in "/*#" and s:
            s = " " + s
        return s

    def tok(self, t, glue=False):
        """writes a token and returns its line"""
        if not glue:
            self.raw(self.sep(t))
        ln = self.line
        self.raw(t)
        return ln

    def fresh(self):
        if self.mode == "plain" or self.mode == "deco":
            if self.last not in ("", "\n"):
                self.raw("\n")
        elif self.mode == "dense":
            pass


ATTR = ["rule", "descr", "description", "x", "Y_1", "end", "for", "1st", "nil", "a" * 40, "Rules", "LINE", "opx", "9", "90x", "0", "8a", "_", "Z9"] + [
    "and", "break", "do", "else", "elseif", "false", "function", "goto", "if", "in", "local", "not", "or", "repeat", "return", "then", "true", "until", "while"]
TEXTS = ["", "x", "one two", 'quoted "text"', "it's", "back\\slash", "tab\there", "é ü →", "a = b | c ;", "@at inside", "# hash", "// slashes", "%d %s", "'\"' both", "]] --[[", "\\n\\t\\0", "/* open", "x;y", "1"]


def attributes(w, r):
    """comments with attributes before a declaration; returns {name: [lines]}"""
    deco, order = {}, []
    k = r.choice([0, 0, 1, 1, 2, 3])
    names = r.sample(ATTR, k)
    for i, n in enumerate(names):
        lines = [r.choice(TEXTS) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        style = r.choice(["#", "#", "//", "/*"])
        if style == "/*":
            lines = [x.replace("*/", "") for x in lines]
            while len(lines) > 1 and not lines[-1]:
                lines.pop()       # blank lines at the end of a comment do not count
            w.fresh()
            w.raw(r.choice(["", "  "]) + "/*" + r.choice(["", " "]) + "@" + n + (" " + lines[0] if lines[0] else ""))
            for x in lines[1:]:
                # a line starting with an @ would be another attribute
                w.raw("\n" + r.choice(["", "   ", "\t"]) + x.lstrip("@"))
            w.raw(r.choice([" */", "*/", "\n*/"]) + r.choice(["\n", " ", "\n\n"]))
            lines = [lines[0]] + [x.lstrip("@") for x in lines[1:]]
            lines = [x.strip() for x in lines]
        else:
            for j, x in enumerate(lines):
                w.fresh()
                if j == 0:
                    w.raw(style + r.choice(["", " ", "\t"]) + "@" + r.choice(["", "", " "]) + n + (r.choice([" ", "  ", "\t"]) + x if x else ""))
                else:
                    x = x.lstrip("@")
                    lines[j] = x
                    w.raw(style + " " + x)
                w.raw("\n" + r.choice(["", "", "\n", "   "]))
        deco[n] = lines
    return deco


def emit(g, rng, mode, order=None):
    """(text, record): record[class] = list of dictionaries in the order of the text"""
    w = Writer(rng, mode)
    rec = {k: [] for k in LIST}
    r = rng
    q = lambda s: quote(s, r)
    deco = (lambda: attributes(w, r)) if mode == "deco" else (lambda: {})

    def cmd(cname, args, cls=None, **val):
        w.fresh()
        d = deco() if cls else {}
        cname = r.choice([cname, cname, cname.lower(), cname.capitalize()]) if mode != "plain" else cname
        w.tok("%")
        w.tok(cname)
        for a in args:
            w.tok(a)
        ln = w.tok(";")
        if cls:
            rec[cls].append(dict(val, line=ln, deco=d))

    def name_or_string(s):
        return s if re.fullmatch(r"[A-Za-z_][A-Za-z_0-9]*", s) and r.random() < 0.5 else q(s)

    head, toks, rules = [], [], []
    for k in ("LANGUAGE", "TYPESYSTEM", "CMDLINE"):
        if k in g.meta:
            head.append(lambda k=k: cmd(k, [name_or_string(g.meta[k])]))
    for p in g.ignores:
        head.append(lambda p=p: cmd("IGNORE", [q(p)], "ignores", pattern=p))
    for o, c in g.comments:
        head.append(lambda o=o, c=c: cmd("COMMENT", [q(o)] + ([] if c is None else [q(c)]), "comments", open=o, close=c))
    if g.bad is not None:
        head.append(lambda: cmd("BAD", [name_or_string(g.bad)], "bad", name=g.bad))
    if g.indentl:
        io, ic, inl, it = g.indentl
        head.append(lambda: cmd("INDENTL", [name_or_string(io), name_or_string(ic), name_or_string(inl), r.choice([str(it), "\"%d\"" % it])], "indentl", open=io, close=ic, nl=inl, tabsize=it))

    def tokdef(n, p, s):
        w.fresh()
        d = deco()
        w.tok(n)
        w.tok(":")
        w.tok(q(p))
        if s:
            w.tok(str(s))
        rec["toks"].append(dict(name=n, pattern=p, select=s, line=w.tok(";"), deco=d))
    for n, p, s in g.toks:
        toks.append(lambda n=n, p=p, s=s: tokdef(n, p, s))

    def rule(ps):
        w.fresh()
        d = deco()
        w.tok(ps[0].lhs)
        if ps[0].prio is not None:
            w.tok("/")
            pr = str(ps[0].prio)
            m = re.fullmatch(r"([LR])(\d+)", pr)
            if m and r.random() < 0.3:
                pr = m.group(2) + m.group(1)
            w.tok(pr)
        for i, p in enumerate(ps):
            if i:
                if mode in ("plain", "deco"):
                    w.raw("\n")
                d = deco()
                ln = w.tok("|")
            else:
                ln = w.tok(r.choice(["=", "=", "→"]) if mode != "plain" else "=")
            for k, n in p.rhs:
                w.tok(q(n) if k == "k" else n)
            if not p.rhs and (p.call or r.random() < 0.6):
                w.tok("ε")
            if p.call or p.scope:
                w.tok("(")
                if p.scope:
                    w.tok(p.scope)
                if p.call:
                    w.tok(p.call[0])
                    if p.call[1] is not None:
                        for t in calltoks(p.call[1]):
                            w.tok(t)
                w.tok(")")
            rec["prods"].append(dict(prod=p, line=ln, deco=d))
        w.tok(";")

    i = 0
    while i < len(g.prods):
        j = i + 1
        while j < len(g.prods) and i > 0 and g.prods[j].lhs == g.prods[i].lhs and g.prods[j].prio == g.prods[i].prio and r.random() < 0.8:
            j += 1
        rules.append(lambda ps=g.prods[i:j]: rule(ps))
        i = j
    if order == "mixed":
        qs = [head, toks, rules]
        while any(qs):
            r.choice([x for x in qs if x]).pop(0)()
    else:
        for f in head + toks + rules:
            f()
    if mode == "wide":
        w.raw(r.choice(["", "\n", "\n\n", " # end", "// end\n", "/* end */", "\t \n"]))
    else:
        w.raw("\n")
    return "".join(w.out), rec


def calltoks(a):
    """the tokens of a call argument"""
    return re.findall(r"\"[^\"]*\"|'[^']*'|-?[A-Za-z_][.A-Za-z_0-9]*|-?[0-9]+|[{}=,]", a)
