"""Reference reader of the grammar language, written from its documentation: says for every byte sequence whether it is a valid
grammar definition, and if not, which mistakes it contains (error code, first line, last line, name in the message)."""
import re

TOK = [("IDENT", rb"[a-zA-Z_][a-zA-Z_0-9]*"), ("NUMBER", rb"[0-9]+"), ("PRIORITY", rb"[0-9]+[LR]"),
       ("DQ", rb'"(?:[^\\"\n]|\\[^"\n])*"'), ("SQ", rb"'(?:[^\\'\n]|\\[^'\n])*'"),
       ("%", rb"%"), ("/", rb"/"), ("=", rb"="), ("=", "\u2192".encode()), (":", rb":"), (";", rb";"), ("EPS", "\u03b5".encode()),
       ("CALL", rb"-?[a-zA-Z_][.a-zA-Z_0-9]*"), ("{", rb"\{"), ("}", rb"\}"), (",", rb","), ("(", rb"\("), (")", rb"\)"),
       ("|", rb"\|"), (">>", rb">>"), ("SCOPE", rb"\{\}")]
TOK = [(n, re.compile(p, re.S)) for n, p in TOK]
INT_MAX = 2147483647
COMMANDS = {b"LANGUAGE": (1,), b"TYPESYSTEM": (1,), b"CMDLINE": (1,), b"IGNORE": (1,), b"BAD": (1,), b"COMMENT": (1, 2), b"INDENTL": (4,)}
LIMIT_PRIO = 32
LIMIT_NT = 256


class Mistake(Exception):
    def __init__(self, code, lo, hi, name=None):
        self.code, self.lo, self.hi, self.name = code, lo, hi, name

    def __repr__(self):
        return "#%d lines %d..%d %r" % (self.code, self.lo, self.hi, self.name)


class Tok:
    __slots__ = ("kind", "text", "line")

    def __init__(self, kind, text, line):
        self.kind, self.text, self.line = kind, text, line

    @property
    def value(self):
        return self.text[1:-1] if self.kind in ("DQ", "SQ") else self.text


def tokens(src):
    """yields Tok; raises Mistake 501"""
    pos, line, n = 0, 1, len(src)
    while True:
        while pos < n and 0 < src[pos] <= 32:
            line += src[pos] == 10
            pos += 1
        if pos >= n:
            yield Tok("EOF", b"", line)
            return
        if src[pos] == 35 or src.startswith(b"//", pos):
            e = src.find(b"\n", pos)
            if e < 0:
                yield Tok("EOF", b"", line)
                return
            pos = e
            continue
        if src.startswith(b"/*", pos):
            e = src.find(b"*/", pos + 2)
            if e < 0:
                raise Mistake(501, line, line + src.count(b"\n", pos))
            line += src.count(b"\n", pos, e)
            pos = e + 2
            continue
        best = None
        for k, p in TOK:
            m = p.match(src, pos)
            if m and (best is None or m.end() > best[1]):
                best = (k, m.end())
        if best is None:
            raise Mistake(501, line, line)
        t = src[pos:best[1]]
        yield Tok(best[0], t, line)
        pos = best[1]


def number(t, lo, line):
    """value of a number token"""
    if not re.fullmatch(rb"[0-9]+", t):
        raise Mistake(504, lo, line, t)
    v = int(t)
    if v > INT_MAX:
        raise Mistake(502, lo, line, t)
    return v


def priority(t, lo, line):
    m = re.fullmatch(rb"[LR]([0-9]*)|([0-9]+)[LR]?", t)
    if not m:
        raise Mistake(504, lo, line, None)
    d = m.group(1) or m.group(2) or b"0"
    v = number(d, lo, line)
    if v >= LIMIT_PRIO:
        raise Mistake(574, lo, line, t)
    return v


class Prod:
    def __init__(self, lhs, line, first, prio):
        self.lhs, self.line, self.first, self.last, self.rhs, self.prio = lhs, line, first, line, [], prio


def read(src, pattern_ok):
    """pattern_ok(kind, bytes) -> True, False (error 431..434) or None (not known) for patterns and names of keywords, comments.
    Returns (mistakes, certain): the text is valid if there are none, 'certain' is False if a pattern is not known to be good or bad"""
    prods, names, certain = [], {}, True     # names of the lexer -> line
    kws, indentl = [], False
    syn = []                                 # the first mistake of the syntax or in a command
    unknown = []                             # mistakes there may be
    it = tokens(src)
    try:
        while True:
            t = next(it)
            if t.kind == "EOF":
                break
            lo = t.line

            def nxt():
                x = next(it)
                if x.kind == "EOF":
                    raise Mistake(503, lo, x.line)
                return x

            def bad(x):
                if x.kind == ";":
                    raise Mistake(531, lo, x.line)
                raise Mistake(504, lo, x.line, x.value)

            def pat(kind, v, line):
                ok = pattern_ok(kind, v)
                if ok is False:
                    raise Mistake(430, lo, line)
                if ok is None:
                    unknown.append(Mistake(430, lo, line))
            if t.kind == "%":
                c = nxt()
                if c.kind != "IDENT":
                    bad(c)
                args = []
                x = nxt()
                while x.kind in ("IDENT", "NUMBER", "DQ", "SQ"):
                    args.append(x)
                    x = nxt()
                if x.kind != ";":
                    bad(x)
                cn = c.text.upper()
                if cn not in COMMANDS:
                    raise Mistake(542, lo, x.line, c.text)
                if len(args) not in COMMANDS[cn]:
                    raise Mistake(541, lo, x.line, c.text)
                v = [a.value for a in args]
                if cn == b"IGNORE":
                    pat("pattern", v[0], x.line)
                elif cn == b"COMMENT":
                    if b"" in v:
                        raise Mistake(430, lo, x.line)
                elif cn == b"INDENTL":
                    number(v[3], lo, x.line)
                    if indentl:
                        raise Mistake(544, lo, x.line)
                    indentl = True
                    for n in v[:3]:
                        if n in names:
                            raise Mistake(435, lo, x.line, n)
                        names[n] = (lo, x.line)
            elif t.kind == "IDENT":
                x = nxt()
                prio = None
                if x.kind == "/":
                    x = nxt()
                    if x.kind not in ("IDENT", "PRIORITY", "NUMBER"):
                        bad(x)
                    priority(x.text, lo, x.line)
                    prio = x.text
                    x = nxt()
                if x.kind == ":":
                    if prio is not None:
                        raise Mistake(521, lo, x.line)
                    x = nxt()
                    if x.kind not in ("DQ", "SQ"):
                        bad(x)
                    p = x.value
                    x = nxt()
                    if x.kind == "NUMBER":
                        number(x.text, lo, x.line)
                        x = nxt()
                        if x.kind != ";":
                            bad(x)
                    elif x.kind != ";":
                        bad(x)
                    pat("pattern", p, x.line)
                    a = names.get(t.text)
                    names[t.text] = (lo, x.line) if a is None else (min(a[0], lo), max(a[1], x.line))
                elif x.kind == "=":
                    while True:
                        pr = Prod(t.text, x.line, lo, prio)
                        prods.append(pr)
                        lo_alt = x.line
                        x = nxt()
                        if x.kind == "EPS":
                            x = nxt()
                        else:
                            while x.kind in ("IDENT", "DQ", "SQ"):
                                pr.rhs.append((x.value, x.kind == "IDENT", x.line))
                                if x.kind != "IDENT":
                                    kws.append((x.value, lo_alt, x.line))
                                x = nxt()
                        if x.kind == "(":
                            call(nxt, bad, lo)
                            x = nxt()
                        pr.last = x.line
                        if x.kind == "|":
                            continue
                        if x.kind != ";":
                            bad(x)
                        break
                else:
                    bad(x)
            else:
                bad(t)
    except Mistake as m:
        return unknown + [m], not unknown, True
    # what needs the whole definition
    out = []
    nts = {}
    for p in prods:
        nts.setdefault(p.lhs, []).append(p)
    for k, lo, hi in kws:
        if k not in names and k:
            ok = pattern_ok("keyword", k)
            if ok is False:
                out.append(Mistake(430, lo, hi))
            elif ok is None:
                unknown.append(Mistake(430, lo, hi))
    kwset = {k for k, _, _ in kws if k}
    lex = set(names) | kwset
    used, elems = set(), {}
    for p in prods:
        for n, sym, line in p.rhs:
            elems.setdefault(n, []).append((p, sym, line))
            if n in nts:
                used.add(n)
            elif n not in lex or not n:
                out.append(Mistake(552, p.line, line, n))
    for n in nts:
        if n in lex:
            lines = [x for p in nts[n] for x in (p.first, p.line)] + [x for p, _, line in elems.get(n, []) for x in (p.line, line)]
            if n in names:
                lines += names[n]
            for ln in sorted(set(lines)):
                out.append(Mistake(551, ln, ln, n))
    if prods:
        start = prods[0].lhs
        if start in used:
            for p, _, line in elems[start]:
                out.append(Mistake(554, p.line, line, start))
        un = [n for n in nts if n not in used and n != start]
        for n in un:
            for p in nts[n][:1]:
                out.append(Mistake(553, p.first, p.last, n))
        for p in nts[start][1:]:
            out.append(Mistake(555, p.first, p.last, start))
        if len(nts) >= LIMIT_NT:
            out.append(Mistake(575, 0, 1 << 30))
    else:
        out.append(Mistake(556, 0, 1 << 30))
    # the same production twice; with another priority, or with the keyword of the name of a token, it is a conflict at the latest
    seen, near = {}, {}
    for p in prods:
        key = (p.lhs, p.prio, tuple((n, sym) for n, sym, _ in p.rhs))
        nkey = (p.lhs, b" ".join(n for n, _, _ in p.rhs).replace(b'"', b""))
        for k, s, to in ((key, seen, out), (nkey, near, unknown)):
            if k in s:
                to.append(Mistake(508, p.line, p.last))
                to.append(Mistake(508, s[k].line, s[k].last))
            s.setdefault(k, p)
    return out + unknown, not unknown, bool(out)


def call(nxt, bad, lo):
    """what follows the open bracket"""
    scope = 0
    x = nxt()
    while x.kind in (">>", "SCOPE"):
        scope += 1
        if scope > 1:
            raise Mistake(505, lo, x.line)
        x = nxt()
    if x.kind == ")":
        return
    if x.kind not in ("IDENT", "CALL"):
        bad(x)
    x = nxt()
    if x.kind in ("IDENT", "CALL", "NUMBER", "DQ", "SQ"):
        x = nxt()
    elif x.kind == "{":
        while True:
            x = nxt()
            if x.kind != "IDENT":
                bad(x)
            x = nxt()
            if x.kind != "=" or x.text != b"=":
                bad(x)
            x = nxt()
            if x.kind == "{":
                raise Mistake(506, lo, x.line)
            if x.kind not in ("IDENT", "NUMBER", "DQ", "SQ"):
                bad(x)
            x = nxt()
            if x.kind == ",":
                continue
            break
        if x.kind != "}":
            bad(x)
        x = nxt()
    if x.kind != ")":
        bad(x)
