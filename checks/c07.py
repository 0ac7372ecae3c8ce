"""C07: the tokens of a source: longest match, keywords before patterns, values, lines, comments and ignored patterns."""
import rex
from parsecheck import *

BAITS = ["if", "ifx", "i", "==", "=", "a", "ab", "abc", "0", "00", "_", "é", "é", "<", "<=", "<<", "@", "!", "(*", "/*", "//", "--", "#", "x.y", "a$", "$", "\\", "{", "(", "%"]


def mk(rng):
    g = Gram()
    g.samplers = []
    g.pypat = {}
    for i in range(rng.randint(1, 6)):
        if rng.random() < 0.6:
            p, py, sel, s = rex.token(rng)
        else:
            t = rng.choice([t for t in POOL if t[3]])
            p, py, sel, s = t[1], t[1], t[2], t[3]
        nm = "T%d" % i if rng.random() < 0.9 or not g.toks else g.toks[-1][0]
        g.toks.append((nm, p, sel))
        g.pypat[p] = py
        g.samplers.append(s)
    for i in range(rng.choice([0, 0, 1, 2])):
        p, py, sel, s = rex.token(rng)
        g.ignores.append(p)
        g.pypat[p] = py
        g.samplers.append(s)
    kws = pick_kws(rng, rng.randint(0, 8))
    # keywords that look like what the patterns match
    for s in g.samplers:
        if rng.random() < 0.5:
            k = s(rng)[:rng.randint(1, 6)]
            if k and not any(c in k for c in "\"'\\\n\r\0 \t") and k not in kws:
                kws.append(k)
    kws = [k for k in kws if k not in [t[0] for t in g.toks] + ["S", "L", "T"]]
    g.prods.append(Prod("S", [("n", "L")], None, ("top", None, None)))
    g.prods.append(Prod("L", [("n", "L"), ("n", "T")]))
    g.prods.append(Prod("L", []))
    for n in dict.fromkeys(t[0] for t in g.toks):
        g.prods.append(Prod("T", [("t", n)], None, ("tok", None, None)))
    for i, k in enumerate(kws):
        g.prods.append(Prod("T", [("k", k)], None, ("kw", str(i), i)))
    used = set(k[:1] for k in kws)
    for o, c in rng.sample(COMMENTS, rng.randint(0, 2)):
        if not any(x[0][0] == o[0] for x in g.comments):
            g.comments.append((o, c))
    g.meta = {"LANGUAGE": "x", "TYPESYSTEM": "x"}
    if rng.random() < 0.3:
        g.bad = "ERR"
    g.kws = kws
    g.cls = "slr"
    g.order = rng.choice([None, "mixed", "toks_last"])
    return g


def srcs(g, rng):
    out = []
    for _ in range(14):
        parts = []
        for _ in range(rng.choice([1, 3, 8, 20])):
            x = rng.random()
            if x < 0.5:
                parts.append(rng.choice(g.samplers)(rng))
            elif x < 0.7 and g.kws:
                parts.append(rng.choice(g.kws))
            elif x < 0.75:
                parts.append(rng.choice(BAITS))
            elif x < 0.83 and g.comments:
                o, c = rng.choice(g.comments)
                parts.append(o + rng.choice(["", "abc", "x\ny", " if ", o]) + ("\n" if c is None else rng.choice([c, c, c, ""])))
            parts.append(rng.choice(["", "", " ", " ", "\n", "\t", "\r\n", "\n \n", "\x0c", "\x1f"]))
            if rng.random() < 0.0005:
                # sizes beyond the range of small integers
                parts.append("\n" * rng.choice([255, 256, 32768, 65536, 70001]))
            elif rng.random() < 0.003:
                parts.append(rng.choice(g.samplers)(rng) * rng.choice([40, 256]))
        b = "".join(parts).encode()
        if rng.random() < 0.1:
            p = rng.randint(0, len(b))
            b = b[:p] + bytes([rng.choice([0, 1, 127, 128, 200, 255, 96, 92])]) + b[p:]
        out.append((b, None))
    return out


class RxLexer(Lexer):
    def __init__(self, g):
        self.g = g
        e = lambda p: re.compile(g.pypat[p].encode("utf-8", "surrogateescape"))
        self.pats = [("t", n, e(p), s) for n, p, s in g.toks] + [("i", None, e(p), 0) for p in g.ignores]
        self.kws = sorted((k.encode() for k in g.keywords()), key=len, reverse=True)
        self.com = [(o.encode(), c.encode() if c is not None else None) for o, c in g.comments]
        # a null byte starts no token whatever the pattern
        self.pats = [(k, n, NoNul(x), s) for k, n, x, s in self.pats]


class NoNul:
    def __init__(self, rx):
        self.rx = rx

    def match(self, src, pos):
        return None if src[pos] == 0 else self.rx.match(src, pos)


def judge(ck, i, label="lex", mk=mk, srcs=srcs):
    rng = ck.rng(label, i)
    g = mk(rng)
    try:
        lx = RxLexer(g)
    except re.error:
        ck.count("grammars_not_used")
        return
    d = ck.scratch.sub("%s%d" % (label, i))
    text = g.text(rng, g.order)
    gen = generate(ck, d, text)
    rp = {"grammar": text}
    try:
        if not ck.proc_ok(gen.p, "generating a parser for\n" + text, rp, "gen:"):
            return
        if not gen.ok:
            ck.count("grammars_rejected")
            ck.violation("rejected", "the grammar is rejected: %s\n%s" % (gen.p.err, text), rp)
            return
        ss = srcs(g, rng)
        p, res = run_sources(ck, d, gen.out, [s for s, _ in ss])
        if not ck.proc_ok(p, "running the parser of\n" + text, {"grammar": text, "sources": [repr(s) for s, _ in ss]}, "run:"):
            return
        if not p.done:
            ck.violation("load", "the generated compiler does not run: %s\n%s\n%s" % (p.out[-500:], p.err[-1500:], text), rp)
            return
    finally:
        shutil.rmtree(d, ignore_errors=True)
    kwi = {k: n for n, k in enumerate(g.kws)}
    for (src, _), r in zip(ss, res):
        where = "\n%s\nsource %r" % (text, src)
        rp = {"grammar": text, "source": repr(src)}
        err = None
        try:
            toks, _l = lx.tokens(src)
        except LexError as e:
            toks, err = e.toks, e
        ck.case((text, src), len(toks) > 1, {"grammar": text, "source": repr(src)} if i == 3 else None)
        ck.count("tokens", len(toks))
        ck.count("sources_" + ("lex_error" if err else "ok"))
        if err:
            if r.ok or r.code() != 501 or r.line() != err.line or r.tops:
                ck.violation("lex-error", "error 501 at line %d (%r) expected, got ok=%s %r%s" % (err.line, err.text, r.ok, r.msg, where), rp)
            elif err.text != b"\0" and not r.msg.endswith(": " + err.text.decode("utf-8", "surrogateescape")):
                ck.violation("lex-error-text", "error at %r expected, got %r%s" % (err.text, r.msg, where), rp)
            continue
        if not r.ok or len(r.tops) != 1:
            ck.violation("not-accepted", "tokens %r expected, got %r%s" % (toks, r.msg, where), rp)
            continue
        got, rows = [], r.tops[0][4][1:]
        j = 0
        while j < len(rows):
            if rows[j][2] == "tok" and j + 1 < len(rows):
                got.append((("t", rows[j + 1][2]), rows[j + 1][3], rows[j + 1][4]))
                j += 2
            else:
                got.append((("k", g.kws[rows[j][3]]), None, None))
                j += 1
        want = [t if t[0][0] == "t" else (t[0], None, None) for t in toks]
        if got != want:
            k = next((k for k in range(max(len(got), len(want))) if got[k:k + 1] != want[k:k + 1]))
            a, b = want[k:k + 1], got[k:k + 1]
            kind = "count" if not a or not b else "symbol" if a[0][0] != b[0][0] else "value" if a[0][1] != b[0][1] else "line"
            ck.violation("token-" + kind, "token %d: expected %r, got %r\nexpected %r\ngot %r%s" % (k, a, b, want, got, where), rp)


def run(ck):
    ck.fork_map(lambda i: judge(ck, i), ck.n(1600, 40000))
    ck.rule = "a (grammar, source) pair is distinct by its texts; non-trivial if the source has at least two tokens"
    ck.assumptions = ["patterns are drawn from the common subset of ECMAScript and Python regular expressions; the reference matches them with Python's re",
                      "where several comment openers or keywords start a token, only cases with one opener per first character are generated"]
