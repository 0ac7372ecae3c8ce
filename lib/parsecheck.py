"""Generated parsers against the reference lexer, recogniser and AST for random grammars and sources."""
import json, os, re, shutil
import vlib
from gengram import *


class Expected:
    """what a source has to lead to"""

    def __init__(self, g, src, ear, lx):
        self.g, self.src = g, src
        self.lexerr = None
        try:
            self.toks, self.eofline = lx.tokens(src)
        except LexError as e:
            self.toks, self.lexerr = e.toks, e
        self.syms = [t[0] for t in self.toks]
        r = ear.run(self.syms)
        self.kind, self.line, self.at = "ok", None, None
        if r is not None and r[0] < len(self.syms):
            self.kind, self.line, self.at, self.can = "syntax", self.toks[r[0]][2], r[0], r[1]
        elif self.lexerr:
            self.kind, self.line = "lex", self.lexerr.line
        elif r is not None:
            self.kind, self.line, self.at, self.can = "syntax", self.eofline, r[0], r[1]

    def tokentext(self):
        if self.at == len(self.toks):
            return "$"
        sym, val, line = self.toks[self.at]
        if sym[0] == "k":
            return kwname(sym[1])
        return '%s = "%s"' % (sym[1], val.decode("utf-8", "surrogateescape"))


def symname(s):
    return "$" if s == END else kwname(s[1]) if s[0] == "k" else s[1]


def parse_expected(text, names):
    """the elements of a list 'a, b, c' whose elements are among the names; None if it is not such a list"""
    out, i = [], 0
    names = sorted(names, key=len, reverse=True)
    while i < len(text):
        for n in names:
            if text.startswith(n, i) and (i + len(n) == len(text) or text.startswith(", ", i + len(n))):
                out.append(n)
                i += len(n) + 2
                break
        else:
            return None
    return out


def lr_state(g, lr, syms):
    """the stack of a parser after the tokens, None if it is not unique"""
    stacks = {(0,)}
    for t in syms:
        n = set()
        for s in stacks:
            for r in lr.reduced(s):
                j = lr.go.get((r[-1], t))
                if j is not None:
                    n.add(r + (j,))
        stacks = n
        if len(stacks) != 1:
            return None
    return next(iter(stacks))


def check_expected_list(g, lr, fol, ex, listed):
    """None if the list of expected tokens is that of a parser stopped at the error, else a message"""
    st = lr_state(g, lr, ex.syms[:ex.at])
    if st is None:
        return None
    terms = g.terminals()
    start = g.prods[0]
    listed = set(listed)
    bad = []
    for s in lr.reduced(st):
        rr = lr.reduced(s)
        acc = {symname(t) for t in terms if any((r[-1], t) in lr.go for r in rr)}
        if any((start, len(start.rhs)) in lr.states[r[-1]] for r in rr):
            acc.add("$")
        up = set()
        for p, d in lr.states[s[-1]]:
            if d < len(p.rhs):
                if p.rhs[d][0] != "n":
                    up.add(symname(p.rhs[d]))
            else:
                up |= {symname(x) for x in fol[p.lhs]}
        if acc <= listed and listed <= up:
            return None
        bad.append((sorted(acc - listed), sorted(listed - up)))
    return "expected tokens {%s}: missing and excess of the possible parser states: %s" % (", ".join(sorted(listed)), bad[:3])


def sources(g, rng, n_good, n_bad, hostile=0.15):
    out = []
    for i in range(n_good):
        t = derive(g, rng, rng.choice([3, 6, 12, 25, 60]))
        out.append((layout(g, rng, [l[1] for l in leaves(t)]), t))
    for i in range(n_bad):
        t = derive(g, rng, rng.choice([3, 6, 12, 25]))
        b = layout(g, rng, mutate_syms(g, rng, [l[1] for l in leaves(t)]))
        if rng.random() < hostile:
            p = rng.randint(0, len(b))
            b = b[:p] + rng.choice([b"\x01", b"\x00", b"\xc3\xa9", b"\xff", b"`", b"/*", b'"', b"\n\n", b"\x7f", b"'", b"\\"]) + b[p:]
        out.append((b, None))
    return out


def explore(ck, label, ngram, ngood, nbad, aspects, mkgram, needs_calls=True, per_grammar=None, must_accept=()):
    """aspects: subset of {"accept","ast","error","lex"}; mkgram(rng) returns a grammar with its class or None"""
    def one(i):
        rng = ck.rng(label, i)
        g = mkgram(rng)
        if g is None:
            return None
        cls = g.cls
        d = ck.scratch.sub("%s%d" % (label, i))
        text = g.text(rng, g.__dict__.get("order"))
        gen = generate(ck, d, text)
        st = {"i": i, "g": g, "text": text, "cls": cls, "gen": gen, "srcs": [], "res": [], "p": None, "exp": []}
        if gen.ok:
            st["srcs"] = sources(g, rng, ngood, nbad) if per_grammar is None else per_grammar(g, rng)
            st["p"], st["res"] = run_sources(ck, d, gen.out, [s for s, _ in st["srcs"]])
            ear, lx = Earley(g), Lexer(g)
            st["exp"] = [Expected(g, s, ear, lx) for s, _ in st["srcs"]]
        shutil.rmtree(d, ignore_errors=True)
        return st

    def judge(i):
        st = one(i)
        if st is None:
            ck.count("grammars_not_used")
            return
        g, text = st["g"], st["text"]
        rp = {"grammar": text}
        if not ck.proc_ok(st["gen"].p, "generating a parser for\n" + text, rp, "gen:"):
            return
        if not st["gen"].ok:
            ck.count("grammars_rejected_" + str(st["cls"]))
            if st["cls"] in must_accept:
                ck.violation("rejected", "the grammar is rejected: %s\n%s" % (st["gen"].p.err, text), rp)
            if not re.search(r"#5\d\d|\b5\d\d\b", st["gen"].p.err):
                ck.violation("gen-error", "no error code in the output for\n%s\n%s" % (text, st["gen"].p.err), rp)
            return
        ck.count("grammars_accepted_" + str(st["cls"]))
        p = st["p"]
        if not ck.proc_ok(p, "running the parser of\n" + text, {"grammar": text, "sources": [repr(s) for s, _ in st["srcs"]]}, "run:"):
            return
        if not p.done:
            ck.violation("load", "the generated compiler does not run: %s\n%s\n%s" % (p.out[-500:], p.err[-1500:], text), rp)
            return
        fol = None
        for si, ((src, tree), r, ex) in enumerate(zip(st["srcs"], st["res"], st["exp"])):
            rp = {"grammar": text, "source": repr(src)}
            where = "\n%s\nsource %r" % (text, src)
            ck.case((text, src), len(ex.toks) > 1)
            ck.count("sources_" + ex.kind)
            ck.count("tokens", len(ex.toks))
            got = "ok" if r.ok else {601: "syntax", 501: "lex"}.get(r.code(), "other")
            tops = None
            if ex.kind == "ok" and tree is not None:
                ls = [l[1] for l in leaves(tree)]
                if ls == ex.syms:
                    tops = ast(tree, ex.toks)
            if ex.kind == "ok" and got == "other" and r.code() == 586:
                got = "ok-notop"
            if ex.kind != got and not (ex.kind == "ok" and got == "ok-notop"):
                ck.violation("outcome:%s/%s" % (ex.kind, got), "expected %s%s, got %s %r%s" % (
                    ex.kind, "" if ex.line is None else " at line %d" % ex.line, got, r.msg, where), rp)
                continue
            if ex.kind != "ok" and "error" in aspects or ex.kind == "lex":
                if r.line() != ex.line:
                    ck.violation("error-line", "error at line %d expected, got %r%s" % (ex.line, r.msg, where), rp)
                if r.tops:
                    ck.violation("called-on-error", "%d functions called for a source with an error%s" % (len(r.tops), where), rp)
            if ex.kind == "syntax" and "error" in aspects:
                m = re.search(r"at line \d+: (.*) \{ (.*) \}$", r.msg, re.S)
                tt = ex.tokentext()
                if "\0" in tt:
                    continue    # messages end with a null byte
                if not m or m.group(1) != tt:
                    ck.violation("error-token", "error at token %s expected, got %r%s" % (tt, r.msg, where), rp)
                else:
                    names = [symname(s) for s in g.terminals()] + ["$"]
                    listed = parse_expected(m.group(2), names)
                    if listed is None or len(set(listed)) != len(listed):
                        ck.violation("error-list", "list of expected tokens %r%s" % (r.msg, where), rp)
                    elif not isinstance(g.__dict__.get("lr"), LR0):
                        pass
                    else:
                        fol = fol or follow_sets(g)
                        msg = check_expected_list(g, g.lr, fol, ex, listed)
                        if msg and nullable(g) and "$" in listed:
                            if check_expected_list(g, g.lr, follow_sets(g, True), ex, listed) is None:
                                ck.violation("expected-list-excess-end", msg + where, rp)
                                msg = None
                        if msg:
                            ck.violation("error-list", msg + "\n%r%s" % (r.msg, where), rp)
                        ck.count("expected_lists_decided")
            if "ast" in aspects and tops is not None:
                compare_ast(ck, g, tops, r, where, rp, OPTIONS[si % 4])
    ck.fork_map(judge, ngram)


def compare_ast(ck, g, tops, r, where, rp, opt=None):
    calls = any(p.call for p in g.prods)
    want = []
    notop = False
    if calls:
        for t in tops:
            if t[0][0] == "L":
                notop = True
                break
            want.append(t)
    if notop == bool(r.ok):
        ck.violation("top-lexeme", "top level token without function: error expected %s, got %s %r%s" % (notop, not r.ok, r.msg, where), rp)
        return
    if len(want) != len(r.tops):
        ck.violation("top-count", "%d top level nodes expected, %d functions called%s" % (len(want), len(r.tops), where), rp)
        return
    for w, t in zip(want, r.tops):
        ck.count("ast_nodes", len(w))
        if t[0] != w[0][2] or t[3] is not True:
            ck.violation("top-function", "function %s expected to be called, got %s%s" % (w[0][2], t[0], where), rp)
            return
        # the argument of the call, if there is one, then the options of the run, if there are some
        args = [x for x in (w[0][3], opt) if x is not None]
        if not same(list(t[1:3]), args + [None] * (2 - len(args))) or t[5] != 1 + len(args):
            ck.violation("top-argument", "arguments %r expected for %s, got %d: %r%s" % (args, t[0], t[5] - 1, t[1:3], where), rp)
            return
        ck.count("calls_with_%d_arguments" % len(args))
        rows = t[4]
        for i in range(max(len(w), len(rows))):
            a = w[i] if i < len(w) else None
            b = rows[i] if i < len(rows) else None
            if a is None or b is None or not roweq(a, b):
                ck.violation("ast:" + diffkind(a, b), "node %d: expected %r, got %r\nexpected tree %r\ngot tree %r%s" % (i, a, b, w, rows, where), rp)
                return


def same(a, b):
    """equal values, of the same type"""
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def roweq(a, b):
    return a == b[:7] and (a[0] != "C" or same(a[3], b[3]))


def diffkind(a, b):
    if a is None or b is None:
        return "length"
    if a[0] != b[0]:
        return "kind"
    nm = {"L": ["", "depth", "name", "value", "line"], "C": ["", "depth", "function", "argument", "line", "step", "scope"]}[a[0]]
    return ",".join(nm[i] for i in range(1, len(nm)) if i >= len(b) or a[i] != b[i])
