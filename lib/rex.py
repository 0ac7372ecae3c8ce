"""Random regular expressions in the common subset of ECMAScript and Python with samples of what they match."""

CLASSES = {"alpha": "a-zA-Z", "digit": "0-9", "alnum": "a-zA-Z0-9", "upper": "A-Z", "lower": "a-z", "xdigit": "0-9a-fA-F"}
LITS = list("abcxyzABC019_@!~:;<>=,") + ["é", "\\.", "\\+", "\\*", "\\(", "\\[", "\\{", "\\|", "\\?", "\\^", "\\-", "\\&", "\\#", "\\$", "%", "/"]


def cls(rng):
    """a character class: (pattern, python pattern, characters)"""
    k = rng.random()
    if k < 0.2:
        n = rng.choice(list(CLASSES))
        return "[[:%s:]]" % n, "[%s]" % CLASSES[n], sample_range(CLASSES[n])
    if k < 0.3:
        ex = rng.choice(["a-z", "0-9", "ab", ">", "\\]", "x-z;"])
        al = [c for c in "abcxyz019!<;:_~ZA{(" if not inr(c, ex)]
        neg = "[^%s]" % ex
        return neg, neg, al
    parts = rng.sample(["a-c", "x-z", "0-9", "A-C", "_", "@", "\\-", "\\.", "+", "*", "!", "=", "\\\\", "(", "{", "[:digit:]", "a-zA-Z"], rng.randint(1, 3))
    py, al = "", ""
    for p in parts:
        if p == "[:digit:]":
            py += "0-9"
            al += "05"
        else:
            py += p
            al += sample_range(p)
    return "[" + "".join(parts) + "]", "[" + py + "]", al


def inr(c, ex):
    return c in sample_all(ex)


def sample_all(r):
    out, i = "", 0
    r = r.replace("\\", "")
    while i < len(r):
        if i + 2 < len(r) and r[i + 1] == "-":
            out += "".join(chr(x) for x in range(ord(r[i]), ord(r[i + 2]) + 1))
            i += 3
        else:
            out += r[i]
            i += 1
    return out


def sample_range(r):
    if r == "\\\\":
        return "\\"
    if r == "\\-":
        return "-"
    s = sample_all(r)
    return s


def atom(rng, depth):
    k = rng.random()
    if k < 0.35:
        l = rng.choice(LITS)
        return l, l, lambda r: l[-1] if l.startswith("\\") else l
    if k < 0.75 or depth <= 0:
        p, py, al = cls(rng)
        al = list(al)
        return p, py, lambda r: r.choice(al)
    if k < 0.8:
        return ".", "[^\\n\\r]", lambda r: r.choice("ab1!( ")
    p, py, s = alt(rng, depth - 1)
    o = rng.choice(["(", "(?:"])
    return o + p + ")", o + py + ")", s


def quant(rng, a):
    p, py, s = a
    k = rng.random()
    if p == "é":
        return a
    if p.startswith("(") and any(c in p for c in "*+}"):
        # no nested repetition: the time a backtracking matcher takes would be exponential
        return (p, py, s, True) if k < 0.7 else (p + "?", py + "?", lambda r: s(r) if r.random() < 0.5 else "", False)
    if k < 0.5:
        return p, py, s, True
    if k < 0.65:
        q, lo, hi = "*", 0, 4
    elif k < 0.8:
        q, lo, hi = "+", 1, 5
    elif k < 0.9:
        q, lo, hi = "?", 0, 1
    else:
        lo = rng.randint(0, 2)
        hi = lo + rng.randint(1, 2)
        q = rng.choice(["{%d,%d}" % (lo, hi), "{%d}" % lo if lo else "{0,%d}" % hi])
        if "," not in q:
            hi = lo
    if rng.random() < 0.15 and q[0] != "{":
        q += "?"
    if not p:
        return p, py, s, True

    def gen(r):
        return "".join(s(r) for _ in range(r.randint(lo, hi)))
    return p + q, py + q, gen, lo > 0


def seq(rng, depth):
    """never matches the empty string: at least one element is mandatory"""
    n = rng.randint(1, 4)
    must = rng.randrange(n)
    ps, pys, ss = "", "", []
    for i in range(n):
        a = atom(rng, depth)
        # an element that can be empty as a whole must not be repeated; elements never are empty, so repetition is safe
        q = quant(rng, a) if i != must or rng.random() < 0.4 else a + (True,)
        if i == must and len(q) == 4 and not q[3]:
            q = a
        ps += q[0]
        pys += q[1]
        ss.append(q[2])
    return ps, pys, lambda r: "".join(s(r) for s in ss)


def alt(rng, depth):
    n = rng.choice([1, 1, 1, 2, 3])
    al = [seq(rng, depth) for _ in range(n)]
    return "|".join(a[0] for a in al), "|".join(a[1] for a in al), lambda r: r.choice(al)[2](r)


def token(rng):
    """(pattern, python pattern, select, sampler)"""
    while True:
        if rng.random() < 0.35:
            # prefix (value) suffix with the value selected
            a, b, c = seq(rng, 0), alt(rng, 0), seq(rng, 0)
            if rng.random() < 0.5:
                p, py = a[0] + "(" + b[0] + ")" + c[0], a[1] + "(" + b[1] + ")" + c[1]
                s = lambda r: a[2](r) + b[2](r) + c[2](r)
            else:
                p, py = a[0] + "(" + b[0] + ")", a[1] + "(" + b[1] + ")"
                s = lambda r: a[2](r) + b[2](r)
            sel = 1 if a[0].count("(") == a[0].count("\\(") + a[0].count("[(") else None
            n = a[0].replace("\\(", "").replace("(?:", "")
            import re
            try:
                sel = re.compile(a[1].encode()).groups + 1
            except re.error:
                continue
        else:
            p, py, s = alt(rng, 2)
            sel = 0
        if "'" in p and '"' in p:
            continue
        return p, py, sel, s
