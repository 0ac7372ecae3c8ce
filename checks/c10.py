"""C10: grammars with conflicts are rejected without output, grammars without any are accepted."""
from parsecheck import *


def simple(rules, rng):
    """rules: 'S = A "x" | ; ...' with one character keywords; names in upper case are nonterminals, in lower case keywords"""
    g = Gram()
    kw = {}
    pool = rng.sample([k for k in KW if "'" not in k or '"' not in k], 12)
    tk = tokens_of(g, rng, 3)
    used = set()

    def sym(x):
        if x[0].isupper():
            return ("n", x)
        if x not in kw:
            kw[x] = ("t", tk.pop()) if tk and rng.random() < 0.3 else ("k", pool.pop())
            used.add(kw[x][1])
        return kw[x]
    for r in rules.strip().split(";"):
        r = r.strip()
        if not r:
            continue
        l, rhs = r.split("=", 1)
        for alt in rhs.split("|"):
            g.prods.append(Prod(l.strip(), [sym(x) for x in alt.split()]))
    g.toks = [t for t in g.toks if t[0] in used]
    return g


# grammars with two trees for some sentence
AMBIGUOUS = [
    "S = E ; E = E p E | i",
    "S = E ; E = E p E | E m E | i",
    "S = E ; E = E p E | i | l E r",
    "S = X ; X = i c X | i c X e X | x",
    "S = X ; X = A | B ; A = x ; B = x",
    "S = X ; X = A y | B y ; A = x ; B = x",
    "S = L ; L = L L | x",
    "S = L ; L = x | L x | x L",
    "S = A ; A = A | x",
    "S = A ; A = B | x ; B = A | y",
    "S = X ; X = O P ; O = a | ; P = a | ",
    "S = X ; X = O O ; O = O a | ",
    "S = X ; X = Y Z w ; Y = a | a b ; Z = b c | c",
    "S = X ; X = A A ; A = a | ",
    "S = L ; L = L E | ; E = x | ",
    "S = E ; E = m E | E p | i",
    "S = E ; E = m E | E m E | i",
    "S = X ; X = a X b | a a b b | a b",
    "S = X ; X = Y Y ; Y = a Y | ",
    "S = X ; X = a Y b | a Z b ; Y = c ; Z = c",
    "S = X ; X = C X | ; C = a D ; D = e X | ",
    "S = X ; X = A c | a b c ; A = a b",
    "S = X ; X = A B ; A = a | a x ; B = x b | b",
    "S = U ; U = U a | V ; V = V b | W ; W = w | l U r | W a",
    "S = X ; X = P Q | R ; P = a ; Q = b ; R = T U ; T = a ; U = b",
    "S = X ; X = A | x ; A = B ; B = C ; C = X y | x",
    "S = X Y ; X = x | x z ; Y = z y | y",
    "S = B ; B = B s T | T ; T = x | x s x",
]
# unambiguous, not decidable with one token
DEEP = [
    "S = X ; X = A a b | B a c ; A = x ; B = x",
    "S = P ; P = a P a | b P b | a | b",
    "S = P ; P = a P a | a",
    "S = X ; X = A d | B e ; A = A a | a ; B = B a | a",
    "S = X ; X = A d c | B d e ; A = x A | x ; B = x B | x",
    "S = X ; X = L i a | i ; L = L i | ",
    "S = R ; R = R D | D ; D = i c V ; V = V i | i",
    "S = X ; X = a A d | b B d | a B e | b A e ; A = c ; B = c",
    "S = X ; X = A x y | B x z ; A = a ; B = a",
    "S = X ; X = U x a b | V x a c ; U = ; V = ",
]
# decidable with one token of the right context
LALR = [
    "S = X ; X = L q R | R ; L = s R | i ; R = L",
    "S = X ; X = A a | b A c | d c | b d a ; A = d",
    "S = X ; X = a A d | a B e ; A = c ; B = c | b A e",
    "S = X ; X = A b | a A c | B c ; A = x ; B = a x x | x",
]
# decidable with one token of the right context, but not if follow sets are shared or contain the end of the source needlessly
FINE = [
    "S = X ; X = L | K ; L = a L b | x ; K = a L b b",
    "S = X ; X = A B y | C ; A = a ; C = a ; B = b | ",
    "S = X ; X = A B y | C w ; A = a ; C = a ; B = b | ",
    "S = X ; X = A B C y | D ; A = a z ; D = a z ; B = b | ; C = c | ",
    "S = X ; X = L K | M ; K = k | ; L = x ; M = x m",
    "S = X ; X = O x P ; O = o | ; P = p | ",
    "S = L ; L = L I | ; I = i q V ; V = n | ",
    "S = X ; X = A U B ; U = u | ; A = a U a | a ; B = b | c U c",
    "S = X ; X = P q | R ; P = p N ; R = p ; N = n | ",
    "S = X ; X = M t | N ; M = d | d M ; N = d d t t",
]
# decidable with one token by the FOLLOW sets and without empty production
HARMLESS = [
    "S = X ; X = A d | B e ; A = a A | a ; B = a B | a",
    "S = P ; P = a P a | b",
    "S = X ; X = a X b | a a b b c | c",
    "S = E ; E = E p T | T ; T = T m F | F ; F = l E r | i",
    "S = L ; L = L x | x",
    "S = L ; L = x L | x",
    "S = X ; X = a X b | c",
    "S = X ; X = A a | B b ; A = x ; B = y",
    "S = X ; X = i l r | i l L r ; L = L c E | E ; E = i | i l L r",
    "S = X ; X = Y c | Z d ; Y = a b ; Z = a e",
    "S = O ; O = l M r | l r ; M = P | M c P ; P = i k V ; V = i | O | A ; A = b e | b W e ; W = V | W c V",
    "S = P ; P = P Q | Q ; Q = U s | V s ; U = i q R ; V = R ; R = R p N | N ; N = n | l R r",
    "S = X ; X = A | B ; A = a A | a ; B = b B | b",
    "S = X ; X = A Y ; A = a ; Y = b Y | b",
]


def inflate(g, rng):
    """more rules around a grammar: unrelated alternatives, chains and long sequences"""
    pool = [k for k in KW + ["kw%d" % i for i in range(60)] if k not in g.keywords()]
    rng.shuffle(pool)
    have = set(g.nonterminals())
    names = iter([n for n in ("Zz%d" % i for i in range(300)) if n not in have])
    start = g.prods[0]
    if not any(x[0] == "n" for x in start.rhs):
        return
    k = rng.choice(["chain", "alts", "long", "list"])
    n = next(names)
    i = next(i for i, x in enumerate(start.rhs) if x[0] == "n")
    old = start.rhs[i]
    start.rhs = start.rhs[:i] + [("n", n)] + start.rhs[i + 1:]
    if k == "chain":
        for _ in range(rng.randint(1, 6)):
            m = next(names)
            g.prods.append(Prod(n, [("n", m)]))
            n = m
        g.prods.append(Prod(n, [old]))
    elif k == "alts":
        g.prods.append(Prod(n, [("k", pool.pop()), old]))
        for _ in range(rng.randint(1, 8)):
            g.prods.append(Prod(n, [("k", pool.pop())] + [("k", pool[-1])] * rng.randint(0, 3)))
    elif k == "long":
        g.prods.append(Prod(n, [("k", pool.pop()) for _ in range(rng.randint(0, 7))] + [old] + [("k", pool.pop()) for _ in range(rng.randint(1, 7))]))
    else:
        m = next(names)
        a = pool.pop()
        g.prods.append(Prod(n, [("n", n), ("k", a), ("n", m)]))
        g.prods.append(Prod(n, [("n", m)]))
        g.prods.append(Prod(m, [("k", pool.pop()), old, ("k", pool.pop())]))


def spoil(g, rng):
    """adds something that mostly makes two trees possible"""
    names = [n for n in g.nonterminals() if n != "S"]
    n = rng.choice(names)
    k = rng.choice(["copy", "rec2", "unit", "inline", "null", "split"])
    ps = [p for p in g.prods if p.lhs == n]
    p = rng.choice(ps)
    if k == "copy":
        g.prods.append(Prod(n, [("n", "Zcopy")]))
        g.prods.append(Prod("Zcopy", list(p.rhs)))
    elif k == "rec2":
        g.prods.append(Prod(n, [("n", n), ("n", n)]))
    elif k == "unit":
        g.prods.append(Prod(n, [("n", rng.choice(names))]))
    elif k == "inline":
        i = [i for i, x in enumerate(p.rhs) if x[0] == "n"]
        if i:
            i = rng.choice(i)
            q = rng.choice([q for q in g.prods if q.lhs == p.rhs[i][1]])
            g.prods.append(Prod(n, p.rhs[:i] + q.rhs + p.rhs[i + 1:]))
    elif k == "null":
        g.prods.append(Prod(n, []))
    elif k == "split" and len(p.rhs) > 1:
        i = rng.randint(1, len(p.rhs) - 1)
        g.prods.append(Prod("Zsplit", p.rhs[:i]))
        g.prods.append(Prod(n, [("n", "Zsplit")] + p.rhs[i:]))


def mk(rng):
    k = rng.choice(["random", "randome", "structured", "harmless", "ambiguous", "ambiguous", "deep", "lalr", "fine", "fine", "spoiled", "spoiled"])
    if k == "random":
        g = random_grammar(rng, eps=True)
    elif k == "randome":
        g = random_grammar(rng, eps=False)
    elif k == "structured":
        g = structured_grammar(rng, eps=rng.random() < 0.3)
    elif k == "spoiled":
        g = structured_grammar(rng, eps=rng.random() < 0.3)
        spoil(g, rng)
    else:
        g = simple(rng.choice({"harmless": HARMLESS, "ambiguous": AMBIGUOUS, "deep": DEEP, "lalr": LALR, "fine": FINE}[k]), rng)
        while rng.random() < 0.6 and k != "harmless" or rng.random() < 0.3:
            inflate(g, rng)
            if len(g.prods) > 30:
                break
    seen = set()
    for p in g.prods:
        if (p.lhs, tuple(p.rhs)) in seen or len(p.rhs) > 15:
            return None
        seen.add((p.lhs, tuple(p.rhs)))
    if rng.random() < 0.5:
        # order and names carry no meaning
        rest = g.prods[1:]
        rng.shuffle(rest)
        g.prods[1:] = rest
    if rng.random() < 0.5:
        add_calls(g, rng, rng.choice([0.3, 1.0]))
    comments_of(g, rng)
    g.meta = {"LANGUAGE": "x", "TYPESYSTEM": "x"}
    g.cls = classify(g)
    g.family = k
    g.eps = any(not p.rhs for p in g.prods)
    g.order = rng.choice([None, "mixed", "toks_last"])
    return g if g.cls else None


def judge(ck, i):
    rng = ck.rng("conf", i)
    g = mk(rng)
    if g is None:
        ck.count("grammars_not_used")
        return
    d = ck.scratch.sub("c%d" % i)
    text = g.text(rng, g.order)
    rp = {"grammar": text}
    of = os.path.join(d, "g.lua")
    old = b"-- there before\n" if rng.random() < 0.3 else None
    if old:
        with open(of, "wb") as f:
            f.write(old)
    try:
        gen = generate(ck, d, text)
        if not ck.proc_ok(gen.p, "generating a parser for\n" + text, rp, "gen:"):
            return
        now = open(of, "rb").read() if os.path.exists(of) else None
    finally:
        shutil.rmtree(d, ignore_errors=True)
    accepted = gen.p.rc == 0
    ck.case(text, True)
    ck.count("%s:%s" % (g.cls, "accepted" if accepted else "rejected"))
    ck.count("family_" + g.family)
    if g.cls == "conflict":
        if accepted:
            ck.violation("accepted", "a grammar with conflicts is accepted: %s\n%s" % (g.lr.lalr_conflicts()[:1], text), rp)
            return
        if now != old:
            ck.violation("written", "output written for a grammar with conflicts\n%s" % text, rp)
        if not re.search(r"\b56[0-9]\b", gen.p.err):
            ck.violation("message", "no conflict reported: %s\n%s" % (gen.p.err, text), rp)
    elif not accepted:
        # an LALR(1) grammar; what is known to be refused wrongly is what has a conflict if the follow sets are taken too large in a certain way
        c = g.lr.coarse_conflicts(True)
        if c is None:
            ck.count("not_decided")
        elif not c:
            ck.violation("rejected", "a grammar without conflict is rejected: %s\n%s" % (gen.p.err, text), rp)
        elif g.lr.coarse_conflicts(False):
            ck.violation("merged-follow", "an LALR(1) grammar is rejected: %s\n%s" % (gen.p.err, text), rp)
            ck.count("merged_follow")
        else:
            ck.violation("excess-end", "an LALR(1) grammar with empty productions is rejected: %s\n%s" % (gen.p.err, text), rp)
            ck.count("excess_end")
    if accepted:
        if now is None or now == old:
            ck.violation("no-output", "accepted without output\n%s" % text, rp)
        if gen.p.err.strip():
            ck.violation("warning", "a grammar is accepted with a warning: %s\n%s" % (gen.p.err, text), rp)
    elif now != old:
        ck.violation("written", "output written for a rejected grammar\n%s" % text, rp)


def run(ck):
    # the families are what their name says
    for rules in AMBIGUOUS + DEEP + HARMLESS + LALR:
        g = simple(rules, ck.rng("fam", rules))
        c = classify(g)
        want = ("slr",) if rules in HARMLESS else ("lalr",) if rules in LALR else ("conflict",)
        if c not in want:
            ck.count("family_misplaced")
            print("note: class of %r is %s" % (rules, c))
    ck.fork_map(lambda i: judge(ck, i), ck.n(5000, 100000))
    ck.rule = "a grammar is distinct by its text; all are non-trivial"
    ck.assumptions = ["conflicts are those of the LALR(1) automaton built by the reference; the known findings are LALR(1) grammars that have conflicts with follow sets taken too large in the two ways described there"]
