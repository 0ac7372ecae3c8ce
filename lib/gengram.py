"""Random grammars and sources for them."""
import re, random
from gram import *

# name, pattern, select, generator of the text of a token
POOL = [
    ("IDENT", "[a-z_]+[a-z_0-9]*", 0, lambda r: r.choice(["a", "b", "xyz", "_x1", "foo", "i", "ifx", "whil", "end1", "dox", "v" * r.randint(1, 40)])),
    ("NUMBER", "[0-9]+", 0, lambda r: str(r.choice([0, 1, 7, 42, 1234567890, 10 ** r.randint(0, 30)]))),
    ("FLOAT", "[0-9]+[.][0-9]+", 0, lambda r: "%d.%d" % (r.randint(0, 99), r.randint(0, 999))),
    ("EXPF", "[0-9]+[.][0-9]*[Ee][-]{0,1}[0-9]+", 0, lambda r: "%d.%sE%s%d" % (r.randint(0, 99), r.choice(["", "5"]), r.choice(["", "-"]), r.randint(0, 99))),
    ("STRING", '["]((([^\\\\"\\n])|([\\\\][^"\\n]))*)["]', 1, lambda r: '"' + r.choice(["", "x", "a b", "// no", "/*", "\\\\n'", "'", "é", "  ", "if", "\\t"]) + '"'),
    ("SQ", "[']([^'\\n]*)[']", 1, lambda r: "'" + r.choice(["", "x", '"', "a  b", "#", "--"]) + "'"),
    ("UPPER", "[A-Z]([A-Z0-9])*", 0, lambda r: r.choice(["A", "B", "IF", "Z9", "END", "X" * r.randint(1, 9)])),
    ("HEX", "0x([0-9a-fA-F]+)", 1, lambda r: "0x%x" % r.randint(0, 10 ** r.randint(1, 9))),
    ("SYM", "[$]([a-z]+)|[$][{]([a-z]+)[}]", 0, lambda r: r.choice(["$a", "${b}", "$xyz", "${long}"])),
    ("TAG", "[@]([a-z]+)[:]([a-z]+)", 2, lambda r: r.choice(["@a:b", "@x:yy", "@key:val"])),
    ("UTF", "[a-z]*é[a-z]*", 0, None),
    ("OPTSGN", "[-]?[0-9]+%", 0, lambda r: r.choice(["-1%", "5%", "-77%"])),
    ("ALT", "abc|abcd|ab", 0, None),
    ("MULTI", "<<([^>]*)>>", 1, lambda r: "<<" + r.choice(["", "x", "a\nb", "\n\n", "  q "]) + ">>"),
]
KW = ["if", "else", "end", "do", "while", "(", ")", "{", "}", "[", "]", ";", ",", ":", "=", "==", "<", "<=", "=>", "+", "++", "-", "->", "*", "**",
      "/", ".", "..", "...", "&", "&&", "|", "||", "!", "!=", "?", "^", "%%", ":=", "::", "$", "a$", "~", "begin", "in", "int", "integer", "\\\\", "'", '"', "é", "end if", "x.y"]
COMMENTS = [("//", None), ("/*", "*/"), ("#", None), ("--", None), ("(*", "*)"), ("<!--", "-->"), ("%", None)]
CALLARGS = [(None, None), (None, None), ("{a=1}", {"a": 1}), ('"str"', "str"), ("'q'", "q"), ("17", 17), ("ref", "fn:ref"), ('{op="x", n = 3}', {"op": "x", "n": 3}),
            ("{neg='m\"m'}", {"neg": 'm"m'}), ('"two words"', "two words"), ("'say \"it\"'", 'say "it"'), ("-5", None), ('""', ""),
            ("vfalse", False), ("vtrue", True), ("vzero", 0), ("vempty", ""), ("vtable", {"x": 1, "y": "z"}), ("0", 0)]


def tokens_of(g, rng, n, noconf=True):
    names = []
    pool = [t for t in POOL if t[3]]
    rng.shuffle(pool)
    for t in pool[:n]:
        g.toks.append(t[:3])
        g.valgen[t[0]] = t[3]
        names.append(t[0])
    return names


def pick_kws(rng, n):
    return rng.sample(KW, min(n, len(KW)))


def add_calls(g, rng, prob=0.7, scopes=True):
    nfn = rng.randint(1, 6)
    for p in g.prods:
        if rng.random() < prob:
            fn = "f%d" % rng.randint(0, nfn)
            if rng.random() < 0.1:
                fn = "sub_" + fn
            at, av = rng.choice([a for a in CALLARGS if a[0] != "-5"])
            p.call = (fn, at, av)
            if scopes and rng.random() < 0.45:
                p.scope = rng.choice([">>", "{}"])


def comments_of(g, rng):
    # comment openers must not collide with keywords or each other to leave no doubt about what is meant
    ks = g.keywords()
    for o, c in rng.sample(COMMENTS, rng.randint(0, 2)):
        if any(k.startswith(o[0]) for k in ks) or any(x[0][0] == o[0] for x in g.comments):
            continue
        if o == "%" and ("OPTSGN" in [t[0] for t in g.toks]) or (o == "<!--" and "MULTI" in [t[0] for t in g.toks]):
            continue
        g.comments.append((o, c))


def random_grammar(rng, eps=True):
    """productions drawn at random over few symbols: mostly with conflicts"""
    g = Gram()
    nn = rng.randint(1, 5)
    names = ["S"] + ["N%d" % i for i in range(nn)]
    toks = tokens_of(g, rng, rng.randint(0, 2))
    kws = pick_kws(rng, rng.randint(1, 4))
    terms = [("t", t) for t in toks] + [("k", k) for k in kws]
    seen = set()

    def rhs(maxl, minl=0):
        return [("n", rng.choice(names[1:])) if rng.random() < 0.45 else rng.choice(terms) for _ in range(rng.randint(minl, maxl))]
    g.prods.append(Prod("S", rhs(3, 1)))
    for n in names[1:]:
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            r = rhs(3, 0 if eps and rng.random() < 0.3 else 1)
            if (n, tuple(r)) not in seen:
                seen.add((n, tuple(r)))
                g.prods.append(Prod(n, r))
    # every nonterminal must be used: prune
    used = {x[1] for p in g.prods for x in p.rhs if x[0] == "n"}
    reach, todo = set(), ["S"]
    by = g.by_lhs()
    while todo:
        n = todo.pop()
        if n not in reach:
            reach.add(n)
            for p in by.get(n, []):
                todo += [x[1] for x in p.rhs if x[0] == "n"]
    g.prods = [p for p in g.prods if p.lhs in reach]
    used = {x[1] for p in g.prods for x in p.rhs if x[0] != "n"}
    g.toks = [t for t in g.toks if t[0] in used]
    return g


def structured_grammar(rng, size=None, eps=True):
    """grammars composed of the usual building blocks; mostly free of conflicts"""
    g = Gram()
    size = size or rng.randint(2, 8)
    toks = tokens_of(g, rng, rng.randint(1, 5))
    kws = pick_kws(rng, 30)
    names = ["S"] + ["R%d" % i for i in range(size)]
    order = list(names)
    prods = []

    def kw():
        return ("k", kws.pop() if len(kws) > 3 else rng.choice(kws))

    def term():
        return ("t", rng.choice(toks)) if rng.random() < 0.6 else kw()

    nxt = [1]

    def ref(i):
        # mostly the next unused, sometimes backwards (recursion) when guarded
        if nxt[0] < len(names):
            nxt[0] += 1
            return ("n", names[nxt[0] - 1])
        return ("n", rng.choice(names[1:]))

    def guard(i):
        return ("n", rng.choice(names[1:]))
    prods.append(Prod("S", rng.choice([[ref(0)], [ref(0)], [ref(0), kw()], [kw(), ref(0)], [ref(0), ref(0)]])))
    for i in range(1, len(names)):
        n = ("n", names[i])
        nm = names[i]
        k = rng.choice(["alt", "alt", "seq", "llist", "rlist", "slist", "opt", "expr", "wrap", "elist", "pair"])
        if not eps and k in ("opt", "elist"):
            k = "alt"
        if k == "alt":
            for _ in range(rng.randint(2, 4)):
                r = [term()]
                for _ in range(rng.randint(0, 2)):
                    r.append(rng.choice([term, lambda: guard(i)])())
                prods.append(Prod(nm, r))
        elif k == "seq":
            prods.append(Prod(nm, [rng.choice([kw, lambda: ref(i), term])() for _ in range(rng.randint(1, 4))]))
            if rng.random() < 0.5:
                prods.append(Prod(nm, [kw(), term()]))
        elif k == "llist":
            e = ref(i) if i < len(names) - 1 else term()
            prods.append(Prod(nm, [n, e]))
            prods.append(Prod(nm, [e]))
        elif k == "rlist":
            e = ref(i) if i < len(names) - 1 else term()
            prods.append(Prod(nm, [e, n]))
            prods.append(Prod(nm, [e]))
        elif k == "slist":
            e = ref(i) if i < len(names) - 1 else term()
            s = kw()
            prods.append(Prod(nm, [n, s, e] if rng.random() < 0.5 else [e, s, n]))
            prods.append(Prod(nm, [e]))
        elif k == "elist":
            e = ref(i) if i < len(names) - 1 else term()
            prods.append(Prod(nm, [n, e] if rng.random() < 0.5 else [e, n]))
            prods.append(Prod(nm, []))
        elif k == "opt":
            prods.append(Prod(nm, [kw(), ref(i) if i < len(names) - 1 else term()]))
            prods.append(Prod(nm, []))
        elif k == "expr":
            f = ref(i) if i < len(names) - 1 else term()
            prods.append(Prod(nm, [n, kw(), f]))
            if rng.random() < 0.5:
                prods.append(Prod(nm, [n, kw(), f]))
            prods.append(Prod(nm, [f]))
        elif k == "wrap":
            prods.append(Prod(nm, [kw(), guard(i), kw()]))
            prods.append(Prod(nm, [term()]))
        elif k == "pair":
            prods.append(Prod(nm, [term(), kw(), guard(i)]))
            prods.append(Prod(nm, [kw()]))
    seen = set()
    for p in prods:
        key = (p.lhs, tuple(p.rhs))
        if key not in seen:
            seen.add(key)
            g.prods.append(p)
    # prune what cannot be reached
    reach, todo, by = set(), ["S"], g.by_lhs()
    while todo:
        n = todo.pop()
        if n not in reach:
            reach.add(n)
            for p in by[n]:
                todo += [x[1] for x in p.rhs if x[0] == "n"]
    g.prods = [p for p in g.prods if p.lhs in reach]
    used = {x[1] for p in g.prods for x in p.rhs if x[0] == "t"}
    g.toks = [t for t in g.toks if t[0] in used or rng.random() < 0.3]
    return g


def classify(g):
    """'slr', 'lalr' or 'conflict'; None if it cannot be used"""
    if not g.terminals() or not productive_reachable(g) or any(n == "S" for p in g.prods for k, n in p.rhs if k == "n"):
        return None
    try:
        lr = LR0(g)
    except OverflowError:
        return None
    g.lr = lr
    if not lr.slr_conflicts():
        return "slr"
    if not lr.lalr_conflicts():
        return "lalr"
    return "conflict"


def layout(g, rng, syms, vals=None, dense=None):
    """source text for a sequence of symbols with random white space and comments"""
    dense = rng.random() < 0.3 if dense is None else dense
    out = []

    def gap():
        x = rng.random()
        if g.comments and x < 0.12:
            o, c = rng.choice(g.comments)
            body = rng.choice(["", " comment ", "x y (z)", "\"", "if", "'"])
            if c is None:
                return " " + o + body + "\n"
            return " " + o + body + rng.choice(["", "\n", "\n\n x "]) + c + " "
        if x > 0.9997:
            return "\n" * rng.choice([255, 256, 32768, 65535, 65536, 70001])    # lines beyond the range of small integers
        return rng.choice([" ", " ", " ", "\n", "\t", "\r\n", "  ", "\n\n", " \n\t", "\x0b "])
    for i, s in enumerate(syms):
        if i or rng.random() < 0.2:
            out.append("" if dense and rng.random() < 0.5 else gap())
        if s[0] == "k":
            out.append(s[1])
        else:
            v = vals[i] if vals else g.valgen[s[1]](rng)
            if v and rng.random() < 0.001:
                w = v * (rng.choice([260, 1030, 4200]) // len(v) + 1)
                if any(n == s[1] and re.fullmatch(p.encode("utf-8", "surrogateescape"), w.encode("utf-8", "surrogateescape")) for n, p, _ in g.toks):
                    v = w
            out.append(v)
    if rng.random() < 0.6:
        out.append(gap())
    return "".join(out).encode("utf-8", "surrogateescape")


def mutate_syms(g, rng, syms):
    """a token sequence close to a sentence"""
    s = list(syms)
    terms = g.terminals()
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice(["ins", "del", "rep", "swap", "dup", "cut", "tail"])
        i = rng.randrange(len(s)) if s else 0
        if k == "ins" or not s:
            s.insert(i, rng.choice(terms))
        elif k == "del":
            del s[i]
        elif k == "rep":
            s[i] = rng.choice(terms)
        elif k == "swap":
            j = rng.randrange(len(s))
            s[i], s[j] = s[j], s[i]
        elif k == "dup":
            s.insert(i, s[i])
        elif k == "cut":
            s = s[:i]
        elif k == "tail":
            s.append(rng.choice(terms))
    return s


def printable_call(p):
    """what the runner prints for the call of a production: (function, argument)"""
    return p.call[0], p.call[2]
