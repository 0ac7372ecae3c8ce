"""C14: any grammar text is answered with a parser or an error with its line."""
import sys
sys.set_int_max_str_digits(0)
import os, re
import vlib
from anygram import any_grammar, PATTERNS, KWS
from gengram import POOL, KW, COMMENTS
from gramtext import emit
from gram import generate, run_sources
import gramref
import fuzz

GOOD = {p.encode() for p in PATTERNS} | {p[1].encode() for p in POOL} | {b""}
BADPAT = ["[", "(", "[a", "(a", "a{", "*a", "+", "\\", "\t", "\\d", "[z-a]", "a)", "a{2,1}", "^", "[^", "[]", "[é]", "[^é]", "[xé]", "a?[é]", "[→]", "[a→]x", "(x|[é])", "[ü]+y", "a?b*[^x→]", "[😀]"]
GOODKW = {k.encode() for k in KWS} | {k.encode() for k in KW}
ERRRE = re.compile(r'ERR #(\d+) "([^"]*)"(?: at line (\d+))?(?:: (.*))?\n', re.S)
LONG = 6000                # tokens longer than this exhaust the stack in the regular expressions of the C++ library: a known finding
LIMITS = {571, 572, 573, 574, 575, 576, 577}
TPL = "--begin\nreturn %automaton%\n--end\n"
SENTINEL = "-- the file of a former run\n" * 3
# declarations the language forbids wherever they stand
WRONG = ["%FOO x;", "%LANGUAGE;", "%LANGUAGE a b;", "%typesystem;", "%CMDLINE 'a' 'b' 'c';", "%IGNORE;", "%IGNORE 'a' 'b';", "%BAD;", "%BAD a b;", "%COMMENT;", "%COMMENT a b c;",
         "%INDENTL A B C;", "%INDENTL A B C 4 5;", "%INDENTL Q1 Q2 Q3 x;", "%INDENTL Q1 Q2 Q3 99999999999;", "%INDENTL Q1 Q1 Q3 4;", "%;", "%LANGUAGE = x;", "%%LANGUAGE x;", "%LANGUAGE x, y;", "%COMMENT '' ;", "%COMMENT '/-' '';",
         "qqq = undefinedname;", "qqq = 'x';", "qqq = ε;", "qqq/L32 = 'x';", "qqq/99 = 'x';", "qqq/40R = 'x';", "qqq/R99999999999 = 'x';", "qqq/4294967297 = 'x';", "qqq/X = 'x';", "qqq/ = 'x';", "qqq/'L1' = 'x';", "qqq/L1: 'x';", "qqq/L1 'x';",
         "Tqq: 'x'", "Tqq: ;", "Tqq: x;", "Tqq: 'x' y;", "Tqq: 'x' 1 2;", "Tqq: 'x' 99999999999;", "Tqq: 'x' 4294967296;", "Tqq 'x';", "Tqq;", ";", "= 'x';", "| 'x';", "'x';", "12;", "(f);", "qqq = 'x' (f;", "qqq = 'x' (f g h);", "qqq = 'x' (f {a=1;", "qqq = 'x' (f {a=1,});", "qqq = 'x' (f {a 1});",
         "qqq = 'x' (f {a={b=1}});", "qqq = 'x' (f {});", "qqq = 'x' (>> >> f);", "qqq = 'x' (>>{} f);", "qqq = 'x' ({} {} f);", "qqq = 'x' (f >>);", "qqq = 'x' ('f');", "qqq = 'x' (1);", "qqq = 'x' (f) 'y';", "qqq = 'x' ε;", "qqq = ε 'x';", "qqq = 'x' (f) (g);", "qqq = 'x' | ;;", "qqq = 'x' % 'y';",
         "qqq = 'x", "qqq = \"x", "qqq = 'x\n';", "qqq = ?;", "qqq = é;", "qqq = 'x' } ;", "/* never closed", "qqq = \\ 'x';", "qqq = 'x' &;", "\0", "qqq = 'a' \0 'b';", "qqq = \x7f;", "qqq == 'x';", "qqq = 'x' = 'y';", "qqq : 'x' | 'y';", "qqq = a.b;", "qqq = -a;", "qqq = 12;", "qqq = 1L;", "a.b = 'x';", "qqq = 'x' (f g) g;", "qqq → = 'x';", "qqq = 'x' (f {a→1});", "qqq = [ 'x' ];", "qqq = 'x' (f {a=-1});", "qqq = 'x' (f {a=b.c});"]
WRONG += ["Tqq: %s;" % ("'%s'" % p if "'" not in p else '"%s"' % p) for p in BADPAT]
POOLTOK = ["%", "/", "=", "→", ":", ";", "ε", "{", "}", ",", "(", ")", "|", ">>", "{}", "L1", "3R", "7", "x", "'k'", '"k"', "f.g", "-n", "LANGUAGE", "IGNORE", "INDENTL", "99999999999", "L32", "/*", "*/", "//", "#", "'", '"', "\\", "\0", "é", "\xff", "?", "S", "start_", "'S'", "{a=1}", "(f)", "\n"]


def pattern_ok(kind, v):
    if kind == "keyword":
        return True if v in GOODKW or 33 <= v[0] <= 126 and all(32 <= c < 127 for c in v) else None
    if v in GOOD or re.fullmatch(rb"[a-zA-Z0-9_]+", v):
        return True
    if v in [p.encode() for p in BADPAT]:
        return False
    return None


def toks_of(b):
    out = []
    try:
        for t in gramref.tokens(b):
            if t.kind != "EOF":
                out.append(t)
    except gramref.Mistake:
        pass
    return out


SPLIT = re.compile(rb"\"[^\"\n]*\"|'[^'\n]*'|[a-zA-Z_][.a-zA-Z_0-9]*|[0-9]+|>>|\{\}|/\*.*?\*/|(?://|#)[^\n]*|\s+|\xe2\x86\x92|\xce\xb5|.", re.S)


# pieces of token patterns, elements that can be left out followed by incomplete characters in particular
PATPART = [b"a", b"b?", b"c*", b"[d]?", b"[^e]", b"(f)?", b"(g|h)", b"(i", b"j|", b"k{0,2}", b"{", b"}", b"]", b"[", b"[^", b")", b"\\", b"\\d", b"\\x", b"\\x4", b"\\x41", b"\\u", b"\\u12", b"\\u20ac", b"\\cA", b"\\c", b"\\1", b"\\b", b"\\0", b"\\\\", b"\\]", b"\\?",
           b"?", b"*", b"+", b"+?", b"^", b"$", b".", b"[[:alpha:]]", b"[[:", b"[:x:]", b"[a-", b"[-a]", b"[]a]", b"(?=l)", b"(?:m)?", b"(?", b"|", b"\xc3\xa9", b"\xe2\x82\xac?", b"\xf0\x9f\x98\x80", b"\xf0", b"\xe2", b"\xe2\x82", b"\xc3", b"\x80", b"\xff", b"\xfe", b"\xf8\x88", b"\xfd", b"[\xc3\xa9]", b"[\xf0", b"\0", b"[0-9]{1,3}", b"n{2", b"o{3,", b"o{,3}", b"\x7f", b" ", b"\t"]


def pattern(r):
    """the text of a token pattern, probably wrong"""
    k = r.choice(["any", "any", "opt", "opt", "known"])
    if k == "opt":
        v = b"".join(bytes([r.randrange(97, 123)]) + r.choice([b"?", b"*", b"?", b"{0,1}"]) for _ in range(r.choice([0, 1, 3, 8, 20, 40]))) + r.choice(PATPART)
    elif k == "known":
        v = r.choice(sorted(GOOD))
        i = r.randrange(len(v) + 1)
        v = v[:i] + r.choice(PATPART) + v[r.choice([i, i, i + 1, len(v)]):]
    else:
        v = b"".join(r.choice(PATPART) for _ in range(r.choice([1, 2, 3, 5, 9])))
    return b"'" + v.replace(b"'", b"") + b"'"


def mutate(r, b, others):
    """a text near a valid grammar"""
    k = r.choice(["none", "tokdel", "tokins", "tokrep", "tokswap", "tokdup", "decldel", "declmove", "decldup", "rename", "bytes", "trunc", "wrong", "wrong", "wrong", "wrong", "splice", "restart", "startref", "asnt", "huge", "pattern", "pattern"])
    parts = SPLIT.findall(b)
    solid = [i for i, p in enumerate(parts) if p.strip() and not p.startswith((b"#", b"//", b"/*"))]
    if not solid:
        return k, b
    p = lambda: r.choice(solid)
    if k == "tokdel":
        for _ in range(r.choice([1, 1, 1, 2, 4])):
            parts[p()] = b" "
    elif k == "tokins":
        i = p()
        parts.insert(i, b" " + r.choice(POOLTOK).encode("latin-1" if r.random() < 0.1 and False else "utf-8") + b" ")
    elif k == "tokrep":
        parts[p()] = b" " + r.choice(POOLTOK).encode() + b" "
    elif k == "tokswap":
        i, j = p(), p()
        parts[i], parts[j] = parts[j], parts[i]
    elif k == "tokdup":
        i = p()
        parts.insert(i, parts[i] + b" ")
    elif k == "rename":
        ids = [i for i in solid if re.fullmatch(rb"[a-zA-Z_][a-zA-Z_0-9]*|\"[^\"\n]*\"|'[^'\n]*'", parts[i])]
        if ids:
            i = r.choice(ids)
            parts[i] = parts[r.choice(ids)] if r.random() < 0.7 else b"unknown_one"
    elif k == "bytes":
        bb = bytearray(b)
        for _ in range(r.choice([1, 1, 2, 3, 10])):
            i = r.randrange(len(bb) + 1)
            c = r.choice([r.randrange(256), r.randrange(256), 0, 10, 34, 39, 35, 47, 42, 59, 59, 255, 128, 92, 40, 91, 123])
            x = r.random()
            if x < 0.4:
                bb[i:i] = bytes([c])
            elif x < 0.7:
                bb[i:i + 1] = b""
            else:
                bb[i:i + 1] = bytes([c])
        return k, bytes(bb)
    elif k == "trunc":
        return k, b[:r.randrange(len(b) + 1)] if r.random() < 0.7 else b[r.randrange(len(b) + 1):]
    elif k == "splice":
        o = r.choice(others)
        return k, r.choice([b + b"\n" + o, b[:r.randrange(len(b) + 1)] + o[r.randrange(len(o) + 1):]])
    elif k == "huge":
        i = p()
        x = r.choice([b"a" * 2500, b"'" + b"k" * 3000 + b"'", b"9" * 5000, b"\n" * 5000, b" | " * 500, b"(" * 3000, b"/* " + b"x\n" * 3000 + b"*/", b"# " + b"y" * 100000 + b"\n", b"{" * 2000, b"%LANGUAGE '" + b"l" * 3000 + b"';"])
        parts.insert(i, b" " + x + b" ")
    else:
        # declarations
        ends, cur, decls = [], [], []
        for q in parts:
            cur.append(q)
            if q == b";":
                decls.append(b"".join(cur))
                cur = []
        tail = b"".join(cur)
        if not decls:
            return k, b
        i, j = r.randrange(len(decls)), r.randrange(len(decls))
        if k == "decldel":
            del decls[i]
        elif k == "declmove":
            decls.insert(j, decls.pop(i))
        elif k == "decldup":
            decls.insert(j, b"\n" + decls[i])
        elif k == "pattern":
            w = r.choice([b"Tpp: %s;", b"Tpp: %s;", b"Tpp: %s 1;", b"%%IGNORE %s;", b"Tpp: %s 0;"]) % pattern(r)
            decls.insert(r.randint(0, len(decls)), b"\n" + w + b"\n")
        elif k == "wrong":
            decls.insert(r.randint(0, len(decls)), r.choice([b"\n", b" ", b"\n\n"]) + r.choice(WRONG).encode() + b"\n")
        else:
            m = [re.match(rb"\s*([a-zA-Z_][a-zA-Z_0-9]*)\s*(?:/\s*\w+\s*)?(?:=|\xe2\x86\x92)", d) for d in decls]
            rules = [(x, d) for x, d in enumerate(m) if d]
            if rules:
                start = rules[0][1].group(1)
                if k == "restart":
                    decls.insert(r.randint(rules[0][0] + 1, len(decls)), b"\n" + start + b" = " + r.choice([b"'zz'", b"\xce\xb5"]) + b";")
                elif k == "startref":
                    x, d = r.choice(rules)
                    e = d.end()
                    decls[x] = decls[x][:e] + b" " + start + b" 'qz' | " + decls[x][e:]
                elif k == "asnt":
                    n = r.choice(rules)[1].group(1)
                    decls.insert(j, r.choice([b"\n" + n + b": 'x';", b"\nq8 = '" + n + b"';", b"\n%INDENTL " + n + b" X8 X9 4;"]))
        parts = decls + [tail]
    return k, b"".join(parts)


def soup(r):
    x = r.random()
    if x < 0.3:
        return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 5, 50, 500])))
    if x < 0.4:
        return bytes(r.choice(b"\"';=:%|(){}\n /*#abL1\\[") for _ in range(r.choice([5, 20, 200])))
    n = r.choice([1, 2, 5, 10, 40, 300])
    return " ".join(r.choice(POOLTOK + ["x", "y", "=", ";", "'k'"]) for _ in range(n)).encode()


def describe(b):
    return b if len(b) < 3000 else b[:1500] + b" ... " + b[-1000:]


def judge(ck, r, d, i, kind, b):
    """runs the program on the text and compares with the reference"""
    mistakes, certain, wrong = gramref.read(b, pattern_ok)
    gf, of = os.path.join(d, "t.g"), os.path.join(d, "t.out")
    with open(gf, "wb") as f:
        f.write(b)
    nlines = b.count(b"\n") + 1
    for opt in ["-s", r.choice(["-g", "-g", "-l"])]:
        with open(of, "w") as f:
            f.write(SENTINEL)
        replay = {"text": describe(b).decode("latin-1"), "option": opt, "mutation": kind}
        cmd = [ck.mewa, opt, "-o", of] + (["-t", os.path.join(d, "t.tpl")] if opt == "-g" else []) + [gf]
        p = vlib.run(cmd, cwd=d, timeout=40)
        if "stack-overflow" in p.err and "regex_executor" in p.err and max(map(len, SPLIT.findall(b))) > LONG:
            ck.violation("long-token", "%s crashes on a token of more than %d characters" % (opt, LONG), replay)
            return
        if not ck.proc_ok(p, "%s on text %r" % (opt, describe(b)[:1500]), replay):
            return
        with open(of, "rb") as f:
            out = f.read()
        text = "%s on the text\n%s\n" % (opt, describe(b).decode("utf-8", "replace")[:2000])
        reserved = opt == "-l" and b"@" in b
        if p.rc == 0:
            ck.count("texts_accepted")
            if wrong:
                ck.violation("accepted:%s" % ",".join(sorted({str(m.code) for m in mistakes})), text + "is accepted, but has the mistakes %r" % mistakes[:4], replay)
                return
            if p.err or (opt != "-g" and not out.strip()):
                ck.violation("accepted-noise:" + opt, text + "is accepted with messages %r, output of %d bytes" % (p.err[:300], len(out)), replay)
            ends = {"-s": (b"local mewa", b"return typesystem\n\n"), "-l": (b"local languagedef = {\n", b"return languagedef\n\n"), "-g": (b"--begin\n", b"--end\n\n")}[opt]
            if not out.startswith(ends[0]) or not out.endswith(ends[1]):
                ck.violation("output-incomplete:" + opt, text + "is accepted with incomplete output %r ... %r" % (out[:60], out[-60:]), replay)
            continue
        ck.count("texts_rejected")
        if out != SENTINEL.encode():
            ck.violation("output-touched:" + opt, text + "is rejected, but the output file has changed to %r" % out[:200], replay)
        m = ERRRE.search(p.err)
        if p.rc != 2 or not m or m.end() != len(p.err):
            ck.violation("no-message:" + opt, text + "ends with status %d and the messages %r" % (p.rc, p.err[:500]), replay)
            return
        code, line, arg = int(m.group(1)), int(m.group(3)) if m.group(3) else None, m.group(4) or ""
        ck.count("error_%d" % code)
        # conflicts and limits of the automaton are found when the text is valid
        if not wrong:
            if opt == "-g" and (code == 564 or code in LIMITS):
                continue
            if reserved and code == 507:
                continue
            if not mistakes:
                ck.violation("rejected:%d" % code, text + "is rejected with %r, but has no mistake" % p.err[:300], replay)
                return
        if line is None and code != 556:
            ck.violation("no-line:%d" % code, text + "is rejected without line: %r" % p.err[:300], replay)
            return
        if line is not None and not 1 <= line <= nlines:
            ck.violation("bad-line:%d" % code, text + "has %d lines and is rejected with %r" % (nlines, p.err[:300]), replay)
        ok = False
        for x in mistakes:
            if (x.code == code or x.code == 430 and code in (431, 432, 433, 434)) and (line is None or x.lo <= line <= x.hi):
                if x.name is None or len(x.name) > 200 or x.name.split(b"\0")[0].decode("utf-8", "surrogateescape") in arg:
                    ok = True
        if not ok:
            ck.violation("wrong-error:%d" % code, text + "is rejected with %r, the mistakes in it are %r" % (p.err[:300], mistakes[:6]), replay)
            return
    ck.case(b, True, (kind, describe(b)[:400].decode("utf-8", "replace")) if i < 6 else None)
    ck.count("kind_" + kind)


RESERVED = ["op", "name", "pattern", "select", "open", "close", "nl", "tabsize", "priority", "left", "right", "scope", "call", "line"]


def attribute(ck, r, d):
    """an attribute with a reserved name in a comment is an error of --generate-language, at the declaration that follows"""
    t, _ = emit(any_grammar(r), r, "plain")
    lines = t.rstrip("\n").split("\n")
    name = r.choice(RESERVED)
    if r.random() < 0.2:
        name = r.choice(["Op", "names", "x", "lines", "_call", "priority1", "SELECT"])
    at = r.choice([0] + [k for k in range(1, len(lines)) if lines[k - 1].endswith(";")])
    c = r.choice(["# @%s x", "//@%s", "/* @%s x */", "/*\n@a b\n @%s\n*/", "# @a b\n# @ %s x", "# @%s x\n\n# @z z", "/* x\n y\n   @%s z */"]) % name
    lines[at:at] = c.split("\n")
    b = ("\n".join(lines) + "\n").encode("utf-8", "surrogateescape")
    if gramref.read(b, pattern_ok)[2]:
        return
    gf = os.path.join(d, "a.g")
    with open(gf, "wb") as f:
        f.write(b)
    p = vlib.run([ck.mewa, "-l", "-o", os.path.join(d, "a.lua"), gf], cwd=d, timeout=40)
    replay = {"text": b.decode("latin-1")}
    if not ck.proc_ok(p, "-l with attribute", replay):
        return
    ck.case(b)
    ck.count("attributes")
    m = ERRRE.search(p.err)
    if name not in RESERVED:
        if p.rc or p.err:
            ck.violation("attribute-rejected", "the attribute %r is not reserved, -l says %r for\n%s" % (name, p.err[:300], b.decode("utf-8", "replace")[:2000]), replay)
    elif p.rc != 2 or not m or m.group(1) != "507" or int(m.group(3) or 0) != at + len(c.split("\n")) + 1:
        ck.violation("attribute-accepted", "the reserved attribute %r before line %d, -l ends with status %d and %r for\n%s" % (name, at + len(c.split("\n")) + 1, p.rc, p.err[:300], b.decode("utf-8", "replace")[:2000]), replay)


def explore(ck, i):
    r = ck.rng("text", i)
    d = ck.scratch.sub("t%d" % i)
    with open(os.path.join(d, "t.tpl"), "w") as f:
        f.write(TPL)
    attribute(ck, r, d)
    bases = []
    for _ in range(3):
        t, _ = emit(any_grammar(r), r, r.choice(["plain", "wide", "dense", "deco"]))
        bases.append(t.encode("utf-8", "surrogateescape"))
    for j in range(ck.n(16, 60)):
        if r.random() < 0.08:
            kind, b = "soup", soup(r)
        else:
            kind, b = mutate(r, r.choice(bases), bases)
            for _ in range(r.choice([0, 0, 0, 0, 1, 3])):
                kind, b = mutate(r, b, bases)
        judge(ck, r, d, i, kind, b)


# ---- limits ----------------------------------------------------------------------------------------------------------
def chain(nprod, length, nkw=900):
    """a grammar with productions of the given length, states one for each element"""
    out = ["S = P (f);"]
    for k in range(nprod):
        out.append('P = "p%d" %s (g%d);' % (k, " ".join('"e%d"' % ((k * 7 + x) % 20) for x in range(length - 1)), k % 7))
    return out, ["p%d %s" % (k, " ".join("e%d" % ((k * 7 + x) % 20) for x in range(length - 1))) for k in range(nprod)]


def limit_cases():
    out = []

    def add(what, decls, code, srcs=()):
        out.append((what, decls, code, list(srcs)))
    for n in (14, 15):
        d, s = chain(3, n)
        add("production of %d elements" % n, d, None, s)
    for n in (16, 17, 31, 32, 64, 300):
        d, _ = chain(3, 5)
        add("production of %d elements" % n, d + ['P = "q" %s;' % " ".join(['"x"'] * (n - 1))], 573)
        add("production of %d elements" % n, ["S = P %s;" % " ".join(['"x"'] * (n - 1)), 'P = "p";'], 573)
    for n in (509, 510):
        d, s = chain(n, 2)
        add("%d productions" % (n + 1), d, None, s[:3] + s[-3:])
    for n in (511, 512, 600, 1023, 1100):
        d, _ = chain(n, 2)
        add("%d productions" % (n + 1), d, 572 if n < 1020 else (572, 576))
    for n in (253, 254, 255, 256, 300):
        add("%d nonterminals" % (n + 1), ["S = N0 (f);"] + ['N%d = "k%d" | "x" N%d;' % (k, k, k + 1) for k in range(n - 1)] + ['N%d = "last" (f);' % (n - 1)], None if n < 255 else 575,
            ["x " * (n - 1) + "last", "k0"])
    for n in (1020, 1021, 1022):
        add("%d tokens" % n, ["T%d: 'x%dx';" % (k, k) for k in range(n)] + ["S = T%d 'a' (f);" % (n - 1)], None, ["x%dx a" % (n - 1)])
    for n in (1023, 1024, 1025, 1100):
        add("%d tokens" % n, ["T%d: 'x%dx';" % (k, k) for k in range(n)] + ["S = T%d 'a' (f);" % (n - 1)], 576)
    for n, c in ((290, None), (440, 571)):
        d, s = chain(n, 14)
        add("%d productions of 14 elements" % n, d, c, s[:2] + s[-2:])
    for n in (30, 31):
        add("priority %d" % n, ["S = E (f);", "E/L%d = E '+' E (g);" % n, "E = 'x' (h);"], None, ["x + x + x"])
    for n in (32, 33, 64, 127, 128, 256, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 64):
        for f in ("L%d", "%dR", "%d"):
            add("priority " + f % n, ["S = E (f);", "E/" + f % n + " = E '+' E (g);", "E = 'x' (h);"], 574 if n < 1 << 31 else 502)
    import random
    r = random.Random(5)
    for np in (20, 40, 90, 120):
        dd = ["S = P (f);"]
        srcs = []
        for k in range(np):
            c = r.sample(range(30), 12)
            dd.append('P = "p%d" %s "e" (g);' % (k, " ".join("N%d" % x for x in c)))
            srcs.append("p%d %s e" % (k, " ".join("t%d" % x for x in c if r.random() < 0.5)))
        dd += ['N%d = "t%d" (h) | ε;' % (k, k) for k in range(30)]
        add("%d productions with different sets of following tokens" % np, dd, None if np < 50 else 577, srcs[-3:])
    return out


def limit(ck, i, cases):
    what, decls, code, srcs = cases[i]
    d = ck.scratch.sub("l%d" % i)
    text = "\n".join(decls) + "\n"
    of = os.path.join(d, "g.lua")
    with open(of, "w") as f:
        f.write(SENTINEL)
    g = generate(ck, d, text, timeout=100)
    replay = {"text": text[:4000], "limit": what}
    if not ck.proc_ok(g.p, "grammar with " + what, replay):
        return
    ck.count("limits")
    ck.case(("limit", what, i))
    m = ERRRE.search(g.p.err)
    if code is None:
        if g.p.rc:
            ck.violation("limit:" + what, "a grammar with %s is rejected with %r" % (what, g.p.err[:300]), replay)
            return
        p, res = run_sources(ck, d, of, [s.encode() for s in srcs])
        if not ck.proc_ok(p, "parser of a grammar with " + what, replay):
            return
        for s, x in zip(srcs, res):
            if not x.ok:
                ck.violation("limit-parser:" + what, "the parser of a grammar with %s rejects a sentence of the grammar with %r" % (what, x.msg), dict(replay, source=s))
                break
            leaves = [row[3].decode() for t in x.tops for row in t[4] if row[0] == "L"]
            ck.count("limit_sentences")
            if any(v not in s.split() for v in leaves):
                ck.violation("limit-tree:" + what, "the parser of a grammar with %s calls functions with %r for %r" % (what, leaves, s), replay)
        return
    codes = code if isinstance(code, tuple) else (code,)
    if g.p.rc == 0 or not m or int(m.group(1)) not in codes:
        ck.violation("limit:" + what, "a grammar with %s ends with status %d and %r, error %r expected" % (what, g.p.rc, g.p.err[:300], codes), replay)
        return
    if int(m.group(1)) in (573, 574, 502):
        ln = int(m.group(3) or 0)
        want = [k + 1 for k, x in enumerate(decls) if len(x.split()) > 17 or re.match(r"E/", x)]
        if ln not in want:
            ck.violation("limit-line:" + what, "a grammar with %s is rejected with %r, line %r expected" % (what, g.p.err[:300], want), replay)
    with open(of) as f:
        if f.read() != SENTINEL:
            ck.violation("limit-output:" + what, "a grammar with %s is rejected, but the output has changed" % what, replay)


def longtokens(ck):
    for i, t in enumerate([b"S = 'a" + b"x" * 100000 + b"';", b"S = " + b"x" * 200000 + b" ;", b"S = " + b"9" * 200000 + b" ;"]):
        judge(ck, ck.rng("long", i), ck.scratch.sub("long"), 9, "long", t + b"\n")


def fuzzing(ck, exe, i):
    """coverage guided, from generated grammars and the mistakes above"""
    r = ck.rng("fuzzing", i)
    seeds = []
    for _ in range(40):
        t, _ = emit(any_grammar(r), r, r.choice(["plain", "wide", "dense", "deco"]))
        b = t.encode("utf-8", "surrogateescape")
        seeds.append(b)
        if len(b) < 1000:
            seeds.append(mutate(r, b, [b])[1])
    seeds += [b"Tpp: " + pattern(r) + b";\nS = Tpp;" for _ in range(20)]
    seeds += [b"S = 'a';\n" + x.encode() for x in r.sample(WRONG, 20)]
    fuzz.fuzz(ck, exe, ck.scratch.sub("fuzz%d" % i), "grammar", [x for x in seeds if len(x) <= 600], fuzz.DICT_GRAMMAR, ck.n(20000, 400000), ck.n(40, 420), 600, tag=str(i))


def run(ck):
    ck.rule = ("a case is a text given to the generator with two options: status, messages, output file and the sanitizers are compared with a reference reader "
               "of the grammar language, which lists the mistakes of the text with code, lines and name; non trivial if distinct")
    ck.assumptions = ["whether a mutated token pattern is a valid regular expression is not decided, both answers are accepted then",
                      "conflicts of the automaton and their resolution belong to C10 and C11"]
    with open(os.path.join(ck.scratch.sub("long"), "t.tpl"), "w") as f:
        f.write(TPL)
    longtokens(ck)
    cases = limit_cases()
    ck.fork_map(lambda i: limit(ck, i, cases), len(cases))
    ck.fork_map(lambda i: explore(ck, i), ck.n(240, 2500))
    exe = fuzz.build()
    ck.fork_map(lambda i: fuzzing(ck, exe, i), 8)
