"""C19: hexadecimal floating point constants for LLVM IR against exact arithmetic."""
import os, struct, math, re
from fractions import Fraction
import vlib
from luabatch import PRELUDE


def dbits(x):
    return "%016X" % struct.unpack(">Q", struct.pack(">d", x))[0]


def round_float(q):
    """the float next to a rational number, ties to even; as a Python float"""
    if q == 0:
        return 0.0
    s, a = (-1.0 if q < 0 else 1.0), abs(q)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a:
        e -= 1
    e = max(e, -126)
    ulp = Fraction(2) ** (e - 23)
    n = a / ulp
    k = n.numerator // n.denominator
    r = n - k
    if r > Fraction(1, 2) or r == Fraction(1, 2) and k & 1:
        k += 1
    v = k * ulp
    if v >= Fraction(2) ** 128:
        return s * math.inf
    return s * float(v)


def expected(x, kind):
    if kind == "double" or math.isinf(x):
        return dbits(x)
    if x == 0:
        return dbits(x)
    r = round_float(Fraction(x))
    return dbits(math.copysign(r, x))


def values(rng, n):
    out = [0.0, -0.0, 1.0, -1.0, 4.21, 4.25, 0.1, math.inf, -math.inf, 5e-324, -5e-324, 2.2250738585072014e-308, 2.225073858507201e-308,
           1.7976931348623157e308, -1.7976931348623157e308, 3.4028234663852886e38, 3.4028235677973366e38, 3.4028235677973362e38, 3.402823669209385e38, -3.4028235677973366e38,
           1.1754943508222875e-38, 1.1754942807573643e-38, 1.401298464324817e-45, 7.006492321624085e-46, 7.006492321624086e-46, 7.006492321624084e-46, 2.1019476964872256e-45,
           16777216.0, 16777217.0, 16777219.0, 33554433.0, 1e10, 1e39, -1e39, 1e-46, 1e-300, 2 ** 63, 2 ** 64, 2 ** 127, 2 ** 128, 2.0 ** -149, 2.0 ** -150, 2.0 ** -126]
    while len(out) < n:
        k = rng.random()
        if k < 0.3:
            x = struct.unpack(">d", struct.pack(">Q", rng.getrandbits(64)))[0]
        elif k < 0.55:
            # around the boundaries between floats
            f = struct.unpack(">f", struct.pack(">I", rng.getrandbits(32)))[0]
            if math.isnan(f) or math.isinf(f):
                continue
            g = struct.unpack(">f", struct.pack(">I", (struct.unpack(">I", struct.pack(">f", f))[0] + 1) & 0xffffffff))[0]
            x = (f + g) / 2 if not math.isnan(g) and not math.isinf(g) else f
            if rng.random() < 0.6:
                x = struct.unpack(">d", struct.pack(">Q", max(0, struct.unpack(">Q", struct.pack(">d", x))[0] + rng.choice([-1, 1]))))[0]
        elif k < 0.7:
            # denormal floats
            x = rng.choice([-1, 1]) * rng.getrandbits(rng.randint(1, 30)) * 2.0 ** -rng.randint(145, 160)
        elif k < 0.85:
            x = float("%.*g" % (rng.randint(1, 17), rng.uniform(-1, 1) * 10 ** rng.randint(-40, 40)))
        else:
            x = float(rng.randint(-2 ** rng.randint(1, 70), 2 ** rng.randint(1, 70)))
        if not math.isnan(x):
            out.append(float(x))
    return [float(x) for x in out]


def texts(rng, x):
    """a text for a number and the number it stands for"""
    k = rng.randint(0, 5)
    if math.isinf(x):
        return ("1e999" if x > 0 else "-1e999"), x
    if k == 0:
        return repr(x), x
    if k == 1:
        return x.hex(), x
    if k == 2:
        return " %s \t" % repr(x), x
    if k == 3 and abs(x) < 2 ** 70 and x == int(x):
        return "%d" % int(x), float(int(x)) if int(x) else 0.0
    if k == 4:
        t = "%.*e" % (rng.randint(0, 20), x)
        return t, float(t)
    t = "%.*f" % (rng.randint(1, 30), x)
    return t, float(t)


BAD = ["", "x", "1x", "nan", "inf", "0x", "1e", "--1", "1,5", "1 2", "\\0", "1\\0", "0b1", "1e+", ".", "{}"]


def job(ck, i, n):
    rng = ck.rng(i)
    xs = values(rng, n)
    cases = []
    for x in xs:
        kind = rng.choice(["double", "float"])
        if rng.random() < 0.1:
            t, v = texts(rng, x)
            cases.append((kind, vlib.luastr(t), v, t))
        else:
            lit = repr(x) if not math.isinf(x) else ("math.huge" if x > 0 else "-math.huge")
            if x == 0 and math.copysign(1, x) < 0:
                lit = "-zero"
            cases.append((kind, lit, x, None))
    L = [PRELUDE, "zero = 0"]
    for k, (kind, lit, x, t) in enumerate(cases):
        L.append("op(%d,0,mewa.llvm_%s_tohex,%s)" % (k, kind, lit))
    nb = len(cases)
    for b in BAD:
        for kind in ("double", "float"):
            L.append('op(%d,1,mewa.llvm_%s_tohex,"%s")' % (nb, kind, b))
            nb += 1
    for kind in ("double", "float"):
        L.append("op(%d,2,mewa.llvm_%s_tohex,0/0)" % (nb, kind))
        nb += 1
    L.append('io.write("#DONE\\n")')
    d = ck.scratch.sub("v%d" % i)
    fn = os.path.join(d, "t.lua")
    with open(fn, "w") as f:
        f.write("\n".join(L) + "\n")
    p = vlib.run([ck.luahost, fn], cwd=d, timeout=60)
    rp = {"round": i}
    if not ck.proc_ok(p, "converting numbers", rp):
        return
    got = {}
    for line in p.out.split("\n"):
        m = re.match(r'#(\d+) (\d) (.*)$', line)
        if m:
            got[int(m.group(1))] = (int(m.group(2)), m.group(3))
    if "#DONE" not in p.out:
        ck.violation("stopped", "the script stopped: %s\n%s" % (p.out[-300:], p.err[-1000:]), rp)
        return
    for k, (kind, lit, x, t) in enumerate(cases):
        want = {expected(x, kind)}
        if t is not None and kind == "float" and not math.isinf(x):
            # a text may be rounded to float directly
            try:
                q = Fraction(float.fromhex(t)) if "0x" in t else Fraction(t.strip())
                want.add(dbits(math.copysign(round_float(q), x)))
            except ValueError:
                pass
        r = got.get(k, (0, "none"))[1]
        ck.case((kind, lit), x != 0)
        ck.count(kind + ("_text" if t is not None else "_number"))
        if t is not None and r.startswith('{"e":"#412'):
            ck.count("text_refused")
            continue
        m = re.match(r'\{"r":\["([0-9A-F]{16})"\]\}$', r)
        if not m or m.group(1) not in want:
            key = "format" if not m else "%s:%s" % (kind, "inf" if math.isinf(x) else "zero" if x == 0 else "denormal" if abs(x) < (2.0 ** -126 if kind == "float" else 2.0 ** -1022) else "normal")
            ck.violation(key, "llvm_%s_tohex( %s): %s expected, got %s" % (kind, lit, sorted(want), r), {"call": "llvm_%s_tohex(%s)" % (kind, lit)})
    for k in range(len(cases), nb):
        tag, r = got.get(k, (0, "none"))
        if tag == 1:
            ck.count("no_number")
            if '{"e":' not in r:
                ck.violation("no-number", "text that is no number converted: %r -> %s" % (L[k + 2], r), rp)
        else:
            m = re.match(r'\{"r":\["([7F]F[F8][0-9A-F]{13})"\]\}$', r)
            v = m and struct.unpack(">d", bytes.fromhex(m.group(1)))[0]
            if not m or v == v:
                ck.violation("nan", "NaN expected, got %s" % r, rp)


def run(ck):
    ck.fork_map(lambda i: job(ck, i, 5000), ck.n(64, 800))
    ck.rule = "a case is distinct by function and argument; non-trivial if the number is not zero"
    ck.assumptions = ["the sign and payload of NaN are not fixed; texts are refused or taken as the number they denote, which may be rounded to float directly or by way of a double"]
