"""C22: compiling any source ends in output or an error, and the next run works as if nothing had happened."""
import os, re, json
import vlib, fuzz
from gengram import *
from gram import generate, run_sources, TEMPLATE, Earley, Lexer, derive, leaves
from parsecheck import Expected
from pgrams import maker
from checks_c22_shapes import BIGGRAMMAR, BIGTEMPLATE, shapes

FAULTS = re.sub(r"local ok, msg = pcall\(compiler.run, compiler, nil, .*, arg\[i\]\)", lambda m: """local lim, gc, file = arg[i]:match("^@(%-?%d+),(%a*):(.*)$")
	if gc == "gc" then collectgarbage("setpause", 1) collectgarbage("setstepmul", 2000) elseif gc == "stop" then collectgarbage("stop")
	else collectgarbage("restart") collectgarbage("setpause", 200) collectgarbage("setstepmul", 200) end
	if tonumber(lim) >= 0 then collectgarbage() host.alloc_limit(tonumber(lim)) end
	local ok, msg = pcall(compiler.run, compiler, nil, nil, file)
	host.alloc_limit(-1)""", TEMPLATE)
assert FAULTS != TEMPLATE
BADUTF = [b"\xc3", b"\xe2\x86", b"\xf0\x9f\x98", b"\xff" * 5, b"\xf8\x88\x80\x80\x80", b"\xfd\xbf\xbf\xbf\xbf\xbf", b"\x80", b"\xbf\xbf", b"\xc0\x80", b"\xed\xa0\x80", b"\xfe", b"\xe2\x86\x92", b"\xc3\xa9"]


def hostile(g, r, good):
    """a source nobody would write; good: sentences of the grammar"""
    k = r.choice(["bytes", "bytes", "random", "soup", "utf", "utf", "trunc", "nul", "open", "dup", "swap", "ctl", "comment", "numbers", "repeat", "join", "cr", "end"])
    b = bytearray(r.choice(good))
    pieces = [x.encode("utf-8", "surrogateescape") for x in g.keywords()] + [v(r).encode("utf-8", "surrogateescape") for v in g.valgen.values() if v] + [o.encode() for o, _ in g.comments] + [c.encode() for _, c in g.comments if c]
    at = lambda: r.randint(0, len(b))
    if k == "bytes":
        for _ in range(r.choice([1, 1, 2, 5, 20])):
            i = at()
            b[i:i + r.choice([0, 0, 1, 1, 3])] = bytes(r.choice([r.randrange(256), r.choice(b"\0\n\"'/*#\\ \xff")]) for _ in range(r.choice([0, 1, 1, 2])))
    elif k == "random":
        b = bytearray(r.randrange(256) for _ in range(r.choice([0, 1, 3, 30, 400])))
    elif k == "soup":
        b = bytearray(r.choice([b" ", b"", b"\n"]).join(r.choice(pieces or [b"x"]) for _ in range(r.choice([1, 5, 30, 120]))))
    elif k == "utf":
        i = r.choice([0, len(b), at()])
        b[i:i] = r.choice(BADUTF) + (b"" if r.random() < 0.5 else r.choice(BADUTF))
    elif k == "trunc":
        b = b[:at()]
    elif k == "nul":
        for _ in range(r.choice([1, 1, 3])):
            i = r.choice([0, len(b), at()])
            b[i:i] = b"\0" * r.choice([1, 1, 7])
    elif k == "open":
        i = at()
        b[i:i] = r.choice([o.encode() for o, _ in g.comments] + [b'"', b"'", b"/*", b"<<", b"[[", b"${", b"(*"])
    elif k == "dup":
        i, j = sorted((at(), at()))
        b[i:i] = b[i:j] * r.choice([1, 2, 10])
    elif k == "swap":
        i, j = sorted((at(), at()))
        b = b[j:] + b[i:j] + b[:i]
    elif k == "ctl":
        i = at()
        b[i:i] = bytes(r.choice([1, 7, 8, 9, 11, 12, 13, 26, 27, 28, 31, 127]) for _ in range(r.randint(1, 5)))
    elif k == "comment" and g.comments:
        o, c = r.choice(g.comments)
        i = at()
        b[i:i] = o.encode() + r.choice([b"", b"x", b"\0", b"\xff\xfe", o.encode(), b"*", b"/"]) + (c.encode() if c and r.random() < 0.6 else b"\n")
    elif k == "numbers":
        i = at()
        b[i:i] = r.choice([b"9" * 400, b"0x" + b"f" * 300, b"1.5e" + b"9" * 30, b"-" * 50])
    elif k == "repeat" and pieces:
        b[at():] = r.choice([b" ", b"", b"\n"]).join([r.choice(pieces)] * r.choice([50, 300])) + bytes(b)
    elif k == "join":
        b = bytearray(r.choice([b"", b" ", b"\n"]).join(r.choice(good) for _ in range(r.choice([2, 5]))))
    elif k == "cr":
        b = bytearray(bytes(b).replace(b"\n", b"\r\n") if r.random() < 0.5 else bytes(b).replace(b"\n", b"\r"))
    elif k == "end":
        b += r.choice([b"\n" * 50, b"\x1a", b"\0", b" " * 500, b"\xff", b"\\", b"#", b"//", b"--"])
    return k, bytes(b)


def explore(ck, i):
    r = ck.rng("src", i)
    g = maker(["structured", "structured", "random"])(r)
    if g is None:
        ck.count("grammars_not_used")
        return
    if r.random() < 0.3:
        g.ignores.append(r.choice(["[`]+", "[~][^~]*[~]", "@@[a-z]*"]))
    d = ck.scratch.sub("s%d" % i)
    text = g.text(r, None)
    gen = generate(ck, d, text, template=FAULTS)
    if not ck.proc_ok(gen.p, "generating a parser for\n" + text, {"grammar": text}) or not gen.ok:
        ck.count("grammars_rejected")
        return
    ear, lx = Earley(g), Lexer(g)
    good = []
    for _ in range(6):
        t = derive(g, r, r.choice([3, 8, 20, 50]))
        good.append(layout(g, r, [l[1] for l in leaves(t)]))
    good = [x for x in good if Expected(g, x, ear, lx).kind == "ok" and len(x) < 3000] or [None]
    if good == [None]:
        ck.count("grammars_not_used")
        return
    canary = max(good, key=len)
    plan = [(canary, "canary", "@-1,:")]
    for _ in range(ck.n(12, 25)):
        k, b = hostile(g, r, good)
        if r.random() < 0.25:
            k, b = "hostile2", hostile(g, r, [b])[1]
        if max(map(len, re.findall(rb"[^\n]*", b))) > 4000 or len(b) > 12000:
            continue
        pre = "@-1,:"
        x = r.random()
        if x < 0.15:
            pre, k = "@%d,:" % r.choice([0, r.randint(0, 300), r.randint(0, 3000), r.randint(0, 30000)]), "memory"
            b = r.choice([b, canary])
        elif x < 0.3:
            pre = "@-1,gc:"
        elif x < 0.35:
            pre = "@-1,stop:"
        plan.append((b, k, pre))
        plan.append((canary, "canary", r.choice(["@-1,:", "@-1,:", "@-1,gc:"])))
    p, res = run_sources(ck, d, gen.out, [x[0] for x in plan], timeout=120, prefixes=[x[2] for x in plan])
    rp = {"grammar": text, "sources": [(x[0].decode("latin-1"), x[1], x[2]) for x in plan]}
    if not ck.proc_ok(p, "compiling hostile sources with\n" + text, rp):
        return
    if not p.done:
        ck.violation("stopped", "the sequence of runs stopped with status %r: %s\n%s" % (p.rc, p.err[-1000:], text), rp)
        return
    first = res[0]
    for (b, k, pre), x in zip(plan, res):
        ck.count("runs_" + k)
        where = "source %r (%s) of\n%s\n" % (b[:600], k, text)
        if k == "canary":
            if x.tops != first.tops or x.ok != first.ok or x.msg != first.msg:
                ck.violation("next-run", "the result of a run changes after other runs: %r, before: %r\n%s" % ((x.ok, x.msg, x.tops[:1]), (first.ok, first.msg, first.tops[:1]), where), rp)
                return
            continue
        ck.case((text, b), True)
        if k == "memory":
            ck.count("memory_failed" if not x.ok else "memory_passed")
            continue
        if not x.done:
            ck.violation("no-result", "no result for the " + where, rp)
            return
        e = Expected(g, b, ear, lx)
        ck.count("outcome_" + e.kind)
        if x.ok:
            got = "ok"
        else:
            got = {501: "lex", 601: "syntax", 586: "ok"}.get(x.code(), "other")
        if got != e.kind:
            ck.violation("outcome", "%s is answered with %s %r, expected %s at line %r" % (where, got, x.msg, e.kind, e.line), rp)
            return
        if e.kind != "ok" and x.line() != e.line:
            ck.violation("error-line", "%s is answered with %r, expected line %r" % (where, x.msg, e.line), rp)
            return
        if e.kind != "ok" and x.tops:
            ck.violation("called", "%s has an error, but functions were called: %r" % (where, x.tops[:1]), rp)
            return


# ---- sources of any size ---------------------------------------------------------------------------------------------
def big_run(ck, d, out, files, timeout):
    p = vlib.run([ck.luahost, out] + files, cwd=d, timeout=timeout)
    rows = []
    for line in p.out.split("\n"):
        if line.startswith("R "):
            rows.append(line[2:].split("\t"))
    return p, rows


def big(ck, j):
    d = ck.scratch.sub("big%d" % j)
    out = os.path.join(d, "big.lua")
    g = generate(ck, d, BIGGRAMMAR, template=BIGTEMPLATE, name="big")
    if not ck.proc_ok(g.p, "generating the parser of the large sources", {}) or not g.ok:
        raise RuntimeError("the grammar of the large sources is rejected: " + g.p.err)
    r = ck.rng("big", j)
    names = sorted(shapes)
    nm = names[j % len(names)]
    for size in ck.n([1, 4000, 20000], [1, 2, 5000, 60000]):
        n = size if size < 10 else r.randint(size, size + size // 4)
        mult = 8
        files, want, small = [], [], shapes["parens"](17, r)
        for tag, m in (("a", n), ("canary", None), ("b", n * mult), ("canary", None)):
            src, exp = small if m is None else shapes[nm](m, r)
            fn = os.path.join(d, "%s%d" % (tag, len(files)))
            with open(fn, "wb") as f:
                f.write(src)
            files.append(fn)
            want.append(exp)
        p, rows = big_run(ck, d, out, files, 240)
        rp = {"shape": nm, "n": n}
        if not ck.proc_ok(p, "compiling the large source '%s' of %d and %d elements" % (nm, n, n * mult), rp, nm + ":"):
            return
        for f, w, row in zip(files, want, rows):
            ck.case((nm, n, f[-3:]))
            ck.count("large_sources")
            ck.count("large_bytes", os.path.getsize(f))
            got = row[0]
            if got != w:
                ck.violation("large:" + nm, "the source '%s' of %d elements ends with %s, expected %s" % (nm, n, got[:300], w[:300]), rp)
                break
        if len(rows) != 4:
            ck.violation("large-stop:" + nm, "the runs on the source '%s' stopped with status %r: %s" % (nm, p.rc, p.err[-500:]), rp)
            return
        if size >= 1000:
            ratio = []
            for _ in range(4):
                ta, tb = float(rows[0][1]), float(rows[2][1])
                ratio.append((tb - 0.3) / max(ta, 0.01) / mult)
                if ratio[-1] < 4:
                    break
                _, rows = big_run(ck, d, out, files, 600)
                if len(rows) != 4:
                    break
            if min(ratio) >= 4:
                ck.violation("time:" + nm, "the time for the source '%s' grows by %s times its size when it is %d times as long (%d elements)" % (nm, ["%.1f" % x for x in ratio], mult, n), rp)


def longtoken(ck):
    """tokens of any length"""
    d = ck.scratch.sub("long")
    g = generate(ck, d, 'ID: "[a-z]+";\nSTR: \'["][^"]*["]\';\nS = v (f);\nv = ID | STR;\n')
    if not ck.proc_ok(g.p, "grammar with words and strings", {}, "longtoken-grammar:") or not g.ok:
        return ck.violation("longtoken-grammar", "the grammar is not accepted: %s" % g.p.err[:300], {})
    for n in (10, 1000, 2500):
        for src in (b"x" * n, b'"' + b"y" * n + b'"'):
            p, res = run_sources(ck, d, g.out, [src])
            if ck.proc_ok(p, "token of %d characters" % n, {"n": n}, "token%d:" % n) and not (res[0].ok and res[0].tops[0][4][-1][3] == src):
                ck.violation("token-length", "the token of %d characters is answered with %r" % (n, res[0].msg), {"n": n})
            ck.case(("token", n, src[:1]))
    for src in (b"x" * 300000, b'"' + b"y" * 300000 + b'"'):
        p, res = run_sources(ck, d, g.out, [src])
        if "stack-overflow" in p.err and "regex_executor" in p.err:
            ck.violation("long-token", "a token of %d characters crashes the compiler" % len(src), {"n": len(src)})
        elif ck.proc_ok(p, "token of %d characters" % len(src), {}, "longtoken:") and not (res[0].ok and res[0].tops[0][4][-1][3] == src) and not res[0].code():
            ck.violation("long-token-result", "a token of %d characters is answered with %r" % (len(src), res[0].msg), {})


def fuzzing(ck, exe, i):
    """coverage guided sources for some grammars, see lua/fuzzsource.lua"""
    r = ck.rng("fuzzing", i)
    d = ck.scratch.sub("fuzz%d" % i)
    tables, seeds, texts = [], [], []
    for _ in range(60):
        g = maker(["structured", "structured", "random"])(r)
        if g is None:
            continue
        if r.random() < 0.3:
            g.ignores.append(r.choice(["[`]+", "[~][^~]*[~]", "@@[a-z]*"]))
        text = g.text(r, None)
        gen = generate(ck, d, text, template="return %automaton%")
        if not ck.proc_ok(gen.p, "generating a parser for\n" + text, {"grammar": text}) or not gen.ok:
            continue
        mine = [layout(g, r, [l[1] for l in leaves(derive(g, r, r.choice([3, 8, 20])))]) for _ in range(10)]
        mine += [hostile(g, r, mine)[1] for _ in range(10)]
        seeds += [bytes([len(tables)]) + b for b in mine if len(b) < 500]
        tables.append("%s/g%d.lua" % (d, len(tables)))
        os.rename(gen.out, tables[-1])
        texts.append(text)
        if len(tables) == 4:
            break
    if tables:
        fuzz.fuzz(ck, exe, d, "source", seeds, fuzz.DICT_SOURCE, ck.n(60000, 3000000), ck.n(30, 420), 600, tag=str(i),
                  env={"FUZZ_TABLES": ":".join(tables), "FUZZ_SCRIPT": os.path.join(vlib.VERIF, "lua", "fuzzsource.lua")}, context="of one of the grammars\n" + "\n----\n".join(texts))


def run(ck):
    ck.rule = ("a case is a (grammar, source) pair; between hostile sources a fixed sentence is compiled, whose result must not change; large sources are non trivial if their size differs")
    ck.assumptions = ["the time is measured as processor time of sources of size n and 8n; a factor of 4 above proportional is reported after four measurements",
                      "runs under an allocation limit are only observed for crashes and for the runs that follow"]
    longtoken(ck)
    ck.fork_map(lambda j: big(ck, j), len(shapes) * ck.n(1, 2))
    ck.fork_map(lambda i: explore(ck, i), ck.n(1200, 20000))
    exe = fuzz.build()
    ck.fork_map(lambda i: fuzzing(ck, exe, i), 8)
