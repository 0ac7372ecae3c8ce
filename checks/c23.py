"""C23: the generator program writes complete files or fails with an error."""
import os, re, shutil
import vlib
from anygram import any_grammar
from gramtext import emit
from gengram import add_calls, structured_grammar, classify, comments_of
from luabatch import run_batch

VARS = ("luabin", "typesystem", "language", "cmdline", "automaton")
META = ["x", "a b", "my/lang", "it's", "100%", "%automaton%", "%luabin", "%%", "é", "x%language%y", "\\\\n", "%"]
FNS = ["f", "g1", "_h", "visit", "declare_x", "F" * 50]


def expand(t, val):
    """every occurrence of a variable is replaced, in one pass"""
    out, pos, start = [], 0, t.find("%")
    while start >= 0:
        end = t.find("%", start + 1)
        if end < 0:
            break
        v = val.get(t[start + 1:end])
        if v is None:
            start = end
        else:
            out.append(t[pos:start])
            out.append(v)
            pos = end + 1
            start = t.find("%", pos)
    return "".join(out) + t[pos:]


def template(r):
    if r.random() < 0.1:
        n = r.choice([4096, 8192, 4095, 4097])
        t = "-- %luabin% %automaton%" + "x" * n
        return t[:n]
    parts = ["%%%s%%" % v for v in VARS] + ["%", "%%", "%unknown%", "%automaton", "automaton%", "\n", "text ", "\0", "é", "%Luabin%", "% luabin%", "return ", "100% ", "\\", "%s%d", "%LUABIN%"]
    return "".join(r.choice(parts) for _ in range(r.randint(1, 25)))


def rd(fn):
    try:
        with open(fn, "rb") as f:
            return f.read().decode("utf-8", "surrogateescape")
    except OSError:
        return None


def wr(fn, s):
    with open(fn, "wb") as f:
        f.write(s.encode("utf-8", "surrogateescape"))


def opt(r, short, long, v):
    return r.choice([[short, v], [short + v], [long, v], [long + "=" + v]])


class Given:
    """a grammar with the reference outputs"""


def make(ck, r, d, i):
    for _ in range(40):
        g = structured_grammar(r)
        add_calls(g, r, 0.7, True)
        comments_of(g, r)
        if classify(g) == "slr":
            break
    g.meta = {}
    for k in ("LANGUAGE", "TYPESYSTEM", "CMDLINE"):
        if r.random() < 0.7:
            g.meta[k] = r.choice(META)
    mode = r.choice(["plain", "wide", "dense"])
    text, _ = emit(g, r, mode)
    if r.random() < 0.25:
        n = len(text.encode("utf-8", "surrogateescape")) + 2
        text += "\n#" + "c" * (-n % 4096 + r.choice([0, 0, 1, -1, 4096]) if n % 4096 else 0)
    x = Given()
    x.g, x.text, x.kind = g, text, r.choice(["ok", "ok", "ok", "conflict", "broken"])
    if x.kind == "conflict":
        kw = '"%s"' % "qq"
        x.text += "\nqamb = qamb %s qamb | %s ;" % (kw, '"qz"')
        # it has to be reachable
        m = g.prods[0].lhs
        nt = [p.lhs for p in g.prods[1:]]
        x.text += "\n%s = qamb %s;" % (nt[0], '"qy"')
    elif x.kind == "broken":
        x.text += r.choice(["\nunreach = \"u1\";", "\nX9 9", "\n%", "\n% NOSUCH x;", "\nx: \"[\";", "\n'", "\nx9 = ", "\nx9 = undefd9;"])
    x.file = os.path.join(d, r.choice(["g%d.g", "in put%d", "-g%d", "é%d.g"]) % i)
    wr(x.file, x.text)
    x.rp = {"grammar": x.text}
    return x


def reference(ck, x, d):
    """automaton, default output, debug output, description and stubs for the grammar"""
    t, o, e = (os.path.join(d, n) for n in ("ref.tpl", "ref.out", "ref.dbg"))
    wr(t, "%automaton%")
    p = vlib.run([ck.mewa, "-g", "-t", t, "-o", o, "-d", e, "--", x.file], cwd=d)
    if not ck.proc_ok(p, "mewa -g", x.rp):
        return False
    a = rd(o)
    if p.rc or a is None or not a.endswith("\n") or p.out:
        ck.violation("ref", "a valid grammar is not translated: rc %d %s" % (p.rc, p.err[:300]), x.rp)
        return False
    x.aut, x.dbg = a[:-1], rd(e)
    if not x.dbg:
        ck.violation("debug-empty", "option -d writes no debug output", x.rp)
        return False
    os.remove(o)
    p = vlib.run([ck.mewa, "-g", "-o", o, "--", x.file], cwd=d)
    s = rd(o) or ""
    m = x.g.meta
    val = {"luabin": "/usr/bin/lua", "typesystem": m.get("TYPESYSTEM", ""), "language": m.get("LANGUAGE", ""), "cmdline": m.get("CMDLINE", ""), "automaton": x.aut}
    if p.rc or not s.startswith("#!/usr/bin/lua\n") or s.count(x.aut) != 1 or 'require( "%s")' % val["typesystem"] not in s or val["cmdline"] and 'require( "%s")' % val["cmdline"] not in s:
        ck.violation("default-template", "output with the default template lacks parts: %r" % s[:200], x.rp)
        return False
    x.default, x.val = s[len("#!/usr/bin/lua"):-1], val
    for k in ("l", "s"):
        os.remove(o)
        p = vlib.run([ck.mewa, "-" + k, "-o", o, "--", x.file], cwd=d)
        s = rd(o)
        if p.rc or not s:
            ck.violation("ref-" + k, "option -%s fails for a valid grammar: rc %d %s" % (k, p.rc, p.err[:300]), x.rp)
            return False
        setattr(x, k, s)
    return True


def untouched(ck, fn, before, what, rp):
    if rd(fn) != before:
        ck.violation("output-touched", "%s: the output file was written" % what, rp)


def one(ck, r, x, d, n):
    cmd = r.choice(["g", "g", "g", "l", "s", ""])
    rp = dict(x.rp)
    opts = []
    if cmd:
        opts.append([r.choice(["-" + cmd, {"g": "--generate-compiler", "l": "--generate-language", "s": "--generate-template"}[cmd]])])
    luabin = tpl = out = dbg = None
    verbose = False
    bad = None
    if cmd in ("g", "l") and r.random() < 0.3:
        luabin = r.choice(["/bin/lua5.2", "lua x", "%automaton%", "x=y", "=", "%"])
        opts.append(opt(r, "-b", "--luabin", luabin))
    if cmd in ("g", "") and r.random() < 0.5:
        tpl = template(r)
        tf = os.path.join(d, r.choice(["t%d.tpl", "t%d=x"]) % n)
        wr(tf, tpl)
        opts.append(opt(r, "-t", "--template", tf))
    if cmd in ("g", "") and r.random() < 0.3:
        dbg = os.path.join(d, "d%d.txt" % n)
        opts.append(opt(r, "-d", "--dbgout", dbg))
    if r.random() < 0.3:
        verbose = True
        opts.append([r.choice(["-V", "--verbose"])])
    if cmd and r.random() < 0.7:
        out = os.path.join(d, r.choice(["o%d.lua", "o=%d", "o %d"]) % n)
        opts.append(opt(r, "-o", "--output", out))
    infile, shell = x.file, None
    kind = x.kind
    if kind == "ok" or r.random() < 0.15:
        bad = r.choice([None] * 8 + ["option", "nofile", "dirfile", "notpl", "dirtpl", "out", "out", "limit", "limit", "stdout", "dbg", "conflopt", "missing", "toomany", "novalue", "noin"])
    if bad in ("nofile", "noin") or bad == "dirfile":
        infile = os.path.join(d, "nosuch") if bad != "dirfile" else d
    elif bad == "option":
        opts.append([r.choice(["-x", "--bogus", "--outputs=x", "--output-file", "-", "--luabin2", "--verbos", "-sx", "-gg", "-Vx", "---", "--tem", "-lx", "--generate"])])
    elif bad in ("notpl", "dirtpl") and cmd == "g":
        opts = [o for o in opts if not re.match("-t|--temp", o[0])]
        opts.append(opt(r, "-t", "--template", os.path.join(d, "nosuch") if bad == "notpl" else d))
        tpl = ""
    elif bad == "out" and cmd:
        opts = [o for o in opts if not re.match("-o|--out", o[0])]
        wr(os.path.join(d, "plain"), "p")
        if not os.path.islink(os.path.join(d, "loop")):
            os.symlink("loop", os.path.join(d, "loop"))
        out = r.choice(["/dev/full", os.path.join(d, "no", "x"), d, os.path.join(d, "x" * 300), os.path.join(d, "plain", "x"), os.path.join(d, "loop")])
        opts.append(opt(r, "-o", "--output", out))
    elif bad == "dbg" and cmd in ("g", ""):
        opts = [o for o in opts if not re.match("-d|--dbg", o[0])]
        dbg = r.choice(["/dev/full", os.path.join(d, "no", "x"), d])
        opts.append(opt(r, "-d", "--dbgout", dbg))
    elif bad == "stdout" and cmd and out is None:
        shell = r.choice([">/dev/full", ">&-"])
    elif bad == "limit" and cmd and out is not None:
        shell = "limit"
        if cmd == "g" and r.random() < 0.7:
            opts = [o for o in opts if not re.match("-t|--temp", o[0])]
            tpl = template(r) + "x" * r.choice([4096, 9000, 20000, 100000])
            tf = os.path.join(d, "large%d.tpl" % n)
            wr(tf, tpl)
            opts.append(opt(r, "-t", "--template", tf))
    elif bad == "conflopt":
        extra = r.choice([["-g", "-s"], ["-s", "-l"], ["-g", "-l"], ["-g", "-g"], ["-s", "-b", "x"], ["-b", "x", "-s"], ["-s", "-dx"], ["--dbgout=x", "-s"], ["-s", "--template=" + x.file], ["-t" + x.file, "-s"], ["-l", "--luabin", "y", "-s"]])
        opts = [o for o in opts if re.match("-o|--out", o[0])] + [extra]
    elif bad == "missing":
        infile = None
    elif bad == "toomany":
        infile = [x.file, x.file]
    elif bad == "novalue":
        opts.append([r.choice(["-o", "--output", "-d", "--dbgout", "-b", "--luabin", "-t", "--template"])])
        if cmd == "s" and opts[-1][0] not in ("-o", "--output"):
            pass
        infile = r.choice([None, ["-V", x.file]])
    elif bad:
        bad = None
    keep = bad in ("novalue", "conflopt")
    if not keep:
        r.shuffle(opts)
    argv = [a for o in opts for a in o]
    sep = os.path.basename(x.file).startswith("-") or r.random() < 0.3
    if infile is not None and sep and bad != "novalue":
        argv.append("--")
    stdin = None
    if infile == x.file and r.random() < 0.1 and kind == "ok" and not shell:
        infile, stdin = "/dev/stdin", x.text
    if infile == x.file and sep and r.random() < 0.5:
        infile = os.path.basename(x.file)
    if infile:
        argv += infile if isinstance(infile, list) else [infile]
    old = r.choice([None, "old content\n"])
    isfile = out is not None and out.startswith(d) and os.path.dirname(out) == d and out != d and len(os.path.basename(out)) < 200 and not out.endswith("loop")
    if isfile:
        if os.path.lexists(out):
            os.remove(out)
        if old is not None:
            wr(out, old)
    # the expected content
    content = None
    if x.kind == "ok":
        if cmd == "g":
            if tpl:
                content = expand(tpl, dict(x.val, luabin=luabin or "/usr/bin/lua"))
            else:
                content = "#!" + (luabin or "/usr/bin/lua") + x.default
            content += "\n"
        elif cmd:
            content = getattr(x, cmd) + ("" if out else "\n")
        else:
            content = ""
    run = [ck.mewa] + argv
    lim = None
    if shell == "limit":
        if content is None:
            lim = 1
        else:
            size = len(content.encode("utf-8", "surrogateescape"))
            lim = r.choice([0, 1, r.randint(0, size // 1024), 4 * r.randint(0, size // 4096), size // 1024, (size + 1023) // 1024])
            ck.count("limit_of_large" if size > 4096 and lim * 1024 < size // 4096 * 4096 else "limit_of_small")
        run = ["bash", "-c", 'trap "" XFSZ; ulimit -f %d; exec "$@"' % lim, "x"] + run
    elif shell:
        run = ["bash", "-c", 'exec "$@" %s' % shell, "x"] + run
    p = vlib.run(run, cwd=d, inp=stdin)
    rp["args"] = run
    rp["files"] = {"template": tpl, "old": old}
    what = "mewa %s (%s, %s)" % (" ".join(argv)[:300], x.kind, bad or "no fault")
    ck.case(tuple(argv) + (x.text, tpl, shell), True, argv)
    if not ck.proc_ok(p, what, rp):
        return
    ck.count("options_" + (bad or x.kind))
    ok = x.kind == "ok" and bad is None
    # the grammar is not translated for other reasons than the fault
    if cmd in ("l", "s") and x.kind == "conflict":
        # conflicts are not looked for
        ok = None
    if bad == "limit" and x.kind == "ok":
        size = len(content.encode("utf-8", "surrogateescape"))
        ok = size <= lim * 1024
        if dbg and lim * 1024 < len(x.dbg.encode("utf-8", "surrogateescape")):
            ok = False
        elif verbose and cmd in ("g", "") and not dbg and lim * 1024 < len(x.dbg):
            return
        if ok:
            ck.count("within_limit")
        else:
            ck.count("beyond_limit")
    if bad == "dbg" and x.kind == "ok":
        ok = False
    if ok is None:
        return
    if x.kind == "broken" and cmd in ("l", "s") and bad is None:
        ok = False
    if ok:
        if p.rc:
            ck.violation("fails", "%s: exit status %d: %s" % (what, p.rc, p.err[:300]), rp)
            return
        got = rd(out) if out else p.out
        if got != content:
            k = next((i for i, (a, b) in enumerate(zip(got or "", content)) if a != b), min(len(got or ""), len(content)))
            ck.violation("content", "%s: output differs at %d: %r instead of %r" % (what, k, None if got is None else got[max(0, k - 20):k + 30], content[max(0, k - 20):k + 30]), rp)
            return
        if out and p.out:
            ck.violation("stdout", "%s: printed %r" % (what, p.out[:100]), rp)
        if dbg:
            if rd(dbg) != x.dbg:
                ck.violation("debug-file", "%s: debug output differs" % what, rp)
            if p.err:
                ck.violation("stderr", "%s: printed %r" % (what, p.err[:100]), rp)
        elif verbose and cmd in ("g", ""):
            if p.err != x.dbg:
                ck.violation("debug-stderr", "%s: debug output printed differs from the one written to a file" % what, rp)
        elif p.err:
            ck.violation("stderr", "%s: printed %r" % (what, p.err[:100]), rp)
    else:
        if p.rc == 0:
            ck.violation("status", "%s: exit status is 0: %s" % (what, p.err[:200]), rp)
            return
        if not p.err.strip() and bad != "limit":
            ck.violation("message", "%s: exit status %d without message" % (what, p.rc), rp)
        if bad in ("option", "conflopt", "missing", "toomany", "novalue") and "Usage" not in p.err:
            ck.violation("usage", "%s: no usage printed: %s" % (what, p.err[:200]), rp)
        if bad == "out" and "ERR" in p.err and out not in p.err and x.kind == "ok" and not dbg:
            ck.violation("names-file", "%s: the message does not name the file: %s" % (what, p.err[:300]), rp)
        if isfile and bad != "limit":
            untouched(ck, out, old, what, rp)
        if p.out and not shell:
            ck.violation("stdout", "%s: printed %r" % (what, p.out[:100]), rp)


def stubs(ck, todo, i):
    bodies = ["op(%d, 1, function() local m = assert( loadfile( %s))(); local t = {}; for k,v in pairs(m) do t[k] = debug.getinfo(v,'u').nparams end; return t end)" % (k, vlib.luastr(f)) for k, (f, g, rp) in enumerate(todo)]
    if not bodies:
        return
    p, res, done = run_batch(ck, "stubs%d" % i, bodies)
    ck.proc_ok(p, "loading of stubs", None)
    for k, (f, g, rp) in enumerate(todo):
        x = res.get(k, {}).get(1)
        if x is None or "e" in x:
            ck.violation("stubs-broken", "the typesystem template does not load: %r" % (x,), rp)
            continue
        got = x["r"][0] or {}
        exp = {}
        for q in g.prods:
            if q.call:
                exp.setdefault(q.call[0], set()).add(1 if q.call[1] is None else 2)
        text = rd(f)
        if set(got) != set(exp):
            ck.violation("stubs-names", "functions %r instead of %r" % (sorted(got), sorted(exp)), rp)
        for n in exp:
            if n in got and got[n] not in exp[n]:
                ck.violation("stubs-parameters", "function %s has %d parameters, called with %r" % (n, got[n], exp[n]), rp)
            if len(re.findall(r"function typesystem\.%s\(" % re.escape(n), text)) != 1:
                ck.violation("stubs-once", "function %s is not declared once" % n, rp)
        ck.count("stub_functions", len(exp))


def run(ck):
    per = ck.n(16, 24)

    def job(i):
        r = ck.rng("c23", i)
        d = ck.scratch.sub("j%d" % i)
        x = make(ck, r, d, i)
        if x.kind != "ok" or reference(ck, x, d):
            for n in range(per):
                one(ck, r, x, d, n)
        todo = []
        for k in range(4):
            g = any_grammar(r)
            for q in g.prods:
                if q.call:
                    q.call = (r.choice(FNS), q.call[1], None)
            text, _ = emit(g, r, "plain")
            gf, sf = os.path.join(d, "s%d.g" % k), os.path.join(d, "s%d.lua" % k)
            wr(gf, text)
            p = vlib.run([ck.mewa, "-s", "-o", sf, gf], cwd=d)
            if ck.proc_ok(p, "mewa -s", {"grammar": text}):
                if p.rc:
                    ck.violation("stubs-refused", p.err[:300], {"grammar": text})
                else:
                    todo.append((sf, g, {"grammar": text}))
        stubs(ck, todo, i)
        if i == 0:
            for o in (["-h"], ["--help"], ["-v"], ["--version"], ["-V", "-h"], ["-g", "-v"]):
                p = vlib.run([ck.mewa] + o, cwd=d)
                if p.rc or not (p.out + p.err):
                    ck.violation("info", "%r: exit status %d %r" % (o, p.rc, p.out), None)
            p = vlib.run([ck.mewa], cwd=d)
            if p.rc == 0 or "Usage" not in p.err:
                ck.violation("no-arguments", "exit status %d" % p.rc, None)
        shutil.rmtree(d, ignore_errors=True)
    ck.fork_map(job, ck.n(160, 2500))
    ck.rule = "runs are distinct by arguments, grammar, template and fault"
    ck.assumptions = ["the automaton itself is judged by the checks of the generated compilers, here only that every way to request it writes the same",
                      "which of several faults is reported is not decided"]
