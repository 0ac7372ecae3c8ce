"""C17: a compiler run writes exactly the output of the run or fails."""
import os, re, shutil
import vlib
from vlib import luastr

GRAMS = ['NUM: "[0-9]+"; S = L; L = L I | ; I = NUM (act);',
         'NUM: "[0-9]+"; S = L; L = I L | ; I = NUM ";" (act 1);',
         'NUM: "[0-9]+"; S = L; L = L I | I ; I = "x" NUM (>>act {a=1}) | "{" NUM "}" ({}act "y");']
ITEM = [lambda k, r: "%d" % k, lambda k, r: "%d ;" % k, lambda k, r: r.choice(["x %d", "{%d}"]) % k]
EXTRA = [False, True, True]
TPL = "mewa = require('mewa')\ntypesystem = {act = act}\nreturn mewa.compiler( %automaton%)\n"
NAMES = ["Code", "Code", "Init", "a", "", "x y", "Source2", "\u00c4", "Code1", "_x", "1", "a-b", "Zz9", "n\0n"]
PARTS = ["{", "}", "{{", "}}", "{ i32 }", "{unknown}", "{Source}", "{Triple}", "\0", "\n", "text ", "{Un_known9}", "{n\u00f6}", "{x y", "{ {Code} }", "{Code", "{{Init}}", "%struct = type { i8*, i64 }\n", "\xff", "{1a}", "{Code}{Code}", "{code}", "{Cod e}"]
STR = ["", "a", "line\n", "\0", "nul\0inside", "{Code}", "{Init}", "{Source}", "}{", "%s%d%n", "\u00fc", "\xfe\xff", "x" * 5000, "\r\n", "tab\t", "<nil>"]


def tobytes(s):
    """characters up to \xff that are not text are single bytes"""
    out = b""
    for c in s:
        out += bytes([ord(c)]) if c in "\xfe\xff" else c.encode("utf-8")
    return out


def ident(k):
    return len(k) >= 2 and (k[:1].isalpha() or k[:1] == b"_") and all(c in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_" for c in k)


class Skip(Exception):
    pass


def expand(t, m):
    out, pos, s = [], 0, t.find(b"{")
    while s >= 0:
        e = t.find(b"}", s + 1)
        if e < 0:
            break
        k = t[s + 1:e]
        if k in m or ident(k):
            out.append(t[pos:s])
            out.append(m.get(k, b""))
            pos = e + 1
            s = t.find(b"{", pos)
        else:
            if not k:
                raise Skip()
            s = t.find(b"{", s + 1)
    return b"".join(out) + t[pos:]


def value(r):
    """(Lua text, bytes printed)"""
    k = r.random()
    if k < 0.004:
        n = r.choice([65535, 65536, 100000, 300001])
        return "string.rep('ab\\n{', %d)" % n, b"ab\n{" * n
    if k < 0.6:
        b = tobytes(r.choice(STR) if r.random() < 0.6 else "".join(r.choice("abc{}\n\0\"'\\") for _ in range(r.randint(0, 12))))
        return luastr(b), b
    if k < 0.8:
        n = r.choice([0, 1, -1, 42, 123456789, 0.5, -2.25, 1e15])
        return repr(n), (b"%d" % n if n == int(n) and abs(n) < 1e14 else b"1e+15" if n == 1e15 else repr(n).encode())
    if k < 0.9:
        return "nil", b"<nil>"
    b = r.choice(["true", "false"])
    return b, b.encode()


class Fail(Exception):
    pass


class Sim:
    """the model: what the runs of a script have to write"""

    def __init__(self, ck, r, d):
        self.ck, self.r, self.d = ck, r, d
        self.acts, self.maps, self.out, self.err = [], {}, [], []
        self.files, self.debug, self.lua, self.nrun = {}, {}, [], 0
        self.saved = None
        self.ngram = r.randint(1, 3)
        self.comps = []         # index of the grammar
        for _ in range(r.randint(1, 3)):
            self.comps.append(r.randrange(self.ngram))
        self.debugfiles = []

    def path(self, name):
        return os.path.join(self.d, name)

    def write(self, name, b):
        with open(self.path(name), "wb") as f:
            f.write(b)

    # ---- making
    def vals(self):
        v = [value(self.r) for _ in range(self.r.choice([0, 1, 1, 2, 3]))]
        return ",".join(x for x, _ in v), b"".join(x for _, x in v)

    def action(self, depth):
        r = self.r
        k = r.random()
        if k < 0.3:
            a = ("print",) + self.vals()
            lua = "print(%s)" % a[1]
        elif k < 0.6:
            n = r.choice(NAMES + [None])
            a = ("section", tobytes(n or "")) + self.vals()
            lua = "print_section(%s)" % ", ".join(x for x in [luastr(tobytes(n)) if n is not None else "nil", a[2]] if x)
        elif k < 0.72:
            u = "dbg%d" % len(self.acts)
            l, b = self.vals()
            a = ("debug", u.encode() + b)
            lua = "debug(%s)" % ", ".join(x for x in ['"%s"' % u, l] if x)
        elif k < 0.76:
            a = ("error", "MSG%d" % len(self.acts))
            lua = r.choice(["error('%s')", "error('%s', 0)", "error('Error at line 7: %s', 0)", "error('Error at line 7 %s', 0)", "error('Error at line 3 in file \"x.y\": %s', 0)",
                            "error('#99999999999 %s', 0)", "error('#12 %s', 0)", "error('#501 \"%s\"', 0)", "error('#501 \"' .. string.rep('x',500) .. '\" %s', 0)", "error('#403 \"Runtime error exception\" at line 5 %s', 0)", "error('#423 \"Compile error\" at line 77777777777: %s', 0)",
                            "error(string.rep('x', 3000) .. '%s')", "assert(false, '%s')", "error('#0 \"\" %s', 0)", "error('Error at line %s', 0)", "mewa.typedb('%s', 1, 2)"][:-1]) % a[1]
        elif k < 0.80:
            a = ("co",) + self.vals()
            lua = "coroutine.wrap(function() print(%s) end)()" % a[1]
        elif k < 0.83:
            a = ("nothing",)
            lua = r.choice(["assert( not pcall( print_section))", "assert( not pcall( print_section, {}))", "collectgarbage()", "assert( not pcall( CL[1].run, CL[1]))"])
        elif k < 0.86:
            a = ("save",)
            lua = "SAVED = print"
        elif k < 0.9:
            a = ("saved",) + self.vals()
            lua = "if SAVED then SAVED(%s) end" % a[1]
        elif depth < 2:
            s = self.spec(depth + 1)
            a = ("nested", s, r.random() < 0.5)
            lua = ("pcall( runx, %s)" if a[2] else "runx( %s)") % s["lua"]
        else:
            a = ("print",) + self.vals()
            lua = "print(%s)" % a[1]
        self.acts.append(a)
        self.lua.append("ACT[%d] = function() %s end" % (len(self.acts), lua))
        return len(self.acts)

    def template(self):
        r = self.r
        for _ in range(30):
            t = tobytes("".join(r.choice(PARTS + ["{%s}" % n for n in NAMES if n]) for _ in range(r.randint(0, 14))))
            if r.random() < 0.1:
                n = r.choice([4096, 8192, 4095, 65536, 200000])
                t = (t + b"." * n)[:n]
            try:
                expand(t, {})
                return t
            except Skip:
                continue
        return b"{Code}"

    def spec(self, depth=0):
        r, n = self.r, self.nrun
        self.nrun += 1
        ci = r.randrange(len(self.comps))
        gi = self.comps[ci]
        s = {"n": n, "comp": ci, "fault": None}
        acts = [self.action(depth) for _ in range(r.choice([0, 1, 2, 3, 5, 8] if depth == 0 else [1, 2]))]
        if gi == 2 and not acts:
            acts = [self.action(2)]
        items = [ITEM[gi](k, r) for k in acts]
        if r.random() < 0.08:
            s["fault"] = "source"
            items.insert(r.randint(0, len(items)), r.choice(["?", "= =", "\x01$", "; ;", "x x"]))
        s["acts"] = acts
        src = r.choice(["s%d.src", "s %d", "s%d.x.y"]) % n
        self.write(src, r.choice([" ", "\n", "\t\n "]).join(items).encode())
        s["source"] = src if r.random() < 0.5 else self.path(src)
        if r.random() < 0.04:
            s["fault"] = "nosource"
            s["source"] = r.choice(["nosuch", ".", self.d, "x" * 300, "nodir/x"])
        s["template"], s["target"] = b"", None
        if r.random() < 0.9:
            s["template"] = self.template()
            base = r.choice(["t%d.tpl", "t%d", "x.y%d.z", ".t%d", "\u00e9%d.t", "sub.d/t%d"]) % n
            self.write(base, s["template"])
            s["target"] = base if r.random() < 0.5 else self.path(base)
            bn = os.path.basename(base)
            s["triple"] = (bn[:bn.rindex(".")] if bn.rfind(".") > 0 else bn).encode()
            if r.random() < 0.04:
                s["fault"] = "notarget"
                s["target"] = r.choice(["nosuch", self.d, "y" * 256, "nodir/x"])
        k = r.random()
        s["old"] = None
        if k < 0.55:
            s["output"] = r.choice(["o%d.ll", "o %d", "sub.d/o%d"]) % n
            if r.random() < 0.5:
                s["old"] = b"old content " * r.choice([1, 1000])
                self.write(s["output"], s["old"])
            self.files[s["output"]] = s["old"]
            if r.random() < 0.5:
                s["output"] = self.path(s["output"])
        elif k < 0.8:
            s["output"] = r.choice(["stdout", None])
        elif k < 0.92:
            s["output"] = "stderr"
        else:
            s["output"] = r.choice(["/dev/full", "nodir/x", self.d, "z" * 300, "s%d.src/x" % n])
            s["fault"] = s["fault"] or "output"
            s["writes"] = True
        s["dbg"] = None
        if r.random() < 0.35:
            s["dbg"] = "d%d.txt" % n
            if r.random() < 0.1:
                s["dbg"] = r.choice(["/dev/full", "nodir/d", self.d])
                s["fault"] = "debug"
        s["opt"] = r.choice(["nil", "nil", "OPT1", "OPT2", "'o%d'" % n, "false"])
        q = lambda x: "nil" if x is None else luastr(x.encode() if isinstance(x, str) else x)
        s["lua"] = "%d, %d, %s, %s, %s, %s, %s" % (n, ci + 1, s["opt"], q(s["target"]), q(s["source"]), q(s["output"]), q(s["dbg"]))
        return s

    # ---- model
    def top(self, ci):
        return self.maps.setdefault(ci, [{}])[-1]

    def run(self, s):
        """True if the run succeeds"""
        self.msg = None
        if s["fault"] in ("source", "nosource", "notarget", "debug"):
            return False
        ci = s["comp"]
        self.maps.setdefault(ci, [{}]).append({})
        m = self.maps[ci][-1]
        dbg = []
        try:
            for k in s["acts"]:
                a = self.acts[k - 1]
                if a[0] == "print" or a[0] == "co":
                    m[b"Code"] = m.get(b"Code", b"") + a[2]
                elif a[0] == "section":
                    m[a[1]] = m.get(a[1], b"") + a[3]
                elif a[0] == "debug":
                    if s["dbg"] is None:
                        self.err.append(a[1] + b"\n")
                    else:
                        dbg.append(a[1] + b"\n")
                elif a[0] == "error":
                    self.msg = a[1]
                    return False
                elif a[0] == "save":
                    self.saved = ci
                elif a[0] == "saved":
                    if self.saved is not None:
                        t = self.top(self.saved)
                        t[b"Code"] = t.get(b"Code", b"") + a[2]
                elif a[0] == "nested":
                    if not self.run(a[1]) and not a[2]:
                        return False
                    self.msg = None     # of the nested run, caught
                    self.ck.count("nested_runs")
        finally:
            self.maps[ci].pop()
            if s["dbg"] is not None:
                self.debugfiles.append((s["dbg"], dbg))
        m[b"Source"] = s["source"].encode()
        m[b"Triple"] = s.get("triple", b".")
        if s["fault"] == "output":
            if s["output"] == "/dev/full" and not expand(s["template"], m):
                return None     # nothing to write
            return False
        try:
            o = expand(s["template"], m)
        except Skip:
            o = None
        if s["output"] in ("stdout", None):
            self.out.append(None if o is None else o + b"\n")
        elif s["output"] == "stderr":
            self.err.append(o)
        else:
            rel = os.path.relpath(s["output"], self.d) if os.path.isabs(s["output"]) else s["output"]
            self.files[rel] = o
        return True


HEAD = r'''
local OP, ODEBUG, OSEC = print, debug, print_section
local esc = function(c) return string.format("\\x%02x", c:byte()) end
RES = io.open( "results.txt", "w")
ACT, CL, OPT1, OPT2 = {}, {}, {}, {"x"}
local CUR, CUREXTRA, CURN
function act(node, a, b)
	local o = a
	if CUREXTRA then o = b end
	if o ~= CUR then RES:write("V options ", tostring(CURN), " ", tostring(o), " instead of ", tostring(CUR), "\n") end
	ACT[tonumber(node.arg[1].value)]()
end
function runx(n, ci, opt, target, src, out, dbg)
	local s1, s2, s3 = CUR, CUREXTRA, CURN
	local p1, p2, p3 = print, debug, print_section
	CUR, CUREXTRA, CURN = opt, EXTRA[ci], n
	local ok, msg = pcall(CL[ci].run, CL[ci], target, opt, src, out, dbg)
	CUR, CUREXTRA, CURN = s1, s2, s3
	if not rawequal(print, p1) or not rawequal(debug, p2) or not rawequal(print_section, p3) then RES:write("V globals ", n, " not restored\n") end
	if not ok then error(msg, 0) end
end
local function step(n, ...)
	io.stdout:write("@@", n, "\n")
	io.stderr:write("@@", n, "\n")
	local ok, msg = pcall(runx, n, ...)
	io.stdout:write("\n")
	io.stderr:write("\n")
	RES:write("R ", n, " ", tostring(ok), " ", (tostring(msg):gsub("[%c\128-\255]", esc)), "\n")
	RES:flush()
end
'''


def job(ck, i):
    r = ck.rng("c17", i)
    d = ck.scratch.sub("j%d" % i)
    os.makedirs(os.path.join(d, "sub.d"))
    sim = Sim(ck, r, d)
    tpl = sim.path("c.tpl")
    with open(tpl, "w") as f:
        f.write(TPL)
    for k in range(sim.ngram):
        gf = sim.path("g%d.g" % k)
        with open(gf, "w") as f:
            f.write(GRAMS[k])
        p = vlib.run([ck.mewa, "-g", "-t", tpl, "-o", sim.path("g%d.lua" % k), gf], cwd=d)
        if p.rc or not ck.proc_ok(p, "mewa", None):
            ck.violation("generate", p.err[:300], None)
            return
    steps = []
    for _ in range(r.randint(3, 8)):
        steps.append(sim.spec())
    lua = HEAD + "EXTRA = {%s}\n" % ",".join("true" if EXTRA[g] else "false" for g in sim.comps)
    for k, g in enumerate(sim.comps):
        lua += "CL[%d] = dofile('g%d.lua')\n" % (k + 1, g)
    lua += "\n".join(sim.lua) + "\n"
    expected = []
    for s in steps:
        if r.random() < 0.2:
            lua += "collectgarbage()\n"
        if r.random() < 0.1 and not any(x[0] == "x" for x in ()):
            ci = r.randrange(len(sim.comps))
            # another object for the same grammar; what was printed to the old one is gone
            lua += "CL[%d] = dofile('g%d.lua')\n" % (ci + 1, sim.comps[ci])
            sim.maps.pop(ci, None)
            if sim.saved == ci:
                sim.saved = None
                lua += "SAVED = nil\n"
        lua += "step(%s)\n" % s["lua"]
        mark = b"@@%d\n" % s["n"]
        sim.out.append(mark)
        sim.err.append(mark)
        ok = sim.run(s)
        expected.append((s["n"], ok, s, sim.msg))
        sim.out.append(b"\n")
        sim.err.append(b"\n")
    lua += "RES:write('D\\n') RES:close()\n"
    with open(sim.path("main.lua"), "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write(lua)
    p = vlib.run([ck.luahost, "main.lua"], cwd=d)
    rp = {"script": lua, "files": {f: open(sim.path(f), "rb").read().decode("latin-1") for f in sorted(os.listdir(d)) if re.match(r"[sgt]\S*\d|c.tpl", f) and os.path.isfile(sim.path(f))}}
    ck.case(lua, True, lua[-300:])
    if not ck.proc_ok(p, "runs", rp):
        return
    try:
        with open(sim.path("results.txt"), encoding="utf-8", errors="surrogateescape") as f:
            rows = f.read().split("\n")
    except OSError:
        rows = []
    if "D" not in rows:
        ck.violation("script-stopped", "script ended with %s: %s" % (p.rc, p.err[-500:]), rp)
        return
    got = {}
    for w in rows:
        if w.startswith("V "):
            ck.violation(w.split(" ")[1], w, rp)
        elif w.startswith("R "):
            x = w.split(" ", 3)
            got[int(x[1])] = (x[2] == "true", x[3] if len(x) > 3 else "")
    for n, ok, s, msg in expected:
        ck.count("runs_" + ("ok" if ok else s["fault"] or "error"))
        if ok is None:
            continue
        g = got.get(n)
        if g is None or g[0] != ok:
            ck.violation("status:" + str(s["fault"]), "run %d (fault %s) %s: %s" % (n, s["fault"], "failed" if ok else "did not fail", g), rp)
            return
        if not ok and not g[1].strip("nil "):
            ck.violation("message", "run %d fails without message" % n, rp)
        if not ok and msg:
            ck.count("error_messages")
            if msg not in g[1]:
                ck.violation("message-lost", "run %d fails with %s instead of the message %s of the typesystem" % (n, g[1], msg), rp)
    compare(ck, "stdout", sim.out, p.out.encode("utf-8", "surrogateescape"), rp)
    compare(ck, "stderr", sim.err, p.err.encode("utf-8", "surrogateescape"), rp)
    for f, b in sim.files.items():
        try:
            with open(sim.path(f), "rb") as h:
                g = h.read()
        except OSError:
            g = None
        ck.count("files")
        compare(ck, "file", [b], g, rp)
    for f, lines in sim.debugfiles:
        try:
            with open(sim.path(f), "rb") as h:
                g = h.read()
        except OSError:
            g = b""
        pos = 0
        for x in lines:
            k = g.find(x, pos)
            ck.count("debug_lines")
            if k < 0:
                ck.violation("debug", "%r is not in the debug output %s in its order" % (x[:60], f), rp)
                break
            pos = k + len(x)
    shutil.rmtree(d, ignore_errors=True)


def compare(ck, what, exp, got, rp):
    """exp: pieces, None is anything"""
    if None in exp:
        if exp == [None] and got is None:
            return
        if all(e is None for e in exp):
            if got is not None:
                ck.violation(what, "output of a failed run was written: %r" % got[:100], rp)
            return
        rx = b"".join(b".*" if e is None else re.escape(e) for e in exp)
        if not re.fullmatch(rx, got, re.S):
            ck.violation(what, "%s is %r, expected %r" % (what, got[:400], rx[:400]), rp)
        return
    e = b"".join(exp)
    if e != got:
        g = got if got is not None else b""
        k = next((i for i, (a, b) in enumerate(zip(e, g)) if a != b), min(len(e), len(g)))
        ck.violation(what, "%s differs at %d: %r instead of %r" % (what, k, None if got is None else g[max(0, k - 40):k + 60], e[max(0, k - 40):k + 60]), rp)


def full(ck):
    """the streams themselves cannot be written, or only a part of them"""
    d = ck.scratch.sub("full")
    with open(os.path.join(d, "c.tpl"), "w") as f:
        f.write(TPL)
    with open(os.path.join(d, "g.g"), "w") as f:
        f.write(GRAMS[0])
    p = vlib.run([ck.mewa, "-g", "-t", "c.tpl", "-o", "g.lua", "g.g"], cwd=d)
    for size in (0, 1, 100, 1023, 1024, 1025, 4096, 70000):
        with open(os.path.join(d, "t.tpl"), "w") as f:
            f.write("x" * size)
        with open(os.path.join(d, "s"), "w") as f:
            f.write("1")
        for out, sh, lim in (("stdout", ">/dev/full", 0), ("stdout", ">&-", 0), ("stderr", "2>/dev/full", 0), ("stdout", "", 1), ("stdout", "", 64), ("o.txt", "", 1), ("o.txt", "", 4)):
            with open(os.path.join(d, "m.lua"), "w") as f:
                f.write("function act() end\nlocal c = dofile('g.lua')\nlocal ok, msg = pcall(c.run, c, 't.tpl', nil, 's', '%s')\nos.exit(ok and 10 or 11)\n" % out)
            if os.path.exists(os.path.join(d, "o.txt")):
                os.remove(os.path.join(d, "o.txt"))
            pre = 'trap "" XFSZ; ulimit -f %d; ' % lim if lim else ""
            p = vlib.run(["bash", "-c", pre + 'exec "$@" ' + sh, "x", ck.luahost, "m.lua"], cwd=d)
            n = size + (1 if out == "stdout" else 0)
            ok = n <= lim * 1024 if lim else n == 0
            rp = {"size": size, "output": out, "shell": sh, "limit": lim}
            ck.case(("full", size, out, sh, lim), True)
            ck.count("stream_faults")
            if p.rc not in (10, 11):
                ck.proc_ok(p, "run with fault", rp)
                ck.violation("fault-status", "exit status %s: %s" % (p.rc, p.err[:200]), rp)
            elif (p.rc == 10) != ok:
                ck.violation("fault-not-reported" if p.rc == 10 else "fault-invented", "%d bytes to %s with %s limit %d: run %s" % (n, out, sh, lim, "succeeded" if p.rc == 10 else "failed"), rp)


def run(ck):
    ck.fork_map(lambda i: full(ck) if i == 0 else job(ck, i), ck.n(700, 8000))
    ck.rule = "scripts of runs, distinct by their text"
    ck.assumptions = ["the typesystem does not print to the sections Source and Triple itself", "templates do not contain {} without a name"]
