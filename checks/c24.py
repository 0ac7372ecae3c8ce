"""C24: the debug output of a run records every step of the parser, and the functions called with their results."""
import os, re, shutil
import vlib
from gengram import *
from gram import generate, run_sources, TEMPLATE, Earley, Lexer, derive, leaves, kwname
from parsecheck import Expected, sources
from pgrams import maker

HOOK = r'''
local cnt = 0
local function mkval(k, depth)
	local r = (cnt * 7 + k * 13) % 11
	cnt = cnt + 1
	if r < 2 then return nil elseif r == 2 then return "s" .. cnt elseif r == 3 then return cnt elseif r == 4 then return false
	elseif r == 5 then return "line\n\"quoted\" %s%d%n" elseif r == 6 then return string.rep("x", 5000) .. cnt
	elseif r == 7 or depth > 3 then return {} else
		local t = {}
		for i=1,r-6 do t[i] = mkval(i, depth + 1) or "none" end
		if cnt % 2 == 0 then t.key = cnt / 4 t["not id"] = "v" end
		return t
	end
end
HOOK = function(node)
	local v = mkval(1, 0)
	local s = "null"
	if v ~= nil then s = js(mewa.tostring(v, 0, true)) end
	io.write('["H",', js(node.call.name), ",", s, "]\n")
	return v
end
'''
TPL = re.sub(r"pcall\(compiler.run, compiler, nil, (.*), arg\[i\]\)", lambda m: 'pcall(compiler.run, compiler, nil, %s, arg[i], nil, arg[i] .. ".dbg")' % m.group(1), TEMPLATE)
assert TPL != TEMPLATE
TPL = TPL.replace("compilerdef = %automaton%", HOOK + "compilerdef = %automaton%")
assert HOOK in TPL


def flat(s):
    return re.sub(r"[\s\"']", "", s)


class Bad(Exception):
    pass


class Steps:
    """follows the lines of a log as moves of a parser of the grammar"""

    def __init__(self, g, ex, log, cost):
        self.g, self.ex, self.log, self.cost = g, ex, log, cost
        self.goto = {}          # (state, symbol) -> state
        self.pos = 0
        self.nred = 0

    def state(self, states, n, where):
        if states[-1] is None:
            states[-1] = n
        elif states[-1] != n:
            raise Bad("state %d in %r instead of %d" % (n, where, states[-1]))

    def go(self, st, sym, to, where):
        if self.goto.setdefault((st, sym), to) != to:
            raise Bad("from state %s with %s to %d and to %d in %r" % (st, sym, self.goto[(st, sym)], to, where))

    def match(self, rx):
        m = re.compile(rx, re.S).match(self.log, self.pos)
        if m:
            self.pos = m.end()
        return m

    def run(self):
        """returns True if the first step at the end of the source is not logged"""
        ex = self.ex
        states, syms = [None], []
        toks = ex.toks
        stop = ex.at if ex.kind == "syntax" else len(toks)
        for i in range(stop + 1):
            if i < len(toks):
                sym, val, line = toks[i]
                text = kwname(sym[1]) if sym[0] == "k" else '%s = "%s"' % (sym[1], val.decode("utf-8", "surrogateescape"))
            else:
                sym, line, text = END, getattr(ex, "eofline", 0), "$"
            tk = re.escape(text) + r" at line %d in state (\d+)" % line
            if i == len(toks):
                if ex.kind == "lex":
                    if self.pos != len(self.log):
                        raise Bad("the log goes on: %r" % self.log[self.pos:self.pos + 200])
                    return False
                return self.atend(states, syms, tk)
            while self.reduce(states, syms, tk):
                pass
            if i == stop and ex.kind == "syntax":
                m = self.match(r"Error token " + tk + "\n")
                if not m:
                    raise Bad("'Error token %s at line %d' expected, got %r" % (text, line, self.log[self.pos:self.pos + 200]))
                self.state(states, int(m.group(1)), m.group(0))
                if self.pos != len(self.log):
                    raise Bad("the log goes on after the error: %r" % self.log[self.pos:self.pos + 200])
                return False
            m = self.match("Shift token " + tk + r", goto (\d+)\n")
            if not m:
                raise Bad("'Shift token %s at line %d' or a reduction expected, got %r" % (text, line, self.log[self.pos:self.pos + 200]))
            self.state(states, int(m.group(1)), m.group(0))
            self.go(states[-1], sym, int(m.group(2)), m.group(0))
            states.append(int(m.group(2)))
            syms.append(sym)
        raise Bad("more steps expected")

    def reduce(self, states, syms, tk):
        at = self.pos
        m = self.match(r"Reduce #(\d+) to (\S+) by token " + tk + r"(?:, call ([^\n]*?))?, goto (\d+)\n")
        if not m:
            return False
        n, lhs, st, call, to = int(m.group(1)), m.group(2), int(m.group(3)), m.group(4), int(m.group(5))
        self.state(states, st, m.group(0))
        ps = [p for p in self.g.prods if p.lhs == lhs and len(p.rhs) == n and syms[len(syms) - n:] == list(p.rhs)
              and flat(call or "") == flat(" ".join([p.call[0], p.call[1] or ""]) if p.call else "")]
        if not ps or n > len(syms):
            raise Bad("%r is no reduction of %s" % (m.group(0), [s[1] for s in syms]))
        if n:
            del states[-n:], syms[-n:]
        self.go(states[-1], ("n", lhs), to, m.group(0))
        states.append(to)
        syms.append(("n", lhs))
        self.nred += 1
        return True

    def atend(self, states, syms, tk):
        start = self.pos
        try:
            self.finish(states[:], syms[:], tk)
            return False
        except Bad as e:
            first = e
        # the first step is missing: try all
        for p in self.g.prods[1:]:
            n = len(p.rhs)
            if n <= len(syms) and syms[len(syms) - n:] == list(p.rhs):
                self.pos = start
                s, y = states[:len(states) - n], syms[:len(syms) - n]
                s.append(self.goto.get((s[-1], ("n", p.lhs))))
                y.append(("n", p.lhs))
                try:
                    self.finish(s, y, tk)
                    return True
                except Bad:
                    pass
        if syms == list(self.g.prods[0].rhs) or self.ex.kind == "syntax":       # the only step was to accept or to fail
            self.pos = start
            try:
                self.tail()
                return True
            except Bad:
                pass
        raise first

    def finish(self, states, syms, tk):
        while self.reduce(states, syms, tk):
            pass
        if self.ex.kind == "syntax":
            m = self.match("Error token " + tk.replace(r"\$", r'\$(?: = "")?', 1) + "\n")
            if not m:
                raise Bad("'Error token $' expected, got %r" % self.log[self.pos:self.pos + 200])
            self.state(states, int(m.group(1)), m.group(0))
        else:
            if not self.match("Accept\n"):
                raise Bad("'Accept' expected, got %r" % self.log[self.pos:self.pos + 200])
            if syms != list(self.g.prods[0].rhs):
                raise Bad("accepted with %s" % [s[1] for s in syms])
        self.tail()

    def tail(self):
        """functions called and their results"""
        for name, res in self.cost:
            if not self.match("Calling Lua function: " + re.escape(name) + "\n"):
                raise Bad("call of %r expected, got %r" % (name, self.log[self.pos:self.pos + 200]))
            if res is not None:
                m = self.match(r"Lua call result \[(\d+)\]\n")
                if not m or not self.log.startswith(res + "\n", self.pos):
                    raise Bad("result %r of %r expected, got %r" % (res[:300], name, self.log[self.pos:self.pos + 300]))
                self.pos += len(res) + 1
        if self.pos != len(self.log):
            raise Bad("the log goes on: %r" % self.log[self.pos:self.pos + 200])


def job(ck, i):
    rng = ck.rng("log", i)
    g = maker(["structured", "structured", "random"], calls=(0.4, 0.7, 1.0), nocalls=0.1)(rng)
    if g is None:
        ck.count("grammars_not_used")
        return
    if rng.random() < 0.7 and not g.prods[0].call:
        g.prods[0].call = ("top", None, None)
    d = ck.scratch.sub("log%d" % i)
    text = g.text(rng, g.order)
    gen = generate(ck, d, text, template=TPL)
    if not gen.ok:
        ck.count("grammars_rejected")
        shutil.rmtree(d, ignore_errors=True)
        return
    srcs = [s for s, _ in sources(g, rng, 8, 5)]
    # files of earlier runs are to be replaced
    for k in range(0, len(srcs), 3):
        with open(os.path.join(d, "s%d.in.dbg" % k), "w") as f:
            f.write("old content\n" * 5000)
    p, res = run_sources(ck, d, gen.out, srcs)
    ear, lx = Earley(g), Lexer(g)
    if ck.proc_ok(p, "running the parser of\n" + text, {"grammar": text}) and not p.done:
        ck.violation("load", "the generated compiler does not run: %s\n%s\n%s" % (p.out[-500:], p.err[-1500:], text), {"grammar": text})
    for k, (src, r) in enumerate(zip(srcs, res)):
        rp = {"grammar": text, "source": repr(src)}
        ex = Expected(g, src, ear, lx)
        if not r.done or any(b"\0" in (t[1] or b"") for t in ex.toks):
            continue
        if ex.kind != ("ok" if r.ok or r.code() == 586 else {601: "syntax", 501: "lex"}.get(r.code())):
            ck.count("other_outcome")        # matter of C09
            continue
        fn = os.path.join(d, "s%d.in.dbg" % k)
        try:
            log = open(fn, "rb").read().decode("utf-8", "surrogateescape")
        except OSError as e:
            ck.violation("no-log", "no debug output was written for\n%s\n%r: %s" % (text, src, e), rp)
            continue
        calls = [(h[1].encode("latin-1").decode("utf-8", "surrogateescape"), None if h[2] is None else h[2].encode("latin-1").decode("utf-8", "surrogateescape"))
                 for t in r.tops for h in t[4] if h[0] == "H"] if ex.kind == "ok" else []
        st = Steps(g, ex, log, calls)
        try:
            missing = st.run()
        except Bad as e:
            ck.violation("log:" + ex.kind, "%s\n%s\nsource %r\nlog %s" % (e, text, src, log[:3000]), dict(rp, log=log))
            continue
        if missing:
            ck.violation("first-step-at-end", "the first step at the end of the source is not in the debug output:\n%s\nsource %r\nlog %s" % (text, src, log[-500:]), rp)
        ck.case((text, src), len(ex.toks) > 1)
        ck.count("logs_" + ex.kind)
        ck.count("steps_shift", len(ex.toks))
        ck.count("steps_reduce", st.nred)
        ck.count("calls_logged", len(calls))
        ck.count("results_logged", sum(1 for c in calls if c[1] is not None))
    shutil.rmtree(d, ignore_errors=True)


def run(ck):
    ck.fork_map(lambda i: job(ck, i), ck.n(1400, 16000))
    ck.rule = "a (grammar, source) pair is distinct by its texts; non-trivial if the source has at least two tokens"
    ck.assumptions = ["no null bytes in values of tokens (the log is text)", "the text of a call is compared without blanks and quotes",
                      "numbers of states are only compared with each other: the same state and symbol always lead to the same state"]
