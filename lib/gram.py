"""Grammars of the generator: model, text, reference lexer, reference recogniser (Earley), LR(0)/SLR(1)/LALR(1) analysis,
sentences with their derivation tree and the AST they lead to. Everything here is written from the documented language,
nothing is taken from the implementation."""
import re, random, sys, os, json
import vlib
from vlib import luastr

sys.setrecursionlimit(20000)
END = ("$", "$")


class Prod:
    def __init__(self, lhs, rhs, prio=None, call=None, scope=None):
        # rhs: list of ("n",name) nonterminal, ("t",name) token, ("k",text) keyword
        # call: None or (function, argument text or None, value printed for the argument)
        self.lhs, self.rhs, self.prio, self.call, self.scope = lhs, list(rhs), prio, call, scope

    def __repr__(self):
        return "%s = %s" % (self.lhs, " ".join(x[1] for x in self.rhs))


class Gram:
    def __init__(self):
        self.toks = []        # (name, pattern, select)
        self.ignores = []     # patterns
        self.comments = []    # (open, close or None)
        self.bad = None
        self.indentl = None   # (open, close, newline, tabsize)
        self.prods = []
        self.meta = {}        # LANGUAGE, TYPESYSTEM, CMDLINE
        self.valgen = {}      # token name -> function of rng giving a value and its text

    # -- structure ------------------------------------------------------------------------------------------------
    def nonterminals(self):
        return list(dict.fromkeys(p.lhs for p in self.prods))

    def by_lhs(self):
        d = {}
        for p in self.prods:
            d.setdefault(p.lhs, []).append(p)
        return d

    def keywords(self):
        return list(dict.fromkeys(x[1] for p in self.prods for x in p.rhs if x[0] == "k"))

    def terminals(self):
        return list(dict.fromkeys(x for p in self.prods for x in p.rhs if x[0] != "n"))

    # -- text -----------------------------------------------------------------------------------------------------
    def text(self, rng=None, order=None):
        """the grammar as text; rng: random layout, comments and order of the declarations"""
        L = []
        r = rng
        head = []
        for k in ("LANGUAGE", "TYPESYSTEM", "CMDLINE"):
            if k in self.meta:
                head.append("%% %s %s;" % (k, quote(self.meta[k], r)))
        for p in self.ignores:
            head.append("%% IGNORE %s;" % quote(p, r))
        for o, c in self.comments:
            head.append("%% COMMENT %s%s;" % (quote(o, r), "" if c is None else " " + quote(c, r)))
        if self.bad is not None:
            head.append("%% BAD %s;" % quote(self.bad, r))
        toks = []
        for n, p, s in self.toks:
            toks.append("%s: %s%s;" % (n, quote(p, r), "" if not s else " %d" % s))
        if self.indentl:
            head.append("%% INDENTL %s %s %s %d;" % self.indentl)
        rules = []
        i = 0
        while i < len(self.prods):
            p = self.prods[i]
            alts = [rhstext(p, r)]
            j = i + 1
            if not r or r.random() < 0.7:
                while j < len(self.prods) and self.prods[j].lhs == p.lhs and self.prods[j].prio == p.prio and i > 0:
                    alts.append(rhstext(self.prods[j], r))
                    j += 1
            prio = "" if p.prio is None else "/" + str(p.prio)
            nl = r.choice(["\n  | ", " | ", "\n\t|"]) if r else "\n  | "
            arrow = r.choice(["=", "=", "→"]) if r else "="
            rules.append("%s%s %s %s ;" % (p.lhs, prio, arrow, nl.join(alts)))
            i = j
        if order == "toks_last":
            L = head + rules + toks
        elif order == "mixed" and r:
            # the order within the classes matters (first rule is the start, token order decides ties), the one between not
            L = []
            q = [head, toks, rules]
            while any(q):
                c = r.choice([x for x in q if x])
                L.append(c.pop(0))
        else:
            L = head + toks + rules
        if r:
            out = []
            for ln in L:
                if r.random() < 0.15:
                    out.append(r.choice(["# a comment ; = |", "// another \"one", "/* block\n comment ; */", ""]))
                if r.random() < 0.2:
                    ln = ln.replace(" ", r.choice(["  ", "\t", " \n ", " /*c*/ "]), 1) if '"' not in ln.split(" ")[0] and "'" not in ln.split(" ")[0] else ln
                out.append(ln)
            return "\n".join(out) + r.choice(["\n", "", "\n\n", "\n# end"])
        return "\n".join(L) + "\n"


def quote(s, rng=None):
    """a string of the grammar language (raw, no escapes are processed)"""
    if '"' in s:
        assert "'" not in s, s
        return "'" + s + "'"
    if "'" in s or rng is None or rng.random() < 0.6:
        return '"' + s + '"'
    return "'" + s + "'"


def rhstext(p, rng=None):
    out = []
    for k, n in p.rhs:
        out.append(quote(n, rng) if k == "k" else n)
    if not p.rhs and (rng is None or rng.random() < 0.6):
        out.append("ε")
    if p.call:
        c = "(" + ({">>": ">>", "{}": "{}"}.get(p.scope, "") + " " if p.scope else "")
        c += p.call[0] + ("" if p.call[1] is None else " " + p.call[1]) + ")"
        out.append(c)
    return " ".join(out)


# ---- reference lexer -------------------------------------------------------------------------------------------------
class LexError(Exception):
    def __init__(self, line, text, toks):
        self.line, self.text, self.toks = line, text, toks


def kwname(s):
    if "'" in s and '"' in s:
        return s
    if "'" in s:
        return '"' + s + '"'
    if '"' in s or len(s.encode("utf-8", "surrogateescape")) == 1:
        return "'" + s + "'"
    return '"' + s + '"'


class Lexer:
    def __init__(self, g):
        self.g = g
        self.pats = []   # (kind, name, regex, select)
        for n, p, s in g.toks:
            self.pats.append(("t", n, re.compile(p.encode("utf-8", "surrogateescape")), s))
        for p in g.ignores:
            self.pats.append(("i", None, re.compile(p.encode("utf-8", "surrogateescape")), 0))
        self.kws = sorted((k.encode("utf-8", "surrogateescape") for k in g.keywords()), key=len, reverse=True)
        self.com = [(o.encode(), c.encode() if c is not None else None) for o, c in g.comments]

    def tokens(self, src):
        """list of (symbol, value bytes, line); symbol ("t",name)/("k",text); raises LexError"""
        out, pos, line, n = [], 0, 1, len(src)
        g = self.g
        stack, lineopen = [], None      # indentation
        while True:
            while pos < n and 0 < src[pos] <= 32:
                if src[pos] == 10:
                    line += 1
                pos += 1
            if pos >= n:
                if g.indentl:
                    for _ in stack:
                        out.append((("t", g.indentl[1]), b"", line))
                return out, line
            c = next((c for c in self.com if src.startswith(c[0], pos)), None)
            if c:
                if c[1] is None:
                    e = src.find(b"\n", pos + len(c[0]))
                    e = n if e < 0 else e + 1
                else:
                    e = src.find(c[1], pos + len(c[0]))
                    if e < 0:
                        raise LexError(line, c[0], out)
                    e += len(c[1])
                line += src.count(b"\n", pos, e)
                pos = e
                continue
            best = None
            for kind, name, rx, sel in self.pats:
                m = rx.match(src, pos)
                if m and m.end() > pos and (best is None or m.end() - pos > best[0]):
                    best = (m.end() - pos, kind, name, m.group(sel) if m.group(sel) is not None else b"")
            kw = next((k for k in self.kws if src.startswith(k, pos)), None)
            if kw is not None and (best is None or len(kw) >= best[0]):
                best = (len(kw), "k", kw.decode("utf-8", "surrogateescape"), kw)
            if best is None:
                e = pos + 1
                if src[pos] >= 128:
                    while e < n and 128 <= src[e] < 192:
                        e += 1
                raise LexError(line, src[pos:e], out)
            if best[1] != "i":
                if g.indentl:
                    b = src.rfind(b"\n", 0, pos) + 1
                    lead = src[b:pos]
                    if not lead.strip(bytes(range(1, 33))) and lineopen != b:
                        lineopen = b
                        ind = sum(g.indentl[3] if ch == 9 else 1 for ch in lead)
                        while stack and stack[-1] > ind:
                            stack.pop()
                            out.append((("t", g.indentl[1]), b"", line))
                        if ind > (stack[-1] if stack else 0):
                            stack.append(ind)
                            out.append((("t", g.indentl[0]), b"", line))
                        out.append((("t", g.indentl[2]), b"", line))
                out.append(((best[1], best[2]), best[3], line))
            line += src.count(b"\n", pos, pos + best[0])
            pos += best[0]


# ---- reference recogniser --------------------------------------------------------------------------------------------
class Earley:
    """acceptance and first offending token for any context free grammar with productive nonterminals"""

    def __init__(self, g):
        self.g = g
        self.by = g.by_lhs()
        self.start = g.prods[0]
        self.null = nullable(g)

    def run(self, toks):
        """None if accepted, else (index of the first token with which no sentence can continue, set of possible symbols there)"""
        by, null = self.by, self.null
        sets = [dict()]
        self._fill(sets, 0, {(self.start, 0, 0)})
        for i, t in enumerate(toks):
            nxt = {(p, d + 1, o) for (p, d, o) in sets[i] if d < len(p.rhs) and p.rhs[d] == t}
            if not nxt:
                return i, self._expect(sets[i])
            sets.append(dict())
            self._fill(sets, i + 1, nxt)
        if any(p is self.start and d == len(p.rhs) and o == 0 for (p, d, o) in sets[-1]):
            return None
        return len(toks), self._expect(sets[-1])

    def possible(self, toks):
        """symbols (and END) that can follow the sequence, None if it is no prefix of a sentence"""
        r = self.run(toks)
        if r is not None and r[0] < len(toks):
            return None
        sets = [dict()]
        self._fill(sets, 0, {(self.start, 0, 0)})
        for i, t in enumerate(toks):
            sets.append(dict())
            self._fill(sets, i + 1, {(p, d + 1, o) for (p, d, o) in sets[i] if d < len(p.rhs) and p.rhs[d] == t})
        return self._expect(sets[-1])

    def _expect(self, s):
        e = {p.rhs[d] for (p, d, o) in s if d < len(p.rhs) and p.rhs[d][0] != "n"}
        if any(p is self.start and d == len(p.rhs) and o == 0 for (p, d, o) in s):
            e.add(END)
        return e

    def _fill(self, sets, i, init):
        by, null = self.by, self.null
        cur = sets[i]
        todo = list(init)
        for it in todo:
            cur[it] = 1
        while todo:
            p, d, o = todo.pop()
            if d == len(p.rhs):
                src = list(sets[o])
                new = [(q, e + 1, f) for (q, e, f) in src if e < len(q.rhs) and q.rhs[e] == ("n", p.lhs)]
            elif p.rhs[d][0] == "n":
                nm = p.rhs[d][1]
                new = [(q, 0, i) for q in by[nm]]
                if nm in null:
                    new.append((p, d + 1, o))
            else:
                continue
            for it in new:
                if it not in cur:
                    cur[it] = 1
                    todo.append(it)


def nullable(g):
    null, ch = set(), True
    while ch:
        ch = False
        for p in g.prods:
            if p.lhs not in null and all(x[0] == "n" and x[1] in null for x in p.rhs):
                null.add(p.lhs)
                ch = True
    return null


def first_sets(g):
    null = nullable(g)
    first = {n: set() for n in g.nonterminals()}
    ch = True
    while ch:
        ch = False
        for p in g.prods:
            for x in p.rhs:
                add = first[x[1]] if x[0] == "n" else {x}
                if not add <= first[p.lhs]:
                    first[p.lhs] |= add
                    ch = True
                if x[0] != "n" or x[1] not in null:
                    break
    return first, null


def follow_sets(g, endfirst=False):
    """endfirst: with the end symbol in the FIRST sets of nullable symbols (the known finding of C13)"""
    first, null = first_sets(g)
    if endfirst:
        first = {n: f | {END} if n in null else f for n, f in first.items()}
        ch = True
        while ch:
            ch = False
            for p in g.prods:
                for x in p.rhs:
                    if x[0] != "n":
                        break
                    if END in first[x[1]] and END not in first[p.lhs]:
                        first[p.lhs] = first[p.lhs] | {END}
                        ch = True
                    if x[1] not in null:
                        break
    fol = {n: set() for n in g.nonterminals()}
    fol[g.prods[0].lhs].add(END)
    ch = True
    while ch:
        ch = False
        for p in g.prods:
            for i, x in enumerate(p.rhs):
                if x[0] != "n":
                    continue
                add, eps = set(), True
                for y in p.rhs[i + 1:]:
                    add |= first[y[1]] if y[0] == "n" else {y}
                    if y[0] != "n" or y[1] not in null:
                        eps = False
                        break
                if eps:
                    add |= fol[p.lhs]
                if not add <= fol[x[1]]:
                    fol[x[1]] |= add
                    ch = True
    return fol


class LR0:
    """LR(0) automaton of the grammar, the start production being accepted at the end"""

    def __init__(self, g, limit=4000):
        self.g, self.by = g, g.by_lhs()
        start = self.closure({(g.prods[0], 0)})
        self.states, self.index, self.go = [start], {start: 0}, {}
        i = 0
        while i < len(self.states):
            nxt = {}
            for p, d in self.states[i]:
                if d < len(p.rhs):
                    nxt.setdefault(p.rhs[d], set()).add((p, d + 1))
            for x, k in nxt.items():
                c = self.closure(k)
                if c not in self.index:
                    self.index[c] = len(self.states)
                    self.states.append(c)
                self.go[(i, x)] = self.index[c]
            i += 1
            if i > limit:
                raise OverflowError

    def closure(self, items):
        s, todo = set(items), list(items)
        while todo:
            p, d = todo.pop()
            if d < len(p.rhs) and p.rhs[d][0] == "n":
                for q in self.by[p.rhs[d][1]]:
                    if (q, 0) not in s:
                        s.add((q, 0))
                        todo.append((q, 0))
        return frozenset(s)

    def slr_conflicts(self):
        fol = follow_sets(self.g)
        return self._conf(lambda i, p: {END} if p is self.g.prods[0] else fol[p.lhs])

    def _conf(self, la):
        out = []
        for i, st in enumerate(self.states):
            shifts = {p.rhs[d] for p, d in st if d < len(p.rhs) and p.rhs[d][0] != "n"}
            seen = {}
            for p, d in st:
                if d == len(p.rhs):
                    for t in la(i, p):
                        if t in shifts:
                            out.append(("SR", i, t, p))
                        if t in seen:
                            out.append(("RR", i, t, p, seen[t]))
                        seen[t] = p
        return out

    def lalr_lookaheads(self):
        """lookahead sets of the LALR(1) automaton by propagation over the kernels of the LR(0) automaton"""
        g = self.g
        first, null = first_sets(g)
        la = {}    # (state, prod, dot) -> set
        la[(0, g.prods[0], 0)] = {END}
        # links and spontaneous lookaheads are found by a fixpoint over all items
        ch = True
        while ch:
            ch = False
            for i, st in enumerate(self.states):
                for p, d in st:
                    cur = la.get((i, p, d))
                    if not cur or d == len(p.rhs):
                        continue
                    x = p.rhs[d]
                    j = self.go[(i, x)]
                    t = la.setdefault((j, p, d + 1), set())
                    if not cur <= t:
                        t |= cur
                        ch = True
                    if x[0] == "n":
                        add, eps = set(), True
                        for y in p.rhs[d + 1:]:
                            add |= first[y[1]] if y[0] == "n" else {y}
                            if y[0] != "n" or y[1] not in null:
                                eps = False
                                break
                        if eps:
                            add |= cur
                        for q in self.by[x[1]]:
                            t = la.setdefault((i, q, 0), set())
                            if not add <= t:
                                t |= add
                                ch = True
        return la

    def lalr_conflicts(self):
        la = self.lalr_lookaheads()
        return self._conf(lambda i, p: la.get((i, p, len(p.rhs)), set()))

    def coarse_conflicts(self, excess, limit=3000):
        """conflicts if all elements of a state of the LR(1) automaton with the same left side share their follow set,
        and if the end of the source counts (excess) as something a nullable nonterminal can start with; None if too large"""
        g = self.g
        first, null = first_sets(g)
        first = {n: set(f) for n, f in first.items()}
        if excess:
            for n in null:
                first[n].add(END)
            ch = True
            while ch:
                ch = False
                for p in g.prods:
                    for x in p.rhs:
                        if x[0] != "n":
                            break
                        if not first[x[1]] <= first[p.lhs]:
                            first[p.lhs] |= first[x[1]]
                            ch = True
                        if x[1] not in null:
                            break
        rest = {}
        for p in g.prods:
            for d, x in enumerate(p.rhs):
                if x[0] == "n":
                    add, eps = set(), True
                    for y in p.rhs[d + 1:]:
                        add |= first[y[1]] if y[0] == "n" else {y}
                        if y[0] != "n" or y[1] not in null:
                            eps = False
                            break
                    rest[p, d] = (add, eps)

        def closure(kernel):
            lr0 = self.closure({(p, d) for p, d, _ in kernel})
            fol = {}
            for p, d, f in kernel:
                fol.setdefault(p.lhs, set()).update(f)
            inh = []
            for p, d in lr0:
                if d < len(p.rhs) and p.rhs[d][0] == "n":
                    add, eps = rest[p, d]
                    fol.setdefault(p.rhs[d][1], set()).update(add)
                    if eps:
                        inh.append((p.rhs[d][1], p.lhs))
            ch = True
            while ch:
                ch = False
                for a, l in inh:
                    if not fol[l] <= fol[a]:
                        fol[a] |= fol[l]
                        ch = True
            fz = {n: frozenset(f) for n, f in fol.items()}
            return frozenset((p, d, fz[p.lhs]) for p, d in lr0)
        start = closure({(g.prods[0], 0, frozenset([END]))})
        seen, todo = {start}, [start]
        la = {}
        while todo:
            st = todo.pop()
            i = self.index[frozenset((p, d) for p, d, _ in st)]
            nxt = {}
            for p, d, f in st:
                if d < len(p.rhs):
                    nxt.setdefault(p.rhs[d], set()).add((p, d + 1, f))
                else:
                    la.setdefault((i, p), set()).update(f)
            for k in nxt.values():
                c = closure(k)
                if c not in seen:
                    if len(seen) > limit:
                        return None
                    seen.add(c)
                    todo.append(c)
        return self._conf(lambda i, p: la.get((i, p), set()))

    # exact stack simulation, independent of lookahead sets
    def reduced(self, stack, limit=400):
        """all stacks reachable by reductions from a stack (tuples of states)"""
        seen, todo = {stack}, [stack]
        while todo and len(seen) < limit:
            s = todo.pop()
            for p, d in self.states[s[-1]]:
                if d == len(p.rhs) and p is not self.g.prods[0]:
                    base = s[:len(s) - len(p.rhs)] if p.rhs else s
                    j = self.go.get((base[-1], ("n", p.lhs)))
                    if j is None:
                        continue
                    n = base + (j,)
                    if n not in seen and len(n) < 400:
                        seen.add(n)
                        todo.append(n)
        return seen


# ---- sentences -------------------------------------------------------------------------------------------------------
def min_cost(g):
    cost = {n: None for n in g.nonterminals()}
    ch = True
    while ch:
        ch = False
        for p in g.prods:
            c = 1
            for x in p.rhs:
                if x[0] == "n":
                    if cost[x[1]] is None:
                        c = None
                        break
                    c += cost[x[1]]
                else:
                    c += 1
            if c is not None and (cost[p.lhs] is None or c < cost[p.lhs]):
                cost[p.lhs] = c
                ch = True
    return cost


def productive_reachable(g):
    cost = min_cost(g)
    if any(v is None for v in cost.values()):
        return False
    by, seen, todo = g.by_lhs(), set(), [g.prods[0].lhs]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for p in by[n]:
            todo += [x[1] for x in p.rhs if x[0] == "n"]
    return len(seen) == len(by)


def derive(g, rng, budget):
    """a random derivation tree: ("n", prod, children) / symbol for terminals"""
    cost, by = min_cost(g), g.by_lhs()
    left = [budget]

    def pc(p):
        return 1 + sum(cost[x[1]] if x[0] == "n" else 1 for x in p.rhs)

    def go(n, depth):
        alts = [p for p in by[n] if all(x[0] != "n" or cost[x[1]] is not None for x in p.rhs)]
        if left[0] <= 0 or depth > 150:
            m = min(pc(p) for p in alts)
            alts = [p for p in alts if pc(p) == m]
        p = rng.choice(alts)
        left[0] -= 1 + sum(1 for x in p.rhs if x[0] != "n")
        return ["n", p, [go(x[1], depth + 1) if x[0] == "n" else ["t", x] for x in p.rhs]]
    return go(g.prods[0].lhs, 0)


def leaves(t, out=None):
    out = [] if out is None else out
    if t[0] == "t":
        out.append(t)
    else:
        for c in t[2]:
            leaves(c, out)
    return out


def ast(tree, toks):
    """flat AST as the runner prints it: list of top level nodes, every one a list of rows in pre-order.
    toks: the tokens (symbol, value, line) belonging to the leaves"""
    it = iter(toks)
    st = {"cnt": 0, "line": 0}

    def walk(t):
        if t[0] == "t":
            sym, val, line = next(it)
            assert sym == t[1], (sym, t[1])
            if sym[0] == "k":
                return [], st["cnt"]
            st["line"] = line
            return [[["L", 0, sym[1], val, line]]], st["cnt"]
        kids, starts = [], []
        for c in t[2]:
            k, s = walk(c)
            kids += k
            starts.append(s)
        start = starts[0] if starts else st["cnt"]
        p = t[1]
        if not p.call:
            return kids, start
        step = scope = None
        if p.scope == "{}":
            st["cnt"] += 1
            scope = [start, st["cnt"]]
        else:
            if p.scope == ">>":
                st["cnt"] += 1
            step = st["cnt"]
        node = [["C", 0, p.call[0], p.call[2], st["line"], step, scope]]
        for k in kids:
            for r in k:
                node.append(r[:1] + [r[1] + 1] + r[2:])
        return [node], start
    return walk(tree)[0]


# ---- running ---------------------------------------------------------------------------------------------------------
TEMPLATE = r'''
mewa = require("mewa")
local esc = function(c) return string.format("\\u%04x", c:byte()) end
local function js(s) return '"' .. s:gsub('[%c"\\\128-\255]', esc) .. '"' end
local fnames = {}
local function val(v)
	local t = type(v)
	if t == "nil" then return "null"
	elseif t == "string" then return js(v)
	elseif t == "number" then return string.format("%.17g", v)
	elseif t == "boolean" then return tostring(v)
	elseif t == "function" then return '"fn:' .. tostring(fnames[v]) .. '"'
	elseif t == "table" then
		local r = {}
		for k,e in pairs(v) do r[#r+1] = js(tostring(k)) .. ":" .. val(e) end
		table.sort(r)
		return "{" .. table.concat(r, ",") .. "}"
	end
	return '"?' .. t .. '"'
end
-- what is passed as options of a run, by the number of the source
OPTIONS = {[0] = nil, {opt = 1}, "opt", false}
-- what names used as arguments of calls refer to
VALUES = {vfalse = false, vtrue = true, vzero = 0, vempty = "", vtable = {x = 1, y = "z"}}
local function dump(n, d)
	if n.call == nil then
		io.write('["L",', d, ",", val(n.name), ",", val(n.value), ",", val(n.line), "]\n")
	else
		local sc = "null"
		if n.scope then sc = "[" .. val(n.scope[1]) .. "," .. val(n.scope[2]) .. "]" end
		io.write('["C",', d, ",", val(tostring(fnames[n.call.proc])), ",", val(n.call.obj), ",", val(n.line), ",", val(n.step), ",", sc, ",", val(n.call.name), ",", #n.arg, "]\n")
		for i,c in ipairs(n.arg) do dump(c, d+1) end
	end
end
typesystem = setmetatable({}, {__index = function(t, k)
	if VALUES[k] ~= nil then return VALUES[k] end
	local f = function(...)
		local NARGS = select("#", ...)
		local node, a, b = ...
		io.write('["T",', val(k), ",", val(a), ",", val(b), ",", val(node.call.proc == t[k]), ",", NARGS, "]\n")
		dump(node, 0)
		if HOOK then return HOOK(node, a, b) end
	end
	fnames[f] = k
	rawset(t, k, f)
	return f
end})
compilerdef = %automaton%
compiler = mewa.compiler(compilerdef)
for i=1,#arg do
	io.write('["S",', i-1, "]\n")
	local ok, msg = pcall(compiler.run, compiler, nil, OPTIONS[(tonumber(arg[i]:match("(%d+)%.in$")) or 0) % 4], arg[i])
	io.write('["E",', tostring(ok), ",", js(tostring(msg)), "]\n")
end
io.write('["DONE"]\n')
'''


OPTIONS = [None, {"opt": 1}, "opt", False]


class Gen:
    """result of generating a parser"""
    def __init__(self, p, out):
        self.p, self.out = p, out
        self.ok = p.rc == 0


class Res:
    """result of one source: ok, message, tops: list of (function, arg1, arg2, procok, rows)"""
    def __init__(self):
        self.ok, self.msg, self.tops, self.done = None, "", [], False

    def code(self):
        m = re.search(r"#(\d{3})\b", self.msg)
        return int(m.group(1)) if m else None

    def line(self):
        m = re.search(r"at line (\d+)", self.msg)
        return int(m.group(1)) if m else None


def generate(ck, d, text, template=TEMPLATE, name="g", extra=(), timeout=30):
    gf, of, tf = (os.path.join(d, name + e) for e in (".g", ".lua", ".tpl"))
    with open(gf, "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write(text)
    if not os.path.exists(tf):
        with open(tf, "w") as f:
            f.write(template)
    p = vlib.run([ck.mewa, "-g", "-t", tf, "-o", of] + list(extra) + [gf], cwd=d, timeout=timeout)
    return Gen(p, of)


def bval(v):
    """a string printed byte by byte back to bytes"""
    return v.encode("latin-1") if isinstance(v, str) else v


def run_sources(ck, d, luafile, sources, timeout=60, tag="s", prefixes=None):
    """sources: list of bytes; returns (Proc, [Res]); prefixes: what the script gets before the name of the file"""
    files = []
    for i, s in enumerate(sources):
        fn = os.path.join(d, "%s%d.in" % (tag, i))
        with open(fn, "wb") as f:
            f.write(s)
        files.append((prefixes[i] if prefixes else "") + fn)
    cmd = [ck.luahost, luafile] + files
    if any(30000 < len(s) < 200000 for s in sources):
        # std::regex recurses for each character (finding long-token): stack for tokens that might match what is large here
        cmd = ["/bin/sh", "-c", 'ulimit -s 1000000 2>/dev/null; exec "$0" "$@"'] + cmd
    p = vlib.run(cmd, cwd=d, timeout=timeout)
    res = [Res() for _ in sources]
    cur, done = None, False
    for line in p.out.split("\n"):
        if not line.startswith("["):
            continue
        try:
            row = json.loads(line)
        except ValueError:
            continue
        if row[0] == "S":
            cur = res[row[1]]
        elif row[0] == "E":
            cur.ok, cur.msg, cur.done = row[1], row[2].encode("latin-1").decode("utf-8", "surrogateescape"), True
        elif row[0] == "T":
            cur.tops.append((row[1], row[2], row[3], row[4], [], row[5]))
        elif row[0] == "DONE":
            done = True
        elif cur is not None and cur.tops:
            if row[0] == "L":
                row[3] = bval(row[3])
            cur.tops[-1][4].append(row)
    p.done = done
    return p, res
