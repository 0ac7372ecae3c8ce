"""Large sources with known results (checks_c22_shapes) for the checks of parsers: nodes, leaves, lines, scopes and steps beyond the range of small integers."""
import os
import vlib
from gram import generate
from checks_c22_shapes import BIGGRAMMAR, BIGTEMPLATE, shapes

GOOD = [n for n in sorted(shapes) if not n.startswith("late_")]
BAD = [n for n in sorted(shapes) if n.startswith("late_")]


def big_sources(ck, names, sizes, salt="bigsrc"):
    """every shape in every size (times up to 1.1); a run of the parser for each shape"""
    def one(j):
        nm = names[j]
        d = ck.scratch.sub("%s%d" % (salt, j))
        out = os.path.join(d, "big.lua")
        g = generate(ck, d, BIGGRAMMAR, template=BIGTEMPLATE, name="big")
        if not ck.proc_ok(g.p, "generating the parser of the large sources", {}) or not g.ok:
            raise RuntimeError("the grammar of the large sources is rejected: " + g.p.err)
        r = ck.rng(salt, nm)
        files, want = [], []
        for size in sizes:
            n = r.randint(size, size + size // 10)
            src, exp = shapes[nm](n, r)
            fn = os.path.join(d, "s%d" % len(files))
            with open(fn, "wb") as f:
                f.write(src)
            files.append(fn)
            want.append((n, exp))
        p = vlib.run([ck.luahost, out] + files, cwd=d, timeout=200)
        rp = {"shape": nm, "sizes": [w[0] for w in want]}
        if not ck.proc_ok(p, "compiling the large sources '%s' of %r elements" % (nm, [w[0] for w in want]), rp, "big-" + nm + ":"):
            return
        rows = [l[2:].split("\t")[0] for l in p.out.split("\n") if l.startswith("R ")]
        if len(rows) != len(files):
            ck.violation("big-stop:" + nm, "the runs on the sources '%s' stopped with status %r: %s" % (nm, p.rc, p.err[-500:]), rp)
            return
        for (n, exp), got in zip(want, rows):
            ck.case((nm, n))
            ck.count("large_sources")
            ck.count("large_source_elements", n)
            if got != exp:
                ck.violation("big:" + nm, "the source '%s' of %d elements ends with %s, expected %s" % (nm, n, got[:300], exp[:300]), rp)
                return
    ck.fork_map(one, len(names))
