"""Checks written in Lua: a script is run with a seed and a number of rounds and prints
   V <key> <message>     a violation (message on one line)
   C <name> <number>     a counter
   N <number> <number>   evaluations and distinct non-trivial ones
   D                     the end of the script was reached
"""
import os
import vlib


def one(ck, script, seed, rounds, timeout, extra):
    path = os.path.join(vlib.VERIF, "lua", script)
    d = ck.scratch.sub("%s-%s" % (script, seed))
    return vlib.run([ck.luahost, path, str(seed), str(rounds), d] + list(extra), cwd=d, timeout=timeout)


def run_script(ck, script, jobs, rounds, timeout=120, extra=(), salt=""):
    def f(i):
        seed = ck.rng(script, salt, i).randrange(1, 2 ** 31 - 1)
        p = one(ck, script, seed, rounds, timeout, extra)
        rp = {"script": script, "seed": seed, "rounds": rounds, "extra": list(extra),
              "files": {x: open(x, "rb").read().decode("latin-1") for x in extra if os.path.isfile(x)}}
        last = "\n".join(p.out.strip().split("\n")[-3:])
        done = stopped = False
        for line in p.out.split("\n"):
            w = line.split(" ", 2)
            if w[0] == "V" and len(w) > 1:
                ck.violation(w[1], "%s (seed %d)" % (w[2] if len(w) > 2 else "", seed), rp)
            elif w[0] == "C" and len(w) == 3:
                ck.count(w[1], int(float(w[2])))
            elif w[0] == "N" and len(w) == 3:
                ck.evaluations += int(float(w[1]))
                for k in range(int(float(w[2]))):
                    ck.distinct.add((script + salt, seed, k))
            elif line == "D":
                done = True
            elif line == "LOOP":
                ck.count("stopped_by_watchdog")
                stopped = True
        if stopped and p.rc == 97:
            return
        if not ck.proc_ok(p, "%s seed %d rounds %d %s, last output %s" % (script, seed, rounds, " ".join(extra), last), rp):
            return
        if not done:
            ck.violation("script-stopped", "%s seed %d ended with status %s: %s\n%s" % (script, seed, p.rc, last, p.err[-2000:]), rp)
    ck.fork_map(f, jobs)
