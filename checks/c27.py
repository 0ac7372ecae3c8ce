"""C27: an error raised in a function called by a run ends the run with its message."""
import os
from gram import generate
from luascript import run_script

GRAMMAR = '''% IGNORE "[ ]+";
ID: "[a-z][a-z0-9]*";
S = L;
L = L i | ε;
i = ID ";" (f) | "{" L "}" (g) | "[" L "]" (h);
'''


def run(ck):
    ck.rule = ("a case is a run of a compiler with a function raising an error of some kind at some node: the functions called, the outcome, the message and the next run "
               "are compared with what the source and the error make expected; non trivial if the error is not caught by another function called")
    ck.assumptions = ["messages are compared in their first 400 bytes: those of functions not defined in a file with the extension lua are cut by the program",
                      "messages with null bytes are not raised"]
    d = ck.scratch.sub("g")
    g = generate(ck, d, GRAMMAR, template="return %automaton%\n")
    if not ck.proc_ok(g.p, "generating the parser", {}) or not g.ok:
        raise RuntimeError("grammar rejected: " + g.p.err)
    run_script(ck, "errors.lua", 16, ck.n(400, 8000), timeout=400, extra=[os.path.abspath(g.out)])
