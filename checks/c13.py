"""C13: syntax errors are reported for the first offending token with its line and the tokens expected there."""
from parsecheck import *
from pgrams import maker
from bigsources import big_sources, GOOD, BAD


def run(ck):
    explore(ck, "err", ck.n(4000, 60000), 1, 18, {"error"}, maker(["structured", "structured", "random"], nocalls=0.1))
    big_sources(ck, BAD, ck.n([260, 33000, 70000], [126, 260, 5000, 33000, 70000, 300000]))
    ck.rule = "a (grammar, source) pair is distinct by its texts; non-trivial if the source has at least two tokens"
    ck.assumptions = ["first offending token by the Earley recogniser; the list of expected tokens by simulation of all stacks of the LR(0) automaton"]
