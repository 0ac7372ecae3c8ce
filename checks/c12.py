"""C12: the AST of a source is the one its derivation leads to, with calls, values, lines, scopes and steps."""
from parsecheck import *
from pgrams import maker
from bigsources import big_sources, GOOD, BAD


def mk(rng):
    g = maker(["structured", "structured", "structured", "random"], calls=(0.4, 0.7, 1.0), nocalls=0)(rng)
    if g and rng.random() < 0.7 and not g.prods[0].call:
        g.prods[0].call = ("top", None, None)
    return g


def run(ck):
    explore(ck, "ast", ck.n(4000, 60000), 14, 2, {"ast"}, mk)
    big_sources(ck, GOOD, ck.n([260, 70000], [126, 260, 5000, 33000, 70000, 140000]))
    ck.rule = "a (grammar, source) pair is distinct by its texts; non-trivial if the source has at least two tokens"
    ck.assumptions = ["the tree is the one the source was derived from, unique because the grammar is LALR(1)",
                      "grammars of up to ~10 rules, sources of up to ~150 tokens; large sources of one grammar with the counts of nodes and leaves, the depth and a checksum over values and lines"]
