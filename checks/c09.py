"""C09: generated parsers accept exactly the language of their grammar (Earley recogniser as reference)."""
from parsecheck import *
from pgrams import maker
from bigsources import big_sources, GOOD, BAD


def run(ck):
    explore(ck, "lang", ck.n(4000, 60000), 8, 14, {"accept"}, maker(["structured", "structured", "random"]))
    big_sources(ck, GOOD + BAD, ck.n([300, 5000], [130, 300, 5000, 33000, 70000]))
    ck.rule = "a (grammar, source) pair is distinct by its texts; non-trivial if the source has at least two tokens"
    ck.assumptions = ["the reference is an Earley recogniser over the tokens of the reference lexer",
                      "grammars of up to ~10 rules, sources of up to ~100 tokens"]
