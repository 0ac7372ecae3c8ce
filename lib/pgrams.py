"""grammar makers for the parser checks"""
from gengram import *


def maker(kinds, calls=(0.3, 0.8), nocalls=0.3, scopes=True, eps=True):
    def f(rng):
        k = rng.choice(kinds)
        g = structured_grammar(rng, eps=eps) if k == "structured" else random_grammar(rng, eps=eps)
        if rng.random() >= nocalls:
            add_calls(g, rng, rng.choice(calls), scopes)
        comments_of(g, rng)
        g.meta = {"LANGUAGE": "x", "TYPESYSTEM": "x"}
        g.cls = classify(g)
        g.order = rng.choice([None, "mixed", "toks_last"])
        return g if g.cls in ("slr", "lalr") else None
    return f
