"""C20: any call of a function of the API with any arguments ends in a result or in a Lua error."""
import os
import vlib
from gram import generate
from luascript import run_script

TEMPLATE = "local typesystem = ...\nreturn %automaton%\n"
GRAMMARS = [
    ("""% LANGUAGE calc; % TYPESYSTEM "x";
ID: "[a-zA-Z_]+[a-zA-Z_0-9]*"; NUM: "[0123456789]+"; 
% COMMENT "#"; % COMMENT "/*" "*/"; % BAD "[@]"; % IGNORE "[$]+";
S = stmts (>>program);
stmts = stmt stmts | ε;
stmt = "{" stmts "}" ({}block) | ID "=" expr ";" (>>assign "x") | expr ";" (stmt {a=1});
expr/L1 = expr "+" expr (op add) | expr "-" expr (op sub);
expr/L2 = expr "*" expr (>>op mul);
expr = ID (id) | NUM (num) | "(" expr ")";
""", [b"x = 1 + 2 * y;\n{ a = (3); b; }\n", b"", b"{{{x;}}}", b"x = 1 + ;", b"x @ 2", b"1+2+3*4*5-6;" * 20, b"/* open", b"# c\nx;"]),
    ("""% LANGUAGE ind; % INDENTL IND END NL 4;
W: "[a-z]+"; Q: '["]([^"]*)["]' 1; % COMMENT "//";
S = lines (lines);
lines = line lines | ε;
line = NL | W (word) | Q (str) | IND lines END ({}block);
""", [b"a\n    b\n        c\n    d\ne\n", b"a \"x\" b", b"\n\n  x", b"a // c\n", b"\t\ta\n\tb\nc", b"\"open"]),
    ("""% LANGUAGE empty;
 S = A (f); A = ε | "a" A (g);""", [b"", b"a a a", b"b", b"a" * 30]),
]


def run(ck):
    d = ck.scratch.sub("defs")
    files = []
    for i, (text, sources) in enumerate(GRAMMARS):
        g = generate(ck, d, text, TEMPLATE, name="g%d" % i)
        if not ck.proc_ok(g.p, "grammar %d" % i, {"grammar": text}, "grammar:") or not g.ok:
            return ck.violation("grammar", "the grammar %d is not accepted: %s" % (i, g.p.err[:300]), {"grammar": text})
        files.append(g.out)
        for j, s in enumerate(sources):
            with open("%s.%d" % (g.out, j + 1), "wb") as f:
                f.write(s)
    run_script(ck, "api.lua", ck.n(240, 2000), ck.n(12, 40), timeout=300, extra=files)
    ck.rule = "a case is one call of an API function with its arguments"
    ck.assumptions = ["the Lua library is not instrumented; its stack and table functions called by the module are checked by wrappers (harness/luaapi.cpp)",
                      "the debug library is not used to change upvalues or the registry",
                      "a call that fails for want of memory is only observed for crashes and for the calls that follow"]
