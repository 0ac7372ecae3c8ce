"""C25: the stack trace lists the active Lua functions from the caller outwards."""
from luascript import run_script


def run(ck):
    run_script(ck, "stack.lua", ck.n(16, 64), ck.n(150, 600), timeout=300)
    ck.rule = "a trace is distinct by the generated files, the chain of calls and the arguments"
    ck.assumptions = ["headers of functions on one line; of functions not written as 'function NAME(' only that the name is part of the text is required",
                      "frames beyond an anonymous function called by a metamethod or a C function are not compared"]
