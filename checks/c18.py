"""C18: what mewa.tostring prints evaluates to the value it was printed for."""
from luascript import run_script


def run(ck):
    run_script(ck, "tostr.lua", 16, ck.n(6000, 60000))
    ck.rule = "values are distinct by their text"
    ck.assumptions = ["nesting up to 150 (the Lua parser stops at 200); NaN is taken as equal to NaN; the exact depth of the cut is not fixed, one level of tolerance",
                      "keys other than strings, numbers and booleans are outside of the property"]
