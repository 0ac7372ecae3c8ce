"""C21: names are told apart by their bytes, whatever their length and number."""
from luascript import run_script


def run(ck):
    run_script(ck, "names.lua", 16, ck.n(4, 60), timeout=200)
    ck.rule = "distinct names by their bytes per database"
    ck.assumptions = ["names up to 200000 bytes, 30000 names in a database; instances with the value nil cannot be set"]
