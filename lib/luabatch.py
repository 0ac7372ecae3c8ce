"""Batches of API call sequences against the Lua module, with every result written in a parseable form.

A case is a list of calls on fresh objects; each call runs under pcall and writes one line
   #CASE CALL JSON     JSON = {"r":[values...]} or {"e":"message"}
Values: nil -> null, tables with keys 1..n -> list, other tables -> object, registered objects -> {"$":"name"},
functions and userdata -> {"?":type}; strings byte by byte (latin-1), numbers with 17 digits.
"""
import json, os, re
import vlib

PRELUDE = r'''
mewa = require("mewa")
O = {}                 -- registered objects by name
local OINV = {}
function obj(name)
	local o = O[name]
	if o == nil then
		if name:sub(1,1) == "f" then o = function() return name end
		elseif name:sub(1,1) == "b" then o = true; O[name] = o; return o
		else o = {name=name} end
		O[name] = o; OINV[o] = name
	end
	return o
end
local esc = function(c) return string.format("\\u%04x", c:byte()) end
local function js(s) return '"' .. s:gsub('[%c"\\\128-\255]', esc) .. '"' end
local function num(v)
	if v ~= v then return '{"#":"nan"}' elseif v == math.huge then return '{"#":"inf"}' elseif v == -math.huge then return '{"#":"-inf"}' end
	return string.format("%.17g", v)
end
local function ser(v, d)
	local t = type(v)
	if t == "nil" then return "null"
	elseif t == "number" then return num(v)
	elseif t == "string" then return js(v)
	elseif t == "boolean" then return tostring(v)
	elseif OINV[v] then return '{"$":' .. js(OINV[v]) .. '}'
	elseif t == "table" then
		if d > 60 then return '{"?":"deep"}' end
		local n, cnt = #v, 0
		for _ in pairs(v) do cnt = cnt + 1 end
		local r = {}
		if cnt == n then
			for i=1,n do r[i] = ser(rawget(v,i), d+1) end
			return "[" .. table.concat(r, ",") .. "]"
		end
		for k,e in pairs(v) do r[#r+1] = js(tostring(k)) .. ":" .. ser(e, d+1) end
		table.sort(r)
		return "{" .. table.concat(r, ",") .. "}"
	else return '{"?":' .. js(t) .. '}' end
end
json = function(v) return ser(v, 0) end
local function fin(ci, oi, ok, ...)
	if not ok then io.write("#", ci, " ", oi, ' {"e":', json(tostring((...))), "}\n") return nil end
	local n = select("#", ...)
	local r = {}
	for i=1,n do r[i] = ser((select(i, ...)), 0) end
	io.write("#", ci, " ", oi, ' {"r":[', table.concat(r, ","), "]}\n")
	return ...
end
function op(ci, oi, f, ...) return fin(ci, oi, pcall(f, ...)) end
'''


class Raw(str):
    """Lua source text used as it is"""


def lit(v):
    if isinstance(v, Raw):
        return str(v)
    if v is None:
        return "nil"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        if v != v:
            return "(0/0)"
        if v in (float("inf"), float("-inf")):
            return "math.huge" if v > 0 else "-math.huge"
        return repr(v)
    if isinstance(v, (str, bytes)):
        return vlib.luastr(v)
    if isinstance(v, (list, tuple)):
        return "{" + ",".join(lit(e) for e in v) + "}"
    if isinstance(v, dict):
        return "{" + ",".join("[%s]=%s" % (lit(k), lit(e)) for k, e in v.items()) + "}"
    raise TypeError(v)


LINE = re.compile(r"^#(\d+) (\d+) (\{.*\})$")


def unjson(v):
    if isinstance(v, dict):
        if len(v) == 1 and "#" in v:
            return float(v["#"])
        return {k: unjson(e) for k, e in v.items()}
    if isinstance(v, list):
        return [unjson(e) for e in v]
    return v


def run_batch(ck, name, bodies, timeout=60, extra_prelude="", args=(), env=None):
    """bodies: list of Lua texts (one per case, each using op(ci,oi,...)); returns (Proc, {case: {op: result}})"""
    d = ck.scratch.sub(name)
    fn = os.path.join(d, "t.lua")
    with open(fn, "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write(PRELUDE + extra_prelude)
        for b in bodies:
            f.write("(function()\n" + b + "\nend)();\n")
        f.write('io.write("#DONE\\n")\n')
    p = vlib.run([ck.luahost, fn] + list(args), cwd=d, timeout=timeout, env=env)
    res, done = {}, False
    for line in p.out.split("\n"):
        m = LINE.match(line)
        if m:
            try:
                v = unjson(json.loads(m.group(3)))
            except ValueError:
                continue    # output cut off: the operation counts as not done
            res.setdefault(int(m.group(1)), {})[int(m.group(2))] = v
        elif line == "#DONE":
            done = True
    if done and p.rc == 0:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    p_done = done
    return p, res, p_done


def errcode(r):
    """error number in a message like 'Error (455) ...' or '#455', None if there is none"""
    m = re.search(r"#(\d{3})\b", r.get("e", "")) or re.search(r"\b(\d{3})\b", r.get("e", ""))
    return int(m.group(1)) if m else None
