-- Used by harness/fuzz.cpp: fuzzrun(i, source) compiles a source with the i-th compiler and returns a description of the outcome.
-- "BAD ..." if what the functions called got cannot be: values that are not in the source in their order, lines outside of it or not ascending,
-- an error without a line of the source.
mewa = require("mewa")
local dir = os.getenv("FUZZ_DIR")
local out, bad, src, pos, nlines, lastline, nodes
local names = {}
local function leaf(n)
	local v = n.value
	if type(v) ~= "string" then bad = bad or "leaf " .. tostring(n.name) .. " with value " .. type(v) return end
	local s, e = src:find(v, pos, true)
	if not s then bad = bad or string.format("value %q of %s not in the source from %d on", v, tostring(n.name), pos) return end
	pos = e + 1
	if n.line < lastline or n.line > nlines then bad = bad or string.format("line %d of %q after line %d in a source of %d lines", n.line, v, lastline, nlines) end
	lastline = n.line
	out[#out+1] = n.name .. "=" .. v
end
local function walk(n, depth)
	nodes = nodes + 1
	if n.call == nil then leaf(n) return end
	if n.line < 0 or n.line > nlines then bad = bad or string.format("line %d of a node in a source of %d lines", n.line, nlines) end
	if n.scope and not (n.scope[1] >= 0 and n.scope[1] < n.scope[2]) then bad = bad or string.format("scope %d %d", n.scope[1], n.scope[2]) end
	out[#out+1] = names[n.call.proc] .. "("
	for _,c in ipairs(n.arg) do walk(c, depth+1) end
	out[#out+1] = ")"
end
local function fn(name)
	local f
	f = function(node)
		if node.call.proc ~= f then bad = bad or "node of another function" end
		walk(node, 0)
	end
	names[f] = name
	return f
end
local functions = {}
typesystem = setmetatable({}, {__index = function(_, k) functions[k] = functions[k] or fn(k) return functions[k] end})
local compilers = {}
for fname in os.getenv("FUZZ_TABLES"):gmatch("[^:]+") do compilers[#compilers+1] = mewa.compiler(dofile(fname)) end
fuzztables = #compilers
function fuzzrun(i, s)
	out, bad, src, pos, lastline, nodes = {}, nil, s, 1, 0, 0
	nlines = select(2, s:gsub("\n", "")) + 1
	local f = assert(io.open(dir .. "/t.in", "wb"))
	f:write(s)
	f:close()
	local ok, msg = pcall(compilers[i].run, compilers[i], nil, nil, dir .. "/t.in")
	local res = table.concat(out, " ")
	if bad then return "BAD " .. bad .. ": " .. res end
	if ok then return "OK " .. res end
	msg = tostring(msg)
	local code = msg:match("#(%d+) ")
	local line = tonumber(msg:match("at line (%d+)"))
	if not code then return "BAD error without code: " .. msg end
	if not line and code ~= "586" then return "BAD error without line: " .. msg end
	if line and (line < 1 or line > nlines) then return "BAD error with a line outside of the source of " .. nlines .. " lines: " .. msg end
	return "ERROR " .. msg .. " " .. res
end
