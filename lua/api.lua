-- calls of all functions of the API with arguments of any kind
local mewa = require("mewa")
local seed, rounds, dir = tonumber(arg[1]), tonumber(arg[2]), arg[3]
math.randomseed(seed)
local R, unpack = math.random, table.unpack
local count = {}
local function cnt(k, n) count[k] = (count[k] or 0) + (n or 1) end
local nviol = 0
local realprint, realpcall = print, pcall
local function q(s) s = tostring(s) if #s > 200 then s = s:sub(1,100) .. "~" .. #s .. "~" .. s:sub(-100) end return (string.format("%q", s):gsub("[%c\127-\255]", function(c) return string.format("\\%03d", c:byte()) end)) end
local function viol(key, msg)
	nviol = nviol + 1
	if nviol < 20 then realprint("V " .. key .. " " .. msg) io.stdout:flush() end
end
local logf = assert(io.open(dir .. "/last", "w"))
logf:setvbuf("no")

-- definitions of compilers: a function of the type system that returns the table, and sources
local defs = {}
for i=4,#arg do
	local ff = assert(loadfile(arg[i]))
	local s, src = 1, {}
	while true do
		local fn = arg[i] .. "." .. s
		local fh = io.open(fn)
		if not fh then break end
		fh:close()
		src[s] = fn
		s = s + 1
	end
	defs[#defs+1] = {load = ff, src = src}
end

---------------------------------------------------------------- objects
local pool = {typedb = {}, tree = {}, iter = {}, compiler = {}, node = {}, misc = {}, closure = {}}
local function keep(kind, obj)
	local t = pool[kind]
	if #t >= 6 then t[R(6)] = obj else t[#t+1] = obj end
end
local function some(kind)
	local t = pool[kind]
	return t[R(math.max(#t, 1))]
end
local NAMES = {"a", "b", "c", "int", "int&", "", "a\0b", string.rep("n", 300), "x y"}
local SCOPES = {{0,100},{0,50},{10,20},{10,11},{20,90},{30,30},{0},{5},{0,0},{100,2147483647},{[2]=7},{},{0,-1},{1,-2}}
local INTS = {0, 1, 2, 3, 5, 7, 10, 31, 32, 33, 100, -1, -2, -100, 255, 256, 32767, 32768, 65535, 65536, 2^24, 2^30, 2^31-2, 2^31-1, 2^31, -2^31, -2^31-1, 2^32-1, 2^32, 2^32+1, 2^53, -2^53, 2^62, 2^63, -2^63, 2^64, 1e15, 1e18, 9e18, 9.3e18, 1e30, 1e308, -1e308, 1/0, -1/0, 0/0, 0.5, -0.5, 1e-9, 1-1e-16, 3.0000001, 1e-320}
local function fnoop() end
local mtab = {
	setmetatable({}, {__index = function() error("index error") end}),
	setmetatable({1,2}, {__index = function() error({}) end, __len = function() return 1e9 end}),
	setmetatable({}, {__newindex = function() error("newindex error") end, __call = fnoop, __tostring = function() return 5 end}),
	setmetatable({}, {__metatable = "locked", __tostring = function() error("tostring error") end}),
	setmetatable({}, {__pairs = function() error("pairs") end, __eq = function() error("eq") end, __len = function() error("len") end}),
}
local cyc = {1}; cyc[2] = cyc; cyc.type = cyc; cyc.constructor = cyc; cyc[cyc] = cyc
local deep = {}; do local d = deep; for i=1,3000 do d[1] = {}; d.type = i; d = d[1] end end
local wide = {}; for i=1,3000 do wide[i] = i % 7 end
local function str()
	local k = R(12)
	if k <= 5 then return NAMES[R(#NAMES)]
	elseif k == 6 then local t = {} for i=1,R(0,40) do t[i] = string.char(R(0,255)) end return table.concat(t)
	elseif k == 7 then return string.rep("ab\0\255", R(1000))
	elseif k == 8 then return ({"12", "0x10", "1e3", " 7 ", "nan", "-1", "1.5"})[R(7)]
	elseif k == 9 then return dir .. "/out" .. R(5)
	elseif k == 10 then return ({"stdout", "stderr", dir, dir .. "/no/such", "", "/dev/null", dir .. string.rep("/.", 200)})[R(7)]
	elseif k == 11 then return ("%s%d%n{}"):rep(R(3))
	end
	return string.char(R(32,126))
end
local hostile
local function rlist(n, f)
	local t, k = {}, R(6)
	-- the elements may be visited in another order than that of their indices, or some be missing
	if k == 1 then for i=n,1,-1 do t[i] = f() end
	elseif k == 2 then for i=n,1,-1 do if R(8) > 1 then t[i] = f() end end
	elseif k == 3 then for i=1,n do t["k" .. i] = true end for i=n,1,-1 do t[i] = f() end for i=1,n do t["k" .. i] = nil end
	else for i=1,n do t[i] = f() end end
	return t
end
hostile = function(d)
	d = d or 0
	local k = R(26)
	if k <= 2 then return nil
	elseif k == 3 then return R(2) == 1
	elseif k <= 8 then return INTS[R(#INTS)]
	elseif k <= 11 then return str()
	elseif k == 12 then return {}
	elseif k == 13 and d < 3 then return rlist(R(1,4), function() return hostile(d+1) end)
	elseif k == 14 and d < 3 then
		local t = {}
		for i=1,R(3) do
			local key = hostile(d+1)
			if key ~= nil and key == key then t[key] = hostile(d+1) end
		end
		return t
	elseif k == 15 then return ({cyc, deep, wide, _G, package.loaded, {[2^30] = 1}, {[2^31-1] = 1}, {[1e15] = 1}, {1, 2, nil, 4}, {nil, 2}, {[0] = 1}, {[-1] = 1}, {1, 2, x = 3}, {[1] = 1, [1.0000000000000002] = 2}, {[2] = 1}, {type = 1}, {type = -1}, {type = "1"}, {type = 2^31}, {{1, print}}, {{type = 1, constructor = print}}, {{type = 1e10}}, {{0/0}}, {"1"}, {"x"}, {{"1", "x"}}, {{}}, {{{}}}})[R(28)]
	elseif k == 16 then return mtab[R(#mtab)]
	elseif k == 17 then return ({print, fnoop, error, mewa.typedb, mewa.tostring, mewa.compiler, function() error(nil) end, coroutine.yield, string.rep, pool.closure[1]})[R(10)]
	elseif k == 18 then return coroutine.create(function() coroutine.yield(1) end)
	elseif k == 19 then return ({io.stdout, io.stderr})[R(2)]
	elseif k == 20 then return some("typedb")
	elseif k == 21 then return some("tree")
	elseif k == 22 then return some("compiler")
	elseif k == 23 then return some("iter")
	elseif k == 24 then return some("node")
	elseif k == 25 then return some("closure")
	end
	return some("misc")
end
---------------------------------------------------------------- arguments
local A = {}
local cur				-- the database of the call
local limit = {}			-- number of types of a database
setmetatable(limit, {__mode = "k"})
function A.type() local n = limit[cur] or 0 local k = R(30) if k == 1 then return n + 1 elseif k == 2 then return -1 elseif k == 3 then return n + R(5) elseif k < 7 then return 0 end return R(0, n) end
function A.type1() local n = limit[cur] or 0 return R(1, math.max(n, 1)) end
function A.name() return NAMES[R(#NAMES)] end
function A.any() return hostile() end
function A.scope() return SCOPES[R(#SCOPES)] end
function A.step() return ({0, 1, 9, 10, 15, 20, 49, 50, 99, 100, 2^31-1, -1})[R(12)] end
function A.int() return INTS[R(#INTS)] end
function A.tag() return R(0, 33) end
function A.mask() return ({0, 1, 2, 3, 6, 7, 15, 2^31-1, 2^31, 2^32-1, 2^32, -1})[R(12)] end
function A.num() return R(2) == 1 and R() or INTS[R(#INTS)] end
function A.pathlen() return R(0,4) end
function A.str() return str() end
function A.bool() return R(2) == 1 end
function A.tclist()
	if R(5) == 1 then return hostile() end
	return rlist(R(0, 3), function() local t = A.type1() local k = R(4) return k == 1 and {type = t, constructor = hostile()} or k == 2 and {t, hostile()} or k == 3 and {type = t} or t end)
end
function A.tlist()
	if R(5) == 1 then return hostile() end
	return rlist(R(0, 3), function() local t = A.type() return R(2) == 1 and {type = t, constructor = hostile()} or t end)
end
function A.typeorlist() return R(2) == 1 and A.type() or A.tlist() end
function A.strlist() return R(3) == 1 and hostile() or rlist(R(0, 3), str) end
function A.source() local d = defs[R(#defs)] return R(6) == 1 and str() or d.src[R(#d.src)] end
function A.outfile() if R(12) == 1 then return "/dev/full" end return R(8) == 1 and str() or dir .. "/out" .. R(5) end
function A.tmpl() return R(3) == 1 and (dir .. "/tmpl") or nil end
function A.def()
	if R(3) == 1 then return hostile() end
	return pool.newdef()
end
local API = {typedb = {
	{"scope", "scope", "step"}, {"scope", "scope"}, {"scope"}, {"step", "step"}, {"step"},
	{"this_instance", "name"}, {"get_instance", "name"}, {"set_instance", "name", "any"}, {"set_instance", "name", "any"},
	{"def_type", "type", "name", "any", "tclist"}, {"def_type", "type", "name"}, {"def_type", "type", "name", "any"}, {"def_type", "type", "str", "any", "tclist"},
	{"def_type_as", "type", "name", "type"}, {"this_type", "type", "name", "tlist"}, {"this_type", "type", "name"}, {"this_types", "type", "name"},
	{"get_type", "type", "name", "tlist"}, {"get_types", "type", "name"},
	{"def_reduction", "type", "type", "any", "tag", "num"}, {"def_reduction", "type", "type", "any", "tag"},
	{"reduction_tagmask", "tag", "tag", "tag"}, {"derive_type", "type", "type", "mask", "mask", "pathlen"}, {"derive_type", "type", "type"},
	{"resolve_type", "typeorlist", "name", "mask"}, {"resolve_type", "typeorlist", "name"},
	{"type_name", "type"}, {"type_string", "type"}, {"type_string", "type", "str"}, {"type_context", "type"}, {"type_parameters", "type"},
	{"type_nof_parameters", "type"}, {"type_constructor", "type"}, {"type_scope", "type"},
	{"get_reduction", "type", "type", "mask"}, {"get_reductions", "type", "mask", "mask"},
	{"instance_tree", "name"}, {"type_tree"}, {"reduction_tree"}},
	tree = {{"chld"}, {"scope"}, {"list"}, {"instance"}},
	compiler = {{"run", "tmpl", "any", "source"}, {"run", "tmpl", "any", "source", "outfile"}, {"run", "tmpl", "any", "source", "outfile", "outfile"}, {"__tostring"}},
	module = {{"compiler", "def"}, {"compiler", "def"}, {"typedb"}, {"tostring", "any", "int", "bool"}, {"tostring", "any"}, {"version"}, {"llvm_float_tohex", "num"}, {"llvm_double_tohex", "num"}, {"stacktrace", "int", "strlist"}, {"stacktrace"}},
}
local FIELDS = {}	-- the functions by kind, read once
---------------------------------------------------------------- compilers
local step		-- forward: one random call
local level = 0
local function callback(node, ...)
	if R(3) == 1 then keep("node", node) end
	keep("misc", (select(R(4), ...)))
	if R(10) == 1 then keep("closure", _G.print) end
	if R(20) == 1 then keep("closure", _G.print_section) end
	if R(20) == 1 then keep("closure", _G.debug) end
	if type(node) == "table" and R(2) == 1 and level < 6 then
		for i,n in ipairs(node.arg or {}) do if n.call and R(3) > 1 then n.call.proc(n, hostile()) end end
	end
	local k = R(60)
	if k == 1 then error("callback error")
	elseif k == 2 then error({})
	elseif k == 3 then error()
	elseif k == 4 then return unpack(wide, 1, R(250))
	elseif k == 5 then collectgarbage()
	elseif k == 6 then coroutine.yield()
	elseif k == 7 then _G.print = nil
	elseif k == 8 then _G.print(hostile(), hostile())
	elseif k == 9 then _G.print_section(hostile(), hostile())
	elseif k == 10 then _G.print_section(str(), hostile(), str())
	elseif k == 11 then _G.debug(hostile())
	elseif k <= 30 and level < 4 then step()
	end
	return hostile()
end
local function typesystem(mk)
	local fns = {}
	return setmetatable({}, {__index = function(t, k)
		if R(40) == 1 then return hostile() end
		fns[k] = fns[k] or function(...) return callback(...) end
		return fns[k]
	end})
end
local function copy(t, seen)
	seen = seen or {}
	if type(t) ~= "table" or debug.getmetatable(t) or t == _G or t == package.loaded or t == deep then return t end
	if seen[t] then return seen[t] end
	local r = {}
	seen[t] = r
	for k,v in next,t do r[k] = copy(v, seen) end
	return r
end
local function mutate(t, d)
	local keys = {}
	for k in next,t do keys[#keys+1] = k end
	local function ks(k) return type(k) == "number" and string.format("%020.6f", k) or type(k) == "string" and k or type(k) end
	table.sort(keys, function(a,b) return ks(a) < ks(b) end)
	local k = keys[R(math.max(#keys,1))]
	if k == nil then t[1] = hostile() return end
	local e = t[k]
	if type(e) == "table" and not debug.getmetatable(e) and e ~= _G and e ~= package.loaded and e ~= deep and R(6) > 1 then return mutate(t[k], (d or 0) + 1) end
	local m = R(9)
	if m == 1 then t[k] = nil
	elseif m == 2 then t[k] = hostile()
	elseif m == 3 then local nk = hostile() if nk ~= nil and nk == nk then t[nk] = t[k] end
	elseif m == 4 and type(t[k]) == "number" then t[k] = t[k] + R(-3,3)
	elseif m == 5 and type(t[k]) == "number" then t[k] = R(0, 2^31-1)
	elseif m == 6 and type(k) == "number" then t[k + R(-2,2)] = t[k]
	elseif m == 7 and #keys > 1 then local o = keys[R(#keys)] t[k], t[o] = t[o], t[k]
	elseif m == 8 and type(t[k]) == "string" then t[k] = t[k]:sub(1, R(0,#t[k])) .. (R(2) == 1 and str() or "") .. t[k]:sub(R(1,#t[k]+1))
	elseif m == 9 then t[#t+1] = t[k]
	else t[k] = hostile()
	end
end
-- the parser may run forever with tables of the parser that were altered
local altered = setmetatable({}, {__mode = "k"})
local function same(a, b)
	if rawequal(a, b) then return true end
	if type(a) ~= "table" or type(b) ~= "table" then return false end
	for k,v in next,a do if rawget(b, k) ~= v then return false end end
	for k,v in next,b do if rawget(a, k) ~= v then return false end end
	return true
end
function pool.newdef()
	local def = defs[R(#defs)].load(typesystem())
	local orig = def
	if R(3) > 1 then
		for i=1,R(3) do def = copy(def) if next(def) then mutate(def) end end
		if not same(def.action, orig.action) or not same(def.gto, orig.gto) then altered[def] = true cnt("altered_tables") end
	end
	return def
end
---------------------------------------------------------------- observations
local function try(f, ...)
	local r = table.pack(realpcall(f, ...))
	return r
end
local function flat(v, d)
	local t = type(v)
	if t == "table" and d < 3 and v ~= package.loaded and v ~= _G then
		local r = {}
		for k,e in next,v do r[#r+1] = ((type(k) == "string" or type(k) == "number") and tostring(k) or type(k)) .. "=" .. flat(e, d+1) end
		table.sort(r)
		return "{" .. table.concat(r, ",") .. "}"
	elseif t == "number" then return string.format("%.17g", v)
	elseif t == "string" then return v end
	return rawequal(v, nil) and "nil" or t == "table" and "tab" or t
end
local function show(...)
	local r = {}
	local a = try(...)
	if not a[1] then return "ERR" end
	for i=2,a.n do r[#r+1] = flat(a[i], 0) end
	return table.concat(r, ";")
end
local TD
local function dump(td)
	local r = {show(TD.scope, td)}
	local n = limit[td] or 0
	for t=0,n+1 do
		r[#r+1] = t .. ":" .. show(TD.type_name, td, t) .. "|" .. show(TD.type_context, td, t) .. "|" .. show(TD.type_nof_parameters, td, t) .. "|" .. show(TD.type_scope, td, t) .. "|" .. show(TD.get_reductions, td, t) .. "|" .. show(TD.type_parameters, td, t)
	end
	for _,name in ipairs(NAMES) do
		r[#r+1] = show(TD.this_instance, td, name) .. "|" .. show(TD.get_instance, td, name) .. "|" .. show(TD.this_types, td, 0, name)
	end
	return table.concat(r, "\n")
end
local canary
do
	local td = mewa.typedb()
	TD = getmetatable(td)
	td:scope({0,100}, 10)
	local int = td:def_type(0, "int", "c_int")
	local ref = td:def_type(0, "int&", "c_ref", {int, {type = int, constructor = "p"}})
	td:def_reduction(int, ref, "deref", 1, 0.5)
	td:def_type(int, "member", "m", {})
	td:set_instance("obj", {1})
	td:scope({10,20}, 15)
	td:set_instance("obj", "inner")
	td:def_type(ref, "inner")
	td:scope({0,100}, 15)
	limit[td] = 4
	canary = td
end
local function canaryState()
	local td = canary
	return dump(td) .. show(TD.derive_type, td, 1, 2) .. show(TD.resolve_type, td, 2, "member") .. show(TD.type_string, td, 2) .. show(TD.get_instance, td, "obj") .. show(TD.reduction_tagmask, 1, 2, 31)
end
local canary0 = canaryState()
local nodes
local goodc = mewa.compiler(defs[1].load(setmetatable({}, {__index = function(t, k) return function(node)
	local function walk(n) return n.call and n.call.name .. "(" .. (function() local r = {} for i,c in ipairs(n.arg) do r[i] = walk(c) end return table.concat(r, ",") end)() .. ")" or n.name .. "=" .. n.value .. "@" .. n.line end
	walk = nil
	local function w(n, d) if n.call then local r = {} for i,c in ipairs(n.arg) do r[i] = w(c) end return n.call.name .. "(" .. table.concat(r, ",") .. ")" end return n.name .. "=" .. n.value .. "@" .. n.line end
	nodes[#nodes+1] = w(node)
	_G.print("out")
end end})))
local function compilerState()
	nodes = {}
	local fn = dir .. "/canary.out"
	local p = _G.print
	local ok, msg = realpcall(getmetatable(goodc).run, goodc, dir .. "/ctmpl", nil, defs[1].src[1], fn)
	if _G.print ~= p then return "print not restored" end
	local fh = io.open(fn)
	local c = fh and fh:read("*a") or "NOFILE"
	if fh then fh:close() end
	os.remove(fn)
	return tostring(ok) .. tostring(msg) .. table.concat(nodes, "\n") .. c
end
local fh = assert(io.open(dir .. "/ctmpl", "w")) fh:write("<{Code}>") fh:close()
fh = assert(io.open(dir .. "/tmpl", "w")) fh:write("[{Code}{a}{Source}{Triple}") fh:close()
local compiler0 = compilerState()
if not compiler0:match("^truenil.") then viol("canary-run", q(compiler0)) end
---------------------------------------------------------------- calls
local function desc(v)
	local t = type(v)
	if t == "string" then return q(v)
	elseif t == "number" then return string.format("%.17g", v)
	elseif t == "table" and getmetatable(v) == nil then
		local r, n = {}, 0
		for k,e in next,v do
			n = n + 1
			if n > 4 then r[#r+1] = "..." break end
			r[#r+1] = (type(k) == "table" and "tab" or type(k) == "number" and string.format("[%.17g]", k) or type(k) == "string" and q(k) or type(k)) .. "=" .. (type(e) == "table" and "{..}" or type(e) == "string" and q(e) or type(e) == "number" and string.format("%.17g", e) or type(e))
		end
		return "{" .. table.concat(r, ",") .. "}"
	end
	for k,l in pairs(pool) do if type(l) == "table" then for i,o in ipairs(l) do if rawequal(o, v) then return k .. "#" .. i end end end end
	return rawequal(v, nil) and "nil" or t == "boolean" and tostring(v) or t
end
local closed = setmetatable({}, {__mode = "k"})
local function invoke(fn, args)
	local k = R(30)
	if k == 1 then
		cnt("coroutine_direct")
		return table.pack(coroutine.resume(coroutine.create(fn), unpack(args, 1, args.n)))
	elseif k == 2 then
		cnt("coroutine")
		return table.pack(coroutine.resume(coroutine.create(function(...) return fn(...) end), unpack(args, 1, args.n)))
	elseif k == 3 and level == 0 then
		cnt("memory_limit")
		local n = ({0, 20, 100, 300, 1000, 3000, 10000, 100000})[R(8)]
		host.alloc_limit(n)
		local r = table.pack(realpcall(fn, unpack(args, 1, args.n)))
		host.alloc_limit(-1)
		r.memory = true
		return r
	elseif k == 4 then
		cnt("tailcall")
		return table.pack(realpcall(function(...) return fn(...) end, unpack(args, 1, args.n)))
	elseif k == 5 then
		cnt("metamethod")
		local o = setmetatable({}, {__index = fn, __call = fn, __add = fn, __concat = fn, __tostring = fn, __len = fn})
		local m = R(5)
		if m == 1 then return table.pack(realpcall(function() return o[args[2]] end)), true
		elseif m == 2 then return table.pack(realpcall(function() return args[1] + o end)), true
		elseif m == 3 then return table.pack(realpcall(function() return tostring(o) end)), true
		elseif m == 4 then return table.pack(realpcall(function() return o .. args[1] end)), true
		else return table.pack(realpcall(xpcall, error, fn, "x")), true end
	end
	return table.pack(realpcall(fn, unpack(args, 1, args.n)))
end
local ncalls = 0
step = function()
	level = level + 1
	local kind = R(20)
	kind = kind <= 11 and "typedb" or kind <= 14 and "tree" or kind <= 16 and "iter" or kind <= 18 and "compiler" or "module"
	local obj, fn, name, args, recv
	if kind == "iter" then
		fn, name, args = some("iter"), "iterator", {n = 0}
		if R(10) == 1 then fn, name = some("closure"), "closure" end
		if fn == nil then level = level - 1 return end
		if R(4) > 1 then args.n = 2 else args.n = R(0,4) for i=1,args.n do args[i] = hostile() end end
	else
		local list = API[kind]
		local e = list[R(#list)]
		if kind ~= "module" then
			obj = some(kind)
			if obj == nil then level = level - 1 return end
			recv = obj
			name = e[1]
			local mt = FIELDS[kind]
			if R(300) == 1 then name = "__gc" end
			fn = debug.getmetatable(obj)[name]
			if kind == "tree" and not fn then level = level - 1 return end
			if R(40) == 1 then recv = hostile() end
		else
			name = e[1]
			fn = mewa[name]
		end
		cur = kind == "typedb" and obj or nil
		args = {n = 0}
		local function add(v) args.n = args.n + 1 args[args.n] = v end
		if kind ~= "module" and not (name == "reduction_tagmask" and R(2) == 1) then add(recv) end
		if name ~= "__gc" then
			local bad = R(3) == 1
			for i=2,#e do add((bad and R(3) == 1) and hostile() or A[e[i]]()) end
			local k = R(25)
			if k == 1 then args.n = math.max(args.n - 1, 0) args[args.n + 1] = nil
			elseif k == 2 then add(hostile())
			elseif k == 3 then for i=1,R(1,300) do add(hostile()) end
			elseif k == 4 then args = {n = 0} end
		end
	end
	local d = {}
	for i=1,math.min(args.n,8) do d[i] = desc(args[i]) end
	local what = kind .. ":" .. name .. "(" .. table.concat(d, ", ") .. (args.n > 8 and " .. " .. args.n or "") .. ")"
	logf:seek("set", 0)
	logf:write(what:sub(1,2000), "\n                                        \n")
	ncalls = ncalls + 1
	local td = kind == "typedb" and level == 1 and R(6) == 1 and obj
	local finalized = count.finalizer_run
	local before = td and dump(td)
	if td and limit[td] == nil then td = nil end
	local r, meta = invoke(fn, args)
	cnt(r[1] and "returned" or "raised")
	cnt("fn_" .. name .. (r[1] and "_ok" or "_err"))
	if not r[1] and not meta and not r.memory and name ~= "run" and kind ~= "iter" and name ~= "tostring" and name ~= "compiler" and type(r[2]) ~= "string" then
		viol("error-kind:" .. name, what .. " raised an error that is a " .. type(r[2]))
	end
	if td and not r[1] and not meta and not r.memory and name ~= "__gc" and recv == obj and finalized == count.finalizer_run then
		local after = dump(td)
		cnt("state_compared")
		if finalized == count.finalizer_run and after ~= before then
			local b = {} for l in before:gmatch("[^\n]*") do b[#b+1] = l end
			local i, df = 0, "" for l in after:gmatch("[^\n]*") do i = i + 1 if l ~= b[i] then df = tostring(b[i]) .. " -> " .. l break end end
			viol("failed-call-changes:" .. name, what .. " raised " .. q(r[2]) .. " and changed the database: " .. q(df))
		end
	end
	if name == "__gc" and r[1] and kind ~= "iter" and not meta then cnt("finalized") end
	-- results
	if r[1] and not meta then
		if kind == "typedb" and (name == "def_type") and type(r[2]) == "number" then
			if r[2] > (limit[obj] or 0) then limit[obj] = r[2] end
		elseif kind == "typedb" and name:match("_tree$") and type(r[2]) == "userdata" then keep("tree", r[2])
		elseif kind == "tree" and type(r[2]) == "function" then keep("iter", r[2])
		elseif kind == "iter" and type(r[2]) == "userdata" then keep("tree", r[2])
		elseif name == "compiler" and type(r[2]) == "userdata" then keep("compiler", r[2]) if altered[args[1]] then pool.altered = true host.watchdog(20) end
		elseif name == "typedb" and type(r[2]) == "userdata" then limit[r[2]] = 0 keep("typedb", r[2])
		elseif r[2] ~= nil then keep("misc", r[2]) end
	end
	level = level - 1
end
local function finalizer()
	local a, b, c = some("typedb"), some("tree"), some("compiler")
	return setmetatable({}, {__gc = function()
		cnt("finalizer_run")
		local l = level
		level = level + 3
		for i=1,3 do realpcall(step) end
		if a then
			realpcall(function() a:get_instance("a") end)
			realpcall(function() a:def_type(0, "f") end)
			realpcall(function() a:type_tree() end)
		end
		if b then realpcall(function() b:scope() end) realpcall(function() b:chld()(1,2) end) end
		if c then realpcall(function() tostring(c) end) realpcall(function() c:run(nil, nil, defs[1].src[1], dir .. "/outf") end) end
		for i,p in ipairs(pool.closure) do realpcall(p, "a", "b") end
		level = l
	end})
end
keepalive = {}
for i=1,3 do keepalive[i] = finalizer() end
for round=1,rounds do
	if R(3) == 1 or #pool.typedb == 0 then pool.typedb = {} end
	while #pool.typedb < 2 do local td = mewa.typedb() limit[td] = 0 pool.typedb[#pool.typedb+1] = td end
	if #pool.compiler < 2 or R(4) == 1 then
		pool.compiler = {}
		for i=1,2 do pool.compiler[i] = mewa.compiler(defs[R(#defs)].load(setmetatable({}, {__index = function(t,k) local f = function(...) return callback(...) end rawset(t, k, f) return f end}))) end
	end
	if R(4) == 1 then keepalive[#keepalive+1] = finalizer() end
	if R(6) == 1 then keepalive[R(#keepalive)] = false end
	for i=1,60 do
		step()
		level = 0
		if _G.print ~= realprint then _G.print = realprint end
		if R(30) == 1 then collectgarbage(R(2) == 1 and "step" or "collect") end
		for j,td in ipairs(pool.typedb) do if (limit[td] or 0) > 40 then local n = mewa.typedb() limit[n] = 0 pool.typedb[j] = n end end
	end
	if pool.altered then pool.compiler, pool.closure = {}, {} host.watchdog(20) end
	local c = canaryState()
	if c ~= canary0 then viol("canary-typedb", "the answers of another database changed: " .. q(c)) canary0 = c end
	if round % 4 == 0 then
		local s = compilerState()
		if s ~= compiler0 then viol("canary-compiler", "the result of another compiler changed from " .. q(compiler0) .. " to " .. q(s)) break end
	end
end
-- objects left for the end of the interpreter in any order
local late = {}
for i=1,R(0,4) do late[i] = R(2) == 1 and finalizer() or some(({"typedb", "tree", "compiler", "iter"})[R(4)]) end
keepalive.late = late
keepalive.after = setmetatable({}, {__gc = function() logf:close() end})
for k,v in pairs(count) do print("C " .. k .. " " .. v) end
print("C api_checks " .. host.api_checks())
print("N " .. ncalls .. " " .. ncalls)
print("D")
