-- work of one of several Lua states: its number, directory, seed, rounds, generated compilers
local mewa = require("mewa")
local idx, dir, seed, rounds = arg[1], arg[2], tonumber(arg[3]), tonumber(arg[4])
local twin = idx % 2 == 1 and idx - 1 or idx		-- two states each do the same work
local s = (seed + twin * 7919) % 2147483647
local function R(a, b) s = (s * 16807) % 2147483647 if not b then a, b = 1, a end return a + s % (b - a + 1) end
for i=1,10 do R(2) end
local out = assert(io.open(dir .. "/out" .. idx, "wb"))
local function put(...) local t = {...} for i=1,select("#", ...) do t[i] = tostring(t[i]) end out:write(table.concat(t, "\t"), "\n") end
local function ser(v) return mewa.tostring(v, 0, false) end
local me = dir .. "/s" .. idx
local calls = {}
typesystem = setmetatable({}, {__index = function(t, k)
	local f = function(node, ...)
		calls[#calls+1] = k
		print(k, node.call.name, ser({...}), #node.arg)
		print_section("Init", k)
		debug("called ", k)
		local function walk(n, d) if n.call then print(string.rep(" ", d), n.call.name, n.line, n.step, n.scope and ser(n.scope)) for _,c in ipairs(n.arg) do walk(c, d+1) end else print(string.rep(" ", d), n.name, "=", n.value) end end
		walk(node, 1)
		return {k, #calls}
	end
	rawset(t, k, f)
	return f
end})
local function readall(fn) local h = io.open(fn, "rb") if not h then return "<none>" end local t = h:read("*a") h:close() os.remove(fn) return t end
local debug_ = debug
local keep = {}
local function compilers(f)
	-- several compilers at once, whose functions must not be mixed up
	local n = R(1, 4)
	local l = {}
	for i=1,n do
		local fn = arg[5 + R(0, #arg - 5)]
		local h = io.open(fn .. ".lua", "rb") local text = h:read("*a") h:close()
		l[i] = {fn, mewa.compiler(assert(load("return " .. text))())}
		if R(3) == 1 then yield() end
	end
	for q=1,R(2,6) do
		local e = l[R(n)]
		local src = e[1] .. "." .. R(0, 5) .. ".src"
		calls = {}
		local o, d = me .. ".out", me .. ".dbg"
		local ok, err = pcall(e[2].run, e[2], nil, R(2) == 1 and {x=1} or nil, src, o, R(2) == 1 and d or nil)
		put("run", src, ok, (tostring(err):gsub("s%d+%.", "S.")), table.concat(calls, ","))
		put(readall(o)) put(readall(d))
		if R(6) == 1 then put(#tostring(e[2])) end
	end
	if R(2) == 1 then keep = l end
end
local function typedbs()
	local db = mewa.typedb()
	local ts, ctx = {0}, {}
	for i=1,R(20, 60) do
		local k = R(8)
		if k == 1 then local a = R(0, 100) put("scope", ser{db:scope({a, a + R(1, 100)})})
		elseif k == 2 then put("step", db:step(R(0, 200)))
		elseif k == 3 then local p = {} for j=1,R(0,3) do local t = ts[R(#ts)] if t > 0 then p[#p+1] = t end end
			local t = db:def_type(ts[R(#ts)], "t" .. R(5), "c" .. i, #p > 0 and p or nil) if t > 0 then ts[#ts+1] = t end put("def", t)
		elseif k == 4 then local ok, e = pcall(db.def_reduction, db, ts[R(#ts)], ts[R(#ts)], {i}, R(1,32), R(0, 10) / 4) put("redu", ok, ok or tostring(e):gsub("^.-#", "#"))
		elseif k == 5 then db:set_instance("x" .. R(3), {i}) put("get", ser{db:get_instance("x" .. R(3))}, ser{db:this_instance("x" .. R(3))})
		elseif k == 6 then local ok, a, b, c = pcall(db.resolve_type, db, ts[R(#ts)], "t" .. R(5)) put("resolve", ok, ok and ser{a, b, c})
		elseif k == 7 then local ok, a, b, c = pcall(db.derive_type, db, ts[R(#ts)], ts[R(#ts)]) put("derive", ok, ok and ser{a, b, c})
		else local t = ts[R(#ts)] put("type", t > 0 and db:type_string(t), t > 0 and ser(db:type_parameters(t)), ser(db:this_types(0, "t" .. R(5))), ser(db:get_types(0, "t1"))) end
	end
	local function tree(n, f) local l = {ser(n:scope())} if n.list then for x in n:list() do l[#l+1] = ser(x) end end if n.instance then l[#l+1] = ser(n:instance()) end
		for c in n:chld() do l[#l+1] = tree(c) end return "(" .. table.concat(l, " ") .. ")" end
	put(tree(db:type_tree())) put(tree(db:reduction_tree()))
end
for r=1,rounds do
	local k = R(5)
	if k <= 2 then compilers() elseif k <= 4 then typedbs()
	else
		put(mewa.llvm_double_tohex(R(1000000) / 7), mewa.llvm_float_tohex(R(1000) / 3), mewa.version())
		put(mewa.tostring({a={R(9),"x\n",{R(99) / 8}}}, 10, true))
		local function tracer() local t = mewa.stacktrace(3) for _,e in ipairs(t) do put(e.line, e["function"]) end return nil end
		tracer()
	end
	if R(10) == 1 then collectgarbage() end
end
out:close()
