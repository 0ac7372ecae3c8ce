-- C27: errors raised in functions called by a run reach the caller of the run
-- arguments: seed, rounds, directory, file with the table of the compiler for the grammar in checks/c27.py
mewa = require("mewa")
local seed, rounds, dir, table_ = tonumber(arg[1]), tonumber(arg[2]), arg[3], arg[4]
math.randomseed(seed)
local R = math.random
local nviol, ne, nd = 0, 0, 0
local count = {}
local function cnt(k, n) count[k] = (count[k] or 0) + (n or 1) end
local function show(s) return (tostring(s):gsub("[%c\128-\255]", function(c) return string.format("\\%03d", c:byte()) end)) end
local function viol(key, msg) nviol = nviol + 1 if nviol < 20 then print("V " .. key .. " " .. show(msg):sub(1, 1500)) end end
local function pick(t) return t[R(#t)] end

local trace, raise, caught
local compiler
typesystem = {}
function typesystem.f(node) trace[#trace+1] = node.arg[1].value if node.arg[1].value == "boom" then raise() end return 1 end
function typesystem.g(node)
	trace[#trace+1] = "("
	for i,c in ipairs(node.arg) do c.call.proc(c) end
	trace[#trace+1] = ")"
end
-- catches the errors of the functions called
function typesystem.h(node)
	trace[#trace+1] = "["
	for i,c in ipairs(node.arg) do
		local ok, err = pcall(c.call.proc, c)
		if not ok then trace[#trace+1] = "!" caught = {err} end
	end
	trace[#trace+1] = "]"
end
compiler = mewa.compiler(dofile(table_))

-- a source and the trace of its run
local function source(n, boom)
	local src, tr = {}, {}
	local left, at, dead = n, boom, false
	local function items(depth, incatch)	-- returns true if the error passes
		local k = 0
		while left > 0 and k < 1 + R(8) do
			left, k = left - 1, k + 1
			local x = R(10)
			if x <= 2 and depth < 40 then
				local h = x == 1 and R(2) == 1
				src[#src+1] = h and "[" or "{"
				if not dead then tr[#tr+1] = h and "[" or "(" end
				if h then
					-- every item on its own
					local m = R(3)
					for _=1,m do
						if left > 0 and R(3) == 1 then
							left = left - 1
							src[#src+1] = "{"
							local was = dead
							if not dead then tr[#tr+1] = "(" end
							items(depth+1)
							src[#src+1] = "}"
							if not dead then tr[#tr+1] = ")" end
							if dead and not was then tr[#tr+1] = "!" dead = false end
						else
							local v = "boom"
							if R(4) > 1 or at <= 0 then v = "v" .. R(100) end
							src[#src+1] = v .. ";"
							if not dead then tr[#tr+1] = v if v == "boom" then tr[#tr+1] = "!" end end
						end
					end
				else
					items(depth+1)
				end
				src[#src+1] = h and "]" or "}"
				if not dead then tr[#tr+1] = h and "]" or ")" end
			else
				at = at - 1
				local v = at == 0 and "boom" or "v" .. R(1000)
				src[#src+1] = v .. ";"
				if not dead then tr[#tr+1] = v if v == "boom" then dead = true end end
			end
			if R(5) == 1 then src[#src+1] = "\n" end
		end
	end
	while left > 0 do items(0) end
	return table.concat(src, " "), table.concat(tr, " "), dead
end
local function write(name, s)
	local f = assert(io.open(dir .. "/" .. name, "wb"))
	f:write(s)
	f:close()
	return dir .. "/" .. name
end
local CH = {"a", "b", " ", "#", "1", "7", "\"", ":", "%", "s", "d", "\n", "\t", "\195\169", "\255", "(", "'", "at line ", "Error", "in file", "[", ".lua", ".lua:", "\\"}
local function text()
	local t = {}
	for i=1,pick{0,1,2,5,20,100,600,3000} do t[i] = pick(CH) end
	return pick{"", "", "", "", "Error at line ", "Error at line 7: ", "Error at line 7 in file \"x\": ", "#", "#601 ", "#601 \"", "#455 \"x\" at line 3: ", "#99999999999999 "} .. table.concat(t)
end
local co = coroutine.create(function() end)
-- each: function raising, what the message has to contain ("" for none), or a function judging it
local KINDS
local function here() return debug.getinfo(2, "l").currentline end
local db = mewa.typedb()
local APICALLS = {
	function() db:def_type() end, function() db:def_type("x", "y") end, function() db:type_name(99999) end, function() db:type_name("x") end, function() mewa.typedb(1, 2) end,
	function() db:get_reduction(1) end, function() db:def_reduction(1, 1, 1, 1, 1) end, function() db:set_instance(1) end, function() db:step(-1) end, function() db:scope({5,3}) end,
	function() db:resolve_type({}) end, function() db:derive_type(0, 99999) end, function() mewa.tostring() end, function() mewa.stacktrace(-1) end, function() mewa.compiler({}) end, function() mewa.compiler(1) end,
	function() compiler:run(nil, nil, dir .. "/missing") end, function() compiler:run() end, function() db:def_type_as(0, "x", 4711) end, function() mewa.llvm_float_tohex("x") end}
local function parts(m) return m:match("^#(%d+)"), m:match("^#%d+ (\"[^\"]*\")"), m:match("^#%d+ \"[^\"]*\" at line %-?%d+ in file \"[^\"]*\"(.*)$") or m:match("^#%d+ \"[^\"]*\" at line %-?%d+(.*)$") or m:match("^#%d+ \"[^\"]*\"(.*)$") end
KINDS = {
	string0 = function() local t = text() return function() error(t, 0) end, t end,
	string0u = function() local t = pick{"Error at line 7: x", "Error at line 7", "hello", "Error at line 70 in file \"y.src\": z"} return function() error(t, 0) end, t end,
	string1 = function() local t = text() return function() error(t) end, ".lua:" .. here() .. ": " .. t end,
	string2 = function() local t = text() return function() error(t, 2) end, t end,
	number = function() local n = R(100000) return function() error(n, 0) end, tostring(n) end,
	nothing = function() local v = pick{false, true, {}, print, io.stdout, co, db, setmetatable({}, {__tostring = function() error("x") end})} if R(5) == 1 then v = nil end return function() error(v) end, "" end,
	empty = function() return function() error("", 0) end, "" end,
	assertion = function() local t = "m" .. R(1000) return function() assert(false, t) end, t end,
	assertion0 = function() return function() assert(nil) end, "assertion failed" end,
	index = function() return function() local x = nil return x.y end, "attempt to index" end,
	callnil = function() return function() undefinedfunction() end, "undefinedfunction" end,
	arith = function() return function() return {} + 1 end, "arithmetic" end,
	concat = function() return function() return {} .. "x" end, "concatenate" end,
	-- no collection while the stack is exhausted: finalizers running then fail themselves, with another error of Lua
	overflow = function() return function() collectgarbage("stop") local function r() return 1 + r() end return r() end, "overflow" end,
	inmeta = function() local t = "mm" .. R(1000) return function() return setmetatable({}, {__index = function() error(t) end}).x end, t end,
	incoroutine = function() local t = "cc" .. R(1000) return function() coroutine.wrap(function() error(t, 0) end)() end, t end,
	rethrown = function() local t = "rr" .. R(1000) return function() local _, e = pcall(error, t) error(e, 0) end, t end,
	insort = function() local t = "ss" .. R(1000) return function() table.sort({3,2,1}, function() error(t) end) end, t end,
	chunk = function() local t = "kk" .. R(1000) local f = (loadstring or load)("error('" .. t .. "')", "=chunk") return function() f() end, t end,
	chunkindex = function() local f = (loadstring or load)("local a = nil\n\nreturn a.b", "=chunk") return function() f() end, "attempt to index" end,
	api = function()
		local f = pick(APICALLS)
		local ok, m = pcall(f)
		if ok then return f, nil end
		return f, function(msg)
			local c, t, p = parts(m)
			local c2, t2, p2 = parts(msg)
			if c ~= c2 or t ~= t2 or p ~= p2 then return "outside of the run: " .. tostring(m) end
		end
	end,
	nested = function()
		local s = pick{"a;", "a; }", "a; ?", "", "\n\n{", "{ a; }\n boom boom", "[ ;", "x; \n\n=\n"}
		local fn = write("nested", s)
		local saved = trace
		local function f() local t = trace trace = {} local ok, m = pcall(compiler.run, compiler, nil, nil, fn) trace = t if not ok then error(m, 0) end end
		trace = {}
		local ok, m = pcall(f)
		trace = saved
		if ok then return f, nil end
		return pick{f, function() compiler:run(nil, nil, fn) end}, function(msg) if msg ~= m then return "of the run alone: " .. tostring(m) end end
	end,
}
local names = {}
for k in pairs(KINDS) do names[#names+1] = k end
table.sort(names)
local function run(how, fn)
	trace = {}
	if how == "coroutine" then
		local c = coroutine.create(function() return pcall(compiler.run, compiler, nil, nil, fn) end)
		local _, ok, m = coroutine.resume(c)
		return ok, m
	elseif how == "resume" then
		return coroutine.resume(coroutine.create(function() compiler:run(nil, nil, fn) end))
	elseif how == "xpcall" then
		local seen
		local ok, m = xpcall(function() compiler:run(nil, nil, fn) end, function(e) seen = e return debug.traceback("tb", 1) end)
		return ok, ok and m or seen
	elseif how == "deep" then
		local function d(n) if n == 0 then return pcall(compiler.run, compiler, nil, nil, fn) end local a, b = d(n-1) return a, b end
		return d(50)
	elseif how == "debug" then
		return pcall(compiler.run, compiler, nil, nil, fn, nil, dir .. "/debug")
	end
	return pcall(compiler.run, compiler, nil, nil, fn)
end
local HOW = {"plain", "plain", "coroutine", "resume", "xpcall", "deep", "debug"}
for i=1,rounds do
	local n = pick{1,2,3,10,30,100,400}
	local src, tr, dead = source(n, R(3) == 1 and 0 or R(n))
	local kind = pick(names)
	local want
	raise, want = KINDS[kind]()
	if want == nil then raise, want, kind = function() error("plain", 0) end, "plain", "string0" end
	if kind == "empty" or kind == "nothing" then cnt("without_message") end
	local fn = write("source", src)
	local how = pick(HOW)
	if R(20) == 1 and kind ~= "overflow" then collectgarbage("setpause", 1) collectgarbage("setstepmul", 2000) end
	local ok, msg = run(how, fn)
	local got = table.concat(trace, " ")
	local ctx = "error " .. kind .. " in a run (" .. how .. ") of " .. src:sub(1,200)
	ne = ne + 1
	cnt("runs_" .. how)
	if got ~= tr then viol("calls:" .. kind, ctx .. ": functions called: " .. got .. ", expected: " .. tr) end
	if ok == dead then viol("outcome:" .. kind, ctx .. ": ends with " .. tostring(ok) .. " " .. tostring(msg)) end
	if dead then
		nd = nd + 1
		cnt("error_" .. kind)
		if type(msg) ~= "string" or #msg == 0 then viol("no-message:" .. kind, ctx .. ": message " .. tostring(msg))
		elseif type(want) == "function" then
			local d = want(msg)
			if d then viol("message:" .. kind, ctx .. ": message " .. msg .. " -- " .. d) end
		else
			want = want:gsub("^(Error at line %d+[^:]*):%s*$", "%1")	-- an argument of no characters is not printed
			if not msg:find(want:sub(1,400), 1, true) then viol("message:" .. kind, ctx .. ": message " .. msg .. " does not contain " .. want) end
			if not msg:find("^#591 \"") and not want:find("^Error at line %d+") then viol("code:" .. kind, ctx .. ": message " .. msg) end
		end
	elseif caught and kind == "string0" then
		if tostring(caught[1]) ~= want then viol("caught:" .. kind, ctx .. ": caught " .. tostring(caught[1]) .. " raised " .. want) end
	end
	caught = nil
	-- the next run works
	raise = function() error("canary", 0) end
	local csrc, ctr = source(pick{1,5,40}, 0)
	if not ctr:find("boom") then
		ok, msg = run("plain", write("canary", csrc))
		if not ok or table.concat(trace, " ") ~= ctr then viol("next-run:" .. kind, ctx .. ": the next run ends with " .. tostring(ok) .. " " .. tostring(msg) .. " after " .. table.concat(trace, " ") .. ", expected " .. ctr) end
		cnt("runs_after")
	end
	collectgarbage("restart")
	collectgarbage("setpause", 200) collectgarbage("setstepmul", 200)
end
for k,v in pairs(count) do print("C " .. k .. " " .. v) end
print("N " .. ne .. " " .. nd)
print("D")
