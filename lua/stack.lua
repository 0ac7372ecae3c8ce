-- mewa.stacktrace for chains of calls of generated functions
local mewa = require("mewa")
local seed, rounds, dir = tonumber(arg[1]), tonumber(arg[2]), arg[3]
math.randomseed(seed)
for i=1,10 do math.random() end
local R = math.random
local function chance(p) return math.random() < p end
local function pick(t) return t[R(#t)] end
local count, ne, nd, nviol = {}, 0, 0, 0
local function cnt(k, n) count[k] = (count[k] or 0) + (n or 1) end
local function str(l)
	local t = {}
	for i=1,math.min(#l, 30) do t[i] = string.format("%s:%s:%s", tostring(l[i].file):match("[^/]*$"), tostring(l[i].line), tostring(l[i]["function"])) end
	return "{" .. table.concat(t, ", ") .. (#l > 30 and ",.. " .. #l or "") .. "}"
end
local function viol(key, msg)
	nviol = nviol + 1
	if nviol < 20 then print("V " .. key .. " " .. msg:gsub("\n", "~")) end
end
FN = {}
local function body(kind, ind)
	local t = {"p.i = p.i + 1", "local nm, r = p.path[p.i], nil"}
	local call = ({
		plain = "if nm then r = FN[nm](p) else r = mewa.stacktrace(table.unpack(p.args, 1, p.n)) end",
		tail = "if nm then return FN[nm](p) else r = mewa.stacktrace(table.unpack(p.args, 1, p.n)) end",
		pcall = "if nm then local ok ok, r = pcall(FN[nm], p) if not ok then error(r) end else r = mewa.stacktrace(table.unpack(p.args, 1, p.n)) end",
		coro = "if nm then r = coroutine.wrap(FN[nm])(p) else r = mewa.stacktrace(table.unpack(p.args, 1, p.n)) end",
		meta = "if nm then r = setmetatable({}, {__index = function(t, k) return FN[nm](p) end})[1] else r = mewa.stacktrace(table.unpack(p.args, 1, p.n)) end",
		index = "if nm then r = setmetatable({}, {__index = FN[nm], p = p}) p.i = p.i + 0 r = FN[nm](p) else r = mewa.stacktrace(table.unpack(p.args, 1, p.n)) end",
		sort = "if nm then local c = false table.sort({1,2}, function(a,b) if not c then c = true r = FN[nm](p) end return a < b end) else r = mewa.stacktrace(table.unpack(p.args, 1, p.n)) end",
	})[kind]
	t[#t+1] = call
	t[#t+1] = "return r"
	return ind .. "\t" .. table.concat(t, "\n" .. ind .. "\t") .. "\n"
end
_G.mewa = mewa
local WORDS = {"traverse", "error", "trace", "util", "x", "processSubnode", "stack", "fn", "a1", "_", "getName", "TRAVERSE", "err", "ror", "é"}
local serial = 0
local function generate()
	-- files with functions at known lines
	local defs = {}
	FN = {}
	for f=1,R(1,4) do
		serial = serial + 1
		local kind = pick{"file", "file", "file", "file", "string", "named", "gone"}
		local lines, line, cur = {}, 1, {}
		local function out(s) lines[#lines+1] = s for _ in s:gmatch("\n") do line = line + 1 end end
		local eol = "\n"
		if chance(0.3) then out(string.rep("-- comment (\n", R(1, chance(0.1) and 5000 or 20))) end
		for k=1,R(1,6) do
			local nm = pick(WORDS):gsub("é", "e") .. pick(WORDS):gsub("é", "") .. serial .. "_" .. k
			local ind = pick{"", "", "\t", "  "}
			local form = pick{"plain", "plain", "plain", "space", "member", "method", "local", "assigned", "two"}
			local hop = pick{"plain", "plain", "plain", "plain", "tail", "pcall", "coro", "meta", "sort"}
			local d = {id = serial .. "." .. k, hop = hop, kind = kind, form = form}
			if chance(0.5) then out(string.rep("\n", R(0,3))) end
			local T = "T" .. serial .. "_" .. k
			if form == "plain" then d.line, d.name = line, nm out(ind .. "function " .. nm .. "(p)\n")
			elseif form == "space" then d.line, d.name = line, nm out(ind .. "function   " .. nm .. " ( p )\n")
			elseif form == "member" then out(T .. " = {}\n") d.line, d.name = line, T .. "." .. nm out(ind .. "function " .. d.name .. "(p)\n")
			elseif form == "method" then out(T .. " = {}\n") d.line, d.name = line, T .. ":" .. nm out(ind .. "function " .. d.name .. "(p) p = p or self\n")
			elseif form == "local" then d.line, d.some = line, nm out(ind .. "local function " .. nm .. "(p)\n")
			elseif form == "assigned" then d.line, d.some = line, nm out(ind .. "local " .. nm .. " = function(p)\n")
			else d.line, d.name = line, nm out(ind .. "function " .. nm .. "(p\n\t\t)\n") end
			out(body(hop, ind)) out(ind .. "end\n")
			local ref = (form == "member") and d.name or (form == "method") and ("function(p) local r = " .. T .. "." .. nm .. "(nil, p) return r end") or nm
			if form == "method" then ref = "setmetatable({}, {__call = function() end})" d.ref = {T, nm} out("FN['" .. d.id .. "'] = " .. T .. "." .. nm .. "\n") d.method = true
			else out("FN['" .. d.id .. "'] = " .. ref .. "\n") end
			defs[#defs+1] = d cur[#cur+1] = d
		end
		local text = table.concat(lines)
		if chance(0.3) then text = text .. "-- no end of line" end
		local chunk
		if kind == "file" or kind == "gone" then
			local fn = dir .. "/s" .. pick{"", "a b", "x.y"} .. serial .. ".lua"
			local h = assert(io.open(fn, "wb")) h:write(text) h:close()
			chunk = assert(loadfile(fn))
			for _,d in ipairs(cur) do d.file = fn end
			if kind == "gone" then os.remove(fn) end
		else
			chunk = assert(load(text, kind == "named" and "=name" .. serial or nil))
		end
		local ok, err = pcall(chunk)
		if not ok then error("chunk: " .. err .. "\n" .. text) end
		for _,d in ipairs(cur) do
			local i = debug.getinfo(FN[d.id], "S")
			if i.linedefined ~= d.line then error("line " .. d.line .. " is " .. i.linedefined .. "\n" .. text) end
			if not d.file then d.file = i.short_src end
			if d.method then FN[d.id] = (function(f) return f end)(FN[d.id]) end
			if kind ~= "file" then d.name, d.some = nil, nil end
		end
	end
	return defs
end
local function frames(defs, path)
	-- what is on the stack from the innermost function up to the first C function
	local l = {}
	for i=#path,1,-1 do
		local d = path[i]
		if i < #path then
			if d.hop == "tail" then		-- the frame has been replaced
			elseif d.hop == "pcall" or d.hop == "coro" then return l, l		-- C between
			elseif d.hop == "meta" or d.hop == "sort" then return l, nil		-- an anonymous function comes next
			else l[#l+1] = d end
		else l[#l+1] = d end
	end
	return l, l
end
local function run(defs)
	local path, ids = {}, {}
	local n = pick{1,1,2,3,5,8,13,50,chance(0.2) and 180 or 20}
	local some = chance(0.3) and {pick(defs), pick(defs)} or defs
	local ncc = 0
	if chance(0.5) then		-- chains without C functions
		local l = {}
		for _,d in ipairs(some) do if d.hop == "plain" then l[#l+1] = d end end
		if #l > 0 then some, ncc = l, 1000 end
	end
	for i=1,n do
		local d
		repeat d = pick(some) if ncc < 1000 and chance(0.3) then d = pick(defs) end until ncc < 60 or ncc == 1000 or d.hop == "plain" or d.hop == "tail" or R(1,100) == 1
		if d.hop ~= "plain" and d.hop ~= "tail" then ncc = ncc + 1 end
		if ncc > 90 and ncc < 1000 then break end
		path[#path+1] = d ids[#ids+1] = d.id
	end
	local ig = nil
	if chance(0.6) then
		ig = {}
		for i=1,R(0,3) do ig[i] = pick{pick(WORDS), pick(WORDS), tostring(R(0,9)), (pick(path).name or "zz"), "_", ".", "^", "%w", ":", "nothing", "T"} end
	end
	local depth = pick{"none", "nil", 1, 1, 2, 3, 5, 10, 1000, 2^31-1}
	local args, na = {}, 0
	if depth == "none" then if ig then args = {nil, ig} na = 2 end
	else args[1] = depth ~= "nil" and depth or nil args[2] = ig na = ig and 2 or 1 end
	local l, whole = frames(defs, path)
	local p = {i=0, path={}, args=args, n=na}
	for i=1,#ids do p.path[i] = ids[i] end
	p.i = 1
	-- the methods are called with the parameter as self
	local ok, got = pcall(FN[ids[1]], p)
	local ctx = "calls " .. table.concat(ids, ">") .. " depth " .. tostring(depth) .. " ignoring " .. (ig and "{" .. table.concat(ig, ",") .. "}" or "nothing")
	if not ok then
		if tostring(got):find("C stack overflow", 1, true) then cnt("too_deep") return end
		viol("error", ctx .. ": " .. tostring(got))
		return
	end
	local max = type(depth) == "number" and depth or math.huge
	local want = {}
	for _,d in ipairs(l) do
		local skip = false
		for _,x in ipairs(ig or {}) do
			if d.name and d.name:find(x, 1, true) then skip = true end
			if d.some then		-- only some of the name is known
				if d.some:find(x, 1, true) then skip = true end
				if ("local function " .. d.some .. " = function"):find(x, 1, true) and not d.some:find(x, 1, true) then cnt("unclear") return end
			end
		end
		if not skip then want[#want+1] = d end
	end
	local full = whole and #want <= max
	while #want > max do table.remove(want) end
	if (full and #got ~= #want) or #got < #want or #got > max then
		viol("length", ctx .. ": " .. #want .. " elements expected, got " .. str(got)) return
	end
	ne = ne + 1
	for i,d in ipairs(want) do
		local g = got[i]
		local fname = g["function"]
		local bad = g.file ~= d.file and "file" or g.line ~= d.line and "line"
			or (d.name and (type(fname) ~= "string" or fname:match("^%s*(.-)%s*$") ~= d.name) and "function")
			or (d.some and (type(fname) ~= "string" or not fname:find(d.some, 1, true)) and "function")
			or (d.kind ~= "file" and fname ~= nil and "function")
		for k in pairs(g) do if k ~= "file" and k ~= "line" and k ~= "function" then bad = k end end
		if bad then viol(bad, ctx .. ": element " .. i .. " is " .. str{g} .. " instead of " .. str{{file=d.file, line=d.line, ["function"]=d.name or d.some}}) return end
		cnt("elements_compared")
	end
	cnt("traces") if ig then cnt("traces_with_ignore") end if max < math.huge then cnt("traces_with_depth") end
	if #want > 20 then cnt("traces_over_20") end
end
-- the parameter of a method is its self
for i=1,rounds do
	local ok, err = xpcall(function()
		local defs = generate()
		for k=1,25 do run(defs) nd = nd + 1 end
	end, debug.traceback)
	if not ok then viol("script", tostring(err)) end
	for f=1,serial do for _,x in ipairs{"", "a b", "x.y"} do if f > serial - 5 then os.remove(dir .. "/s" .. x .. f .. ".lua") end end end
end
for k,v in pairs(count) do print("C stack_" .. k .. " " .. v) end
print("N " .. ne .. " " .. nd)
print("D")
