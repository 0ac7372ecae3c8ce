-- values converted to text by mewa.tostring and evaluated again
local mewa = require("mewa")
local seed, rounds = tonumber(arg[1]), tonumber(arg[2])
math.randomseed(seed)
local R = math.random
local count = {}
local function cnt(k, n) count[k] = (count[k] or 0) + (n or 1) end
local nviol = 0
local function q(s) return (string.format("%q", s):gsub("[%c\127-\255]", function(c) return string.format("\\%03d", c:byte()) end)):sub(1, 1500) end
local function viol(key, msg)
	nviol = nviol + 1
	if nviol < 20 then print("V " .. key .. " " .. msg) end
end
local RES = {"and","break","do","else","elseif","end","false","for","function","goto","if","in","local","nil","not","or","repeat","return","then","true","until","while"}
local NUMS = {0, -0.0, 1, -1, 0.1, -0.1, 1/3, 2/3, 123456, 1234567, 123456.5, 1234567.25, 0.000123456789, 1e15, 1e15-1, 1e15+1, 999999999999999, 1e16, 2^31, 2^31-1, -2^31, 2^32, 2^53, 2^53+2, 2^62, 2^63, -2^63, 2^64, 1e100, -1e300,
	1.7976931348623157e308, 2.2250738585072014e-308, 4.9e-324, -4.9e-324, 1e-5, 1e-4, 99999.95, 1e21, 3.14159265358979, math.huge, -math.huge, 1.0000000000000002, 0.99999999999999989, 2147483648.5, 1e9+0.5, 5e-1}
local function number()
	local x = R()
	if x < 0.3 then return R(-1000, 1000)
	elseif x < 0.5 then return NUMS[R(#NUMS)]
	elseif x < 0.6 then return R(-2147483648, 2147483647)
	elseif x < 0.7 then return (R() - 0.5) * 10 ^ R(-10, 20)
	elseif x < 0.8 then return math.floor(R() * 2^R(1,70))
	else return (R() + R(0,2^20) ) * 2.0 ^ R(-1070, 1000) * (R() < 0.5 and -1 or 1)
	end
end
local STR = {"", "a", "x y", "\"", "'", "\\", "\\n", "\\\"", "\n", "\r", "\r\n", "\t", "\0", "a\0b", "\0001", "\1", "\031", "\127", "\128", "\255", "é", "日本", "[[", "]]", "]==]", "--", "--[[", "1", "01", "-1", "0x10", "1e5", "nil", "true", "...", "{", "}", "{}", ",", "=", "[1]", "%d%s%%", "$x", "\\x41", "\b\a\v\f", "\27[0m", "a=1", "_", "_G", "a.b", "a-b", "a:b", "9a", "a9", "\\0", "\\", "\\\\", "\"]=1,[\"", "@", "`", "[", "{a", "^", "~", "\0abc9", "\0010"}
local function str()
	local x = R()
	if x < 0.35 then return STR[R(#STR)]
	elseif x < 0.5 then return RES[R(#RES)]
	elseif x < 0.65 then
		local t = {}
		for i=1,R(0,12) do t[i] = string.char(R(0,255)) end
		return table.concat(t)
	elseif x < 0.8 then
		local t = {}
		for i=1,R(1,3) do t[i] = STR[R(#STR)] end
		return table.concat(t)
	elseif x < 0.99 then
		local t = {string.char(R(97,122))}
		for i=2,R(1,12) do t[i] = ("abcxyzABCZ019__"):sub(R(15)):sub(1,1) end
		return table.concat(t)
	else return string.rep(STR[R(#STR)], R(1, 3000))
	end
end
local function key()
	local x = R()
	if x < 0.15 then return R() < 0.5
	elseif x < 0.5 then
		local n = number()
		return n
	else return str() end
end
local function scalar()
	local x = R()
	if x < 0.45 then return number() elseif x < 0.9 then return str() else return R() < 0.5 end
end
local function any(d, share)
	if d <= 0 or R() < 0.5 then return scalar() end
	if #share > 0 and R() < 0.1 then
		local s = share[R(#share)]
		if s.d <= d then return s.t end
	end
	local t = {}
	local x = R()
	if x < 0.002 then
		-- more elements than small integers count
		local n = ({255,256,257,1000,1023,1024,1025,2049,5000})[R(9)]
		local kind = R(4)
		for i=1,n do
			if kind == 1 then t[i] = scalar()
			elseif kind == 2 then t[i] = i
			elseif kind == 3 then t["k" .. i] = i
			else t[key()] = scalar() end
		end
		if R() < 0.2 then t[n+2] = "gap" end
		if R() < 0.2 then t.last = true end
		cnt("large_tables")
	elseif x < 0.3 then
		for i=1,R(0,6) do t[i] = any(d-1, share) end
	elseif x < 0.45 then
		for i=1,R(1,8) do if R() < 0.7 then t[i] = any(d-1, share) end end
	elseif x < 0.55 then
		local b = R(-3,5)
		for i=b,b+R(0,4) do t[i] = any(d-1, share) end
	else
		for i=1,R(0,6) do t[key()] = any(d-1, share) end
		if R() < 0.3 then for i=1,R(1,4) do t[i] = any(d-1, share) end end
	end
	if R() < 0.05 then setmetatable(t, {__tostring=function() return "META" end, __index=function() return 1 end, __pairs=function() return next, {}, nil end, __len=function() return 3 end}) end
	share[#share+1] = {t=t, d=d}
	return t
end
local CUT = {}
-- lo: no cut allowed above this level, hi: a cut needed from this level
local function same(a, b, level, lo, hi)
	if b == CUT then
		if type(a) ~= "table" then return false, "cut at a value that is no table" end
		if level < lo then return false, "cut at level " .. level end
		return true
	end
	if type(a) ~= type(b) then return false, "type " .. type(a) .. "/" .. type(b) end
	if type(a) ~= "table" then
		if a ~= a then return b ~= b, "nan" end
		if a ~= b then return false, type(a) .. " value " .. q(tostring(a)) .. "/" .. q(tostring(b)) end
		return true
	end
	if level >= hi then return false, "not cut at level " .. level end
	for k,v in next, a do
		local ok, msg = same(v, rawget(b, k), level+1, lo, hi)
		if not ok then return false, "[" .. q(tostring(k)) .. "] " .. tostring(msg) end
	end
	for k in next, b do
		if rawget(a, k) == nil then return false, "excess key " .. q(tostring(k)) end
	end
	return true
end
local function try(what, v, depth, indent, nargs)
	local ok, s
	if nargs == 1 then ok, s = pcall(mewa.tostring, v)
	elseif nargs == 2 then ok, s = pcall(mewa.tostring, v, depth)
	else ok, s = pcall(mewa.tostring, v, depth, indent) end
	if not ok then viol("raised", what .. ": " .. q(tostring(s))) return end
	if type(s) ~= "string" then viol("no-text", what) return end
	local f, msg = load("return " .. s, "=x", "t", {})
	if not f then viol("no-lua", what .. ": " .. q(tostring(msg)) .. " in " .. q(s)) return end
	local lo, hi = math.huge, math.huge
	if nargs == 1 or depth == nil then lo, hi = 7, 9 elseif depth ~= 0 then lo, hi = depth - 1, depth + 1 end
	if depth and depth < 0 and nargs > 1 then lo, hi = 0, math.huge end
	local res = table.pack(pcall(f, CUT))
	if not res[1] then viol("eval", what .. ": " .. q(tostring(res[2])) .. " in " .. q(s)) return end
	if res.n ~= 2 then viol("values", what .. ": " .. q(s)) return end
	local same, m = same(v, res[2], 0, lo, hi)
	if not same then viol("different", what .. ": " .. tostring(m) .. " in " .. q(s)) end
	cnt("bytes", #s)
	return s
end
local distinct = {}
local nd, n = 0, 0
for round=1,rounds do
	local v
	local x = R()
	if x < 0.1 then v = number() elseif x < 0.25 then v = str() elseif x < 0.28 then v = R() < 0.5
	else v = any(R(1,6), {}) end
	local nargs = R(1,3)
	local depth = R() < 0.5 and 0 or (R() < 0.5 and R(7,10) or R(-1,12))
	if R() < 0.1 then depth = nil end
	local s = try("round " .. round, v, depth, R() < 0.5, nargs)
	n = n + 1
	cnt(type(v))
	if s and not distinct[s] then distinct[s] = true; nd = nd + 1 end
end
-- nesting
for _,d in ipairs{2, 8, 9, 50, 100, 150} do
	local v = {R(9)}
	for i=2,d do v = R() < 0.5 and {v} or {a=v} end
	try("nested " .. d, v, 0, R() < 0.5, 3)
	try("nested " .. d, v, d+1, R() < 0.5, 3)
	try("nested " .. d, v, d+2, R() < 0.5, 2)
	cnt("nested")
end
-- wide
do
	local v = {}
	for i=1,20000 do v[i] = i % 7 == 0 and "x" .. i or i / 8 end
	try("wide list", v, 0, false, 3)
	local w = {}
	for i=1,5000 do w["k" .. i] = {i, -i} end
	try("wide table", w, 0, true, 3)
end
-- whatever else: text, no crash
local function text(what, v, ...)
	local ok, s = pcall(mewa.tostring, v, ...)
	if ok and type(s) ~= "string" then viol("no-text", what) end
	cnt("text")
end
local cyc = {1, 2}
cyc.self = cyc
cyc[3] = {{cyc}, cyc}
local a, b = {}, {}
a.b = b; b.a = a; a[1] = b; b[1] = a
local deep = {}
for i=1,5000 do deep = {deep} end
local ud = mewa.typedb()
local mixed = {print, ud, coroutine.create(function() end), io.stdout, [print]=1, [ud]=2, [cyc]=cyc, [1.5]=print}
for _,v in ipairs{cyc, a, deep, print, ud, coroutine.create(function() end), mixed, io.stdout, _G, package} do
	local nm = type(v)
	-- without a limit only where the number of paths is small
	if v ~= _G and v ~= package then
		text(nm, v, 0) text(nm, v, 0, true)
	end
	text(nm, v) text(nm, v, 3, true) text(nm, v, -1) text(nm, v, 1) text(nm, v, 2)
end
text("nil", nil) text("none")
for k,v in pairs(count) do print("C " .. k .. " " .. v) end
print("N " .. n .. " " .. nd)
print("D")
