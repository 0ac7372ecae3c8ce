-- names of types and instances of all lengths and bytes against a Lua table keyed by them
local mewa = require("mewa")
local seed, rounds = tonumber(arg[1]), tonumber(arg[2])
math.randomseed(seed)
local R = math.random
local count = {}
local function cnt(k, n) count[k] = (count[k] or 0) + (n or 1) end
local nviol = 0
local function q(s) s = tostring(s) if #s > 200 then s = s:sub(1,100) .. "~" .. #s .. "~" .. s:sub(-100) end return (string.format("%q", s):gsub("[%c\127-\255]", function(c) return string.format("\\%03d", c:byte()) end)) end
local function viol(key, msg)
	nviol = nviol + 1
	if nviol < 20 then print("V " .. key .. " " .. msg) end
end
local function rnd(n)
	local t = {}
	for i=1,n do t[i] = string.char(R(0,255)) end
	return table.concat(t)
end
local LEN = {0,1,2,3,4,5,6,7,8,9,11,12,13,15,16,17,18,19,20,23,24,31,32,33,47,48,63,64,65,127,128,129,255,256,257,511,512,513,1023,1024,1025,2047,2048,4095,4096,8183,8184,8185,8191,8192,8193,16384,32767,32768,65535,65536,65537,131072,200000}
local function flip(s, i)
	local b = (s:byte(i) + R(1,255)) % 256
	return s:sub(1,i-1) .. string.char(b) .. s:sub(i+1)
end
-- families of names that are close to each other
local function family(fam)
	local out = {}
	local n = R() < 0.7 and LEN[R(32)] or LEN[R(#LEN)]
	local s = R() < 0.5 and rnd(math.min(n,64)) or string.rep(string.char(R(0,255)), math.min(n, 64))
	while #s < n do s = s .. s end
	s = s:sub(1, n)
	out[1] = s
	if fam == 1 then		-- one byte changed anywhere
		for i=1,12 do if n > 0 then out[#out+1] = flip(s, R(4) == 1 and n or R(4) == 1 and 1 or R(n)) end end
	elseif fam == 2 then		-- zero bytes and blanks appended, prepended, cut off
		local t = s
		for i=1,9 do t = t .. ("\0\0\0 \n"):sub(i % 5 + 1, i % 5 + 1); out[#out+1] = t end
		for i=1,6 do out[#out+1] = string.rep("\0", i) .. s end
		for i=1,6 do out[#out+1] = s .. string.rep("\0", i) end
		for i=1,5 do out[#out+1] = s:sub(1, -i-1) end
	elseif fam == 3 then		-- prefixes of each other at power of two differences
		for _,d in ipairs{1,2,4,8,16,32,64,128,256,512,1024,4096,65536} do out[#out+1] = s .. string.rep(s:sub(1,1) .. "a", d):sub(1, d) end
	elseif fam == 4 then		-- case, encoding
		local w = ({"name", "Name", "NAME", "näme", "na\204\136me", "name ", " name", "na me", "name\0", "\0name", "name\n", "name\0x", "name\0y", "name(", "name()", "int,int", "a b", "a  b", "a\tb"})
		for i=1,#w do out[#out+1] = w[i] end
	elseif fam == 5 then		-- permutations of blocks of 4 and 12 bytes
		local b = {}
		for i=1,4 do b[i] = rnd(R() < 0.5 and 4 or 12) end
		for i=1,10 do
			local t = {}
			for k=1,R(1,6) do t[k] = b[R(#b)] end
			out[#out+1] = table.concat(t)
		end
	else				-- numbers
		local b = R(0, 1000000)
		for i=1,20 do out[#out+1] = "v" .. (b + i); out[#out+1] = tostring(b+i) end
	end
	return out
end
local nd, n = 0, 0
local function session(nnames)
	local db = mewa.typedb()
	db:scope({0,1000}) db:step(1)
	local ctxs = {0}
	local T, I, H, all = {}, {}, {}, {}
	local strs = {}
	local function check_type(ctx, name)
		local want = T[ctx] and T[ctx][name]
		local h = db:this_type(ctx, name)
		if h ~= want then viol("type-lookup", "type " .. q(name) .. " in context " .. ctx .. ": expected " .. tostring(want) .. " got " .. tostring(h)) end
		local l = db:this_types(ctx, name)
		if #l ~= (want and 1 or 0) or l[1] ~= want then viol("types-lookup", "types " .. q(name) .. " in context " .. ctx .. ": expected " .. tostring(want) .. " got " .. table.concat(l, ",")) end
		if want and db:type_name(want) ~= name then viol("type-name", "name of type " .. q(name) .. " is " .. q(db:type_name(want))) end
		cnt("type_lookups")
	end
	local function check_inst(name)
		local want = I[name]
		local a, b = db:this_instance(name), db:get_instance(name)
		if a ~= want or b ~= want then viol("instance-lookup", "instance " .. q(name) .. ": expected " .. tostring(want) .. " got " .. tostring(a) .. "," .. tostring(b)) end
		cnt("instance_lookups")
	end
	while #all < nnames do
		local fam = family(R(6))
		for _,name in ipairs(fam) do
			n = n + 1
			if not strs[name] then nd = nd + 1; strs[name] = true end
			local ctx = ctxs[R(#ctxs)]
			local x = R()
			if x < 0.5 then
				local t = T[ctx] or {}
				T[ctx] = t
				local h = db:def_type(ctx, name, {name})
				if t[name] then
					if h ~= -1 then viol("type-redefined", "second definition of type " .. q(name) .. " got " .. tostring(h)) end
				elseif type(h) ~= "number" or h <= 0 or H[h] then
					viol("type-new", "new type " .. q(name) .. " got " .. tostring(h) .. (H[h] and (", the handle of " .. q(H[h])) or ""))
					if type(h) == "number" and h > 0 then t[name] = h end
				else
					t[name] = h
					H[h] = name
					all[#all+1] = {ctx, name}
					if R() < 0.02 and #ctxs < 30 then ctxs[#ctxs+1] = h end
				end
				cnt("types")
			elseif x < 0.8 then
				local v = {}
				db:set_instance(name, v)
				I[name] = v
				all[#all+1] = {ctx, name}
				cnt("instances")
			end
			check_inst(name)
			check_type(ctx, name)
		end
		-- others at random
		for i=1,8 do
			local e = all[R(#all)]
			if e then check_type(e[1], e[2]) check_inst(e[2]) end
		end
		if R() < 0.05 then collectgarbage() end
	end
	for _,e in ipairs(all) do check_type(e[1], e[2]) check_inst(e[2]) end
	-- the names in what is printed of a type
	for i=1,200 do
		local e = all[R(#all)]
		local h = T[e[1]] and T[e[1]][e[2]]
		if h and e[1] == 0 and db:type_string(h) ~= e[2] then viol("type-string", q(e[2]) .. " printed as " .. q(db:type_string(h))) end
	end
	-- the tree of a name has the instances of this name
	for i=1,40 do
		local e = all[R(#all)]
		if I[e[2]] then
			local tr = db:instance_tree(e[2])
			local v
			local function go(nd) v = v or nd:instance() for c in nd:chld() do go(c) end end
			go(tr)
			if v ~= I[e[2]] then viol("instance-tree", "tree of " .. q(e[2])) end
			cnt("trees")
		end
	end
end
for r=1,rounds do session(R(2) == 1 and 300 or 1500) end
-- many names
do
	local db = mewa.typedb()
	db:scope({0,10}) db:step(1)
	local N = 30000
	local t, h = {}, {}
	for i=1,N do
		local nm = (i % 3 == 0 and "x" or "name_") .. i
		local k = db:def_type(0, nm)
		if k <= 0 or h[k] then viol("many-new", nm .. " got " .. k) end
		t[nm] = k; h[k] = nm
		if i % 2 == 0 then db:set_instance(nm, i) end
	end
	for i=1,N do
		local nm = (i % 3 == 0 and "x" or "name_") .. i
		if db:this_type(0, nm) ~= t[nm] or db:type_name(t[nm]) ~= nm then viol("many-type", nm) end
		local w = i % 2 == 0 and i or nil
		if db:get_instance(nm) ~= w then viol("many-instance", nm) end
		if db:this_type(0, nm .. "0x") ~= nil or db:get_instance(nm .. " ") ~= nil then viol("many-excess", nm) end
	end
	cnt("many", N)
end
for k,v in pairs(count) do print("C " .. k .. " " .. v) end
print("N " .. n .. " " .. nd)
print("D")
