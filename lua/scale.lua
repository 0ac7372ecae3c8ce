-- large type databases with answers known from the way they were built
-- arg: seed, rounds, scratch directory, scenario, functions whose answers are judged (all if not given)
local mewa = require("mewa")
local seed, rounds, what = tonumber(arg[1]), tonumber(arg[2]), arg[4]
math.randomseed(seed)
for i=1,10 do math.random() end
local count, nd, ne = {}, 0, 0
local function cnt(k, n) count[k] = (count[k] or 0) + (n or 1) end
local nviol = 0
local function str(v)
	if type(v) ~= "table" then return tostring(v) end
	local t = {}
	for i=1,math.min(#v,12) do t[i] = str(v[i]) end
	for k,x in pairs(v) do if type(k) ~= "number" then t[#t+1] = k .. "=" .. str(x) end end
	return "{" .. table.concat(t, ",") .. (#v > 12 and ",.." .. #v or "") .. "}"
end
local judged = arg[5] and "," .. arg[5] .. ",error,"
local function viol(key, msg)
	if judged and not judged:find("," .. key .. ",", 1, true) then return end
	nviol = nviol + 1
	if nviol < 20 then print("V " .. what .. ":" .. key .. " " .. msg:gsub("\n", " ")) end
end
local function expect(key, got, want, ctx)
	ne = ne + 1
	if got ~= want then viol(key, ctx .. ": expected " .. str(want) .. " got " .. str(got)) return false end
	return true
end
local function R(a, b)
	if not b then a, b = 1, a end
	if b - a < 2^30 then return math.random(a, b) end
	return a + math.floor(math.random() * (b - a + 1))
end
local function chance(p) return math.random() < p end
local function pick(t) return t[R(#t)] end
local function shuffle(t)
	for i=#t,2,-1 do local k = R(i) t[i],t[k] = t[k],t[i] end
	return t
end
local MAXSTEP = 2^31-2
-- sorted distinct integers
local function distinct(n, lo, hi)
	local seen, t = {}, {}
	if hi - lo + 1 <= 3 * n then
		for i=lo,hi do t[#t+1] = i end
		shuffle(t)
		for i=#t,n+1,-1 do t[i] = nil end
	else
		while #t < n do local v = R(lo, hi) if not seen[v] then seen[v] = true t[#t+1] = v end end
	end
	table.sort(t)
	return t
end
-- forest of properly nested scopes of n nodes: {a, b, parent, chld}
local SHAPES = {"deep", "wide", "comb", "random", "binary", "adjacent", "onesided"}
local function forest(n, shape)
	local nodes = {}
	local function add(a, b, p)
		local x = {a=a, b=b, parent=p, chld={}, id=#nodes+1}
		nodes[#nodes+1] = x
		if p then p.chld[#p.chld+1] = x end
		return x
	end
	local hi = chance(0.3) and MAXSTEP or 2*n + R(10*n)
	local lo = 0
	if shape == "deep" then
		local c = distinct(2*n, lo, hi)
		local p = nil
		for i=1,n do p = add(c[i], c[2*n+1-i], p) end
	elseif shape == "onesided" then	-- the same end or the same start for all
		local c = distinct(n+1, lo, hi)
		local p = nil
		if chance(0.5) then for i=1,n do p = add(c[i], c[n+1], p) end
		else for i=n+1,2,-1 do p = add(c[1], c[i], p) end end
	elseif shape == "wide" then
		local c = distinct(2*n, lo, hi)
		local p = nil
		if chance(0.5) then p = add(c[1], c[2*n], nil) for i=2,2*n-2,2 do add(c[i], c[i+1], p) end
		else for i=1,2*n,2 do add(c[i], c[i+1], p) end end
	elseif shape == "adjacent" then
		local c = distinct(n+1, lo, hi)
		local p = chance(0.5) and add(c[1], c[n+1], nil) or nil
		if n > 1 or not p then for i=1,n do add(c[i], c[i+1], p) end end
	elseif shape == "comb" then		-- every level has some side scopes
		local c = distinct(2*n, lo, hi)
		local i, k, p = 1, 2*n, nil
		while k - i >= 5 do
			p = add(c[i], c[k], p)
			i, k = i+1, k-1
			if k - i >= 5 and chance(0.5) then add(c[i], c[i+1], p) i = i + 2 end
			if k - i >= 5 and chance(0.5) then add(c[k-1], c[k], p) k = k - 2 end
		end
		if not p then add(c[1], c[2], nil) end
	else
		local c = distinct(2*n, lo, hi)
		local function rec(i, k, p)		-- boundaries c[i..k], an even number of them
			while k > i do
				local m = shape == "binary" and k or i + 2*R(1, math.floor((k-i+1)/2)) - 1
				local x = add(c[i], c[m], p)
				if m - i > 2 then
					if shape == "binary" then
						local h = i + 2*math.floor((m-i-1)/4)
						rec(i+1, h, x) rec(h+1, m-1, x)
					else rec(i+1, m-1, x) end
				end
				i = m + 1
			end
		end
		rec(1, 2*n, nil)
	end
	return nodes, hi
end
-- innermost node of a set of marked nodes covering a step; the nodes are searched with a binary search per level
local function finder(nodes)
	local roots = {}
	for _,x in ipairs(nodes) do if not x.parent then roots[#roots+1] = x end table.sort(x.chld, function(a,b) return a.a < b.a end) end
	table.sort(roots, function(a,b) return a.a < b.a end)
	return function(step)
		local l, found = roots, nil
		while true do
			local lo, hi, f = 1, #l, nil
			while lo <= hi do
				local m = math.floor((lo+hi)/2)
				if l[m].b <= step then lo = m + 1 elseif l[m].a > step then hi = m - 1 else f = l[m] break end
			end
			if not f then return found end
			found, l = f, f.chld
		end
	end
end
local function up(x, key)
	while x and x[key] == nil do x = x.parent end
	return x and x[key]
end
local SIZES = {1,2,3,5,8,16,17,31,32,33,63,64,65,100,127,128,129,200,255,256,257,300,500,511,512,513,700,1000,1023,1024,1025,1500,2000,3000,4095,4096,4097}
local function size(max)
	local n
	repeat n = pick(SIZES) if chance(0.3) then n = R(1, max) end until n <= max
	return n
end
local function steps(nodes, hi, n)
	local t = {}
	for i=1,n do
		local x = pick(nodes)
		t[i] = pick({x.a, x.b-1, x.b, x.a-1, R(x.a,x.b), R(0,hi), R(x.a,x.b)})
		if t[i] < 0 then t[i] = 0 end
	end
	return t
end

local SC = {}

-- C01: the innermost definition of instances, types, reductions in large forests of scopes
function SC.scopes()
	local db = mewa.typedb()
	local shape = pick(SHAPES)
	local how = R(4)
	local n = size(({onesided=400, deep=how == 4 and 2000 or 300, comb=400})[shape] or 4097)
	local nodes, hi = forest(n, shape)
	local find = finder(nodes)
	local nnames = pick{1,1,2,3}
	local ord = {}
	for i=1,#nodes do ord[i] = i end
	if how == 1 then shuffle(ord) elseif how == 2 then for i=1,#ord do ord[i] = #ord+1-i end
	elseif how == 3 then table.sort(ord, function(a,b) return nodes[a].b < nodes[b].b or (nodes[a].b == nodes[b].b and nodes[a].a > nodes[b].a) end) end	-- as a traversal leaves the scopes
	local src, dst
	db:scope({0,-1}) src = db:def_type(0, "src") dst = db:def_type(0, "dst")
	local dens = pick{0.05, 0.3, 0.7, 1, 1}
	local probes = {}
	local ctx = "forest " .. shape .. " of " .. n .. " scopes"
	local function probe(step)
		local x = find(step)
		db:step(step)
		for k=1,nnames do
			expect("get_instance", db:get_instance("x" .. k), up(x, "x" .. k), ctx .. " instance x" .. k .. " at step " .. step)
			local w = up(x, "t" .. k)
			local c, r, l = db:resolve_type(0, "t" .. k)
			if w then expect("resolve_type", l and l[1], w, ctx .. " type t" .. k .. " at step " .. step) expect("resolve_type", l and #l, 1, ctx .. " number of types t" .. k .. " at step " .. step)
			else expect("resolve_type", c, nil, ctx .. " type t" .. k .. " at step " .. step) end
		end
		local w = up(x, "r")
		local gw, gc = db:get_reduction(dst, src)
		expect("get_reduction", gc, w, ctx .. " constructor of reduction at step " .. step)
		expect("get_reduction", gw, up(x, "w"), ctx .. " weight of reduction at step " .. step)
		cnt("scope_lookups", nnames*2+1)
	end
	local defs = 0
	for i,id in ipairs(ord) do
		local x = nodes[id]
		db:scope({x.a, x.b})
		for k=1,nnames do
			if chance(dens) then x["x" .. k] = "v" .. id .. "_" .. k db:set_instance("x" .. k, x["x" .. k]) defs = defs + 1 end
			if chance(dens) then x["t" .. k] = db:def_type(0, "t" .. k) defs = defs + 1 end
		end
		if chance(dens) then x.r, x.w = "c" .. id, (id % 64) / 8 db:def_reduction(dst, src, x.r, 1, x.w) defs = defs + 1 end
		if i % 97 == 0 then for _,s in ipairs(steps(nodes, hi, 3)) do probe(s) end end
	end
	for _,s in ipairs(steps(nodes, hi, 300)) do probe(s) end
	-- change the instances: in the same scopes
	for i=1,math.min(50,n) do
		local x = pick(nodes)
		db:scope({x.a, x.b})
		if x.x1 then x.x1 = "u" .. i db:set_instance("x1", x.x1) end
		expect("this_instance", db:this_instance("x1"), x.x1, ctx .. " instance of the scope {" .. x.a .. "," .. x.b .. "}")
		expect("this_type", db:this_type(0, "t1"), x.t1, ctx .. " type of the scope {" .. x.a .. "," .. x.b .. "}")
	end
	for _,s in ipairs(steps(nodes, hi, 60)) do probe(s) end
	cnt("scopes_defined", #nodes) cnt("definitions", defs) cnt("shape_" .. shape)
end

-- C02: many overloads, long parameter lists, deep contexts
function SC.types()
	local db = mewa.typedb()
	db:scope({0, 1000}) db:step(10)
	local base = {}
	for i=1,pick{2,3,8,40} do base[i] = db:def_type(0, "b" .. i) end
	local mode = pick{"tails", "counts", "random", "contexts"}
	if mode == "tails" then		-- long lists differing in one place
		local n = pick{1,2,3,4,5,7,8,9,15,16,17,31,32,33,63,64,65,127,128,129,255,256,257,511,512,1023,1024,1025,2047,4096,8191,16384,32767}
		local l = {}
		for i=1,n do l[i] = chance(0.9) and base[1] or pick(base) end
		local lists, handles = {l}, {}
		for i=1,(n > 3000 and 6 or 20) do
			local c = {}
			for k=1,n do c[k] = l[k] end
			local pos = pick{n, 1, R(n), math.max(1, n-1)}
			local old = c[pos]
			repeat c[pos] = pick(base) until c[pos] ~= old
			lists[#lists+1] = c
		end
		local short = {}
		for k=1,n-1 do short[k] = l[k] end
		lists[#lists+1] = short
		local seen = {}
		for i,c in ipairs(lists) do
			local key = table.concat(c, ",")
			local h = db:def_type(0, "f", "ctor" .. i, c)
			if seen[key] then expect("def_type", h, -1, "defined again with " .. #c .. " parameters")
			else
				if h == -1 then viol("def_type", "a list of " .. #c .. " parameters is taken as defined before") end
				seen[key] = h
			end
		end
		local nseen = 0
		for i,c in ipairs(lists) do
			local h = seen[table.concat(c, ",")]
			expect("this_type", db:this_type(0, "f", c), h, "type with " .. #c .. " parameters")
			expect("type_nof_parameters", db:type_nof_parameters(h), #c, "type with " .. #c .. " parameters")
			local p = db:type_parameters(h)
			expect("type_parameters", #p, #c, "length of the list of parameters")
			for k=1,#c do if p[k].type ~= c[k] then viol("type_parameters", "parameter " .. k .. " of " .. #c .. " is " .. str(p[k].type) .. " instead of " .. c[k]) break end end
		end
		for _ in pairs(seen) do nseen = nseen + 1 end
		expect("this_types", #db:this_types(0, "f"), nseen, "number of types with lists of parameters")
		cnt("long_lists", #lists)
	elseif mode == "counts" or mode == "random" then	-- many overloads
		local n = size(mode == "counts" and 600 or 4097)
		local hs, lists, seen = {}, {}, {}
		for i=1,n do
			local c = {}
			if mode == "counts" then for k=1,i-1 do c[k] = base[1] end
			else for k=1,R(0,6) do c[k] = pick(base) end end
			local key = table.concat(c, ",")
			local h = db:def_type(0, "f", i, c)
			if seen[key] then expect("def_type", h, -1, "overload " .. i .. " defined before")
			else
				if h == -1 then viol("def_type", "overload " .. i .. " taken as defined before") end
				seen[key] = h hs[#hs+1] = h lists[#hs] = c
			end
		end
		local l = db:this_types(0, "f")
		expect("this_types", table.concat(l, ","), table.concat(hs, ","), "types in the order of their definition, " .. #hs)
		local _,_,rl = db:resolve_type(0, "f")
		expect("resolve_type", table.concat(rl, ","), table.concat(hs, ","), "types in the order of their definition, " .. #hs)
		for i=1,math.min(#hs, 300) do
			local k = R(#hs)
			expect("this_type", db:this_type(0, "f", lists[k]), hs[k], "overload " .. k .. " of " .. #hs)
			expect("type_nof_parameters", db:type_nof_parameters(hs[k]), #lists[k], "overload " .. k .. " of " .. #hs)
		end
		for i=1,50 do
			local c = {}
			for k=1,R(0,8) do c[k] = pick(base) end
			expect("this_type", db:this_type(0, "f", c), seen[table.concat(c, ",")], "parameters " .. table.concat(c, ","))
		end
		cnt("overloads", #hs)
	else
		-- deep contexts and many types of one name in different contexts
		local n = size(1025)
		local t, parts, parent = {}, {}, 0
		for i=1,n do
			t[i] = db:def_type(parent, "c" .. (i % 10), "k" .. i)
			parts[i] = "c" .. (i % 10)
			parent = t[i]
		end
		for i=1,30 do
			local k = R(n)
			expect("type_context", db:type_context(t[k]), t[k-1] or 0, "context of the type at depth " .. k)
			expect("type_constructor", db:type_constructor(t[k]), "k" .. k, "constructor of the type at depth " .. k)
			expect("type_string", db:type_string(t[k], "::"), table.concat(parts, "::", 1, k), "name of the type at depth " .. k)
			expect("type_string", db:type_string(t[k]), table.concat(parts, " ", 1, k), "name of the type at depth " .. k)
			expect("this_type", db:this_type(t[k-1] or 0, "c" .. (k % 10)), t[k], "type in its context at depth " .. k)
			expect("this_type", db:this_type(t[k], "c" .. (k % 10)), (k+1) % 10 == k % 10 and t[k+1] or nil, "type in another context at depth " .. k)
		end
		local m = {}
		for i=1,n do m[i] = db:def_type(t[i], "m", i) end
		for i=1,100 do
			local k = R(n)
			expect("this_type", db:this_type(t[k], "m"), m[k], "type m in context " .. k)
			expect("type_constructor", db:type_constructor(m[k]), k, "constructor of m in context " .. k)
			local c, r, l = db:resolve_type(t[k], "m")
			expect("resolve_type", l and l[1], m[k], "type m in context " .. k)
		end
		cnt("contexts", n)
	end
	cnt("mode_" .. mode)
end

-- C03, C04, C05: chains, fans, ladders of reductions
local function mask(db, ...) return db:reduction_tagmask(...) end
function SC.derive()
	local db = mewa.typedb()
	db:scope({0, 1000}) db:step(10)
	local mode = pick{"chain", "fan", "ladder", "grid", "ring"}
	local T = {}
	local function ty(i) if not T[i] then T[i] = db:def_type(0, "T" .. i) end return T[i] end
	local function path(r) local t = {} for i,x in ipairs(r or {}) do t[i] = x.type end return table.concat(t, ",") end
	if mode == "chain" then
		local n = size(2000)
		local w, tot = {}, {[0]=0}
		for i=0,n do ty(i) end
		local tags, ord = {}, {}
		for i=1,n do w[i] = R(0,32)/16 tot[i] = tot[i-1] + w[i] tags[i] = chance(0.05) and 2 or 1 ord[i] = i end
		if chance(0.5) then shuffle(ord) end
		for _,i in ipairs(ord) do db:def_reduction(T[i], T[i-1], "c" .. i, tags[i], w[i]) end
		local ncount = {[0]=0}
		for i=1,n do ncount[i] = ncount[i-1] + (tags[i] == 2 and 1 or 0) end
		for q=1,4 do
			local a = R(0,n) local b = R(0,n)
			if q == 1 then a, b = 0, n end
			local r, wt, alt = db:derive_type(T[b], T[a])
			if a > b then expect("derive_type", r, nil, "chain of " .. n .. " from " .. a .. " to " .. b)
			elseif not r then viol("derive_type", "nothing found in a chain of " .. n .. " from " .. a .. " to " .. b)
			else
				expect("derive_type", #r, b-a, "length of the derivation in a chain of " .. n)
				expect("derive_type", wt, tot[b]-tot[a], "weight of the derivation in a chain of " .. n)
				for i=1,#r do
					if r[i].type ~= T[a+i] or r[i].constructor ~= "c" .. (a+i) then viol("derive_type", "element " .. i .. " of a derivation of length " .. (b-a)) break end
				end
				expect("derive_type", alt, nil, "alternative in a chain")
				-- limits of the number of counted reductions
				local need = ncount[b]-ncount[a]
				for _,lim in ipairs{need, need-1, need+1, 0, 1} do if lim >= 0 then
					local r = db:derive_type(T[b], T[a], mask(db, 1, 2), mask(db, 2), lim)
					expect("derive_type", r ~= nil, need <= lim, "derivation with " .. need .. " counted reductions, limit " .. lim)
				end end
				local r = db:derive_type(T[b], T[a], mask(db, 1))
				expect("derive_type", r ~= nil, need == 0, "derivation with " .. need .. " reductions of another tag")
			end
		end
		-- a name at the end of the chain
		local m = db:def_type(T[n], "m")
		local c, r, l = db:resolve_type(T[0], "m")
		expect("resolve_type", c, T[n], "context of a name found after a chain of " .. n)
		expect("resolve_type", r and #r, n, "reductions to a name found after a chain of " .. n)
		expect("resolve_type", l and l[1], m, "type found after a chain of " .. n)
		local k = R(0,n)
		local m2 = db:def_type(T[k], "m2")
		local c, r, l = db:resolve_type({T[0]}, "m2")
		expect("resolve_type", c, T[k], "context of a name found after " .. k .. " reductions")
		expect("resolve_type", r and #r, k, "reductions to a name found after " .. k .. " reductions of a root of a list")
		local c, r, l = db:resolve_type({{type=T[0],constructor="root"}}, "m2")
		expect("resolve_type", r and #r, k+1, "reductions to a name found after " .. k .. " reductions, with the root")
		expect("resolve_type", r and r[1] and r[1].constructor, "root", "the root of a list")
		cnt("chain_length", n)
	elseif mode == "fan" then		-- a -> many -> z
		local n = size(3000)
		local a, z = db:def_type(0, "a"), db:def_type(0, "z")
		local w1, w2, best, bi, nbest = {}, {}, nil, nil, 0
		local ord = {}
		for i=1,n do ord[i] = i ty(i) w1[i] = R(1,100000)/8 w2[i] = R(0,100000)/8 end
		shuffle(ord)
		local tag = {}
		for _,i in ipairs(ord) do
			tag[i] = R(1,32)
			db:def_reduction(T[i], a, "p" .. i, tag[i], w1[i])
			db:def_reduction(z, T[i], "q" .. i, 1, w2[i])
			local s = w1[i] + w2[i]
			if not best or s < best then best, bi, nbest = s, i, 1 elseif s == best then nbest = nbest + 1 end
		end
		local r, wt, alt = db:derive_type(z, a)
		expect("derive_type", wt, best, "weight of the best of " .. n .. " derivations")
		if nbest == 1 then
			expect("derive_type", path(r), T[bi] .. "," .. z, "best of " .. n .. " derivations")
			expect("derive_type", alt, nil, "alternative of the best of " .. n)
		else expect("derive_type", alt ~= nil, true, "an alternative of " .. nbest .. " best derivations") end
		local l = db:get_reductions(a)
		expect("get_reductions", #l, n, "number of reductions of a type")
		local inv = {}
		for i=1,n do inv[T[i]] = i end
		local got = {}
		for _,x in ipairs(l) do
			local i = inv[x.type]
			if not i or got[i] then viol("get_reductions", "type " .. str(x.type) .. " of " .. n) break end
			got[i] = true
			if x.weight ~= w1[i] or x.constructor ~= "p" .. i then viol("get_reductions", "weight or constructor of reduction " .. i .. " of " .. n) break end
		end
		for q=1,40 do
			local i = R(n)
			local gw, gc = db:get_reduction(T[i], a)
			expect("get_reduction", gw, w1[i], "weight of reduction " .. i .. " of " .. n)
			expect("get_reduction", gc, "p" .. i, "constructor of reduction " .. i .. " of " .. n)
			expect("get_reduction", db:get_reduction(T[i], a, mask(db, tag[i])), w1[i], "weight of reduction " .. i .. " of " .. n .. " by tag")
			expect("get_reduction", db:get_reduction(T[i], a, mask(db, tag[i] % 32 + 1)), nil, "reduction " .. i .. " of " .. n .. " by another tag")
			expect("get_reduction", db:get_reduction(a, T[i]), nil, "reduction back")
		end
		local tg = R(1,32)
		local want = 0
		for i=1,n do if tag[i] == tg then want = want + 1 end end
		expect("get_reductions", #db:get_reductions(a, mask(db, tg)), want, "number of reductions of a tag of " .. n)
		-- a name in one of the contexts only, and in two
		local i = R(n)
		local m = db:def_type(T[i], "m")
		local c, r, l = db:resolve_type(a, "m")
		expect("resolve_type", c, T[i], "context of a name of one of " .. n)
		expect("resolve_type", l and l[1], m, "type of one of " .. n .. " contexts")
		local k = R(n)
		if k ~= i then
			local m2 = db:def_type(T[k], "m")
			local c, r, l = db:resolve_type(a, "m")
			if w1[k] == w1[i] then expect("resolve_type", type(c), "table", "two contexts of the same weight of " .. n)
			else expect("resolve_type", c, w1[k] < w1[i] and T[k] or T[i], "nearest context of two of " .. n) end
		end
		local roots = {}
		for j=1,n do roots[j] = T[j] end
		shuffle(roots)
		local c, r, l = db:resolve_type(roots, "m")
		if k == i then expect("resolve_type", c, T[i], "the root with the name, of " .. n .. " roots") else expect("resolve_type", type(c), "table", "two roots with the name, of " .. n .. " roots") end
		cnt("fan", n)
	elseif mode == "ladder" then		-- two ways between neighbours, one of them cheaper
		local n = R(1, 11)		-- all ways are tried: 2^n
		local tot = 0
		local want = {}
		for i=0,n do ty(i) end
		for i=1,n do
			local m = db:def_type(0, "M" .. i)
			local d = R(1,50)/4
			local h = R(0,50)/4
			if chance(0.5) then		-- the direct way is better
				db:def_reduction(T[i], T[i-1], nil, 1, d) want[#want+1] = T[i]
				db:def_reduction(m, T[i-1], nil, 1, d) db:def_reduction(T[i], m, nil, 1, h + 0.25)
				tot = tot + d
			else
				db:def_reduction(T[i], T[i-1], nil, 1, d + h + 0.25)
				db:def_reduction(m, T[i-1], nil, 1, d) db:def_reduction(T[i], m, nil, 1, h) want[#want+1] = m want[#want+1] = T[i]
				tot = tot + d + h
			end
		end
		local r, wt, alt = db:derive_type(T[n], T[0])
		expect("derive_type", wt, tot, "weight of the best way of a ladder of " .. n)
		expect("derive_type", path(r), table.concat(want, ","), "best way of a ladder of " .. n)
		expect("derive_type", alt, nil, "alternative in a ladder of " .. n)
		cnt("ladder", n)
	elseif mode == "grid" then		-- several ways of different scopes: the inner reduction hides the outer one of the same types
		local n = size(300)
		for i=0,n do ty(i) end
		local w = {}
		for i=1,n do w[i] = R(1,100)/4 db:def_reduction(T[i], T[0], "outer", 1, w[i]) end
		db:scope({5, 50})
		for i=1,n do if chance(0.5) then w[-i] = R(1,100)/4 db:def_reduction(T[i], T[0], "inner", 1, w[-i]) end end
		for q=1,30 do
			local i = R(n)
			db:step(20)
			local gw, gc = db:get_reduction(T[i], T[0])
			expect("get_reduction", gw, w[-i] or w[i], "weight seen in the inner scope, " .. n)
			expect("get_reduction", gc, w[-i] and "inner" or "outer", "constructor seen in the inner scope, " .. n)
			expect("get_reductions", #db:get_reductions(T[0]), n, "number of reductions seen in the inner scope")
			db:step(60)
			local gw, gc = db:get_reduction(T[i], T[0])
			expect("get_reduction", gw, w[i], "weight seen in the outer scope, " .. n)
			expect("get_reductions", #db:get_reductions(T[0]), n, "number of reductions seen in the outer scope")
		end
		cnt("grid", n)
	else					-- a ring has exactly one way
		local n = size(1500) + 2
		local w, tot = {}, {[0]=0}
		for i=0,n-1 do ty(i) end
		for i=0,n-1 do w[i] = R(0,20)/4 db:def_reduction(T[(i+1) % n], T[i], i, 1, w[i]) end
		for q=1,3 do
			local a, b = R(0,n-1), R(0,n-1)
			local len, wt = (b - a) % n, 0
			for i=0,len-1 do wt = wt + w[(a+i) % n] end
			local r, gw, alt = db:derive_type(T[b], T[a])
			expect("derive_type", gw, wt, "weight in a ring of " .. n .. " from " .. a .. " to " .. b)
			expect("derive_type", r and #r, len, "length in a ring of " .. n .. " from " .. a .. " to " .. b)
			expect("derive_type", alt, nil, "alternative in a ring of " .. n)
		end
		cnt("ring", n)
	end
	cnt("mode_" .. mode)
end

-- C06: trees of large forests
function SC.trees()
	local db = mewa.typedb()
	local shape = pick(SHAPES)
	local n = size(shape == "deep" and 150 or shape == "onesided" and 150 or 1500)
	local nodes, hi = forest(n, shape)
	local src, dst
	db:scope({0,-1}) src = db:def_type(0, "src") dst = db:def_type(0, "dst")
	local byscope = {}
	local dens = pick{0.3, 1}
	for _,x in ipairs(shuffle({unpack and unpack(nodes, 1, #nodes) or table.unpack(nodes, 1, #nodes)})) do
		db:scope({x.a, x.b})
		byscope[x.a .. "," .. x.b] = x
		if chance(dens) then x.x = "v" .. x.id db:set_instance("x", x.x) end
		if chance(dens) then x.t = {} for k=1,pick{1,1,1,2,5,40} do x.t[k] = db:def_type(0, "t" .. k) end end
		if chance(dens) then x.r = "c" .. x.id db:def_reduction(dst, src, x.r, R(1,32), (x.id % 64) / 8) end
	end
	local ctx = "forest " .. shape .. " of " .. n .. " scopes"
	local function walk(kind, tree, key, get)
		local seen, nseen = {}, 0
		-- without recursion: deep trees
		local todo = {{tree, nil}}
		while #todo > 0 do
			local e = table.remove(todo)
			local node, above = e[1], e[2]
			local sc = node:scope()
			local x = byscope[sc[1] .. "," .. sc[2]]
			if x and x[key] and above ~= nil or (x and x[key]) then
				if seen[x] then viol(kind, ctx .. ": scope {" .. x.a .. "," .. x.b .. "} twice") return end
				seen[x] = true nseen = nseen + 1
				get(node, x)
				-- the nearest scope with a definition above is the parent in the tree
				local p = x.parent
				while p and not p[key] do p = p.parent end
				local ps = above and (above[1] .. "," .. above[2])
				if p and ps ~= p.a .. "," .. p.b then viol(kind, ctx .. ": scope {" .. x.a .. "," .. x.b .. "} shown below " .. str(above) .. " instead of {" .. p.a .. "," .. p.b .. "}") return end
				if not p and above and byscope[ps] and byscope[ps][key] then viol(kind, ctx .. ": scope {" .. x.a .. "," .. x.b .. "} shown below " .. str(above)) return end
			end
			for c in node:chld() do todo[#todo+1] = {c, sc} end
		end
		local want = 0
		for _,x in ipairs(nodes) do if x[key] then want = want + 1 end end
		expect(kind, nseen, want, ctx .. ": number of scopes shown")
	end
	local tr = db:instance_tree("x")
	if tr then walk("instance_tree", tr, "x", function(node, x) expect("instance_tree", node:instance(), x.x, ctx .. ": instance of {" .. x.a .. "," .. x.b .. "}") end) end
	walk("type_tree", db:type_tree(), "t", function(node, x)
		local l, s = {}, {}
		for t in node:list() do l[#l+1] = t end
		for _,t in ipairs(l) do s[t] = (s[t] or 0) + 1 end
		expect("type_tree", #l, #x.t + ((x.a == 0 and x.b == 2^31-1) and 2 or 0), ctx .. ": number of types of {" .. x.a .. "," .. x.b .. "}")
		for _,t in ipairs(x.t) do if s[t] ~= 1 then viol("type_tree", ctx .. ": type " .. t .. " of {" .. x.a .. "," .. x.b .. "} shown " .. tostring(s[t]) .. " times") break end end
	end)
	walk("reduction_tree", db:reduction_tree(), "r", function(node, x)
		local l = {}
		for t in node:list() do l[#l+1] = t end
		expect("reduction_tree", #l, 1, ctx .. ": number of reductions of {" .. x.a .. "," .. x.b .. "}")
		local e = l[1] or {}
		expect("reduction_tree", e.constructor, x.r, ctx .. ": constructor of the reduction of {" .. x.a .. "," .. x.b .. "}")
		expect("reduction_tree", e.weight, (x.id % 64) / 8, ctx .. ": weight of the reduction of {" .. x.a .. "," .. x.b .. "}")
	end)
	cnt("tree_scopes", #nodes) cnt("shape_" .. shape)
end

for i=1,rounds do
	local t0 = os.clock()
	local ok, err = xpcall(SC[what], debug.traceback)
	if os.getenv("SCALE_DEBUG") then local t={} for k,v in pairs(count) do t[#t+1]=k.."="..v end table.sort(t) print(os.clock()-t0, table.concat(t," ")) end
	if not ok then viol("error", "call failed: " .. tostring(err)) end
	nd = nd + 1
	collectgarbage()
end
for k,v in pairs(count) do print("C scale_" .. k .. " " .. v) end
print("C scale_answers_compared " .. ne)
print("N " .. ne .. " " .. nd)
print("D")
