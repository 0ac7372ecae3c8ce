"""Sources of any size with a known tree. Each shape gives (source, what the compiler has to print): counts of nodes, leaves, greatest
depth, a checksum over the values and lines of the leaves in order and the number of scopes not inside the scope around."""

BIGGRAMMAR = r'''
%LANGUAGE "big"; %TYPESYSTEM "big"; %CMDLINE "cmd";
%COMMENT "//"; %COMMENT "/*" "*/"; %IGNORE "[@][a-z]*";
NUM: "[0-9]+";
S = X (top);
X = "parens" P | "flat" L | "nodes" M | "right" R | "brackets" B | "kw" K | "ops" E | "scopes" C | "steps" T | "chain" H | "emptys" Z;
P = "(" P ")" (p) | NUM (n);
L = L "," NUM | NUM;
M = M "," I | I;
I = NUM (n);
R = NUM "," R (r) | NUM (n);
B = "[" B NUM "]" (b) | NUM;
K = "x" K | "x" (k);
E/L1 = E "+" E (plus);
E/L2 = E "*" E (mul);
E = NUM (n) | "(" E ")";
C = "{" D "}" ({} c);
D = C D | ε;
T = T U | U;
U = NUM ";" (>> u);
H = "if" NUM "then" H "else" NUM (h) | NUM (n);
Z = Z "." ZZ (z) | ε;
ZZ = ε;
'''

BIGTEMPLATE = r'''
mewa = require("mewa")
local result
local function summary(top)
	local nodes, leaves, depth, sum, bad = 0, 0, 0, 7, 0
	local stk, dep, sc = {top}, {0}, {false}
	local n = 1
	while n > 0 do
		local e, d, s = stk[n], dep[n], sc[n]
		stk[n] = nil; n = n - 1
		if d > depth then depth = d end
		if e.call == nil then
			leaves = leaves + 1
			sum = (sum * 31 + tonumber(e.value) * 7 + e.line) % 1000000007
		else
			nodes = nodes + 1
			if e.scope then
				if s and not (e.scope[1] >= s[1] and e.scope[2] <= s[2] and e.scope[1] <= e.scope[2]) then bad = bad + 1 end
				s = e.scope
			elseif e.call.name == "u" and e.step ~= nodes - 1 then
				bad = bad + 1
			end
			for i = #e.arg, 1, -1 do
				n = n + 1
				stk[n], dep[n], sc[n] = e.arg[i], d + 1, s
			end
		end
	end
	return string.format("nodes=%d leaves=%d depth=%d sum=%d bad=%d", nodes, leaves, depth, sum, bad)
end
typesystem = setmetatable({}, {__index = function(t, k)
	local f = function(node)
		result = k .. " " .. summary(node)
	end
	rawset(t, k, f)
	return f
end})
compilerdef = %automaton%
compiler = mewa.compiler(compilerdef)
for i = 1, #arg do
	result = nil
	collectgarbage()
	local t = os.clock()
	local ok, msg = pcall(compiler.run, compiler, nil, nil, arg[i])
	t = os.clock() - t
	if not ok then result = tostring(msg):gsub("[\n\t]", " ") end
	io.write("R ", tostring(result), "\t", t, "\n")
	io.flush()
end
'''


def exp(nodes, depth, leafs, bad=0):
    s = 7
    for v, l in leafs:
        s = (s * 31 + v * 7 + l) % 1000000007
    return "top nodes=%d leaves=%d depth=%d sum=%d bad=%d" % (nodes, len(leafs), depth, s, bad)


def nums(n, r):
    return [r.randrange(10 ** r.choice([1, 1, 3, 6])) for _ in range(n)]


def lines(parts, r, sep):
    """joins texts with random line breaks and comments; returns bytes and the line of each part"""
    out, ln, at = [], 1, []
    for i, p in enumerate(parts):
        if i:
            out.append(sep)
        x = r.random()
        if x < 0.1:
            k = r.choice([1, 1, 3])
            out.append("\n" * k)
            ln += k
        elif x < 0.13:
            out.append("// c ( [ 1\n")
            ln += 1
        elif x < 0.15:
            out.append("/* 5\n 6 */")
            ln += 1
        elif x < 0.17:
            out.append(" @ab ")
        else:
            out.append(r.choice([" ", "  ", "\t"]))
        at.append(ln)
        out.append(p)
    return "".join(out).encode(), at


def err(code, text, line, tok):
    return (code, text, line, tok)


def _parens(n, r):
    return b"parens " + b"(" * n + b"7" + b")" * n, exp(n + 2, n + 2, [(7, 1)])


def _parens_lines(n, r):
    return b"parens " + b"(\n" * n + b"7" + b")\n" * n, exp(n + 2, n + 2, [(7, n + 1)])


def _flat(n, r):
    v = nums(n, r)
    s, at = lines([str(x) for x in v], r, ",")
    return b"flat " + s, exp(1, 1, list(zip(v, at)))


def _nodes(n, r):
    v = nums(n, r)
    s, at = lines([str(x) for x in v], r, ",")
    return b"nodes " + s, exp(1 + n, 2, list(zip(v, at)))


def _right(n, r):
    v = nums(n, r)
    s, at = lines([str(x) for x in v], r, ",")
    return b"right " + s, exp(1 + n, n + 1, list(zip(v, at)))


def _brackets(n, r):
    v = nums(n + 1, r)
    parts = [str(v[0])] + ["%d ]" % x for x in v[1:]]
    s, at = lines(parts, r, "")
    return b"brackets " + b"[" * n + s, exp(n + 1, n + 1, list(zip(v, at)))


def _kw(n, r):
    return b"kw " + b"x " * n, exp(2, 1, [])


def _ops(n, r):
    v = nums(n, r)
    s, at = lines([str(x) for x in v], r, "+")
    return b"ops " + s, exp(1 + n - 1 + n, n + 1, list(zip(v, at)))


def _ops2(n, r):
    # right operands in brackets: 1+(2+(3+...
    return b"ops " + b"3+(" * n + b"4" + b")" * n, exp(1 + n + n + 1, n + 2, [(3, 1)] * n + [(4, 1)])


def _scopes(n, r):
    return b"scopes " + b"{" * n + b"}" * n, exp(1 + n, n, [])


def _scopes_flat(n, r):
    return b"scopes {" + b"{} " * n + b"}", exp(2 + n, 2, [])


def _steps(n, r):
    v = nums(n, r)
    s, at = lines(["%d;" % x for x in v], r, "")
    return b"steps " + s, exp(1 + n, 2, list(zip(v, at)))


def _chain(n, r):
    return b"chain " + b"if 1 then\n" * n + b"2" + b" else 3" * n, exp(2 + n, n + 2, [(1, i + 1) for i in range(n)] + [(2, n + 1)] + [(3, n + 1)] * n)


def _emptys(n, r):
    return b"emptys " + b"." * n, exp(1 + n, n, [])


def _blank(n, r):
    return b"parens " + b" \t\n\r" * n + b"(9)" + b"\n" * n, exp(3, 3, [(9, n + 1)])


def _comment(n, r):
    return b"parens /* " + b"// \n * /" * n + b"*/ (9)" + b"//" + b"x" * n, exp(3, 3, [(9, n + 1)])


def _comments(n, r):
    return b"parens " + b"/* a */ // b\n" * n + b"(9)", exp(3, 3, [(9, n + 1)])


def _ignored(n, r):
    return b"flat 1" + b"@abc @ @x\n" * n + b",2", exp(1, 1, [(1, 1), (2, n + 1)])


def _late_bad(n, r):
    return b"flat 1" + b"\n,1" * n + b"\n?", '#501 "Bad character in the grammar definition" at line %d: ?' % (n + 2)


def _late_token(n, r):
    return b"parens " + b"(\n" * n + b"7" + b")" * n + b")", '#601 "Syntax error, unexpected token (expected one of {...})" at line %d: \')\' { $ }' % (n + 1)


def _late_end(n, r):
    return b"parens " + b"(\n" * n + b"7" + b")" * (n - 1), '#601 "Syntax error, unexpected token (expected one of {...})" at line %d: $ { \')\' }' % (n + 1)


def _unclosed(n, r):
    return b"parens (\n" + b"/* \n" * n, None


shapes = {k[1:]: v for k, v in globals().items() if k.startswith("_") and not k.startswith("__")}
del shapes["unclosed"]
