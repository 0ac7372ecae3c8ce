// Checks of the use of the Lua C API by the module under test (what a Lua library built with LUA_USE_APICHECK checks).
// The linker replaces the calls of these functions in the objects of the module by the ones here (--wrap).
// The layout of lua_State and CallInfo is that of Lua 5.2; luaapi_selftest() tells if it can be used.
#include <cstdio>
#include <cstdlib>
#include <cstring>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
}
#if LUA_VERSION_NUM != 502
#error the layout of lua_State is known for Lua 5.2
#endif

enum {ValueSize = 16, TopOfs = 16, CiOfs = 32};
static bool g_enabled = false;
static unsigned long long g_checked = 0;

static char* top( lua_State* L)		{return *(char**)((char*)L + TopOfs);}
static char* ci( lua_State* L)		{return *(char**)((char*)L + CiOfs);}
static char* func( lua_State* L)	{return *(char**)(ci( L));}
static char* citop( lua_State* L)	{return *(char**)(ci( L) + 8);}
static long nelems( lua_State* L)	{return (top( L) - func( L)) / ValueSize - 1;}
static long room( lua_State* L)		{return (citop( L) - top( L)) / ValueSize;}

[[noreturn]] static void fail( const char* fn, const char* what, long have)
{
	std::fprintf( stderr, "LUA API VIOLATION: %s: %s (%ld)\n", fn, what, have);
	std::fflush( stderr);
	std::abort();
}
static void needRoom( const char* fn, lua_State* L, long n)
{
	if (!g_enabled) return;
	++g_checked;
	if (room( L) < n) fail( fn, "pushes more values than the stack has been extended for", room( L));
}
static void needElems( const char* fn, lua_State* L, long n)
{
	if (!g_enabled) return;
	++g_checked;
	if (nelems( L) < n) fail( fn, "takes more values from the stack than there are", nelems( L));
}
// a valid index denotes a value
static void needValid( const char* fn, lua_State* L, int idx)
{
	if (!g_enabled) return;
	++g_checked;
	if (idx <= LUA_REGISTRYINDEX) return;
	if (idx > 0 ? idx > nelems( L) : (idx == 0 || -idx > nelems( L))) fail( fn, "index of no value on the stack", idx);
}
// an acceptable index is in the space of the stack
static void needAcceptable( const char* fn, lua_State* L, int idx)
{
	if (!g_enabled) return;
	++g_checked;
	if (idx <= LUA_REGISTRYINDEX) return;
	if (idx > 0 ? idx > nelems( L) + room( L) : (idx == 0 || -idx > nelems( L))) fail( fn, "index out of the stack", idx);
}
extern "C" int __real_lua_type( lua_State* L, int idx);
static void needTable( const char* fn, lua_State* L, int idx)
{
	needValid( fn, L, idx);
	if (g_enabled && __real_lua_type( L, idx) != LUA_TTABLE) fail( fn, "the value is not a table", __real_lua_type( L, idx));
}

#define WRAP(RT,NAME,PARAMS,ARGS,CHECK) \
	extern "C" RT __real_##NAME PARAMS; \
	extern "C" RT __wrap_##NAME PARAMS { static const char* fn = #NAME; (void)fn; CHECK; return __real_##NAME ARGS; }
#define LP lua_State* L
WRAP( void, lua_pushnil, (LP), (L), needRoom( fn, L, 1))
WRAP( void, lua_pushnumber, (LP, lua_Number n), (L,n), needRoom( fn, L, 1))
WRAP( void, lua_pushinteger, (LP, lua_Integer n), (L,n), needRoom( fn, L, 1))
WRAP( void, lua_pushboolean, (LP, int n), (L,n), needRoom( fn, L, 1))
WRAP( const char*, lua_pushlstring, (LP, const char* s, size_t n), (L,s,n), needRoom( fn, L, 1); if (!s && n) fail( fn, "null pointer as string", (long)n))
WRAP( const char*, lua_pushstring, (LP, const char* s), (L,s), needRoom( fn, L, 1))
WRAP( void, lua_pushvalue, (LP, int i), (L,i), needValid( fn, L, i); needRoom( fn, L, 1))
WRAP( void, lua_pushcclosure, (LP, lua_CFunction f, int n), (L,f,n), needElems( fn, L, n); if (!n) needRoom( fn, L, 1))
WRAP( void*, lua_newuserdata, (LP, size_t n), (L,n), needRoom( fn, L, 1))
WRAP( void, lua_createtable, (LP, int a, int r), (L,a,r), needRoom( fn, L, 1))
WRAP( void, lua_getglobal, (LP, const char* n), (L,n), needRoom( fn, L, 1))
WRAP( void, lua_setglobal, (LP, const char* n), (L,n), needElems( fn, L, 1))
WRAP( void, lua_getfield, (LP, int i, const char* n), (L,i,n), needValid( fn, L, i); needRoom( fn, L, 1))
WRAP( void, lua_setfield, (LP, int i, const char* n), (L,i,n), needElems( fn, L, 1); needValid( fn, L, i))
WRAP( void, lua_gettable, (LP, int i), (L,i), needElems( fn, L, 1); needValid( fn, L, i))
WRAP( void, lua_rawget, (LP, int i), (L,i), needElems( fn, L, 1); needTable( fn, L, i))
WRAP( void, lua_rawgeti, (LP, int i, int n), (L,i,n), needTable( fn, L, i); needRoom( fn, L, 1))
WRAP( void, lua_rawset, (LP, int i), (L,i), needElems( fn, L, 2); needTable( fn, L, i))
WRAP( void, lua_rawseti, (LP, int i, int n), (L,i,n), needElems( fn, L, 1); needTable( fn, L, i))
WRAP( int, lua_setmetatable, (LP, int i), (L,i), needElems( fn, L, 1); needValid( fn, L, i); if (g_enabled && __real_lua_type( L, -1) != LUA_TTABLE && __real_lua_type( L, -1) != LUA_TNIL) fail( fn, "no table", 0))
WRAP( void, lua_replace, (LP, int i), (L,i), needElems( fn, L, 1); needValid( fn, L, i))
WRAP( int, lua_next, (LP, int i), (L,i), needElems( fn, L, 1); needTable( fn, L, i); needRoom( fn, L, 1))
WRAP( int, lua_error, (LP), (L), needElems( fn, L, 1))
WRAP( int, lua_pcallk, (LP, int a, int r, int h, int c, lua_CFunction k), (L,a,r,h,c,k), needElems( fn, L, a + 1); if (h) needValid( fn, L, h); if (r > a + 1) needRoom( fn, L, r - a - 1))
WRAP( int, luaL_ref, (LP, int i), (L,i), needElems( fn, L, 1); needRoom( fn, L, 1))
WRAP( void*, luaL_checkudata, (LP, int i, const char* n), (L,i,n), needAcceptable( fn, L, i); needRoom( fn, L, 2))
WRAP( int, lua_type, (LP, int i), (L,i), needAcceptable( fn, L, i))
WRAP( int, lua_isnumber, (LP, int i), (L,i), needAcceptable( fn, L, i))
WRAP( int, lua_isstring, (LP, int i), (L,i), needAcceptable( fn, L, i))
WRAP( int, lua_toboolean, (LP, int i), (L,i), needAcceptable( fn, L, i))
WRAP( lua_Number, lua_tonumberx, (LP, int i, int* n), (L,i,n), needAcceptable( fn, L, i))
WRAP( lua_Integer, lua_tointegerx, (LP, int i, int* n), (L,i,n), needAcceptable( fn, L, i))
WRAP( const char*, lua_tolstring, (LP, int i, size_t* n), (L,i,n), needAcceptable( fn, L, i))
WRAP( void*, lua_touserdata, (LP, int i), (L,i), needAcceptable( fn, L, i))
WRAP( const void*, lua_topointer, (LP, int i), (L,i), needAcceptable( fn, L, i))
WRAP( void, lua_settop, (LP, int i), (L,i), if (g_enabled) {++g_checked; if (i >= 0 ? i > nelems( L) + room( L) : -(i+1) > nelems( L)) fail( fn, "new top out of the stack", i);})
WRAP( int, lua_getinfo, (LP, const char* w, lua_Debug* ar), (L,w,ar), if (g_enabled && *w != '>' && ar->i_ci == (void*)-1) fail( fn, "no activation record", 0))
extern "C" int __real_lua_getstack( lua_State* L, int level, lua_Debug* ar);
extern "C" int __wrap_lua_getstack( lua_State* L, int level, lua_Debug* ar)
{
	int rt = __real_lua_getstack( L, level, ar);
	if (!rt && g_enabled) {std::memset( ar, 0, sizeof( *ar)); ar->i_ci = (struct CallInfo*)-1;}
	return rt;
}

static int selftest( lua_State* L)
{
	if (nelems( L) != 3 || room( L) != LUA_MINSTACK) return luaL_error( L, "layout of lua_State not as expected (%d elements, space for %d)", (int)nelems( L), (int)room( L));
	luaL_checkstack( L, 100, "");
	if (room( L) < 100) return luaL_error( L, "layout of lua_State not as expected");
	return 0;
}
extern "C" int luaapi_selftest( lua_State* L)
{
	lua_pushcfunction( L, selftest);
	lua_pushnil( L); lua_pushnil( L); lua_pushnil( L);
	if (LUA_OK != lua_pcall( L, 3, 0, 0)) {std::fprintf( stderr, "luaapi: %s\n", lua_tostring( L, -1)); return 0;}
	g_enabled = true;
	return 1;
}
extern "C" double luaapi_checked()	{return (double)g_checked;}
