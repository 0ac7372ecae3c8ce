// Host program for the Lua module under test: a plain Lua 5.2 interpreter with the module "mewa" linked in,
// so that the module can run under AddressSanitizer and UndefinedBehaviorSanitizer.
//   luahost SCRIPT ARGS...
// Only the public entry point luaopen_mewa is used.
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <string>
extern "C" {
#include <lua.h>
#include <lualib.h>
#include <lauxlib.h>
}
extern "C" int luaopen_mewa( lua_State* ls);
extern "C" int luaapi_selftest( lua_State* ls);
extern "C" double luaapi_checked();

static int traceback( lua_State* ls)
{
	const char* msg = lua_tostring( ls, 1);
	if (msg) luaL_traceback( ls, ls, msg, 1);
	return 1;
}

// host.alloc_limit(n): make the Lua allocator fail after n further bytes (n < 0: no limit).
static size_t g_used = 0;
static long long g_limit = -1;
static void* limitAlloc( void*, void* ptr, size_t osize, size_t nsize)
{
	if (!ptr) osize = 0;
	if (nsize == 0) { g_used -= osize; std::free( ptr); return nullptr; }
	if (g_limit >= 0 && nsize > osize && (long long)(g_used + nsize - osize) > g_limit) return nullptr;
	void* rt = std::realloc( ptr, nsize);
	if (rt) g_used += nsize - osize;
	return rt;
}
static int host_alloc_limit( lua_State* ls)
{
	long long nn = (long long)luaL_checknumber( ls, 1);
	g_limit = nn < 0 ? -1 : (long long)g_used + nn;
	return 0;
}


// host.watchdog(n): end the process with the line LOOP and the status 97 after n seconds (0: never).
static void onAlarm( int)
{
	if (0>write( 1, "\nLOOP\n", 6)) _exit( 96);
	_exit( 97);
}
static int host_watchdog( lua_State* ls)
{
	std::signal( SIGALRM, onAlarm);
	alarm( (unsigned)luaL_checknumber( ls, 1));
	return 0;
}
static int host_api_checks( lua_State* ls)
{
	lua_pushnumber( ls, luaapi_checked());
	return 1;
}
int main( int argc, char** argv)
{
	if (argc < 2) { std::fprintf( stderr, "usage: luahost SCRIPT ARGS...\n"); return 99; }
	lua_State* ls = lua_newstate( limitAlloc, nullptr);
	if (!ls) return 99;
	luaL_openlibs( ls);
	if (!luaapi_selftest( ls)) return 98;
	luaL_getsubtable( ls, LUA_REGISTRYINDEX, "_PRELOAD");
	lua_pushcfunction( ls, luaopen_mewa);
	lua_setfield( ls, -2, "mewa");
	lua_pop( ls, 1);
	lua_newtable( ls);
	lua_pushcfunction( ls, host_alloc_limit); lua_setfield( ls, -2, "alloc_limit");
	lua_pushcfunction( ls, host_watchdog); lua_setfield( ls, -2, "watchdog");
	lua_pushcfunction( ls, host_api_checks); lua_setfield( ls, -2, "api_checks");
	lua_setglobal( ls, "host");
	lua_newtable( ls);
	for (int ai = 0; ai < argc; ++ai) { lua_pushstring( ls, argv[ ai]); lua_rawseti( ls, -2, ai-1); }
	lua_setglobal( ls, "arg");
	lua_pushcfunction( ls, traceback);
	int rc = luaL_loadfile( ls, argv[1]);
	if (rc == LUA_OK) rc = lua_pcall( ls, 0, 0, -2);
	if (rc != LUA_OK)
	{
		const char* msg = lua_tostring( ls, -1);
		std::fprintf( stderr, "LUAERROR: %s\n", msg ? msg : "(error object is not a string)");
		g_limit = -1;
		lua_close( ls);
		return 3;
	}
	g_limit = -1;
	lua_close( ls);
	std::fflush( stdout);
	return 0;
}
