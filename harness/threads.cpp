// Runs a Lua script in several Lua states, one after the other or each in a thread of its own.
//   threads seq|par NOFSTATES SCRIPT ARGS...
// The number of the state is passed as first argument to the script.
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <thread>
#include <atomic>
#include <locale>
extern "C" {
#include <lua.h>
#include <lualib.h>
#include <lauxlib.h>
}
extern "C" int luaopen_mewa( lua_State* ls);

static std::atomic<int> g_ready( 0);
static std::atomic<int> g_failed( 0);

static int host_yield( lua_State*)
{
	std::this_thread::yield();
	return 0;
}

static void runState( int idx, int nofThreads, int argc, char** argv)
{
	lua_State* ls = luaL_newstate();
	luaL_openlibs( ls);
	luaL_getsubtable( ls, LUA_REGISTRYINDEX, "_PRELOAD");
	lua_pushcfunction( ls, luaopen_mewa);
	lua_setfield( ls, -2, "mewa");
	lua_pop( ls, 1);
	lua_pushcfunction( ls, host_yield); lua_setglobal( ls, "yield");
	lua_newtable( ls);
	lua_pushinteger( ls, idx); lua_rawseti( ls, -2, 1);
	for (int ai=1; ai<argc; ++ai) { lua_pushstring( ls, argv[ ai]); lua_rawseti( ls, -2, ai+1); }
	lua_setglobal( ls, "arg");
	// All start together:
	++g_ready;
	while (g_ready.load() < nofThreads) std::this_thread::yield();
	if (luaL_loadfile( ls, argv[ 0]) || lua_pcall( ls, 0, 0, 0))
	{
		std::fprintf( stderr, "state %d failed: %s\n", idx, lua_tostring( ls, -1));
		++g_failed;
	}
	lua_close( ls);
}

int main( int argc, char** argv)
{
	if (argc < 4) { std::fprintf( stderr, "usage: threads seq|par NOFSTATES SCRIPT ARGS...\n"); return 99; }
	int nn = std::atoi( argv[ 2]);
	// libstdc++ fills a table of the locale when std::regex needs it, with the same values in every thread (PR 77704). Filled here, it is only read by the threads:
	const auto& facet = std::use_facet<std::ctype<char> >( std::locale());
	for (int ch=1; ch<256; ++ch) {facet.narrow( (char)ch, '\0'); facet.widen( (char)ch);}
	if (0==std::strcmp( argv[ 1], "seq"))
	{
		for (int ii=0; ii<nn; ++ii) runState( ii, 0, argc-3, argv+3);
	}
	else
	{
		std::vector<std::thread> threads;
		for (int ii=0; ii<nn; ++ii) threads.emplace_back( runState, ii, nn, argc-3, argv+3);
		for (auto& th : threads) th.join();
	}
	std::printf( "DONE %d\n", g_failed.load());
	return g_failed.load() ? 1 : 0;
}
