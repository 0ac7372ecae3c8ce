// Coverage guided runs of the real code, linked with libFuzzer and compiled with the address and undefined behaviour sanitizers.
// FUZZ_MODE=grammar: the input is the text of a grammar, given to the program mewa with three options; judged are its status, its messages, and its output file.
// FUZZ_MODE=source: the input is a source, given to one of the compilers in FUZZ_TABLES; judged are the outcome and that a second run has the same.
// A verdict is a line "FUZZ VIOLATION: ..." followed by an abort, so that libFuzzer keeps the input.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <unistd.h>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
#include <lualib.h>
int luaopen_mewa( lua_State* ls);
}
int mewa_main( int argc, const char* argv[]);

static std::string g_dir;
static bool g_source = false;
static lua_State* g_ls = nullptr;
static int g_tables = 0;
static unsigned long g_accepted = 0, g_rejected = 0, g_compiled = 0, g_failed = 0;

static void fail( const std::string& what)
{
	std::fprintf( stderr, "FUZZ VIOLATION: %s\n", what.substr( 0, 3000).c_str());
	std::abort();
}

static void put( const std::string& fn, const char* data, std::size_t size)
{
	FILE* f = std::fopen( fn.c_str(), "wb");
	if (!f || std::fwrite( data, 1, size, f) != size || std::fclose( f)) {std::fprintf( stderr, "FUZZ HARNESS: cannot write %s\n", fn.c_str()); std::_Exit( 3);}
}

static std::string get( const std::string& fn)
{
	std::string rt;
	FILE* f = std::fopen( fn.c_str(), "rb");
	if (!f) return "<missing>";
	char buf[ 65536];
	for (std::size_t n; (n = std::fread( buf, 1, sizeof( buf), f)) > 0;) rt.append( buf, n);
	std::fclose( f);
	return rt;
}

static const std::string g_sentinel( "-- the file of a former run\n");

static int generate( const char* opt, std::string& messages, std::string& output)
{
	std::string in = g_dir + "/t.g", out = g_dir + "/t.out";
	put( out, g_sentinel.data(), g_sentinel.size());
	const char* argv[] = {"mewa", opt, "-o", out.c_str(), in.c_str(), nullptr};
	std::ostringstream err, std_;
	auto olderr = std::cerr.rdbuf( err.rdbuf());
	auto oldout = std::cout.rdbuf( std_.rdbuf());
	int rc = mewa_main( 5, argv);
	std::cerr.rdbuf( olderr);
	std::cout.rdbuf( oldout);
	messages = err.str();
	output = get( out);
	if (!std_.str().empty()) fail( std::string( opt) + " with -o prints " + std_.str());
	return rc;
}

static void grammar( const char* data, std::size_t size)
{
	put( g_dir + "/t.g", data, size);
	int lines = 1 + std::count( data, data + size, '\n');
	int srt = -1;
	unsigned int h = 2166136261u;
	for (std::size_t i=0; i<size; ++i) h = (h ^ (unsigned char)data[ i]) * 16777619u;
	bool all = (h >> 16) % 4 == 0;
	for (const char* opt : {"-s", "-l", "-g"})
	{
		if (!all && opt[1] != 'g') continue;
		std::string messages, output;
		int rc = generate( opt, messages, output);
		if (rc == 0)
		{
			++g_accepted;
			if (!messages.empty()) fail( std::string( opt) + " accepts the text with messages " + messages);
			if (output == g_sentinel || output.size() < 20) fail( std::string( opt) + " accepts the text, output is " + output);
		}
		else
		{
			++g_rejected;
			if (rc != 2) fail( std::string( opt) + " ends with " + std::to_string( rc) + " " + messages);
			if (output != g_sentinel) fail( std::string( opt) + " rejects the text but has written " + output);
			auto at = messages.find( "ERR #");
			int code = 0, line = 0;
			if (at == std::string::npos || 1 != std::sscanf( messages.c_str() + at, "ERR #%d ", &code)) fail( std::string( opt) + " rejects the text with " + messages);
			auto quote = messages.find( '"', at);
			if (quote != std::string::npos) quote = messages.find( '"', quote+1);
			if (quote != std::string::npos && 1 == std::sscanf( messages.c_str() + quote + 1, " at line %d", &line) && (line < 1 || line > lines))
				fail( std::string( opt) + " rejects a text of " + std::to_string( lines) + " lines with " + messages);
			if (opt[1] != 's' && srt == 0 && !(opt[1] == 'g' && (code == 564 || (code >= 571 && code <= 577))) && !(opt[1] == 'l' && code == 507))
				fail( std::string( opt) + " rejects what -s accepts with " + messages);
		}
		if (opt[1] == 's') srt = rc; else if (all && rc == 0 && srt) fail( std::string( opt) + " accepts what -s rejects");
	}
}

static std::string compile( int table, const char* data, std::size_t size)
{
	lua_getglobal( g_ls, "fuzzrun");
	lua_pushinteger( g_ls, table + 1);
	lua_pushlstring( g_ls, data, size);
	if (lua_pcall( g_ls, 2, 1, 0))
	{
		fail( std::string( "the script of the harness fails: ") + (lua_tostring( g_ls, -1) ? lua_tostring( g_ls, -1) : "?"));
	}
	std::size_t len = 0;
	const char* s = lua_tolstring( g_ls, -1, &len);
	std::string rt( s ? s : "<nil>", s ? len : 5);
	lua_pop( g_ls, 1);
	return rt;
}

static void source( const char* data, std::size_t size)
{
	if (!size) return;
	int table = (unsigned char)data[ 0] % g_tables;
	std::string a = compile( table, data+1, size-1);
	std::string b = compile( table, data+1, size-1);
	if (a != b) fail( "two runs of compiler " + std::to_string( table) + " differ: " + a + " -- " + b);
	if (a.compare( 0, 4, "BAD ") == 0) fail( "compiler " + std::to_string( table) + ": " + a);
	if (a.compare( 0, 3, "OK ") == 0) ++g_compiled; else ++g_failed;
}

static void stats()
{
	std::fprintf( stderr, "FUZZ STATS: accepted=%lu rejected=%lu compiled=%lu failed=%lu\n", g_accepted, g_rejected, g_compiled, g_failed);
}

extern "C" int LLVMFuzzerInitialize( int*, char***)
{
	const char* d = std::getenv( "FUZZ_DIR");
	const char* m = std::getenv( "FUZZ_MODE");
	const char* s = std::getenv( "FUZZ_SCRIPT");
	if (!d || !m) {std::fprintf( stderr, "FUZZ HARNESS: environment\n"); std::_Exit( 3);}
	g_dir = d;
	g_source = 0==std::strcmp( m, "source");
	if (g_source)
	{
		g_ls = luaL_newstate();
		luaL_openlibs( g_ls);
		luaL_requiref( g_ls, "mewa", luaopen_mewa, 1);
		lua_pop( g_ls, 1);
		if (!s || luaL_dofile( g_ls, s)) {std::fprintf( stderr, "FUZZ HARNESS: %s\n", lua_tostring( g_ls, -1)); std::_Exit( 3);}
		lua_getglobal( g_ls, "fuzztables");
		g_tables = lua_tointeger( g_ls, -1);
		lua_settop( g_ls, 0);
		if (g_tables < 1) {std::fprintf( stderr, "FUZZ HARNESS: no tables\n"); std::_Exit( 3);}
	}
	std::atexit( stats);
	return 0;
}

extern "C" int LLVMFuzzerTestOneInput( const uint8_t* data, std::size_t size)
{
	if (g_source) source( (const char*)data, size); else grammar( (const char*)data, size);
	return 0;
}
