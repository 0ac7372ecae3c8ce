From 20e3c9dc160b867ce0a0fedbf3f02328c2ddde20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 01/75] fix: reserve Lua stack slots before pushing AST nodes
 in the compiler run

Long sibling lists (e.g. a right recursive list of some thousand lexems) ran over
the end of the Lua stack.
---
 src/lua_run_compiler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index ab91c3c..62566f9 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -12,6 +12,7 @@
 
 #include "lua_run_compiler.hpp"
 #include "lua_serialize.hpp"
+#include "lua_parameter.hpp"
 #include "lexer.hpp"
 #include "error.hpp"
 #include "strings.hpp"
@@ -148,6 +149,7 @@ static int getLuaStackReductionSize( const std::pmr::vector<State>& stateStack,
 
 static void luaPushLexem( lua_State* ls, const mewa::Lexem& lexem)
 {
+	mewa::lua::checkStack( "compiler:run", ls, 4);
 	lua_createtable( ls, 0/*size array*/, 3+1/*size struct + one reserved for free use*/);	// STK [TABLE]
 	lua_pushliteral( ls, "name");								// STK [TABLE] "name"
 	lua_pushlstring( ls, lexem.name().data(), lexem.name().size());				// STK [TABLE] "arg" [NAME]
@@ -224,6 +226,7 @@ static void luaReduceStruct(
 		}
 	}
 	int structsize = scopeflag == mewa::Automaton::Action::NoScope ? 3:4;
+	mewa::lua::checkStack( "compiler:run", ls, 6);
 											// STK [ARG1]...[ARGN]
 	lua_createtable( ls, 0/*size array*/, structsize+1/*one reserved for free use*/);// STK [ARG1]...[ARGN] [TABLE]
 
@@ -332,6 +335,7 @@ static int lua_pcall_errorhandler( lua_State* ls)
 static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbgout, int options_index)
 {
 	if (!lua_istable( ls, li)) throw mewa::Error( mewa::Error::BadElementOnCompilerStack, mewa::string_format( "%s line %d", __FILE__, (int)__LINE__));
+	mewa::lua::checkStack( "compiler:run", ls, 10);
 	lua_pushcfunction( ls, &lua_pcall_errorhandler);		// STK: [EHND] 
 	lua_pushvalue( ls, li);						// STK: [EHND] [NODE]
 	lua_pushliteral( ls, "call");					// STK: [EHND] [NODE] "call"
-- 
2.43.0


From 6292b50da21acdcf1d3d00b4572b3fd6259a074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 02/75] fix: identifier names of 64K bytes or more overflowed
 the key buffer and were truncated

The key size was calculated in 16 bits. Also replaces the null pointer member access used
to calculate the offset of the buffer.
---
 src/identmap.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/identmap.hpp b/src/identmap.hpp
index 4d77000..fdb91b2 100644
--- a/src/identmap.hpp
+++ b/src/identmap.hpp
@@ -18,6 +18,7 @@
 #include <utility>
 #include <unordered_map>
 #include <cstring>
+#include <cstddef>
 #include <cstdint>
 #include <string_view>
 
@@ -25,17 +26,18 @@ namespace mewa {
 
 struct IdentKey
 {
-	unsigned short size;
+	uint32_t size;
 	char buf[1];
 
 	static const IdentKey* create( std::pmr::memory_resource* memrsc, const std::string_view& src)
 	{
-		constexpr unsigned short maxsize = std::numeric_limits<unsigned short>::max()-4;
-		unsigned short strsize = src.size() > maxsize ? maxsize : src.size();
-		ptrdiff_t offs_buf = reinterpret_cast<const char*>(&((const IdentKey*)nullptr)->buf) - (const char*)nullptr;
-		unsigned short blksize = offs_buf + strsize + 1;
+		constexpr std::size_t maxsize = std::numeric_limits<int>::max()-16;
+		if (src.size() > maxsize) throw Error( Error::InternalBufferOverflow);
+		std::size_t strsize = src.size();
+		std::size_t offs_buf = offsetof( IdentKey, buf);
+		std::size_t blksize = offs_buf + strsize + 1;
 		blksize += (4 - (blksize & 3)) & 3; //... align size of of key to 0 mod sizeof(uint32_t)
-		unsigned short restsize = blksize - strsize - offs_buf;
+		std::size_t restsize = blksize - strsize - offs_buf;
 		IdentKey* rt = (IdentKey*)memrsc->allocate( blksize, 4/*align*/);
 		rt->size = strsize;
 		std::memcpy( rt->buf, src.data(), strsize);
@@ -49,8 +51,7 @@ struct IdentKey
 	}
 	int alignedsize() const noexcept
 	{
-		ptrdiff_t offs_buf = reinterpret_cast<const char*>(&((const IdentKey*)nullptr)->buf) - (const char*)nullptr;
-		unsigned short blksize = offs_buf + size + 1;
+		std::size_t blksize = offsetof( IdentKey, buf) + size + 1;
 		blksize += (4 - (blksize & 3)) & 3; //... align size of of key to 0 mod sizeof(uint32_t)
 		return blksize / 4;
 	}
-- 
2.43.0


From 6f3c208d0a75c525aa8b781ac2216397e72f6640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 03/75] fix: LocalMemVector used its memory resource after its
 destruction

The memory resource was a member and thus destroyed before the base class vector that deallocates with it.
---
 src/typedb.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index a61be70..4f32b50 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -446,24 +446,30 @@ std::string TypeDatabase::resolveResultToString( const ResolveResult& res) const
 	return rt;
 }
 
+// Memory of a LocalMemVector, a base class because it has to be constructed before and destroyed after the vector using it
+struct LocalMemBuffer
+{
+	LocalMemBuffer()
+		:memrsc(buffer,sizeof buffer){}
+
+	int buffer[ 1024];
+	mewa::monotonic_buffer_resource memrsc;
+};
+
 template <typename ELEMTYPE>
-class LocalMemVector :public std::pmr::vector<ELEMTYPE>
+class LocalMemVector :private LocalMemBuffer, public std::pmr::vector<ELEMTYPE>
 {
 public:
 	typedef std::pmr::vector<ELEMTYPE> ParentClass;
 
 public:
 	LocalMemVector()
-		:std::pmr::vector<ELEMTYPE>( &m_memrsc),m_memrsc(m_buffer,sizeof m_buffer){}
+		:LocalMemBuffer(),std::pmr::vector<ELEMTYPE>( &memrsc){}
 	LocalMemVector( const LocalMemVector& o)
-		:std::pmr::vector<ELEMTYPE>( &m_memrsc),m_memrsc(m_buffer,sizeof m_buffer)
+		:LocalMemBuffer(),std::pmr::vector<ELEMTYPE>( &memrsc)
 	{
-		insert( ParentClass::end(), o.begin(), o.end());
+		ParentClass::insert( ParentClass::end(), o.begin(), o.end());
 	}
-
-private:
-	int m_buffer[ 1024];
-	mewa::monotonic_buffer_resource m_memrsc;
 };
 
 TypeDatabase::GetReductionResult TypeDatabase::getReduction( const Scope::Step step, int toType, int fromType, const TagMask& selectTags) const
-- 
2.43.0


From 0cf7bfebcf840b61ace63d52ecee3621e5d56964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 04/75] fix: runs of a compiler were not independent of each
 other

The output of a run was kept and printed again by the next run of the same compiler object. After a failing run
the functions print and debug were left replaced and the debug output was left open, print_section was left
behind in any case with a reference to a compiler that may already be garbage collected.
---
 src/lua_userdata.hpp |  5 ++++
 src/lualib_mewa.cpp  | 59 +++++++++++++++++++++++++++++---------------
 2 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/src/lua_userdata.hpp b/src/lua_userdata.hpp
index 2028c1d..d250f01 100644
--- a/src/lua_userdata.hpp
+++ b/src/lua_userdata.hpp
@@ -81,6 +81,11 @@ struct mewa_compiler_userdata_t
 		new (&outputSectionMap) OutputSectionMap();
 		callTableName.init();
 	}
+	void clearOutput() noexcept
+	{
+		outputBuffer.clear();
+		outputSectionMap.clear();
+	}
 	void closeOutput() noexcept
 	{
 		closeFile( debugFileHandle);
diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 2275ac5..de09b60 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -407,6 +407,44 @@ static void copyFileNameToBuffer( char* buf, std::size_t bufsize, std::string_vi
 	std::memcpy( buf, str.data(), str.size());
 	buf[ str.size()] = 0;
 }
+/// \brief Saves the global functions replaced during a run of the compiler on the Lua stack and restores them on exit, also in case of an error
+class CompilerRunScope
+{
+public:
+	CompilerRunScope( lua_State* ls_, mewa_compiler_userdata_t* cp_)
+		:m_ls(ls_),m_cp(cp_),m_top(lua_gettop(ls_))
+	{
+		m_cp->clearOutput();
+		for (auto li = g_printlib; li->name; ++li)
+		{
+			lua_getglobal( m_ls, li->name);
+		}
+		lua_getglobal( m_ls, "_G");
+		lua_pushvalue( m_ls, 1);	//... the closures own a reference to the compiler as they may outlive the run
+		luaL_setfuncs( m_ls, g_printlib, 1/*number of closure elements*/);
+		lua_pop( m_ls, 1);
+	}
+	~CompilerRunScope()
+	{
+		int ofs = 0;
+		for (auto li = g_printlib; li->name; ++li)
+		{
+			lua_settop( m_ls, m_top + NofSaved);
+			lua_pushvalue( m_ls, m_top + (++ofs));
+			lua_setglobal( m_ls, li->name);
+		}
+		lua_settop( m_ls, m_top);
+		m_cp->closeOutput();
+		m_cp->clearOutput();
+	}
+
+private:
+	enum {NofSaved = sizeof(g_printlib) / sizeof(g_printlib[0]) - 1};
+	lua_State* m_ls;
+	mewa_compiler_userdata_t* m_cp;
+	int m_top;
+};
+
 static int mewa_compiler_run( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "compiler:run( target, options, inputfile, [,outputfile [,dbgoutput]])";
@@ -449,18 +487,7 @@ static int mewa_compiler_run( lua_State* ls)
 				if (!cp->debugFileHandle) throw mewa::Error( (mewa::Error::Code) errno, debugFileName);
 			}
 		}
-		lua_getglobal( ls, "_G");		// STK: table=_G
-		lua_pushliteral( ls, "print");		// STK: table=_G, key=print
-		lua_pushliteral( ls, "print");		// STK: table=_G, key=print, key=print
-		lua_gettable( ls, -3);			// STK: table=_G, key=print, value=function
-		lua_pushliteral( ls, "debug");		// STK: table=_G, key=print, value=function key=debug
-		lua_pushliteral( ls, "debug");		// STK: table=_G, key=print, value=function key=debug key=debug
-		lua_gettable( ls, -5);			// STK: table=_G, key=print, value=function key=debug value=function
-
-		lua_getglobal( ls, "_G");
-		lua_pushlightuserdata( ls, cp);
-		luaL_setfuncs( ls, g_printlib, 1/*number of closure elements*/);
-		lua_pop( ls, 1);
+		CompilerRunScope runScope( ls, cp);
 
 		mewa::luaRunCompiler( ls, cp->automaton, options_index, sourceptr, cp->callTableName.buf, cp->debugFileHandle);
 		{
@@ -485,14 +512,6 @@ static int mewa_compiler_run( lua_State* ls)
 			}
 		}
 
-		// Restore old print function that has been left on the stack:
-					//STK: table=_G, key=print, value=function key=debug, value=function
-		lua_settable( ls, -5);	//STK: table=_G, key=print, value=function
-		lua_settable( ls, -3);	//STK: table=_G
-		lua_pop( ls, 1);	//STK:
-		cp->closeOutput();
-		lua_pop( ls, 3);	// ... destroy strings on lua stack created with move_string_on_lua_stack and options
-
 		if (g_called_deprecated_get_types)
 		{
 			std::cerr << "Warning: Called deprecated function typedb:get_types. This function has been renamed to typedb:this_types (issue #4)" << std::endl;
-- 
2.43.0


From deae56907e24ee2df6d433fdbf42632aae37939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 05/75] fix: patterns declared with IGNORE made the lexer loop
 forever

---
 src/lexer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index dbb09e7..59c2c7b 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -610,7 +610,11 @@ Lexem Lexer::next( Scanner& scanner) const
 				scanner.next( chr.size());
 				return Lexem( m_errorLexem.value, -1/*id*/, chr, line);
 			}
-			else if (0 != m_defar[ matchidx].id())
+			else if (0 == m_defar[ matchidx].id())
+			{
+				scanner.next( maxlen); //... ignored lexem skipped, fetch next lexem
+			}
+			else
 			{
 				if (m_indentLexems.defined())
 				{
-- 
2.43.0


From 2f49aea69a6b399b74d323d20ec1f1bc3db46818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 06/75] fix: a keyword was recognised where only its first
 character matched

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 59c2c7b..abd8622 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -592,7 +592,7 @@ Lexem Lexer::next( Scanner& scanner) const
 			{
 				if (idx >= (int)m_defar.size()) throw Error( Error::ArrayBoundReadInLexer);
 				auto mm = m_defar[ idx].match( start, scanner.restsize());
-				if (maxlen <= mm.second && (maxlen < mm.second || m_defar[ idx].keyword())) //... keywords preferred if length is the same
+				if (mm.second > 0 && maxlen <= mm.second && (maxlen < mm.second || m_defar[ idx].keyword())) //... keywords preferred if length is the same
 				{
 					maxlen = mm.second;
 					matchstart = mm.first.data();
-- 
2.43.0


From 740223e4e56253ad7a17cfc9df93db5493f0e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 07/75] fix: a comment ended by the end of the source
 suppressed the close tokens of open indentation blocks

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index abd8622..3137bd0 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -570,7 +570,7 @@ Lexem Lexer::next( Scanner& scanner) const
 				{
 					if (!scanner.scan( "\n"))
 					{
-						return Lexem( scanner.line()); //... no EOLN then return EOF
+						scanner.next( scanner.restsize()); //... no EOLN then the comment ends with the source
 					}
 					break; //... comment skipped, fetch next lexem
 				}
-- 
2.43.0


From 25dee9fa76daf0ea27353001a333420ff2477be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 08/75] fix: patterns starting with an optional element or an
 alternative did not match all they describe

---
 src/lexer.cpp | 181 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 130 insertions(+), 51 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 3137bd0..fd82ad1 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -13,6 +13,7 @@
 #include "error.hpp"
 #include "strings.hpp"
 #include "utf8.hpp"
+#include <cstdlib>
 
 using namespace mewa;
 
@@ -63,27 +64,38 @@ static char parseFirstChar( char const*& si, bool allowNonAscii)
 	}
 }
 
-static bool extractFirstCharacters( std::string& res, char const*& si, char eb)
+static void extractFirstCharacters( std::string& res, char const*& si, char eb)
 {
 	bool empty = true;
 	while (*si && *si != eb)
 	{
-		if (*si == '-' && !empty)
+		char const* classEnd = (si[0] == '[' && si[1] == ':') ? std::strstr( si+2, ":]") : nullptr;
+		if (classEnd)
+		{
+			std::regex_traits<char> traits;
+			auto charClass = traits.lookup_classname( si+2, classEnd);
+			for (int ch = 33; ch < 256; ++ch)
+			{
+				if (traits.isctype( (char)ch, charClass)) res.push_back( ch);
+			}
+			si = classEnd + 2;
+		}
+		else if (*si == '-' && !empty)
 		{
 			++si;
 			char from = res[ res.size()-1];
 			if (!*si || *si == eb)
 			{
-				res.push_back( from);
+				res.push_back( '-');
 				break;
 			}
 			else
 			{
 				char to = parseFirstChar( si, false/*!allowNonAscii*/);
 				if (to < from) std::swap( to, from);
-				for (++from; from <= to; ++from)
+				for (int ch = from+1; ch <= to; ++ch)
 				{
-					res.push_back( from);
+					res.push_back( ch);
 				}
 			}
 		}
@@ -95,73 +107,102 @@ static bool extractFirstCharacters( std::string& res, char const*& si, char eb)
 	}
 	if (!*si) throw Error( Error::SyntaxErrorInLexer);
 	++si;
-	return !empty;
 }
 
-static bool skipBrackets( char const*& si, char eb)
+// Skip the content of a character set, 'si' pointing to the first character in the square brackets
+static void skipCharacterSet( char const*& si)
 {
-	char sb = *si++;
-	int cnt = 1;
+	for (; *si && *si != ']'; ++si)
+	{
+		if (si[0] == '\\' && si[1]) ++si;
+		if (si[0] == '[' && si[1] == ':')
+		{
+			char const* classEnd = std::strstr( si+2, ":]");
+			if (classEnd) si = classEnd + 1;
+		}
+	}
+	if (!*si) throw Error( Error::SyntaxErrorInLexer);
+	++si;
+}
 
-	bool empty = true;
-	for (; *si && cnt > 0; ++si)
+// Skip brackets and their content, 'si' pointing to the opening bracket
+static void skipBrackets( char const*& si)
+{
+	int cnt = 1;
+	for (++si; *si && cnt > 0;)
 	{
-		if (*si == eb)
+		if (*si == '\\' && si[1])
 		{
-			--cnt;
+			si += 2;
 		}
-		else if (*si == sb)
+		else if (*si == '[')
 		{
-			++cnt;
+			skipCharacterSet( ++si);
 		}
 		else
 		{
-			empty = false;
+			if (*si == '(') ++cnt;
+			if (*si == ')') --cnt;
+			++si;
 		}
 	}
-	if (!*si && cnt != 0) throw Error( Error::SyntaxErrorInLexer);
-	return !empty;
+	if (cnt != 0) throw Error( Error::SyntaxErrorInLexer);
 }
 
+// Skip the multiplicator of an element if there is one, return false if it allows the element to be left out
 static bool skipMultiplicator( char const*& si)
 {
-	if (*si)
+	bool rt = true;
+	if (*si == '*' || *si == '?')
 	{
-		if (*si == '*')
-		{
-			++si;
-			return false;
-		}
-		if (*si == '{')
-		{
-			bool empty = (si[1] == '0' && si[2] == ',');
-			(void)skipBrackets( si, '}');
-			return !empty;
-		}
+		++si;
+		rt = false;
+	}
+	else if (*si == '+')
+	{
+		++si;
+	}
+	else if (*si == '{')
+	{
+		rt = (std::atoi( si+1) > 0);
+		for (; *si && *si != '}'; ++si){}
+		if (!*si) throw Error( Error::SyntaxErrorInLexer);
+		++si;
+	}
+	else
+	{
+		return true;
 	}
-	return true;
+	if (*si == '?') ++si; //... non greedy
+	return rt;
 }
 
 static std::string inverseCharset( const std::string& charset)
 {
 	std::string rt;
 	std::bitset<256> cset;
-	for (char ch : charset) cset.set( ch);
+	for (char ch : charset) cset.set( (unsigned char)ch);
 	for (int ii=33; ii<256; ++ii) if (!cset.test(ii)) {rt.push_back(ii);}
 	return rt;
 }
 
-std::string LexemDef::activation( const std::string& source_)
+// Collect the characters the expression at 'si' can start with, return true if it matches the empty string
+static bool extractActivation( std::string& res, char const*& si)
 {
-	std::string rt;
+	bool rt = false;
 	bool empty = true;
-	char const* si = source_.c_str();
 	if (*si == '^') ++si;
-	while (empty)
+	for (;;)
 	{
-		if (*si == '\0')
+		std::string elem;
+		bool elemEmpty = false;
+		if (*si == '\0' || *si == ')' || *si == '|')
 		{
-			return rt;
+			rt |= empty;
+			if (*si != '|') return rt;
+			++si;
+			empty = true;
+			continue;
 		}
 		else if (*si == '[')
 		{
@@ -172,30 +213,68 @@ std::string LexemDef::activation( const std::string& source_)
 				inverse = true;
 				++si;
 			}
-			bool hasCharacters = extractFirstCharacters( rt, si, ']');
-			bool potentiallyIgnored = (skipMultiplicator( si) == false);
-			empty = !hasCharacters || potentiallyIgnored;
-			if (inverse) rt = inverseCharset( rt);
+			if (empty)
+			{
+				extractFirstCharacters( elem, si, ']');
+				if (inverse) elem = inverseCharset( elem);
+			}
+			else
+			{
+				skipCharacterSet( si);
+			}
 		}
 		else if (*si == '(')
 		{
-			for (;;)
+			if (empty)
 			{
-				char const* start = si+1;
-				bool hasCharacters = skipBrackets( si, ')');
-				bool potentiallyIgnored = (skipMultiplicator( si) == false);
-				empty = !hasCharacters || potentiallyIgnored;
-				rt.append( activation( std::string( start, si-start-1)));
-				if (*si != '|') break;
 				++si;
+				if (si[0] == '?' && (si[1] == '=' || si[1] == '!'))
+				{	//... assertion about what follows
+					skipBrackets( --si);
+					elemEmpty = true;
+				}
+				else
+				{
+					if (si[0] == '?' && si[1] == ':') si += 2;
+					elemEmpty = extractActivation( elem, si);
+					if (*si != ')') throw Error( Error::SyntaxErrorInLexer);
+					++si;
+				}
 			}
+			else
+			{
+				skipBrackets( si);
+			}
+		}
+		else if (*si == '.')
+		{
+			++si;
+			elem = inverseCharset( std::string());
+		}
+		else if (empty)
+		{
+			elem.push_back( parseFirstChar( si, true/*allowNonAscii*/));
 		}
 		else
 		{
-			rt.push_back( parseFirstChar( si, true/*allowNonAscii*/));
-			empty = false;
+			if (*si == '\\' && si[1]) ++si;
+			++si;
+		}
+		bool potentiallyIgnored = (skipMultiplicator( si) == false);
+		if (empty)
+		{
+			res.append( elem);
+			empty = elemEmpty || potentiallyIgnored;
 		}
 	}
+}
+
+std::string LexemDef::activation( const std::string& source_)
+{
+	std::string rt;
+	char const* si = source_.c_str();
+	(void)extractActivation( rt, si);
+	if (*si) throw Error( Error::SyntaxErrorInLexer);
 	return rt;
 }
 
-- 
2.43.0


From aeb7d8f3a42906783d65ffb5ff1a36eb434390e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 09/75] fix: objects of introspection trees were misaligned and
 freed twice on repeated finalization

---
 src/lua_userdata.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lua_userdata.hpp b/src/lua_userdata.hpp
index d250f01..c1c25fd 100644
--- a/src/lua_userdata.hpp
+++ b/src/lua_userdata.hpp
@@ -181,31 +181,31 @@ public:
 		{
 			if (*m_refcnt == 1)
 			{
-				((T*)(m_refcnt+1))->~T();
+				get()->~T();
 				std::free( m_refcnt);
 			}
 			else
 			{
 				*m_refcnt -= 1;
 			}
+			m_refcnt = nullptr;
 		}
 	}
 	void reset( T&& obj)
 	{
 		reset();
-		m_refcnt = (int*)std::malloc( sizeof(int)+sizeof(T));
+		m_refcnt = (int*)std::malloc( ObjectOffset+sizeof(T));
 		if (m_refcnt == nullptr) throw std::bad_alloc();
 		*m_refcnt = 1;
-		T* ptr = (T*)(m_refcnt+1);
-		new (ptr) T( std::move( obj));
+		new (get()) T( std::move( obj));
 	}
 	T* get() noexcept
 	{
-		return (T*)(m_refcnt+1);
+		return m_refcnt ? (T*)((char*)m_refcnt + ObjectOffset) : nullptr;
 	}
 	T const* get() const noexcept
 	{
-		return (T const*)(m_refcnt+1);
+		return m_refcnt ? (T const*)((char const*)m_refcnt + ObjectOffset) : nullptr;
 	}
 	T& operator*() noexcept
 	{
@@ -234,6 +234,7 @@ public:
 	}
 
 private:
+	enum {ObjectOffset = alignof(T) > sizeof(int) ? alignof(T) : sizeof(int)};	//< offset of the object aligned behind the reference counter
 	int* m_refcnt;
 };
 
-- 
2.43.0


From a6d6c00338da53db2231d8d426e724a7a5ad0d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 10/75] fix: instance_tree of an undefined name returned the
 tree of another object or read out of bounds

---
 src/typedb.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index 4f32b50..a884173 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -694,8 +694,8 @@ TypeDatabase::ResolveResult TypeDatabase::resolveType_(
 TypeDatabase::ObjectInstanceTree TypeDatabase::getObjectInstanceTree( const std::string_view& name) const
 {
 	auto oi = m_objidMap->find( m_identMap->lookup( name));
-	int oidx = (oi == m_objidMap->end()) ? 0 : oi->second;
-	return m_objAr[ oidx].getTree();
+	if (oi == m_objidMap->end()) return ObjectAccess( m_memory->resource_objtab(), -1/*nullval*/, 0/*initsize*/).getTree();
+	return m_objAr[ oi->second].getTree();
 }
 
 TypeDatabase::ReductionDefinitionTree TypeDatabase::getReductionDefinitionTree() const
-- 
2.43.0


From 49b7685674fce7452d03a409f347b38a1832f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 11/75] fix: invalid elements of list arguments were used
 without check

---
 src/lua_parameter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 3d5b316..220f306 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -108,6 +108,10 @@ long mewa::lua::getArgumentAsInteger( const char* functionName, lua_State* ls, i
 		mewa::lua::throwArgumentError( functionName, li, ec);
 	}
 	double val = lua_tonumber( ls, li);
+	if (!(std::fabs( val) < 9.0e18))
+	{
+		mewa::lua::throwArgumentError( functionName, li, ec); //... not representable as integer (or not a number)
+	}
 	if (val - std::floor( val) < std::numeric_limits<double>::epsilon()*4)
 	{
 		return (long)(val + std::numeric_limits<double>::epsilon()*4);
@@ -161,6 +165,7 @@ void mewa::lua::checkArgumentAsTable( const char* functionName, lua_State* ls, i
 static int getTableIndex( lua_State* ls, int li)
 {
 	double kk = lua_tonumber( ls, li);
+	if (kk < 1.0 || kk > std::numeric_limits<int>::max()) return 0;
 	if (kk - std::floor( kk) < std::numeric_limits<double>::epsilon()*4)
 	{
 		return (int)(kk + std::numeric_limits<double>::epsilon()*4);
@@ -237,6 +242,10 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 	}
 	else
 	{
+		if (lua_type( ls, li) != LUA_TTABLE)
+		{
+			mewa::lua::throwArgumentError( functionName, -1, mewa::Error::ExpectedArgumentTypeConstructorPairList);
+		}
 		lua_pushvalue( ls, li);
 		lua_pushnil( ls);							//STK: [PARAMTAB] [KEY]
 		int type = -1;
-- 
2.43.0


From e84ecf5603d3d7088aac8de7d6acc1b4587fc6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 12/75] fix: hexadecimal floats for LLVM were not correctly
 rounded and undefined for some values

---
 src/lualib_mewa.cpp | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index de09b60..bd773a0 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -271,6 +271,15 @@ static int mewa_version( lua_State* ls)
 	return 3;
 }
 
+static void pushDoubleAsHex( lua_State* ls, double num)
+{
+	char buf[ 64];
+	std::uint64_t encnum;
+	std::memmove( &encnum, &num, sizeof( encnum));
+	std::snprintf( buf, sizeof(buf), "%016llX", (unsigned long long)encnum);
+	lua_pushstring( ls, buf);
+}
+
 static int mewa_llvm_float_tohex( lua_State* ls)
 {
 	/// PF:HACK This function should not be here but in an external library
@@ -278,19 +287,8 @@ static int mewa_llvm_float_tohex( lua_State* ls)
 	try
 	{
 		mewa::lua::checkNofArguments( functionName, ls, 1/*minNofArgs*/, 1/*maxNofArgs*/);
-		double num = mewa::lua::getArgumentAsFloatingPoint( functionName, ls, 1);
-		char buf[ 64];
-		int64_t encnum;
-		std::memmove( &encnum, &num, sizeof( encnum));
-		encnum >>= 28;
-		bool doinc = (encnum & 1);
-		if (doinc) ++encnum;
-		encnum = (encnum >> 1);
-		encnum = (encnum << 29);
-		const char* fmt64 = sizeof(long) == 8 ? "%lx" : "%llx";
-		std::snprintf( buf, sizeof(buf), fmt64, encnum);
-		for (char* bi = buf; *bi; ++bi) if (*bi >= 'a' && *bi <= 'z') {*bi -= 32;}
-		lua_pushstring( ls, buf);
+		float num = (float)mewa::lua::getArgumentAsFloatingPoint( functionName, ls, 1);
+		pushDoubleAsHex( ls, num); // ... LLVM expects a float as the double with the same value
 	}
 	catch (...) { lippincottFunction( ls); }
 	return 1;
@@ -303,14 +301,7 @@ static int mewa_llvm_double_tohex( lua_State* ls)
 	try
 	{
 		mewa::lua::checkNofArguments( functionName, ls, 1/*minNofArgs*/, 1/*maxNofArgs*/);
-		double num = mewa::lua::getArgumentAsFloatingPoint( functionName, ls, 1);
-		char buf[ 64];
-		int64_t encnum;
-		std::memmove( &encnum, &num, sizeof( encnum));
-		const char* fmt64 = sizeof(long) == 8 ? "%lx" : "%llx";
-		std::snprintf( buf, sizeof(buf), fmt64, encnum);
-		for (char* bi = buf; *bi; ++bi) if (*bi >= 'a' && *bi <= 'z') {*bi -= 32;}
-		lua_pushstring( ls, buf);
+		pushDoubleAsHex( ls, mewa::lua::getArgumentAsFloatingPoint( functionName, ls, 1));
 	}
 	catch (...) { lippincottFunction( ls); }
 	return 1;
-- 
2.43.0


From e3f45c0f544230536b27b31702300c124eeada00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 13/75] fix: derivation did not take the reduction with the
 lowest weight of alternatives with different tags

---
 src/scope.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/scope.hpp b/src/scope.hpp
index 611430a..6bb43bb 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -836,8 +836,8 @@ public:
 	public:
 		ResultElement( const RELNODETYPE right_, const VALTYPE value_, float weight_, std::uint8_t tagval_)
 			:m_right(right_),m_value(value_),m_weight(weight_),m_tagval(tagval_){}
-		ResultElement( const ResultElement& o)
-			:m_right(o.m_right),m_value(o.m_value),m_weight(o.m_weight),m_tagval(o.m_tagval){}
+		ResultElement( const ResultElement& o) = default;
+		ResultElement& operator=( const ResultElement& o) = default;
 
 		RELNODETYPE right() const noexcept	{return m_right;}
 		VALTYPE value() const noexcept		{return m_value;}
@@ -903,6 +903,7 @@ public:
 		for (auto ri = range.first; ri != range.second; ++ri)
 		{
 			int li = *ri;
+			int scopestart = rt.size(); //... start of results defined in this scope
 			while (li >= 0)
 			{
 				const ListElement& le = m_list[ li];
@@ -913,6 +914,11 @@ public:
 					{
 						rt.push_back( ResultElement( le.related/*right*/, le.value, le.weight, le.tagval));
 					}
+					else if (ins.first->second >= scopestart && le.weight < rt[ ins.first->second].weight())
+					{
+						//... alternative with another tag and a lower weight defined in the same scope
+						rt[ ins.first->second] = ResultElement( le.related/*right*/, le.value, le.weight, le.tagval);
+					}
 				}
 				li = le.next;
 			}
-- 
2.43.0


From dca987788ce6ec0ff9710d3e249dd27829c8e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 14/75] fix: def_type_as returned 0 instead of -1 for duplicate
 definitions

---
 src/typedb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index a884173..341bd25 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -250,7 +250,7 @@ int TypeDatabase::defineTypeAs( const Scope& scope, int contextType, const std::
 	if (contextType < 0 || contextType > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", contextType));
 	if (type <= 0 || type > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", type));
 	TypeDef typeDef( contextType, m_identMap->get( name));
-	return m_typeTable->set( scope, typeDef, type) ? type : 0;
+	return m_typeTable->set( scope, typeDef, type) ? type : -1;
 }
 
 void TypeDatabase::defineReduction( const Scope& scope, int toType, int fromType, int constructor, int tag, float weight)
-- 
2.43.0


From bad459410928c44b3fd5cd80a87194aa66259e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 15/75] fix: definitions in an empty scope read beyond the end
 of the scope map

---
 src/scope.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scope.hpp b/src/scope.hpp
index 6bb43bb..11bb3bc 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -428,6 +428,7 @@ public:
 
 	void set( const Scope scope, const VALTYPE value)
 	{
+		if (scope.start() >= scope.end()) throw Error( Error::ScopeHierarchyError, scope.tostring());
 		auto rightnode = m_map.upper_bound( scope.end());
 		int uplink = (rightnode == m_map.end()) ? -1 : m_invtree.rightNeighborUpLink( rightnode->second, scope);
 		int newindex = -1;
@@ -605,6 +606,7 @@ public:
 
 	bool set( const Scope scope, const KEYTYPE& key, const VALTYPE& value)
 	{
+		if (scope.start() >= scope.end()) throw Error( Error::ScopeHierarchyError, scope.tostring());
 		ScopedKey<KEYTYPE> sk( key, scope.end());
 		auto rightnode = m_map.upper_bound( sk);
 		int uplink = (rightnode == m_map.end() || rightnode->first.key() != key)
@@ -641,6 +643,7 @@ public:
 	VALTYPE getOrSet( const Scope scope, const KEYTYPE& key, const VALTYPE value)
 	{
 		VALTYPE rt = m_invtree.nullval();
+		if (scope.start() >= scope.end()) throw Error( Error::ScopeHierarchyError, scope.tostring());
 		ScopedKey<KEYTYPE> sk( key, scope.end());
 		auto rightnode = m_map.upper_bound( sk);
 		int uplink = (rightnode == m_map.end() || rightnode->first.key() != key)
-- 
2.43.0


From b46453aa9c01a0f568873b91b169141ffc45fb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 16/75] fix: reductions differing only in the weight were
 silently dropped and NaN was accepted as weight

---
 src/scope.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scope.hpp b/src/scope.hpp
index 11bb3bc..50e51c1 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -864,7 +864,7 @@ public:
  	void set( const Scope scope, const RELNODETYPE& left, const RELNODETYPE& right, const VALTYPE& value, int tag, float weight)
 	{
 		if (tag > TagMask::MaxTag || tag < TagMask::MinTag) throw Error( Error::BadRelationTag, string_format("%d",tag));
-		if (weight < 0.0) throw Error( Error::BadRelationWeight, string_format("%.4f",weight));
+		if (!(weight >= 0.0)/*also catching NaN*/) throw Error( Error::BadRelationWeight, string_format("%.4f",weight));
 
 		std::uint8_t tagval = TagMask::tagValFromTag( tag);
 		int newlistindex = m_list.size();
@@ -875,7 +875,7 @@ public:
 			const ListElement& le = m_list[ li];
 			if (le.related == right && tagval == le.tagval)
 			{
-				if (le.value == value)
+				if (le.value == value && le.weight == weight)
 				{
 					return; // We allow and ignore duplicate definitions, if they are equal
 				}
-- 
2.43.0


From 9edf0a2c220b723508f10a31ef3e19afeed7227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 17/75] fix: the type tree listed only the first of the types
 with the same name

---
 src/typedb.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index 341bd25..50042b8 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -722,19 +722,25 @@ TypeDatabase::TypeDefinitionTree TypeDatabase::getTypeDefinitionTree() const
 {
 	struct TranslateItem
 	{
-		TranslateItem(){}
+		const std::vector<TypeRecord>& typerecMap;
+
+		explicit TranslateItem( const std::vector<TypeRecord>& typerecMap_) :typerecMap(typerecMap_){}
 		ScopeHierarchyTreeNode<TypeDefinitionList> operator()( const TypeTable::TreeNode& node)
 		{
 			ScopeHierarchyTreeNode<TypeDefinitionList> rt( node.scope, {});
 			for (auto const& elem : node.value)
 			{
-				rt.value.push_back( elem.second);
+				// All types with the same name and context, differing in their parameters:
+				for (int tri = elem.second; tri; tri = typerecMap[ tri-1].next)
+				{
+					rt.value.push_back( tri);
+				}
 			}
 			return rt;
 		}
 	};
 	Tree<TypeTable::TreeNode> tree = m_typeTable->getTree();
-	TranslateItem translateItem;
+	TranslateItem translateItem( m_typerecMap);
 	return tree.translate< ScopeHierarchyTreeNode<TypeDefinitionList> >( translateItem);
 }
 
-- 
2.43.0


From 9b39b89e71f49f02a7a4ceae182d3eaa126b9f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 18/75] fix: the iterator on the children of a tree node never
 went beyond the second child

---
 src/lualib_mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index bd773a0..bda0f71 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -1177,7 +1177,7 @@ struct LuaTreeMetaMethods
 			luaL_getmetatable( ls, UD::metatableName());
 			lua_setmetatable( ls, -2);
 
-			iter = (*ud->tree)[ ud->nodeidx].next();
+			iter = (*ud->tree)[ iter].next();
 			lua_pushinteger( ls, iter);
 			lua_replace( ls, lua_upvalueindex(2));
 		}
-- 
2.43.0


From 29a8d15edf6963d25ba33086ed38c47df9cc2c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 19/75] fix: the integer argument -1 was read as 0

---
 src/lua_parameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 220f306..2339c1d 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -114,7 +114,7 @@ long mewa::lua::getArgumentAsInteger( const char* functionName, lua_State* ls, i
 	}
 	if (val - std::floor( val) < std::numeric_limits<double>::epsilon()*4)
 	{
-		return (long)(val + std::numeric_limits<double>::epsilon()*4);
+		return (long)std::floor( val);
 	}
 	else
 	{
-- 
2.43.0


From a90dbdfa1a4263fdd79fb31e6b755bb920f4c257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 20/75] fix: integers out of range passed as type, scope, step
 or tag mask were truncated

---
 src/lua_parameter.cpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 2339c1d..2a28b14 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -125,14 +125,14 @@ long mewa::lua::getArgumentAsInteger( const char* functionName, lua_State* ls, i
 long mewa::lua::getArgumentAsUnsignedInteger( const char* functionName, lua_State* ls, int li)
 {
 	long rt = mewa::lua::getArgumentAsInteger( functionName, ls, li, mewa::Error::ExpectedUnsignedIntegerArgument);
-	if (rt <= 0) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedUnsignedIntegerArgument);
+	if (rt <= 0 || rt > std::numeric_limits<int>::max()) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedUnsignedIntegerArgument);
 	return rt;
 }
 
 long mewa::lua::getArgumentAsNonNegativeInteger( const char* functionName, lua_State* ls, int li)
 {
 	long rt = mewa::lua::getArgumentAsInteger( functionName, ls, li, mewa::Error::ExpectedNonNegativeIntegerArgument);
-	if (rt < 0) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedNonNegativeIntegerArgument);
+	if (rt < 0 || rt > std::numeric_limits<int>::max()) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedNonNegativeIntegerArgument);
 	return rt;
 }
 
@@ -176,6 +176,13 @@ static int getTableIndex( lua_State* ls, int li)
 	}
 }
 
+/// \brief Get a type handle as value in a table, -1 if it cannot be one
+static int getTableValueAsType( lua_State* ls, int li)
+{
+	double val = lua_tonumber( ls, li);
+	return (val >= 0.0 && val <= std::numeric_limits<int>::max()) ? (int)val : -1;
+}
+
 mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State* ls, int li)
 {
 	checkArgumentAsTable( functionName, ls, li);
@@ -189,6 +196,10 @@ mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State*
 		if (lua_type( ls, -2) == LUA_TNUMBER && lua_type( ls, -1) == LUA_TNUMBER)
 		{
 			int kidx = getTableIndex( ls, -2);
+			if (!(std::fabs( lua_tonumber( ls, -1)) <= std::numeric_limits<mewa::Scope::Step>::max()))
+			{
+				mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentScopeStructure);
+			}
 			if (kidx == 1)
 			{
 				start = lua_tointeger( ls, -1);
@@ -222,8 +233,12 @@ mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State*
 
 mewa::TagMask mewa::lua::getArgumentAsTagMask( const char* functionName, lua_State* ls, int li)
 {
-	mewa::TagMask::BitSet bs = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, li);
-	return mewa::TagMask( bs);
+	long bs = mewa::lua::getArgumentAsInteger( functionName, ls, li, mewa::Error::ExpectedNonNegativeIntegerArgument);
+	if (bs < 0 || bs > (long)std::numeric_limits<mewa::TagMask::BitSet>::max())
+	{
+		mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedNonNegativeIntegerArgument);
+	}
+	return mewa::TagMask( (mewa::TagMask::BitSet)bs);
 }
 
 int mewa::lua::getArgumentAsConstructor( const char* functionName, lua_State* ls, int li)
@@ -258,7 +273,7 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 				int kidx = getTableIndex( ls, -2);
 				if (kidx == 1)
 				{
-					type = lua_tointeger( ls, -1);
+					type = getTableValueAsType( ls, -1);
 				}
 				else if (kidx == 2)
 				{
@@ -276,7 +291,7 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 				char const* str = lua_tolstring( ls, -2, &len);
 				if (len == 4 && 0==std::memcmp( str, "type", len))
 				{
-					type = lua_tointeger( ls, -1);
+					type = getTableValueAsType( ls, -1);
 				}
 				else if (len == 11 && 0==std::memcmp( str, "constructor", len))
 				{
@@ -378,7 +393,7 @@ int mewa::lua::getArgumentAsType( const char* functionName, lua_State* ls, int l
 		lua_rawget( ls, li > 0 ? li : (li-1));		// STK: [ARG] [TYPE]
 		if (lua_isnumber( ls, -1))
 		{
-			rt = lua_tointeger( ls, -1);
+			rt = getTableValueAsType( ls, -1);
 			if (rt < 0) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentType);
 			lua_pop( ls, 1);
 		}
@@ -422,9 +437,9 @@ std::pmr::vector<int> mewa::lua::getArgumentAsTypeList(
 					lua_rawget( ls, -2);						// STK: [KEY] [VAL] [TYPE]
 					if (lua_isnumber( ls, -1))
 					{
-						type = lua_tointeger( ls, -1);
+						type = getTableValueAsType( ls, -1);
 					}
-					else
+					if (type < 0)
 					{
 						mewa::lua::throwArgumentError(
 								functionName, li, allowTypeConstructorPairs
-- 
2.43.0


From 991a7ea9163c1d70e7a7e7b1c50d83b1b1c73b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 21/75] fix: parsers of grammars with tokens declared after the
 first use of a keyword mixed up the tokens

---
 src/automaton_parser.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index da02090..5fb2450 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -198,6 +198,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		std::map<std::string_view, int> nonTerminalIdMap;
 		std::set<std::string_view> usedSet;
 		std::map<Automaton::Call, int> callmap;
+		std::vector<std::pair<std::string_view,int> > keywords; //... keywords with the line of their first appearance
 		Priority priority;
 		Automaton::Call::ArgumentType call_argtype = Automaton::Call::NoArg;
 		std::string call_function;
@@ -425,7 +426,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					}
 					else if (state == ParseProductionElement)
 					{
-						if (!rt.lexer.lexemId( lexem.value())) rt.lexer.defineLexem( lexem.value());
+						keywords.push_back( {lexem.value(), lexem.line()});
 						rt.prodlist.back().right.push_back( ProductionNodeDef( lexem.value(), false/*not a symbol, raw string implicitly defined*/));
 					}
 					else if (state == ParseCallArg)
@@ -617,6 +618,15 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		}
 		if (state != Init) throw Error( Error::UnexpectedEofInGrammarDef);
 
+		// Define the keywords after all other tokens, because the generated tables assign the token identifiers in this order:
+		Lexem endLexem = lexem;
+		for (auto const& keyword : keywords)
+		{
+			lexem = Lexem( keyword.second);
+			if (!rt.lexer.lexemId( keyword.first)) rt.lexer.defineLexem( keyword.first);
+		}
+		lexem = endLexem;
+
 		// [2] Label grammar production elements:
 		for (auto& prod : rt.prodlist)
 		{
-- 
2.43.0


From eb8a6b92c7765f99637d9ba94df1187bffbbb814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 22/75] fix: keywords with a dollar sign never matched and the
 pattern of a keyword read beyond its end

---
 src/lexer.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index fd82ad1..1044b43 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -17,7 +17,7 @@
 
 using namespace mewa;
 
-#define REGEX_ESCAPE_CHARS "#{}[]()*+?.-\\|&^"
+#define REGEX_ESCAPE_CHARS "#{}[]()*+?.-\\|&^$"
 
 static std::string_view parseChar( char const*& si)
 {
@@ -538,14 +538,13 @@ void Lexer::defineIndentLexems( int line, const std::string_view& open, const st
 static std::string stringToRegex( const std::string_view& opr)
 {
 	std::string rt;
-	char const* si = opr.data();
-	for (; *si; ++si)
+	for (char ch : opr)
 	{
-		if (0!=std::strchr( REGEX_ESCAPE_CHARS, *si))
+		if (ch && 0!=std::strchr( REGEX_ESCAPE_CHARS, ch))
 		{
 			rt.push_back( '\\');
 		}
-		rt.push_back( *si);
+		rt.push_back( ch);
 	}
 	return rt;
 }
-- 
2.43.0


From 534b92733b1d60216bde8465e533745d2c1c060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 23/75] fix: strings with quotes or control characters were
 printed as invalid Lua or read beyond their end

---
 src/automaton_tostring.cpp   | 22 ++++++++++++---
 src/languagedef_tostring.cpp | 55 +++++++++++-------------------------
 2 files changed, 35 insertions(+), 42 deletions(-)

diff --git a/src/automaton_tostring.cpp b/src/automaton_tostring.cpp
index 9ee3cc7..76facc7 100644
--- a/src/automaton_tostring.cpp
+++ b/src/automaton_tostring.cpp
@@ -51,6 +51,13 @@ static void printStringArray( std::ostream& outstream, const char* tablename, co
 	outstream << (sep ? "},\n" : "}\n");
 }
 
+// Print a string as declared in the grammar with its escape sequences
+static void printStringLiteral( std::ostream& outstream, const std::string& str)
+{
+	const char* quote = str.find( '\"') == std::string::npos ? "\"" : "\'";
+	outstream << quote << str << quote;
+}
+
 static bool isConstantArgument( const std::string& val)
 {
 	if (val.empty()) return false;
@@ -153,7 +160,8 @@ static void printCallTable( std::ostream& outstream, const char* tablename, cons
 				outstream << "name=";
 				printString( outstream, call.function() + " " + call.arg());
 				outstream << ", proc=" << g_typeSystemModulePrefix << call.function();
-				outstream << ", obj=\"" << call.arg() << "\"";
+				outstream << ", obj=";
+				printStringLiteral( outstream, call.arg());
 				break;
 			case Automaton::Call::ReferenceArg:
 				outstream << "name=";
@@ -182,15 +190,21 @@ std::string Automaton::tostring() const
 	outstream << "\tmewa = \"" << MEWA_VERSION_STRING << "\",\n";
 	if (!language().empty())
 	{
-		outstream << "\tlanguage = \"" << language() << "\",\n";
+		outstream << "\tlanguage = ";
+		printStringLiteral( outstream, language());
+		outstream << ",\n";
 	}
 	if (!typesystem().empty())
 	{
-		outstream << "\ttypesystem = \"" << typesystem() << "\",\n";
+		outstream << "\ttypesystem = ";
+		printStringLiteral( outstream, typesystem());
+		outstream << ",\n";
 	}
 	if (!cmdline().empty())
 	{
-		outstream << "\tcmdline = \"" << cmdline() << "\",\n";
+		outstream << "\tcmdline = ";
+		printStringLiteral( outstream, cmdline());
+		outstream << ",\n";
 	}
 	printLexer( outstream, "lexer", lexer(), true/*sep*/);
 	printStringArray( outstream, "nonterminal", m_nonterminals, true/*sep*/);
diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 50904dc..1a8fad6 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -11,22 +11,29 @@
 /// \brief Function to print Lexem definitions as Lua table
 /// \file "languagedef_tostring.cpp"
 #include "languagedef_tostring.hpp"
+#include <cstdio>
 
 using namespace mewa;
 
-static std::string escapeString( const std::string& str)
+static std::string escapeString( const std::string& str, char quote)
 {
 	std::string rt;
-	char const* si = str.c_str();
-	for (; *si; ++si)
+	for (char ch : str)
 	{
-		if (*si == '\\')
+		if (ch == '\\' || ch == quote)
 		{
-			rt.append( "\\\\");
+			rt.push_back( '\\');
+			rt.push_back( ch);
+		}
+		else if ((unsigned char)ch < 32 && ch != '\t')
+		{
+			char buf[ 8];
+			std::snprintf( buf, sizeof(buf), "\\%03d", (int)ch);
+			rt.append( buf);
 		}
 		else
 		{
-			rt.push_back( *si);
+			rt.push_back( ch);
 		}
 	}
 	return rt;
@@ -34,38 +41,10 @@ static std::string escapeString( const std::string& str)
 
 void mewa::printString( std::ostream& outstream, const std::string& str)
 {
-	char const* sqpos = std::strchr( str.c_str(), '\'');
-	char const* dqpos = std::strchr( str.c_str(), '\"');
-	if (sqpos && dqpos)
-	{
-		sqpos = 0;
-		dqpos = 0;
-		char const* si = str.c_str();
-		for (; si; ++si)
-		{
-			if (*si == '\\')
-			{
-				++si;
-			}
-			else if (*si == '\'')
-			{
-				sqpos = si;
-			}
-			else if (*si == '\"')
-			{
-				dqpos = si;
-			}
-		}
-	}
-	if (dqpos)
-	{
-		if (sqpos) throw Error( Error::EscapeQuoteErrorInString, str);
-		outstream << "\'" << escapeString( str) << "\'";
-	}
-	else
-	{
-		outstream << "\"" << escapeString( str) << "\"";
-	}
+	bool sq = str.find( '\'') != std::string::npos;
+	bool dq = str.find( '\"') != std::string::npos;
+	char quote = (dq && !sq) ? '\'' : '\"';
+	outstream << quote << escapeString( str, quote) << quote;
 }
 
 static void printArgument( std::ostream& outstream, const char* type, const std::vector<std::string>& args)
-- 
2.43.0


From 0cad19b631e74ae710ae48bf1aadbaf619f0d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 24/75] fix: a null byte in a source was taken as its end and
 the rest was ignored

---
 src/lexer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 1044b43..1f83d0d 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -315,8 +315,8 @@ char const* Scanner::next( int incr)
 
 bool Scanner::scan( const char* str)
 {
-	char const* end = std::strstr( m_srcitr, str);
-	return (end && next( end-m_srcitr + std::strlen(str)));
+	std::size_t pos = std::string_view( m_srcitr, restsize()).find( str);
+	return (pos != std::string_view::npos && next( pos + std::strlen(str)));
 }
 
 int Scanner::indentCount( int tabSize) const noexcept
@@ -625,7 +625,7 @@ Lexem Lexer::next( Scanner& scanner) const
 	for (;;)
 	{
 		char const* start = scanner.next();
-		if (*start == '\0')
+		if (*start == '\0' && scanner.restsize() == 0)
 		{
 			if (m_indentLexems.defined() && scanner.getEofIndentToken() == Scanner::IndentClose)
 			{
-- 
2.43.0


From ee7d279925dd6e30c0a54565d3c7bcb94aaaa3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 25/75] fix: ignored patterns and tokens matching the same
 length were decided by the iteration order of a Lua table

---
 src/lua_load_automaton.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index ac1dc57..1cbb8cf 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -139,6 +139,8 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 	std::vector<std::string> keywords;
 	// ... because keywords need to be loaded after the named token lexems, we need to store them first
 	//     and apply the definitions at the end of parsing, because in a lua map they can appear in any order.
+	std::vector<std::string> ignores;
+	// ... the same for the patterns ignored, a token of the same length is preferred
 	int rowcnt = 0;
 
 	lua_pushvalue( ls, li);
@@ -247,11 +249,7 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 		}
 		else if (0==std::strcmp( keystr, "ignore"))
 		{
-			auto ignores = parseStringArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr));
-			for (auto ignore : ignores)
-			{
-				rt.defineIgnore( 0/*no line*/, ignore);
-			}
+			ignores = parseStringArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr));
 		}
 		else if (0==std::strcmp( keystr, "indentl"))
 		{
@@ -266,6 +264,10 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 		lua_pop( ls, 1);
 	}
 	lua_pop( ls, 1);
+	for (auto const& ignore : ignores)
+	{
+		rt.defineIgnore( 0/*no line*/, ignore);
+	}
 	for (auto keyword : keywords)
 	{
 		rt.defineLexem( keyword);
-- 
2.43.0


From 0e5aa85ce07d601bfe68218efb12b56025b45262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:57 +0000
Subject: [PATCH 26/75] fix: tostring printed numbers with 6 digits only and
 integers out of range as something else

---
 src/lua_serialize.cpp | 47 +++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index bf9e705..f530262 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -16,6 +16,9 @@
 #include <variant>
 #include <limits>
 #include <cmath>
+#include <cstdio>
+#include <cstdlib>
+#include <cstring>
 #include <algorithm>
 
 extern "C" {
@@ -31,20 +34,38 @@ using namespace mewa;
 
 static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth);
 
-static void serializeLuaNumber( std::ostream& out, lua_State* ls, int li)
+/// \brief Print a number with the minimum of 6, 15 or 17 digits needed to get the same number back
+static void serializeNumber( std::ostream& out, double num)
 {
-	double num;
-	num = lua_tonumber( ls, li);
-	if (num - std::floor( num) < std::numeric_limits<double>::epsilon()*4)
+	if (std::isnan( num))
+	{
+		out << "0/0";
+	}
+	else if (std::isinf( num))
 	{
-		out << lua_tointeger( ls, li);
+		out << (num < 0 ? "-1/0" : "1/0");
 	}
 	else
 	{
-		out << num;
+		char buf[ 64];
+		if (num == std::floor( num) && std::fabs( num) < 1e15)
+		{
+			std::snprintf( buf, sizeof(buf), "%.0f", num);
+		}
+		else for (int digits : {6,15,17})
+		{
+			std::snprintf( buf, sizeof(buf), "%.*g", digits, num);
+			if (std::strtod( buf, nullptr) == num) break;
+		}
+		out << buf;
 	}
 }
 
+static void serializeLuaNumber( std::ostream& out, lua_State* ls, int li)
+{
+	serializeNumber( out, lua_tonumber( ls, li));
+}
+
 struct LuaTableKey
 {
 	enum Type {NumberType,StringType};
@@ -89,18 +110,10 @@ struct LuaTableKey
 		switch (type)
 		{
 			case NumberType:
-			{
-				double num = std::get<double>(value);
-				if (num - std::floor( num) < std::numeric_limits<double>::epsilon()*4)
-				{
-					out << "[" << (int)(num + std::numeric_limits<double>::epsilon()*4) << "]";
-				}
-				else
-				{
-					out << "[" << std::get<double>(value) << "]";
-				}
+				out << "[";
+				serializeNumber( out, std::get<double>(value));
+				out << "]";
 				break;
-			}
 			case StringType:
 				if (isIdentifier())
 				{
-- 
2.43.0


From 0d69290928561465645c9a257bbc0796d25471a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 27/75] fix: tostring printed strings and keys with quotes,
 null bytes or names reserved in Lua as invalid or different Lua

---
 src/lua_serialize.cpp | 135 +++++++++++++++++++++++-------------------
 1 file changed, 75 insertions(+), 60 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index f530262..d4b386f 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -11,6 +11,9 @@
 /// \file "lua_serialize.hpp"
 #include "lua_serialize.hpp"
 #include <vector>
+#include <string>
+#include <string_view>
+#include <set>
 #include <iostream>
 #include <sstream>
 #include <variant>
@@ -66,13 +69,59 @@ static void serializeLuaNumber( std::ostream& out, lua_State* ls, int li)
 	serializeNumber( out, lua_tonumber( ls, li));
 }
 
+static std::string encodeCString( const char* str, std::size_t size)
+{
+	const char* HEX = "0123456789ABCDEF";
+	std::string rt;
+	char const* si = str;
+	for (; si != str+size; ++si)
+	{
+		unsigned char ch = (unsigned char)*si;
+		if (ch < 32)
+		{
+			if (ch == '\t')
+			{
+				rt.append( "\\t");
+			}
+			else if (ch == '\n')
+			{
+				rt.append( "\\n");
+			}
+			else if (ch == '\r')
+			{
+				rt.append( "\\r");
+			}
+			else if (ch == '\b')
+			{
+				rt.append( "\\b");
+			}
+			else
+			{
+				char buf[32];
+				std::snprintf( buf, sizeof(buf), "\\x%c%c", HEX[ ch / 16], HEX[ ch % 16]);
+				rt.append( buf);
+			}
+		}
+		else if (ch == '\\' || ch == '"')
+		{
+			rt.push_back( '\\');
+			rt.push_back( ch);
+		}
+		else
+		{
+			rt.push_back( ch);
+		}
+	}
+	return rt;
+}
+
 struct LuaTableKey
 {
 	enum Type {NumberType,StringType};
 	Type type;
-	std::variant<double,const char*> value;
+	std::variant<double,std::string_view> value;
 
-	LuaTableKey( const char* value_)
+	LuaTableKey( const std::string_view value_)
 		:type(StringType),value(value_){}
 	LuaTableKey( const double value_)
 		:type(NumberType),value(value_){}
@@ -86,7 +135,7 @@ struct LuaTableKey
 			switch (type)
 			{
 				case NumberType: return std::get<double>(value) < std::get<double>(o.value);
-				case StringType: return std::strcmp( std::get<const char*>(value), std::get<const char*>(o.value)) < 0;
+				case StringType: return std::get<std::string_view>(value) < std::get<std::string_view>(o.value);
 			}
 		}
 		return (int)type < (int)o.type;
@@ -100,7 +149,7 @@ struct LuaTableKey
 				lua_pushnumber( ls, std::get<double>(value));
 				break;
 			case StringType:
-				lua_pushstring( ls, std::get<const char*>(value));
+				lua_pushlstring( ls, std::get<std::string_view>(value).data(), std::get<std::string_view>(value).size());
 				break;
 		}
 	}
@@ -117,22 +166,29 @@ struct LuaTableKey
 			case StringType:
 				if (isIdentifier())
 				{
-					out << std::get<const char*>(value);
+					out << std::get<std::string_view>(value);
 				}
 				else
 				{
-					out << "[\"" << std::get<const char*>(value) << "\"]";
+					out << "[\"" << encodeCString( std::get<std::string_view>(value).data(), std::get<std::string_view>(value).size()) << "\"]";
 				}
 				break;
 		}
 	}
 
-	bool isIdentifier() const noexcept
+	bool isIdentifier() const
 	{
-		char const* si = std::get<const char*>(value);
-		if (*si >= '0' && *si <= '9') return false;
-		for (; *si && (((*si|32) >= 'a' && (*si|32) <= 'z') || (*si >= '0' && *si <= '9') || *si == '_'); ++si){}
-		return !*si;
+		static const std::set<std::string_view> reserved = {
+			"and", "break", "do", "else", "elseif", "end", "false", "for", "function", "goto", "if", "in",
+			"local", "nil", "not", "or", "repeat", "return", "then", "true", "until", "while"
+		};
+		auto const& str = std::get<std::string_view>(value);
+		if (str.empty() || (str[0] >= '0' && str[0] <= '9') || reserved.find( str) != reserved.end()) return false;
+		for (char ch : str)
+		{
+			if (!((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || ch == '_')) return false;
+		}
+		return true;
 	}
 };
 
@@ -150,8 +206,9 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 	{
 		if (lua_type( ls, -2) == LUA_TSTRING)
 		{
-			const char* sptr = lua_tostring( ls, -2);
-			keyvec.push_back( sptr);
+			std::size_t len = 0;
+			const char* sptr = lua_tolstring( ls, -2, &len);
+			keyvec.push_back( std::string_view( sptr, len));
 			hasNameKeys = true;
 		}
 		else if (lua_type( ls, -2) == LUA_TNUMBER)
@@ -215,52 +272,6 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 	lua_pop( ls, 1); // ... pop table and keyvec
 }
 
-static std::string encodeCString( const char* str)
-{
-	const char* HEX = "0123456789ABCDEF";
-	std::string rt;
-	char const* si = str;
-	for (; *si; ++si)
-	{
-		unsigned char ch = (unsigned char)*si;
-		if (ch < 32)
-		{
-			if (ch == '\t')
-			{
-				rt.append( "\\t");
-			}
-			else if (ch == '\n')
-			{
-				rt.append( "\\n");
-			}
-			else if (ch == '\r')
-			{
-				rt.append( "\\r");
-			}
-			else if (ch == '\b')
-			{
-				rt.append( "\\b");
-			}
-			else
-			{
-				char buf[32];
-				std::snprintf( buf, sizeof(buf), "\\x%c%c", HEX[ ch / 16], HEX[ ch % 16]);
-				rt.append( buf);
-			}
-		}
-		else if (ch == '\\')
-		{
-			rt.push_back( ch);
-			rt.push_back( ch);
-		}
-		else
-		{
-			rt.push_back( ch);
-		}
-	}
-	return rt;
-}
-
 static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth)
 {
 	int tp = lua_type( ls, li);
@@ -276,8 +287,12 @@ static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const s
 			out << (lua_toboolean( ls, li) ? "true" : "false");
 			break;
 		case LUA_TSTRING:
-			out << '"' << encodeCString( lua_tostring( ls, li)) << '"';
+		{
+			std::size_t len = 0;
+			const char* str = lua_tolstring( ls, li, &len);
+			out << '"' << encodeCString( str, len) << '"';
 			break;
+		}
 		case LUA_TTABLE:
 			if (depth)
 			{
-- 
2.43.0


From 70bdeb4ad19dda7475d63e0c3b44da69e369743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 28/75] fix: tostring printed tables with gaps as lists without
 and left boolean keys away

---
 src/lua_serialize.cpp | 48 +++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index d4b386f..0bd6593 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -117,9 +117,12 @@ static std::string encodeCString( const char* str, std::size_t size)
 
 struct LuaTableKey
 {
-	enum Type {NumberType,StringType};
+	enum Type {BooleanType,NumberType,StringType};
 	Type type;
-	std::variant<double,std::string_view> value;
+	std::variant<bool,double,std::string_view> value;
+
+	LuaTableKey( const bool value_)
+		:type(BooleanType),value(value_){}
 
 	LuaTableKey( const std::string_view value_)
 		:type(StringType),value(value_){}
@@ -134,6 +137,7 @@ struct LuaTableKey
 		{
 			switch (type)
 			{
+				case BooleanType: return std::get<bool>(value) < std::get<bool>(o.value);
 				case NumberType: return std::get<double>(value) < std::get<double>(o.value);
 				case StringType: return std::get<std::string_view>(value) < std::get<std::string_view>(o.value);
 			}
@@ -145,6 +149,9 @@ struct LuaTableKey
 	{
 		switch (type)
 		{
+			case BooleanType:
+				lua_pushboolean( ls, std::get<bool>(value));
+				break;
 			case NumberType:
 				lua_pushnumber( ls, std::get<double>(value));
 				break;
@@ -158,6 +165,9 @@ struct LuaTableKey
 	{
 		switch (type)
 		{
+			case BooleanType:
+				out << (std::get<bool>(value) ? "[true]" : "[false]");
+				break;
 			case NumberType:
 				out << "[";
 				serializeNumber( out, std::get<double>(value));
@@ -196,8 +206,7 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 {
 	std::vector<LuaTableKey> keyvec;
 	keyvec.reserve( 1024);
-	bool hasNameKeys = false;
-	int rowcnt = 0;
+	bool isArray = true;
 
 	// Get keys in ascending order:
 	lua_pushvalue( ls, li);
@@ -209,36 +218,27 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 			std::size_t len = 0;
 			const char* sptr = lua_tolstring( ls, -2, &len);
 			keyvec.push_back( std::string_view( sptr, len));
-			hasNameKeys = true;
+			isArray = false;
 		}
 		else if (lua_type( ls, -2) == LUA_TNUMBER)
 		{
-			double kk = lua_tonumber( ls, -2);
-			++rowcnt;
-			if (!hasNameKeys && (kk - std::floor( kk) > std::numeric_limits<double>::epsilon()*4))
-			{
-				hasNameKeys = true;
-			}
-			keyvec.push_back( kk);
+			keyvec.push_back( lua_tonumber( ls, -2));
+		}
+		else if (lua_type( ls, -2) == LUA_TBOOLEAN)
+		{
+			keyvec.push_back( (bool)lua_toboolean( ls, -2));
+			isArray = false;
 		}
 		lua_pop( ls, 1);
 	}
  	std::sort( keyvec.begin(), keyvec.end());
-	if (!hasNameKeys)
+	for (std::size_t kidx = 0; isArray && kidx < keyvec.size(); ++kidx)
 	{
-		if ((int)keyvec.size() != rowcnt)
-		{
-			hasNameKeys = true;
-		}
-		else if (rowcnt
-			&& (int)(std::get<double>(keyvec[0].value) + std::numeric_limits<double>::epsilon()*4) != 1
-			&& (int)(std::get<double>(keyvec.back().value) + std::numeric_limits<double>::epsilon()*4) != rowcnt)
-		{
-			hasNameKeys = true;
-		}
+		//... only the keys 1,2,3...n can be left away
+		isArray = std::get<double>(keyvec[ kidx].value) == (double)(kidx+1);
 	}
 	out << "{";
-	if (hasNameKeys)
+	if (!isArray)
 	{
 		int kidx = 0;
 		for (auto const& key : keyvec)
-- 
2.43.0


From 964842172f9c697c83eb652bfdd15102fd8c2647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 29/75] fix: tostring of a table with cycles or deeply nested
 tables ran out of stack

---
 src/lua_serialize.cpp | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index 0bd6593..aa1168a 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -10,6 +10,7 @@
 /// \brief Serialization of lua data structures
 /// \file "lua_serialize.hpp"
 #include "lua_serialize.hpp"
+#include "error.hpp"
 #include <vector>
 #include <string>
 #include <string_view>
@@ -35,7 +36,13 @@ extern "C" {
 
 using namespace mewa;
 
-static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth);
+/// \brief Limit for the nesting of tables printed, the Lua parser has the same limit (LUAI_MAXCCALLS)
+static constexpr std::size_t MaxTableNesting = 200;
+
+/// \brief The tables currently printed, the one printed last at the end
+typedef std::vector<const void*> TablePath;
+
+static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth, TablePath& path);
 
 /// \brief Print a number with the minimum of 6, 15 or 17 digits needed to get the same number back
 static void serializeNumber( std::ostream& out, double num)
@@ -202,12 +209,14 @@ struct LuaTableKey
 	}
 };
 
-static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth)
+static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth, TablePath& path)
 {
 	std::vector<LuaTableKey> keyvec;
 	keyvec.reserve( 1024);
 	bool isArray = true;
 
+	if (!lua_checkstack( ls, 8)) throw mewa::Error( mewa::Error::LuaStackOutOfMemory);
+
 	// Get keys in ascending order:
 	lua_pushvalue( ls, li);
 	lua_pushnil( ls);
@@ -250,7 +259,7 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 			out << indent;
 			key.serialize( out);
 			out << " = ";
-			serializeLuaValue( out, ls, -1, indent, depth);
+			serializeLuaValue( out, ls, -1, indent, depth, path);
 			lua_pop( ls, 1);					// STK: [TABLE] 
 		}
 	}
@@ -264,7 +273,7 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 
 			if (kidx++) out << ",";
 			out << indent;
-			serializeLuaValue( out, ls, -1, indent, depth);
+			serializeLuaValue( out, ls, -1, indent, depth, path);
 			lua_pop( ls, 1);					// STK: [TABLE] 
 		}
 	}
@@ -272,7 +281,7 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 	lua_pop( ls, 1); // ... pop table and keyvec
 }
 
-static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth)
+static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth, TablePath& path)
 {
 	int tp = lua_type( ls, li);
 	switch (tp)
@@ -294,22 +303,22 @@ static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const s
 			break;
 		}
 		case LUA_TTABLE:
-			if (depth)
+		{
+			const void* table = lua_topointer( ls, li);
+			if ((depth && depth <= 1)
+				|| path.size() >= MaxTableNesting
+				|| std::find( path.begin(), path.end(), table) != path.end()/*table is part of itself*/)
 			{
-				if (depth <= 1)
-				{
-					out << "...";
-				}
-				else
-				{
-					serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth-1);
-				}
+				out << "...";
 			}
 			else
 			{
-				serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth);
+				path.push_back( table);
+				serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth ? depth-1 : 0, path);
+				path.pop_back();
 			}
 			break;
+		}
 		case LUA_TFUNCTION:
 		case LUA_TUSERDATA:
 		case LUA_TTHREAD:
@@ -323,7 +332,8 @@ std::string mewa::luaToString( lua_State* ls, int li, bool use_indent, int depth
 {
 	std::string rt;
 	std::ostringstream out;
-	serializeLuaValue( out, ls, li, use_indent ? "\n" : "", depth);
+	TablePath path;
+	serializeLuaValue( out, ls, li, use_indent ? "\n" : "", depth, path);
 	rt.append( out.str());
 	return rt;
 }
-- 
2.43.0


From d8b545ecd95a49b8a16dfaba1888566b4b1bd92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:45 +0000
Subject: [PATCH 30/75] fix: files not written or read completely were not
 reported or reported with a wrong error

---
 src/fileio.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fileio.cpp b/src/fileio.cpp
index 9288202..5dda26d 100644
--- a/src/fileio.cpp
+++ b/src/fileio.cpp
@@ -14,6 +14,7 @@
 #include "error.hpp"
 #include <cstdio>
 #include <cstring>
+#include <cerrno>
 #include <string>
 #include <libgen.h>
 
@@ -25,10 +26,11 @@ void mewa::writeFile( const char* filename, const std::string& content)
 	if (!ff) throw Error( (Error::Code)errno, filename);
 	if (content.size() != std::fwrite( content.c_str(), 1, content.size(), ff))
 	{
+		int ec = errno;
 		std::fclose( ff);
-		throw Error( (Error::Code)std::ferror( ff), filename);
+		throw Error( (Error::Code)ec, filename);
 	}
-	std::fclose( ff);
+	if (0 != std::fclose( ff)) throw Error( (Error::Code)errno, filename);
 }
 
 void mewa::writeFile( const std::string& filename, const std::string& content)
@@ -51,7 +53,7 @@ std::string mewa::readFile( const char* filename)
 	}
 	rt.append( rbuf, nn);
 
-	int eno = std::ferror( ff);
+	int eno = std::ferror( ff) ? errno : 0;
 	bool eof = std::feof( ff);
 	std::fclose( ff);
 
-- 
2.43.0


From 3bbcc381b442ee4ffa461f524a7721ba343a2887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 31/75] fix: the target name without extension contained bytes
 beyond the end of the path

---
 src/fileio.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fileio.cpp b/src/fileio.cpp
index 5dda26d..e2bb2ea 100644
--- a/src/fileio.cpp
+++ b/src/fileio.cpp
@@ -109,7 +109,8 @@ std::string mewa::fileBaseName( const std::string_view& fnam)
 	std::memcpy( buf, fnam.data(), nn);
 	buf[ nn] = 0;
 	char* bn = ::basename( buf);
-	std::size_t ee = std::strchr( bn, '\0')-bn;
+	nn = std::strchr( bn, '\0')-bn;
+	std::size_t ee = nn;
 	for (; ee > 0 && bn[ ee] != '.'; --ee){}
 	if (ee != 0) nn = ee;
 	return std::string( bn, nn);
-- 
2.43.0


From df6eab706bad917bf77a0bd272a0189ee5352172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 32/75] fix: output to stdout or stderr was cut at null bytes
 and write errors were ignored

---
 src/lualib_mewa.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index bda0f71..d5c68b6 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -398,6 +398,15 @@ static void copyFileNameToBuffer( char* buf, std::size_t bufsize, std::string_vi
 	std::memcpy( buf, str.data(), str.size());
 	buf[ str.size()] = 0;
 }
+
+static void printOutput( FILE* fh, const std::string_view& name, const std::string& output)
+{
+	if (output.size() != std::fwrite( output.c_str(), 1, output.size(), fh) || 0 != std::fflush( fh))
+	{
+		throw mewa::Error( (mewa::Error::Code)errno, name);
+	}
+}
+
 /// \brief Saves the global functions replaced during a run of the compiler on the Lua stack and restores them on exit, also in case of an error
 class CompilerRunScope
 {
@@ -491,11 +500,12 @@ static int mewa_compiler_run( lua_State* ls)
 			std::string output = mewa::template_format( targetptr, '{', '}', cp->outputSectionMap);
 			if (outputfn == "stderr")
 			{
-				std::fputs( output.c_str(), ::stderr);
+				printOutput( ::stderr, outputfn, output);
 			}
 			else if (outputfn == "stdout")
 			{
-				std::puts( output.c_str());
+				output.push_back( '\n');
+				printOutput( ::stdout, outputfn, output);
 			}
 			else
 			{
-- 
2.43.0


From 5dfe9febc7f785ac9422d0277b8161b5c39ad90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:20 +0000
Subject: [PATCH 33/75] fix: failures writing the debug output were not
 detected

---
 src/lua_run_compiler.cpp |  5 ++---
 src/lualib_mewa.cpp      | 11 ++++-------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index 62566f9..f85f272 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -193,11 +193,10 @@ static void printDebug( FILE* dbgout, const char* fmt, ...)
 	std::string content = mewa::string_format_va( fmt, ap);
 	va_end( ap);
 
-	if (!std::fwrite( content.data(), content.size(), 1, dbgout))
+	if (content.size() > std::fwrite( content.data(), 1, content.size(), dbgout) || 0 != std::fflush( dbgout))
 	{
-		throw mewa::Error( (mewa::Error::Code) std::ferror( dbgout), "debug output");
+		throw mewa::Error( (mewa::Error::Code)errno, "debug output");
 	}
-	std::fflush( dbgout);
 }
 
 static void luaReduceStruct( 
diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index d5c68b6..fd8df15 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -144,21 +144,18 @@ static int lua_print_redirected_impl( lua_State* ls, FILE* fh)
 			}
 			catch (...) {lippincottFunction( ls);}
 		}
-		if (len < std::fwrite( str, 1, len, fh))
+		if (len > std::fwrite( str, 1, len, fh))
 		{
-			int ec = std::ferror( fh);
-			mewa::Error err( (mewa::Error::Code)ec, functionName);
+			mewa::Error err( (mewa::Error::Code)errno, functionName);
 			luaL_error( ls, "%s", err.what());
 		}
 	}
 	// Print eoln:
-	if (1 > std::fwrite( "\n", 1, 1, fh))
+	if (1 > std::fwrite( "\n", 1, 1, fh) || 0 != std::fflush( fh))
 	{
-		int ec = std::ferror( fh);
-		mewa::Error err( (mewa::Error::Code)ec, functionName);
+		mewa::Error err( (mewa::Error::Code)errno, functionName);
 		luaL_error( ls, "%s", err.what());
 	}
-	std::fflush( fh);
 	return 0;
 }
 
-- 
2.43.0


From 72e97b742e4b976f75bc47c1df40e556e2e17260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:52 +0000
Subject: [PATCH 34/75] fix: print did not append to the section Code in the
 order of the calls

---
 src/lua_userdata.hpp | 5 -----
 src/lualib_mewa.cpp  | 3 +--
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/lua_userdata.hpp b/src/lua_userdata.hpp
index c1c25fd..033ae8c 100644
--- a/src/lua_userdata.hpp
+++ b/src/lua_userdata.hpp
@@ -68,8 +68,6 @@ struct mewa_compiler_userdata_t
 	mewa::Automaton automaton;
 	mewa::lua::CallTableName callTableName;
 	FILE* debugFileHandle;
-	typedef std::string OutputBuffer;
-	std::string outputBuffer;
 	typedef std::map<std::string,std::string> OutputSectionMap;
 	OutputSectionMap outputSectionMap;
 
@@ -77,13 +75,11 @@ struct mewa_compiler_userdata_t
 	{
 		debugFileHandle = nullptr;
 		new (&automaton) mewa::Automaton();
-		new (&outputBuffer) OutputBuffer();
 		new (&outputSectionMap) OutputSectionMap();
 		callTableName.init();
 	}
 	void clearOutput() noexcept
 	{
-		outputBuffer.clear();
 		outputSectionMap.clear();
 	}
 	void closeOutput() noexcept
@@ -97,7 +93,6 @@ struct mewa_compiler_userdata_t
 
 		closeOutput();
 		automaton.~Automaton();
-		outputBuffer.~OutputBuffer();
 		outputSectionMap.~OutputSectionMap();
 	}
 	static const char* metatableName() noexcept {return MEWA_COMPILER_METATABLE_NAME;}
diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index fd8df15..5eaeef6 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -215,7 +215,7 @@ static int lua_print_redirected( lua_State* ls) {
 	try
 	{
 		int nargs = lua_gettop( ls);
-		append_printbuffer( ls, 1, nargs, cp->outputBuffer);
+		append_printbuffer( ls, 1, nargs, cp->outputSectionMap[ "Code"]);
 	}
 	catch (...) {lippincottFunction( ls);}
 	return 0;
@@ -493,7 +493,6 @@ static int mewa_compiler_run( lua_State* ls)
 			// Map output with target template:
 			cp->outputSectionMap[ "Source"] = filename;
 			cp->outputSectionMap[ "Triple"] = triple;
-			cp->outputSectionMap[ "Code"].append( cp->outputBuffer);
 			std::string output = mewa::template_format( targetptr, '{', '}', cp->outputSectionMap);
 			if (outputfn == "stderr")
 			{
-- 
2.43.0


From 9ad3c12fdf2e7e31e10c682b45af26f61efd75aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:58 +0000
Subject: [PATCH 35/75] fix: option --template with the file attached took the
 file name as the template

---
 src/mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mewa.cpp b/src/mewa.cpp
index 687aa01..d1e4cdf 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -301,7 +301,7 @@ int main( int argc, const char* argv[] )
 				int optofs = (argv[argi][1] == '-') ? 11:2;
 				if (argv[argi][ optofs])
 				{
-					templat = argv[argi]+optofs;
+					templat = readFile( argv[argi]+optofs);
 				}
 				else
 				{
-- 
2.43.0


From f7b1b8ae0fbf872da9a1a9c1da993993526f78f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:31 +0000
Subject: [PATCH 36/75] fix: long options with the value as next argument were
 refused and short arguments read beyond their end

---
 src/mewa.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/mewa.cpp b/src/mewa.cpp
index d1e4cdf..8c62f45 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -154,6 +154,23 @@ static void printAutomaton( const std::string& filename, const std::string& temp
 	}
 }
 
+/// \brief Match an option with a value, passed attached or as next argument, and get the offset of the value attached
+static bool matchValueOption( const char* arg, const char* shortOption, const char* longOption, int& optofs)
+{
+	int longOptionSize = std::strlen( longOption);
+	if (0==std::strncmp( arg, shortOption, 2))
+	{
+		optofs = 2;
+		return true;
+	}
+	else if (0==std::strncmp( arg, longOption, longOptionSize) && (arg[ longOptionSize] == '=' || !arg[ longOptionSize]))
+	{
+		optofs = arg[ longOptionSize] ? longOptionSize+1 : longOptionSize;
+		return true;
+	}
+	return false;
+}
+
 int main( int argc, const char* argv[] )
 {
 	try
@@ -173,6 +190,7 @@ int main( int argc, const char* argv[] )
 		std::string luabin;
 
 		int argi = 1;
+		int optofs = 0;
 		for (; argi < argc; ++argi)
 		{
 			if (0==std::strcmp( argv[argi], "-V") || 0==std::strcmp( argv[argi], "--verbose"))
@@ -219,7 +237,7 @@ int main( int argc, const char* argv[] )
 				}
 				cmd = GenerateLanguageDescriptionForLua;
 			}
-			else if (0==std::memcmp( argv[argi], "-b", 2) || 0==std::memcmp( argv[argi], "--luabin=", 9))
+			else if (matchValueOption( argv[argi], "-b", "--luabin", optofs))
 			{
 				if (cmd == GenerateTypesystemTemplateForLua)
 				{
@@ -227,7 +245,6 @@ int main( int argc, const char* argv[] )
 					printUsage();
 					return ERRCODE_INVALID_ARGUMENTS;
 				}
-				int optofs = (argv[argi][1] == '-') ? 9:2;
 				if (argv[argi][ optofs])
 				{
 					luabin = argv[argi]+optofs;
@@ -244,9 +261,8 @@ int main( int argc, const char* argv[] )
 					luabin = argv[argi];
 				}
 			}
-			else if (0==std::memcmp( argv[argi], "-o", 2) || 0==std::memcmp( argv[argi], "--output=", 9))
+			else if (matchValueOption( argv[argi], "-o", "--output", optofs))
 			{
-				int optofs = (argv[argi][1] == '-') ? 9:2;
 				if (argv[argi][ optofs])
 				{
 					outputFilename = argv[argi]+optofs;
@@ -263,7 +279,7 @@ int main( int argc, const char* argv[] )
 					outputFilename = argv[argi];
 				}
 			}
-			else if (0==std::memcmp( argv[argi], "-d", 2) || 0==std::memcmp( argv[argi], "--dbgout=", 9))
+			else if (matchValueOption( argv[argi], "-d", "--dbgout", optofs))
 			{
 				if (cmd == GenerateTypesystemTemplateForLua)
 				{
@@ -271,7 +287,6 @@ int main( int argc, const char* argv[] )
 					printUsage();
 					return ERRCODE_INVALID_ARGUMENTS;
 				}
-				int optofs = (argv[argi][1] == '-') ? 9:2;
 				if (argv[argi][ optofs])
 				{
 					debugFilename = argv[argi]+optofs;
@@ -290,7 +305,7 @@ int main( int argc, const char* argv[] )
 					verbose = true;
 				}
 			}
-			else if (0==std::memcmp( argv[argi], "-t", 2) || 0==std::memcmp( argv[argi], "--template=", 11))
+			else if (matchValueOption( argv[argi], "-t", "--template", optofs))
 			{
 				if (cmd == GenerateTypesystemTemplateForLua)
 				{
@@ -298,7 +313,6 @@ int main( int argc, const char* argv[] )
 					printUsage();
 					return ERRCODE_INVALID_ARGUMENTS;
 				}
-				int optofs = (argv[argi][1] == '-') ? 11:2;
 				if (argv[argi][ optofs])
 				{
 					templat = readFile( argv[argi]+optofs);
-- 
2.43.0


From 31f2aa62d345c7ad42ef0ee5c83422a178f39595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:02 +0000
Subject: [PATCH 37/75] fix: only the first occurrence of a variable in a
 template was substituted and values were substituted again

---
 src/mewa.cpp | 48 ++++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/mewa.cpp b/src/mewa.cpp
index 8c62f45..2db1ee5 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -111,32 +111,36 @@ compiler:run( nil, nil, arg[1])
 
 
 
-static std::string mapTemplateKey( const std::string& content, const char* key, const std::string& value)
+static std::string mapTemplate( const std::string& templat, const Automaton& automaton, const std::string& luabin)
 {
 	std::string rt;
-	std::string pattern = std::string("%") + key + "%";
-	char const* pp = std::strstr( content.c_str(), pattern.c_str());
-	if (pp)
-	{
-		rt.append( content.c_str(), pp-content.c_str());
-		rt.append( value);
-		rt.append( pp + pattern.size());
-	}
-	else
+	std::map<std::string,std::string> valuemap;
+	valuemap[ "luabin"] = luabin;
+	valuemap[ "typesystem"] = automaton.typesystem();
+	valuemap[ "language"] = automaton.language();
+	valuemap[ "cmdline"] = automaton.cmdline();
+	valuemap[ "automaton"] = automaton.tostring();
+
+	std::size_t pos = 0;
+	std::size_t start = templat.find( '%');
+	while (start != std::string::npos)
 	{
-		rt.append( content);
+		std::size_t end = templat.find( '%', start+1);
+		if (end == std::string::npos) break;
+		auto vi = valuemap.find( templat.substr( start+1, end-start-1));
+		if (vi == valuemap.end())
+		{
+			start = end;
+		}
+		else
+		{
+			rt.append( templat, pos, start-pos);
+			rt.append( vi->second);
+			pos = end+1;
+			start = templat.find( '%', pos);
+		}
 	}
-	return rt;
-}
-
-static std::string mapTemplate( const std::string& templat, const Automaton& automaton, const std::string& luabin)
-{
-	std::string rt = templat;
-	rt = mapTemplateKey( rt, "luabin", luabin);
-	rt = mapTemplateKey( rt, "typesystem", automaton.typesystem());
-	rt = mapTemplateKey( rt, "language", automaton.language());
-	rt = mapTemplateKey( rt, "cmdline", automaton.cmdline());
-	rt = mapTemplateKey( rt, "automaton", automaton.tostring());
+	rt.append( templat, pos, std::string::npos);
 	return rt;
 }
 
-- 
2.43.0


From e2c37a72271d30529af55cd61b34ae5641d687b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:35 +0000
Subject: [PATCH 38/75] fix: failure to write the output to stdout was not
 detected

---
 src/mewa.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mewa.cpp b/src/mewa.cpp
index 2db1ee5..d37d99c 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -24,6 +24,7 @@
 #include <iostream>
 #include <sstream>
 #include <cstring>
+#include <cerrno>
 #include <string>
 #include <vector>
 #include <map>
@@ -144,11 +145,18 @@ static std::string mapTemplate( const std::string& templat, const Automaton& aut
 	return rt;
 }
 
+static void printStdout( const std::string& content)
+{
+	errno = 0;
+	std::cout << content << std::endl;
+	if (!std::cout) throw Error( errno ? (Error::Code)errno : Error::RuntimeException, "stdout");
+}
+
 static void printAutomaton( const std::string& filename, const std::string& templat, const Automaton& automaton, const std::string& luabin)
 {
 	if (filename.empty())
 	{
-		std::cout << mapTemplate( templat, automaton, luabin) << std::endl;
+		printStdout( mapTemplate( templat, automaton, luabin));
 	}
 	else
 	{
@@ -457,7 +465,7 @@ int main( int argc, const char* argv[] )
 			case GenerateTypesystemTemplateForLua:
 				if (outputFilename.empty())
 				{
-					std::cout << output << std::endl;
+					printStdout( output);
 				}
 				else
 				{
@@ -467,7 +475,7 @@ int main( int argc, const char* argv[] )
 			case GenerateLanguageDescriptionForLua:
 				if (outputFilename.empty())
 				{
-					std::cout << output << std::endl;
+					printStdout( output);
 				}
 				else
 				{
-- 
2.43.0


From af62a1c431b78799a61a61850364972c764dab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 39/75] fix: the language description of a grammar with block
 comments was never finished or lost attributes

---
 src/automaton_parser.cpp | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 5fb2450..0be6f2e 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -761,12 +761,14 @@ static std::vector<std::string> splitLines( char const* str, std::size_t sz)
 	{
 		const char* start = skipSpaces( str, end); //skip leading spaces
 		str = skipEoln( start, end);
+		char const* next = str == end ? str : (str+1);
 		std::size_t nn = str-start;
 		while (nn > 0 && (unsigned char)start[ nn-1] <= 32)
 		{
 			--nn;
 		}
 		rt.emplace_back( start, nn);
+		str = next;
 	}
 	while (!rt.empty() && rt.back().empty())
 	{
@@ -825,39 +827,29 @@ LanguageDecoratorMap mewa::parseLanguageDecoratorMap( const std::string& source)
 	Lexem lexem( 1/*line*/);
 	std::vector<std::string> comment;
 	std::vector<LanguageDecorator> decorators;
-	std::size_t symlen = 0;
 	int line = 0;
 	char const* start = scanner.next();
-	for (; *start; start = scanner.next( symlen))
+	for (; *start; start = scanner.next())
 	{
 		comment.clear();
 		if (start[0] == '#' || (start[0] == '/' && start[1] == '/'))
 		{
-			line = scanner.line();
 			start += start[0] == '#' ? 1:2;
-			if (scanner.scan( "\n"))
-			{
-				comment.emplace_back( start, scanner.current() - start - 1);
-			}
-			else
-			{
-				comment.emplace_back( start);
-			}
-			symlen = 0;
+			char const* end = skipEoln( start, source.c_str() + source.size());
+			comment.emplace_back( start, end-start);
+			if (!scanner.scan( "\n")) break;
 		}
 		else if (start[0] == '/' && start[1] == '*')
 		{
-			line = scanner.line();
 			start += 2;
-			if (scanner.scan( "*/"))
-			{
-				comment = splitLines( start, scanner.current() - start);
-			}
-			else
+			char const* end = std::strstr( start, "*/");
+			if (!end)
 			{
 				throw Error( Error::UnexpectedEofInGrammarDef);
 			}
-			symlen = 1;
+			comment = splitLines( start, end-start);
+			scanner.next( 2);
+			scanner.scan( "*/");
 		}
 		else
 		{
-- 
2.43.0


From c1e5acf30e552e32dbd38c86c71429371e1ac1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:16 +0000
Subject: [PATCH 40/75] fix: attributes of declarations over several lines were
 lost and the error for reserved attributes had no line

---
 src/automaton_parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 0be6f2e..1a0361a 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -854,12 +854,16 @@ LanguageDecoratorMap mewa::parseLanguageDecoratorMap( const std::string& source)
 		else
 		{
 			line = scanner.line();
-			grammarLexer.next( scanner);
+			int lexemid = grammarLexer.next( scanner).id();
+			if (lexemid != GrammarLexer::EQUAL && lexemid != GrammarLexer::ARROW && lexemid != GrammarLexer::OR && lexemid != GrammarLexer::SEMICOLON)
+			{
+				continue; //... the line of a declaration is the line of one of these tokens
+			}
 			for (auto const& dc : decorators)
 			{
 				if (LanguageDecorator::isReservedAttribute( dc.name))
 				{
-					throw Error( Error::UsingReservedAttributeNameInGrammarDef);
+					throw Error( Error::UsingReservedAttributeNameInGrammarDef, dc.name, line);
 				}
 				rt.addDecorator( line, dc);
 			}
-- 
2.43.0


From be228fd92e8441c565d9954150087a50cf49375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 41/75] fix: errors in productions were reported with the last
 line of the grammar

---
 src/automaton_parser.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 1a0361a..106d787 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -625,11 +625,12 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 			lexem = Lexem( keyword.second);
 			if (!rt.lexer.lexemId( keyword.first)) rt.lexer.defineLexem( keyword.first);
 		}
-		lexem = endLexem;
 
 		// [2] Label grammar production elements:
+		int startSymbolReferenceLine = 0;
 		for (auto& prod : rt.prodlist)
 		{
+			lexem = Lexem( prod.line);
 			if (rt.lexer.lexemId( prod.left.name()))
 			{
 				throw Error( Error::DefinedAsTerminalAndNonterminalInGrammarDef, prod.left.name());
@@ -652,6 +653,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 						if (lxid) throw Error( Error::DefinedAsTerminalAndNonterminalInGrammarDef, element.name());
 						element.defineAsNonTerminal( nt->second);
 						usedSet.insert( element.name());
+						if (nt->second == 1/*is the start symbol*/ && !startSymbolReferenceLine) startSymbolReferenceLine = prod.line;
 					}
 				}
 			}
@@ -659,6 +661,8 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 
 		// [3] Test if all rules are reachable and the first rule defines a valid start symbol:
 		std::string unreachableListString;
+		int unreachableLine = 0;
+		lexem = endLexem;
 		for (auto const& pr : prodmap)
 		{
 			auto nt = nonTerminalIdMap.at( pr.first);
@@ -668,25 +672,27 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 				{
 					if (!unreachableListString.empty()) unreachableListString.append( ", ");
 					unreachableListString.append( pr.first);
+					int line = rt.prodlist[ pr.second].line;
+					if (!unreachableLine || line < unreachableLine) unreachableLine = line;
 				}
 			}
 			else
 			{
 				if (nt == 1/*is the start symbol*/)
 				{
-					throw Error( Error::StartSymbolReferencedInGrammarDef, pr.first);
+					throw Error( Error::StartSymbolReferencedInGrammarDef, pr.first, startSymbolReferenceLine);
 				}
 			}
 		}
 		if (!unreachableListString.empty())
 		{
-			throw Error( Error::UnreachableNonTerminalInGrammarDef, unreachableListString);
+			throw Error( Error::UnreachableNonTerminalInGrammarDef, unreachableListString, unreachableLine);
 		}
 		// [4] Test if start symbol (head of first production) appears only once on the left side and never on the right side:
 		int startSymbolLeftCount = 0;
 		for (auto const& prod: rt.prodlist)
 		{
-			if (prod.left.index() == 1) ++startSymbolLeftCount;
+			if (prod.left.index() == 1 && ++startSymbolLeftCount == 2) lexem = Lexem( prod.line);
 		}
 		if (startSymbolLeftCount == 0)
 		{
@@ -709,7 +715,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		{
 			if (prodset.insert( prod.prodstring()).second == false /*not new*/)
 			{
-				throw Error( Error::DuplicateProductionInGrammarDef, prod.prodstring());
+				throw Error( Error::DuplicateProductionInGrammarDef, prod.prodstring(), prod.line);
 			}
 		}
 	}
-- 
2.43.0


From dc754000810779bc73488cfa090d882c46d6f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 42/75] fix: attributes with a name that is not a Lua
 identifier made the language description invalid

---
 src/languagedef_tostring.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 1a8fad6..044ba56 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -12,6 +12,8 @@
 /// \file "languagedef_tostring.cpp"
 #include "languagedef_tostring.hpp"
 #include <cstdio>
+#include <set>
+#include <string_view>
 
 using namespace mewa;
 
@@ -71,12 +73,20 @@ static void printArgument( std::ostream& outstream, const char* type, int arg)
 	outstream << arg;
 }
 
+static std::string decoratorKey( const std::string& name)
+{
+	static const std::set<std::string_view> reserved = {
+		"and","break","do","else","elseif","end","false","for","function","goto","if","in","local",
+		"nil","not","or","repeat","return","then","true","until","while"};
+	return (name[0] >= '0' && name[0] <= '9') || reserved.find( name) != reserved.end() ? "[\"" + name + "\"]" : name;
+}
+
 static void printDecorators( std::ostream& outstream, const std::vector<LanguageDecorator>& decorators)
 {
 	for (auto const& dc : decorators)
 	{
 		outstream << ",";
-		printArgument( outstream, dc.name.c_str(), dc.content);
+		printArgument( outstream, decoratorKey( dc.name).c_str(), dc.content);
 	}
 }
 
-- 
2.43.0


From 190c14d9611abd7c34dfeb70a3f42524700f148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 43/75] fix: calls with a string containing double quotes were
 not described as written in the grammar

---
 src/automaton.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/automaton.cpp b/src/automaton.cpp
index 600f245..d55125e 100644
--- a/src/automaton.cpp
+++ b/src/automaton.cpp
@@ -1254,15 +1254,16 @@ std::string Automaton::actionString( const Action& action) const
 std::string Automaton::Call::tostring() const
 {
 	std::string rt( m_function);
+	char quote = m_arg.find( '"') == std::string::npos ? '"' : '\'';
 	switch (m_argtype)
 	{
 		case Automaton::Call::NoArg:
 			break;
 		case Automaton::Call::StringArg:
 			rt.push_back( ' ');
-			rt.push_back( '"');
+			rt.push_back( quote);
 			rt.append( m_arg);
-			rt.push_back( '"');
+			rt.push_back( quote);
 			break;
 		case Automaton::Call::ReferenceArg:
 			rt.push_back( ' ');
-- 
2.43.0


From b05018f9f3b8340280e5f3e575cf585b91391bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 44/75] fix: the error for indentation tokens defined twice had
 no line

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 1f83d0d..4fe500a 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -519,7 +519,7 @@ int Lexer::defineLexemId( const std::string_view& name)
 	}
 	else
 	{
-		throw std::runtime_error( Error( Error::KeywordDefinedTwiceInLexer));
+		throw Error( Error::KeywordDefinedTwiceInLexer, name);
 	}
 	m_defar.emplace_back( 0/*no line*/, std::string(name), id_);
 	return ins.first->second;
-- 
2.43.0


From 8bf0d3c954d852463b5acdf4e2558c5e79463c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 45/75] fix: indentation tokens were described as tokens
 without pattern and with quotes in the name

---
 src/languagedef_tostring.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 044ba56..c50a60c 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -11,6 +11,8 @@
 /// \brief Function to print Lexem definitions as Lua table
 /// \file "languagedef_tostring.cpp"
 #include "languagedef_tostring.hpp"
+#include "error.hpp"
+#include "strings.hpp"
 #include <cstdio>
 #include <set>
 #include <string_view>
@@ -90,7 +92,16 @@ static void printDecorators( std::ostream& outstream, const std::vector<Language
 	}
 }
 
-static void printLexerDefinitions( std::ostream& outstream, const char* indentstr, const Lexer& lexer, const std::vector<Lexer::Definition>& defs, const LanguageDecoratorMap& decorators, int& cnt)
+static std::string indentLexemName( const std::vector<Lexer::Definition>& defs, int id)
+{
+	for (auto const& def : defs)
+	{
+		if (def.type() == Lexer::Definition::NamedPatternLexem && def.id() == id) return def.name();
+	}
+	throw Error( Error::LogicError, string_format( "%s line %d", __FILE__, (int)__LINE__));
+}
+
+static void printLexerDefinitions( std::ostream& outstream, const char* indentstr, const std::vector<Lexer::Definition>& defs, const LanguageDecoratorMap& decorators, int& cnt)
 {
 	for (auto const& def : defs)
 	{
@@ -109,6 +120,7 @@ static void printLexerDefinitions( std::ostream& outstream, const char* indentst
 				break;
 
 			case Lexer::Definition::NamedPatternLexem:
+				if (def.pattern().empty()) break; //... token issued for indentation
 				outstream << (cnt++ ? indentstr : (indentstr+1));
 				outstream << "{";
 				printArgument( outstream, "op", "TOKEN");
@@ -173,11 +185,11 @@ static void printLexerDefinitions( std::ostream& outstream, const char* indentst
 				outstream << "{";
 				printArgument( outstream, "op", "INDENTL");
 				outstream << ",";
-				printArgument( outstream, "open", lexer.lexemName( def.openind()));
+				printArgument( outstream, "open", indentLexemName( defs, def.openind()));
 				outstream << ",";
-				printArgument( outstream, "close", lexer.lexemName( def.closeind()));
+				printArgument( outstream, "close", indentLexemName( defs, def.closeind()));
 				outstream << ",";
-				printArgument( outstream, "nl", lexer.lexemName( def.newline()));
+				printArgument( outstream, "nl", indentLexemName( defs, def.newline()));
 				outstream << ",";
 				printArgument( outstream, "tabsize", def.tabsize());
 				printDecorators( outstream, decorators.get( def.line()));
@@ -257,7 +269,7 @@ std::string mewa::printLuaLanguageDefinition( const LanguageDef& langdef, const
 	out << indentstr1 << "RULES = {";
 	auto const& defs = langdef.lexer.getDefinitions();
 	int cnt = 0;
-	printLexerDefinitions( out, indentstr2, langdef.lexer, defs, decoratormap, cnt);
+	printLexerDefinitions( out, indentstr2, defs, decoratormap, cnt);
 	printProductions( out, indentstr2, langdef, decoratormap, cnt);
 	out << "\n\t}\n}\nreturn languagedef\n\n";
 	std::string rt = out.str();
-- 
2.43.0


From f00ea205aef1897cfbf07a30933adf1bbe7b8e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:52 +0000
Subject: [PATCH 46/75] fix: a run of a compiler called by a run of the same
 compiler closed the debug output and lost the output of the caller

---
 src/lua_userdata.hpp |  4 ----
 src/lualib_mewa.cpp  | 34 +++++++++++++++++++++++++++-------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/lua_userdata.hpp b/src/lua_userdata.hpp
index 033ae8c..ac5ce22 100644
--- a/src/lua_userdata.hpp
+++ b/src/lua_userdata.hpp
@@ -78,10 +78,6 @@ struct mewa_compiler_userdata_t
 		new (&outputSectionMap) OutputSectionMap();
 		callTableName.init();
 	}
-	void clearOutput() noexcept
-	{
-		outputSectionMap.clear();
-	}
 	void closeOutput() noexcept
 	{
 		closeFile( debugFileHandle);
diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 5eaeef6..c526e13 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -404,14 +404,36 @@ static void printOutput( FILE* fh, const std::string_view& name, const std::stri
 	}
 }
 
+/// \brief Saves the output of a run of the same compiler calling this one and restores it on exit, also in case of an error
+class CompilerOutputScope
+{
+public:
+	explicit CompilerOutputScope( mewa_compiler_userdata_t* cp_)
+		:m_cp(cp_),m_debugFileHandle(cp_->debugFileHandle),m_outputSectionMap()
+	{
+		m_cp->debugFileHandle = nullptr;
+		m_cp->outputSectionMap.swap( m_outputSectionMap);
+	}
+	~CompilerOutputScope()
+	{
+		m_cp->closeOutput();
+		m_cp->debugFileHandle = m_debugFileHandle;
+		m_cp->outputSectionMap.swap( m_outputSectionMap);
+	}
+
+private:
+	mewa_compiler_userdata_t* m_cp;
+	FILE* m_debugFileHandle;
+	mewa_compiler_userdata_t::OutputSectionMap m_outputSectionMap;
+};
+
 /// \brief Saves the global functions replaced during a run of the compiler on the Lua stack and restores them on exit, also in case of an error
 class CompilerRunScope
 {
 public:
-	CompilerRunScope( lua_State* ls_, mewa_compiler_userdata_t* cp_)
-		:m_ls(ls_),m_cp(cp_),m_top(lua_gettop(ls_))
+	explicit CompilerRunScope( lua_State* ls_)
+		:m_ls(ls_),m_top(lua_gettop(ls_))
 	{
-		m_cp->clearOutput();
 		for (auto li = g_printlib; li->name; ++li)
 		{
 			lua_getglobal( m_ls, li->name);
@@ -431,14 +453,11 @@ public:
 			lua_setglobal( m_ls, li->name);
 		}
 		lua_settop( m_ls, m_top);
-		m_cp->closeOutput();
-		m_cp->clearOutput();
 	}
 
 private:
 	enum {NofSaved = sizeof(g_printlib) / sizeof(g_printlib[0]) - 1};
 	lua_State* m_ls;
-	mewa_compiler_userdata_t* m_cp;
 	int m_top;
 };
 
@@ -471,6 +490,7 @@ static int mewa_compiler_run( lua_State* ls)
 		if (targetfn[0]) targetstr_ = mewa::readFile( std::string(targetfn));
 		std::string_view targetptr = move_string_on_lua_stack( ls, std::move( targetstr_));	// STK: [COMPILER] [INPUTFILE] [SOURCE] [TARGET]
 
+		CompilerOutputScope outputScope( cp);
 		if (nargs >= 5)
 		{
 			if (!lua_isnil( ls, 5))
@@ -484,7 +504,7 @@ static int mewa_compiler_run( lua_State* ls)
 				if (!cp->debugFileHandle) throw mewa::Error( (mewa::Error::Code) errno, debugFileName);
 			}
 		}
-		CompilerRunScope runScope( ls, cp);
+		CompilerRunScope runScope( ls);
 
 		mewa::luaRunCompiler( ls, cp->automaton, options_index, sourceptr, cp->callTableName.buf, cp->debugFileHandle);
 		{
-- 
2.43.0


From b014526c6be244ec274729a27f81d4d8d47df7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:52 +0000
Subject: [PATCH 47/75] fix: target templates were cut at null bytes

---
 src/strings.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/strings.cpp b/src/strings.cpp
index 5351b97..ddf6f9a 100644
--- a/src/strings.cpp
+++ b/src/strings.cpp
@@ -78,15 +78,22 @@ static inline bool isAlphaNum( char ch)
 	return isAlpha(ch)||isDigit(ch);
 }
 
+/// \brief Find a character in a string that may contain null bytes, returns nullptr if not found
+static inline char const* findChar( char const* start, char const* end, char ch)
+{
+	return (start == end) ? nullptr : (char const*)std::memchr( start, ch, end-start);
+}
+
 std::string mewa::template_format( const std::string_view& templatstr, char sb, char eb, const std::map<std::string,std::string>& substmap)
 {
 	std::string rt;
 	char const* ti = templatstr.data();
-	char const* ts = std::strchr( ti, sb);
+	char const* tend = ti + templatstr.size();
+	char const* ts = findChar( ti, tend, sb);
 	while (ts)
 	{
 		char const* keystart = ts+1;
-		char const* te = std::strchr( keystart, eb);
+		char const* te = findChar( keystart, tend, eb);
 		if (te)
 		{
 			auto si = substmap.find( std::string( keystart, te-keystart));
@@ -95,7 +102,7 @@ std::string mewa::template_format( const std::string_view& templatstr, char sb,
 				rt.append( ti, ts-ti);
 				rt.append( si->second);
 				ti = te + 1;
-				if (!(ts = std::strchr( ti, sb))) break;
+				if (!(ts = findChar( ti, tend, sb))) break;
 			}
 			else
 			{
@@ -109,18 +116,18 @@ std::string mewa::template_format( const std::string_view& templatstr, char sb,
 				{
 					rt.append( ti, ts-ti);
 					ti = te + 1;
-					if (!(ts = std::strchr( ti, sb))) break;
+					if (!(ts = findChar( ti, tend, sb))) break;
 					// ... an identifier is mapped to an empty string if not found
 				}
 				else
 				{
-					if (!(ts = std::strchr( keystart, sb))) break;
+					if (!(ts = findChar( keystart, tend, sb))) break;
 				}
 			}
 		}
 		else break;
 	}
-	rt.append( ti);
+	rt.append( ti, tend-ti);
 	return rt;
 }
 
-- 
2.43.0


From 5a11b554942069c6008892af94d912b300a0c2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 48/75] fix: parsing of error messages read beyond the end of
 strings and lost parts of messages

---
 src/error.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/error.cpp b/src/error.cpp
index 96ff7de..ce8f097 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -45,7 +45,7 @@ Error Error::parseError( const char* errstr) noexcept
 				int cd = parseInteger( ei);
 				skipSpaces( ei);
 
-				if (cd < 0 || cd > std::numeric_limits<short>::max())
+				if (cd <= 0 || cd > std::numeric_limits<short>::max())
 				{
 					code_ = RuntimeException;
 					param_ = errstr;
@@ -93,7 +93,7 @@ Error Error::parseError( const char* errstr) noexcept
 				param_ = errstr;
 				state = StateEnd;
 			}
-			else if (0==std::memcmp( msgstart, code2String( code_), ei-msgstart))
+			else if (std::string_view( msgstart, ei-msgstart) == code2String( code_))
 			{
 				++ei;
 				skipSpaces( ei);
@@ -148,6 +148,10 @@ Error Error::parseError( const char* errstr) noexcept
 			}
 			else
 			{
+				code_ = RuntimeException;
+				param_ = errstr;
+				line_ = 0;
+				filename_ = "";
 				state = StateEnd;
 			}
 			break;
@@ -155,7 +159,7 @@ Error Error::parseError( const char* errstr) noexcept
 			break;
 
 	}//... end for switch
-	if (filename_[0])
+	if (!filename_.empty())
 	{
 		return Error( code_, param_, Location( filename_, line_));
 	}
@@ -170,7 +174,8 @@ int Error::parseInteger( char const*& si) noexcept
 	int rt = 0;
 	for (; *si >= '0' && *si <= '9'; ++si)
 	{
-		rt = (rt * 10) + (*si - '0');
+		int digit = *si - '0';
+		rt = (rt > (std::numeric_limits<int>::max() - digit) / 10) ? std::numeric_limits<int>::max() : ((rt * 10) + digit);
 	}
 	return rt;
 }
-- 
2.43.0


From 9f86d76595b90301a148a033c3d150e3cadc218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 49/75] fix: numbers out of range in a grammar were detected
 with an overflow, some of them not at all

---
 src/automaton_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 106d787..0e58159 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -17,6 +17,7 @@
 #include <map>
 #include <algorithm>
 #include <type_traits>
+#include <limits>
 
 using namespace mewa;
 
@@ -93,8 +94,8 @@ static int convertStringToInt( const std::string_view& str)
 		char ch = str[ si];
 		if (ch >= '0' && ch <= '9')
 		{
+			if (rt > (std::numeric_limits<int>::max() - (ch - '0')) / 10) throw Error( Error::ValueOutOfRangeInGrammarDef, str);
 			rt = rt * 10 + (ch - '0');
-			if (rt < 0) throw Error( Error::ValueOutOfRangeInGrammarDef, str);
 		}
 		else
 		{
-- 
2.43.0


From e633fe335cde2492171a330076279d953b0c425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:44 +0000
Subject: [PATCH 50/75] fix: too many productions and too long productions were
 reported with the wrong limit or without their line

---
 src/automaton.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/automaton.cpp b/src/automaton.cpp
index d55125e..7c1337e 100644
--- a/src/automaton.cpp
+++ b/src/automaton.cpp
@@ -1285,7 +1285,7 @@ void Automaton::build( const std::string& source, std::vector<Error>& warnings,
 	// [2] Test complexity boundaries:
 	if (langdef.prodlist.size() >= (std::size_t)MaxNofProductions)
 	{
-		throw Error( Error::ComplexityMaxStateInGrammarDef);
+		throw Error( Error::ComplexityMaxNofProductionsInGrammarDef);
 	}
 	if (langdef.lexer.nofTerminals() >= MaxTerminal)
 	{
@@ -1295,7 +1295,7 @@ void Automaton::build( const std::string& source, std::vector<Error>& warnings,
 	{
 		if (prod.right.size() >= MaxProductionLength)
 		{
-			throw Error( Error::ComplexityMaxProductionLengthInGrammarDef);
+			throw Error( Error::ComplexityMaxProductionLengthInGrammarDef, prod.prodstring(), prod.line);
 		}
 		if (prod.priority.value < 0 || prod.priority.value >= MaxPriority)
 		{
-- 
2.43.0


From 5a61cab444975590fbf7d49a5b1d392c9c8bc471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 51/75] fix: priorities were cut to 16 bits before their range
 was checked

---
 src/automaton_parser.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 0e58159..0e02284 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -107,30 +107,31 @@ static int convertStringToInt( const std::string_view& str)
 
 static Priority convertStringToPriority( const std::string_view& str)
 {
-	Priority rt;
+	Assoziativity assoz = Assoziativity::Undefined;
+	int value = 0;
 	if (str.size() == 0)
 	{
 		throw Error( Error::UnexpectedTokenInGrammarDef, str);
 	}
 	if (str[0] == 'L' || str[0] == 'R')
 	{
-		Assoziativity assoz = str[0] == 'L' ? Assoziativity::Left : Assoziativity::Right;
-		rt = (str.size() == 1) ? Priority( 0, assoz) : Priority( convertStringToInt( str.substr( 1, str.size()-1)), assoz);
+		assoz = str[0] == 'L' ? Assoziativity::Left : Assoziativity::Right;
+		if (str.size() > 1) value = convertStringToInt( str.substr( 1, str.size()-1));
 	}
 	else if (str[str.size()-1] == 'L' || str[str.size()-1] == 'R')
 	{
-		Assoziativity assoz = str[str.size()-1] == 'L' ? Assoziativity::Left : Assoziativity::Right;
-		rt = Priority( convertStringToInt( str.substr( 0, str.size()-1)), assoz);
+		assoz = str[str.size()-1] == 'L' ? Assoziativity::Left : Assoziativity::Right;
+		value = convertStringToInt( str.substr( 0, str.size()-1));
 	}
 	else
 	{
-		rt = Priority( convertStringToInt( str));
+		value = convertStringToInt( str);
 	}
-	if (rt.value >= Automaton::MaxPriority)
+	if (value >= Automaton::MaxPriority)
 	{
 		throw Error( Error::ComplexityMaxProductionPriorityInGrammarDef, str);
 	}
-	return rt;
+	return Priority( value, assoz);
 }
 
 static bool caseInsensitiveEqual( const std::string_view& a, const std::string_view& b)
-- 
2.43.0


From 89bc2f6b6f8d2f0620d5faa673c3e2a11653a36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 52/75] fix: a null byte in a comment was taken as the end of
 the grammar by --generate-language

---
 src/automaton_parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 0e02284..eedeb6d 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -850,12 +850,12 @@ LanguageDecoratorMap mewa::parseLanguageDecoratorMap( const std::string& source)
 		else if (start[0] == '/' && start[1] == '*')
 		{
 			start += 2;
-			char const* end = std::strstr( start, "*/");
-			if (!end)
+			std::size_t size = std::string_view( start, source.c_str() + source.size() - start).find( "*/");
+			if (size == std::string_view::npos)
 			{
-				throw Error( Error::UnexpectedEofInGrammarDef);
+				throw Error( Error::UnexpectedEofInGrammarDef, scanner.line());
 			}
-			comment = splitLines( start, end-start);
+			comment = splitLines( start, size);
 			scanner.next( 2);
 			scanner.scan( "*/");
 		}
-- 
2.43.0


From 57e0b5c8dce0e965fdc367f5abf61b802ee6f6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 53/75] fix: the time of compiling nested constructs was
 quadratic in their depth

---
 src/lua_run_compiler.cpp | 51 ++++++++++------------------------------
 1 file changed, 13 insertions(+), 38 deletions(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index f85f272..ffeb5f7 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -90,45 +90,20 @@ struct State
 	int luastki;			//< Index of first element on the Lua stack
 	int luastkn;			//< Number of elements on the Lua stack
 	int scopecnt;			//< Scope counter on creation
+	int luastknext;			//< Index of the first element on the Lua stack of the next state pushed
 
 	State()
-		:index(0),luastki(0),luastkn(0),scopecnt(0){}
-	State( int index_, int luastki_, int luastkn_, int scopecnt_)
-		:index(index_),luastki(luastki_),luastkn(luastkn_),scopecnt(scopecnt_){}
+		:index(0),luastki(0),luastkn(0),scopecnt(0),luastknext(1){}
+	State( int index_, int luastki_, int luastkn_, int scopecnt_, int luastknext_)
+		:index(index_),luastki(luastki_),luastkn(luastkn_),scopecnt(scopecnt_),luastknext(luastknext_){}
 	State( const State& o)
-		:index(o.index),luastki(o.luastki),luastkn(o.luastkn),scopecnt(o.scopecnt){}
+		:index(o.index),luastki(o.luastki),luastkn(o.luastkn),scopecnt(o.scopecnt),luastknext(o.luastknext){}
 };
 
-static void adjustStateCountersOnStack( std::pmr::vector<State>& stateStack)
+static int getNextLuaStackIndex( const std::pmr::vector<State>& stateStack)
 {
-	int ofs = 0;
-	for (auto elem : stateStack)
-	{
-		if (elem.luastki) {ofs = elem.luastki-1; break;}
-	}
-	if (!ofs) throw mewa::Error( mewa::Error::CompiledSourceTooComplex);
-	for (auto elem : stateStack)
-	{
-		if (elem.luastki) {elem.luastki -= ofs;}
-	}
-}
-
-static int getNextLuaStackIndex( std::pmr::vector<State>& stateStack)
-{
-	int rt = 1;
-	for (auto si = stateStack.rbegin(), se = stateStack.rend(); si != se; ++si)
-	{
-		if (si->luastkn)
-		{
-			rt = si->luastki + si->luastkn;
-			if (rt >= std::numeric_limits<int>::max())
-			{
-				adjustStateCountersOnStack( stateStack);
-				rt = getNextLuaStackIndex( stateStack);
-			}
-			break;
-		}
-	}
+	int rt = stateStack.back().luastknext;
+	if (rt >= std::numeric_limits<int>::max()) throw mewa::Error( mewa::Error::CompiledSourceTooComplex);
 	return rt;
 }
 
@@ -175,7 +150,7 @@ struct CompilerContext
 		:stateStack(memrsc),calltable(calltable_),calltablesize(calltablesize_),scopestep(0),line(0),dbgout(dbgout_)
 	{
 		stateStack.reserve( (buffersize - sizeof stateStack) / sizeof(State));
-		stateStack.push_back( State( 1/*index*/, 0/*luastki*/, 0/*luastkn*/, 0/*scopecnt*/) );
+		stateStack.push_back( State( 1/*index*/, 0/*luastki*/, 0/*luastkn*/, 0/*scopecnt*/, 1/*luastknext*/) );
 	}
 };
 
@@ -431,13 +406,13 @@ static bool feedLexem( lua_State* ls, CompilerContext& ctx, const mewa::Automato
 			if (!automaton.lexer().isKeyword( lexem.id()))
 			{
 				int next_luastki = getNextLuaStackIndex( ctx.stateStack);
-				ctx.stateStack.push_back( State( nexti->second.state(), next_luastki, 1, ctx.scopestep));
+				ctx.stateStack.push_back( State( nexti->second.state(), next_luastki, 1, ctx.scopestep, next_luastki + 1));
 				luaPushLexem( ls, lexem);
 				ctx.line = lexem.line();
 			}
 			else
 			{
-				ctx.stateStack.push_back( State( nexti->second.state(), 0/*luastki*/, 0/*luastkn*/, ctx.scopestep));
+				ctx.stateStack.push_back( State( nexti->second.state(), 0/*luastki*/, 0/*luastkn*/, ctx.scopestep, getNextLuaStackIndex( ctx.stateStack)));
 			}
 			return true;
 
@@ -489,11 +464,11 @@ static bool feedLexem( lua_State* ls, CompilerContext& ctx, const mewa::Automato
 				else if (luaStackNofElements)
 				{
 					int next_luastki = getNextLuaStackIndex( ctx.stateStack);
-					ctx.stateStack.push_back( State( gtoi->second.state(), next_luastki, luaStackNofElements, scopeStart));
+					ctx.stateStack.push_back( State( gtoi->second.state(), next_luastki, luaStackNofElements, scopeStart, next_luastki + luaStackNofElements));
 				}
 				else
 				{
-					ctx.stateStack.push_back( State( gtoi->second.state(), 0/*luastki*/, 0/*luastkn*/, scopeStart));
+					ctx.stateStack.push_back( State( gtoi->second.state(), 0/*luastki*/, 0/*luastkn*/, scopeStart, getNextLuaStackIndex( ctx.stateStack)));
 				}
 				return false;
 			}
-- 
2.43.0


From 94217ecef647ec0f5aecb0343eac64b52d06e6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 54/75] fix: error messages of exactly the size of the buffer
 got a null byte appended

---
 src/lua_run_compiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index ffeb5f7..3993a9e 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -293,7 +293,7 @@ static int lua_pcall_errorhandler( lua_State* ls)
 			{
 				msglen = std::snprintf( msgbuf, sizeof(msgbuf), "%s: %s", ar.short_src, msgstr);
 			}
-			if (msglen > sizeof(msgbuf))
+			if (msglen >= sizeof(msgbuf))
 			{
 				msgbuf[ msglen = sizeof(msgbuf)-1] = 0;
 			}
-- 
2.43.0


From 04cc9dcb020f233c94f7e3c32e4e84a26b08919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:30 +0000
Subject: [PATCH 55/75] fix: the indentation of a line overflowed for large tab
 sizes

---
 src/lexer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 4fe500a..df77cd6 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -14,6 +14,7 @@
 #include "strings.hpp"
 #include "utf8.hpp"
 #include <cstdlib>
+#include <limits>
 
 using namespace mewa;
 
@@ -326,7 +327,8 @@ int Scanner::indentCount( int tabSize) const noexcept
 	char const* si = m_src.data();
 	for (; se != si && *(se-1) != '\n' && (unsigned char)*(se-1) <= 32; --se)
 	{
-		rt += *(se-1)=='\t' ? tabSize : 1;
+		int width = *(se-1)=='\t' ? tabSize : 1;
+		rt = rt > std::numeric_limits<int>::max() - width ? std::numeric_limits<int>::max() : (rt + width);
 	}
 	return (se == si || *(se-1) == '\n') ? rt : -1;
 }
-- 
2.43.0


From b7290c5df97f1c8e87f4bbd207e56a5f458ae8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:14 +0000
Subject: [PATCH 56/75] fix: the location of an error was read from an
 undefined activation record if there was no caller

---
 src/lualib_mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index c526e13..aa6ebb2 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -55,7 +55,7 @@ extern "C" int luaopen_mewa( lua_State* ls);
 static mewa::Error::Location getLuaScriptErrorLocation( lua_State* ls)
 {
 	lua_Debug ar;
-	lua_getstack( ls, 1, &ar);
+	if (!lua_getstack( ls, 1, &ar)) return mewa::Error::Location();	//... no caller, e.g. the function is the body of a coroutine
 	lua_getinfo( ls, "S", &ar);
 	return mewa::Error::Location( ar.short_src, ar.linedefined);
 }
-- 
2.43.0


From 041e0a5f96cdcc67aa3922060cb3b86b6e7838c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:14 +0000
Subject: [PATCH 57/75] fix: typedb:scope changed the scope in case of an error
 in the step argument

---
 src/lualib_mewa.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index aa6ebb2..5a63a4f 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -591,8 +591,9 @@ static int mewa_typedb_scope( lua_State* ls)
 		mewa::Scope::Step rt_step = td->curStep;
 		if (nargs >= 2)
 		{
-			td->curScope = mewa::lua::getArgumentAsScope( functionName, ls, 2);
-			td->curStep = (nargs >= 3) ? mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 3) : (td->curScope.end()-1);
+			mewa::Scope scope = mewa::lua::getArgumentAsScope( functionName, ls, 2);
+			td->curStep = (nargs >= 3) ? mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 3) : (scope.end()-1);
+			td->curScope = scope;
 		}
 		mewa::lua::pushScope( ls, functionName, rt_scope);
 		lua_pushinteger( ls, rt_step);
-- 
2.43.0


From 6c8a7d3e36adecd3e7e358804ba4a976f8fb4e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:25 +0000
Subject: [PATCH 58/75] fix: the step set with the scope {0,0} was negative and
 could not be restored

---
 src/lualib_mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 5a63a4f..759a6b2 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -592,7 +592,7 @@ static int mewa_typedb_scope( lua_State* ls)
 		if (nargs >= 2)
 		{
 			mewa::Scope scope = mewa::lua::getArgumentAsScope( functionName, ls, 2);
-			td->curStep = (nargs >= 3) ? mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 3) : (scope.end()-1);
+			td->curStep = (nargs >= 3) ? mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 3) : (scope.end() > 0 ? scope.end()-1 : 0);
 			td->curScope = scope;
 		}
 		mewa::lua::pushScope( ls, functionName, rt_scope);
-- 
2.43.0


From e53b609369d30600d5d1ce0fdf9340332ff0d103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:59 +0000
Subject: [PATCH 59/75] fix: defining types got slower with each type after the
 first million as all of them were copied each time

---
 src/typedb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index 50042b8..f3747ef 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -213,7 +213,7 @@ int TypeDatabase::defineType( const Scope& scope, int contextType, const std::st
 	if (constructor < 0) throw Error( Error::InvalidHandle, string_format( "%d", constructor));
 	if (contextType < 0 || contextType > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", contextType));
 
-	m_typerecMap.reserve( m_typerecMap.size()+1);
+	if (m_typerecMap.size() == m_typerecMap.capacity()) m_typerecMap.reserve( m_typerecMap.size()*2+1);
 
 	int parameterlen = parameter.size();
 	int parameteridx;
-- 
2.43.0


From fd58eb4048dd1468312fb9cc78bd4aed603c8d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:11 +0000
Subject: [PATCH 60/75] fix: types with parameters that are not defined were
 accepted, type_string crashed if a type contained itself

---
 src/typedb.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index f3747ef..21de5d8 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -213,6 +213,10 @@ int TypeDatabase::defineType( const Scope& scope, int contextType, const std::st
 	if (constructor < 0) throw Error( Error::InvalidHandle, string_format( "%d", constructor));
 	if (contextType < 0 || contextType > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", contextType));
 
+	for (auto const& param : parameter)
+	{
+		if (param.type < 0 || param.type > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", param.type));
+	}
 	if (m_typerecMap.size() == m_typerecMap.capacity()) m_typerecMap.reserve( m_typerecMap.size()*2+1);
 
 	int parameterlen = parameter.size();
-- 
2.43.0


From ca5e04bc69ab32b315f9ea65577b506a9c1853a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:54 +0000
Subject: [PATCH 61/75] fix: type_string crashed on deeply nested types

---
 src/typedb.cpp | 54 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index 21de5d8..a130b9a 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -24,25 +24,47 @@ using namespace mewa;
 
 void TypeDatabase::appendTypeToString( std::pmr::string& res, int type, const char* sep) const
 {
-	if (type == 0) return;
-	if (type < 0 || type > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle);
-
-	const TypeRecord& rec = m_typerecMap[ type-1];
-	if (rec.inv.contextType)
+	// [1] Element still to print, either a text or the type if the text is not defined:
+	struct Element
 	{
-		appendTypeToString( res, rec.inv.contextType, sep);
-		res.append( sep);
-	}
-	res.append( m_identMap->inv( rec.inv.ident));
-	if (rec.parameterlen)
-	{
-		res.push_back( '(');
-		for (int pi = 0; pi < rec.parameterlen; ++pi)
+		std::string_view text;
+		int type;
+		bool isText;
+
+		Element( int type_) noexcept			:text(),type(type_),isText(false){}
+		Element( const std::string_view& text_) noexcept	:text(text_),type(0),isText(true){}
+	};
+	// [2] Print with a stack in reverse order instead of a recursion as types can be nested in any depth:
+	std::vector<Element> stk;
+	stk.push_back( type);
+	while (!stk.empty())
+	{
+		Element elem = stk.back();
+		stk.pop_back();
+		if (elem.isText)
+		{
+			res.append( elem.text);
+			continue;
+		}
+		if (elem.type == 0) continue;
+		if (elem.type < 0 || elem.type > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle);
+
+		const TypeRecord& rec = m_typerecMap[ elem.type-1];
+		if (rec.parameterlen)
+		{
+			stk.push_back( std::string_view( ")"));
+			for (int pi = rec.parameterlen-1; pi >= 0; --pi)
+			{
+				stk.push_back( m_parameterMap[ rec.parameter + pi -1].type);
+				stk.push_back( std::string_view( pi ? "," : "("));
+			}
+		}
+		stk.push_back( m_identMap->inv( rec.inv.ident));
+		if (rec.inv.contextType)
 		{
-			if (pi) res.push_back( ','); 
-			appendTypeToString( res, m_parameterMap[ rec.parameter + pi -1].type, sep);
+			stk.push_back( std::string_view( sep));
+			stk.push_back( rec.inv.contextType);
 		}
-		res.push_back( ')');
 	}
 }
 
-- 
2.43.0


From 2ab8b97fce8c48ae9058b79f8b54536bccdf0ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:22 +0000
Subject: [PATCH 62/75] fix: lists with gaps were accepted and filled up with
 undefined elements, an element with a big index exhausted the memory

---
 src/lua_parameter.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 2a28b14..14a1a7d 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -176,6 +176,21 @@ static int getTableIndex( lua_State* ls, int li)
 	}
 }
 
+/// \brief Get the number of elements of a table, the biggest index allowed in a list without gaps
+static int getTableSize( lua_State* ls, int li)
+{
+	int rt = 0;
+	lua_pushvalue( ls, li);
+	lua_pushnil( ls);
+	while (lua_next( ls, -2))
+	{
+		++rt;
+		lua_pop( ls, 1);
+	}
+	lua_pop( ls, 1);
+	return rt;
+}
+
 /// \brief Get a type handle as value in a table, -1 if it cannot be one
 static int getTableValueAsType( lua_State* ls, int li)
 {
@@ -320,6 +335,7 @@ std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair>
 	std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair> rt( memrsc);
 	if (lua_isnil( ls, li)) return rt;
 	checkArgumentAsTable( functionName, ls, li);
+	int size = getTableSize( ls, li);
 
 	lua_pushvalue( ls, li);
 	lua_pushnil( ls);								//STK: [PARAMTAB] NIL
@@ -328,7 +344,7 @@ std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair>
 		if (lua_type( ls, -2) == LUA_TNUMBER)
 		{
 			int kidx = getTableIndex( ls, -2);
-			if (!kidx) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentTypeConstructorPairList);
+			if (!kidx || kidx > size) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentTypeConstructorPairList);
 
 			std::size_t index = kidx-1;
 			if (index == rt.size())
@@ -359,6 +375,7 @@ std::vector<std::string> mewa::lua::getArgumentAsStringList( const char* functio
 	std::vector<std::string> rt;
 	if (lua_isnil( ls, li)) return rt;
 	checkArgumentAsTable( functionName, ls, li);
+	int size = getTableSize( ls, li);
 
 	lua_pushvalue( ls, li);
 	lua_pushnil( ls);		//STK: [STRLIST] NIL
@@ -367,7 +384,7 @@ std::vector<std::string> mewa::lua::getArgumentAsStringList( const char* functio
 		if (lua_type( ls, -2) == LUA_TNUMBER && lua_type( ls, -1) == LUA_TSTRING)
 		{
 			int kidx = getTableIndex( ls, -2);
-			if (!kidx) throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentStringList);
+			if (!kidx || kidx > size) throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentStringList);
 			while (kidx > (int)rt.size())
 			{
 				rt.push_back( std::string());
@@ -415,6 +432,7 @@ std::pmr::vector<int> mewa::lua::getArgumentAsTypeList(
 	std::pmr::vector<int> rt( memrsc);
 	if (lua_isnil( ls, li)) return rt;
 	checkArgumentAsTable( functionName, ls, li);
+	int size = getTableSize( ls, li);
 
 	lua_pushvalue( ls, li);
 	lua_pushnil( ls);		//STK: [PARAMTAB] NIL
@@ -423,7 +441,7 @@ std::pmr::vector<int> mewa::lua::getArgumentAsTypeList(
 		if (lua_type( ls, -2) == LUA_TNUMBER)
 		{
 			int kidx = getTableIndex( ls, -2);
-			if (!kidx) mewa::lua::throwArgumentError(
+			if (!kidx || kidx > size) mewa::lua::throwArgumentError(
 					functionName, li, allowTypeConstructorPairs
 								? mewa::Error::ExpectedArgumentTypeList
 								: mewa::Error::ExpectedArgumentTypeOrTypeConstructorPairList);
-- 
2.43.0


From f47bc1723bc85fb2ab3a02761669730ce36f0091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:22 +0000
Subject: [PATCH 63/75] fix: values that are no types were accepted as types in
 lists of type constructor pairs

---
 src/lua_parameter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 14a1a7d..a92a4b1 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -194,8 +194,9 @@ static int getTableSize( lua_State* ls, int li)
 /// \brief Get a type handle as value in a table, -1 if it cannot be one
 static int getTableValueAsType( lua_State* ls, int li)
 {
+	if (!lua_isnumber( ls, li)) return -1;
 	double val = lua_tonumber( ls, li);
-	return (val >= 0.0 && val <= std::numeric_limits<int>::max()) ? (int)val : -1;
+	return (val >= 0.0 && val <= std::numeric_limits<int>::max() && val == std::floor( val)) ? (int)val : -1;
 }
 
 mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State* ls, int li)
-- 
2.43.0


From 78aa0e586b2c720b40802a261884434ac5ac1172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:48 +0000
Subject: [PATCH 64/75] fix: finalized compilers and type databases used in
 other finalizers crashed, failing definitions of compilers leaked

---
 src/lua_userdata.hpp | 17 +++++++--
 src/lualib_mewa.cpp  | 89 +++++++++++++++++++++++++++++---------------
 2 files changed, 73 insertions(+), 33 deletions(-)

diff --git a/src/lua_userdata.hpp b/src/lua_userdata.hpp
index ac5ce22..1a3e60f 100644
--- a/src/lua_userdata.hpp
+++ b/src/lua_userdata.hpp
@@ -70,12 +70,19 @@ struct mewa_compiler_userdata_t
 	FILE* debugFileHandle;
 	typedef std::map<std::string,std::string> OutputSectionMap;
 	OutputSectionMap outputSectionMap;
+	int nofRuns;			//< number of runs active (nested)
+	bool callTableDefined;		//< true, if the table with the functions called has been assigned to the global variable with the name callTableName
+	bool alive;			//< true, if not destroyed yet
 
 	void init()
 	{
+		nofRuns = 0;
+		callTableDefined = false;
+		alive = false;
 		debugFileHandle = nullptr;
 		new (&automaton) mewa::Automaton();
 		new (&outputSectionMap) OutputSectionMap();
+		alive = true;
 		callTableName.init();
 	}
 	void closeOutput() noexcept
@@ -84,9 +91,13 @@ struct mewa_compiler_userdata_t
 	}
 	void destroy( lua_State* ls) noexcept
 	{
-		lua_pushnil( ls);
-		lua_setglobal( ls, callTableName.buf);
-
+		if (!alive) return;
+		if (callTableDefined)
+		{
+			lua_pushnil( ls);
+			lua_setglobal( ls, callTableName.buf);
+		}
+		alive = false;
 		closeOutput();
 		automaton.~Automaton();
 		outputSectionMap.~OutputSectionMap();
diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 759a6b2..f3bebfe 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -101,6 +101,30 @@ static void lippincottFunction( lua_State* ls)
 	}
 }
 
+/// \brief Get the compiler passed as argument, also a finalized one can be accessed, e.g. in another finalizer
+static mewa_compiler_userdata_t* getCompilerArgument( const char* functionName, lua_State* ls, int li)
+{
+	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)luaL_checkudata( ls, li, mewa_compiler_userdata_t::metatableName());
+	if (!cp->alive)
+	{
+		mewa::Error err( mewa::Error::LuaInvalidUserData, functionName);
+		luaL_error( ls, "%s", err.what());
+	}
+	return cp;
+}
+
+/// \brief Get the type database passed as argument, also a finalized one can be accessed, e.g. in another finalizer
+static mewa_typedb_userdata_t* getTypedbArgument( const char* functionName, lua_State* ls, int li)
+{
+	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, li, mewa_typedb_userdata_t::metatableName());
+	if (!td->impl)
+	{
+		mewa::Error err( mewa::Error::LuaInvalidUserData, functionName);
+		luaL_error( ls, "%s", err.what());
+	}
+	return td;
+}
+
 static int destroy_memblock( lua_State* ls)
 {
 	memblock_userdata_t* mb = (memblock_userdata_t*)luaL_checkudata( ls, 1, mewa::MemoryBlock::metatablename());
@@ -189,7 +213,7 @@ static int lua_print_section_redirected( lua_State* ls)
 {
 	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)lua_touserdata(ls, lua_upvalueindex(1));
 	[[maybe_unused]] static const char* functionName = "mewa print section redirected";
-	if (!cp)
+	if (!cp || !cp->alive)
 	{
 		mewa::Error err( mewa::Error::LuaInvalidUserData, functionName);
 		luaL_error( ls, "%s", err.what());
@@ -207,7 +231,7 @@ static int lua_print_section_redirected( lua_State* ls)
 static int lua_print_redirected( lua_State* ls) {
 	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)lua_touserdata(ls, lua_upvalueindex(1));
 	[[maybe_unused]] static const char* functionName = "mewa print redirected";
-	if (!cp)
+	if (!cp || !cp->alive)
 	{
 		mewa::Error err( mewa::Error::LuaInvalidUserData, functionName);
 		luaL_error( ls, "%s", err.what());
@@ -224,7 +248,7 @@ static int lua_print_redirected( lua_State* ls) {
 static int lua_debug_redirected( lua_State* ls) {
 	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)lua_touserdata(ls, lua_upvalueindex(1));
 	[[maybe_unused]] static const char* functionName = "mewa print redirected";
-	if (!cp)
+	if (!cp || !cp->alive)
 	{
 		mewa::Error err( mewa::Error::LuaInvalidUserData, functionName);
 		luaL_error( ls, "%s", err.what());
@@ -336,17 +360,19 @@ static int mewa_new_compiler( lua_State* ls)
 	}
 	catch (...) { lippincottFunction( ls); }
 
+	luaL_getmetatable( ls, mewa_compiler_userdata_t::metatableName());
+	lua_setmetatable( ls, -2);
+
 	lua_pushliteral( ls, "call");
 	lua_gettable( ls, 1);
 	lua_setglobal( ls, cp->callTableName.buf);
+	cp->callTableDefined = true;
 	try
 	{
-		new (&cp->automaton) mewa::Automaton( mewa::luaLoadAutomaton( ls, 1));
+		cp->automaton = mewa::luaLoadAutomaton( ls, 1);
 	}
 	catch (...) { lippincottFunction( ls); }
 
-	luaL_getmetatable( ls, mewa_compiler_userdata_t::metatableName());
-	lua_setmetatable( ls, -2);
 	return 1;
 }
 
@@ -358,6 +384,7 @@ static int mewa_destroy_compiler( lua_State* ls)
 	try
 	{
 		mewa::lua::checkNofArguments( functionName, ls, 1/*minNofArgs*/, 1/*maxNofArgs*/);
+		if (cp->nofRuns) throw mewa::Error( mewa::Error::LuaInvalidUserData, functionName); //... called explicitly during a run
 	}
 	catch (...) { lippincottFunction( ls); }
 
@@ -368,7 +395,7 @@ static int mewa_destroy_compiler( lua_State* ls)
 static int mewa_compiler_tostring( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "compiler:__tostring";
-	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)luaL_checkudata( ls, 1, mewa_compiler_userdata_t::metatableName());
+	mewa_compiler_userdata_t* cp = getCompilerArgument( functionName, ls, 1);
 	try
 	{
 		mewa::lua::checkNofArguments( functionName, ls, 1/*minNofArgs*/, 1/*maxNofArgs*/);
@@ -413,9 +440,11 @@ public:
 	{
 		m_cp->debugFileHandle = nullptr;
 		m_cp->outputSectionMap.swap( m_outputSectionMap);
+		++m_cp->nofRuns;
 	}
 	~CompilerOutputScope()
 	{
+		--m_cp->nofRuns;
 		m_cp->closeOutput();
 		m_cp->debugFileHandle = m_debugFileHandle;
 		m_cp->outputSectionMap.swap( m_outputSectionMap);
@@ -464,7 +493,7 @@ private:
 static int mewa_compiler_run( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "compiler:run( target, options, inputfile, [,outputfile [,dbgoutput]])";
-	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)luaL_checkudata( ls, 1, mewa_compiler_userdata_t::metatableName());
+	mewa_compiler_userdata_t* cp = getCompilerArgument( functionName, ls, 1);
 	try
 	{
 		int nargs = mewa::lua::checkNofArguments( functionName, ls, 4/*minNofArgs*/, 6/*maxNofArgs*/);
@@ -582,7 +611,7 @@ static int mewa_destroy_typedb( lua_State* ls)
 static int mewa_typedb_scope( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:scope";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 	try
 	{
 		int nargs = mewa::lua::checkNofArguments( functionName, ls, 1/*minNofArgs*/, 3/*maxNofArgs*/);
@@ -605,7 +634,7 @@ static int mewa_typedb_scope( lua_State* ls)
 static int mewa_typedb_step( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:step";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 	try
 	{
 		int nargs = mewa::lua::checkNofArguments( functionName, ls, 1/*minNofArgs*/, 2/*maxNofArgs*/);
@@ -624,7 +653,7 @@ static int mewa_typedb_step( lua_State* ls)
 static int mewa_typedb_this_instance( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:this_instance";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 	int handle = -1;
 	try
 	{
@@ -650,7 +679,7 @@ static int mewa_typedb_this_instance( lua_State* ls)
 static int mewa_typedb_get_instance( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:get_instance";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 	int handle = -1;
 	try
 	{
@@ -676,7 +705,7 @@ static int mewa_typedb_get_instance( lua_State* ls)
 static int mewa_typedb_set_instance( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:set_instance";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 
 	std::string_view name;
 	try
@@ -726,7 +755,7 @@ static int mewa_typedb_reduction_tagmask( lua_State* ls)
 static int mewa_typedb_def_type( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:def_type";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 
 	int buffer_parameter[ 1024];
 	mewa::monotonic_buffer_resource memrsc_parameter( buffer_parameter, sizeof buffer_parameter);
@@ -750,7 +779,7 @@ static int mewa_typedb_def_type( lua_State* ls)
 static int mewa_typedb_def_type_as( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:def_type_as";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 
 	int buffer_parameter[ 1024];
 	mewa::monotonic_buffer_resource memrsc_parameter( buffer_parameter, sizeof buffer_parameter);
@@ -771,7 +800,7 @@ static int mewa_typedb_def_type_as( lua_State* ls)
 static int mewa_typedb_this_type( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:this_type";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 
 	int buffer_parameter[ 1024];
 	mewa::monotonic_buffer_resource memrsc_parameter( buffer_parameter, sizeof buffer_parameter);
@@ -794,7 +823,7 @@ static int mewa_typedb_this_type( lua_State* ls)
 static int mewa_typedb_this_types( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:this_types";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 
 	int buffer_parameter[ 1024];
 	mewa::monotonic_buffer_resource memrsc_parameter( buffer_parameter, sizeof buffer_parameter);
@@ -826,7 +855,7 @@ static int mewa_typedb_get_types( lua_State* ls)
 static int mewa_typedb_def_reduction( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:def_reduction";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 	try
 	{
 		int nargs = mewa::lua::checkNofArguments( functionName, ls, 5/*minNofArgs*/, 6/*maxNofArgs*/);
@@ -845,7 +874,7 @@ static int mewa_typedb_def_reduction( lua_State* ls)
 static int mewa_typedb_get_reduction( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:get_reduction";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 	try
 	{
 		int nargs = mewa::lua::checkNofArguments( functionName, ls, 3/*minNofArgs*/, 4/*maxNofArgs*/);
@@ -868,7 +897,7 @@ static int mewa_typedb_get_reduction( lua_State* ls)
 static int mewa_typedb_get_reductions( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:get_reductions";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 	try
 	{
 		int nargs = mewa::lua::checkNofArguments( functionName, ls, 2/*minNofArgs*/, 4/*maxNofArgs*/);
@@ -888,7 +917,7 @@ static int mewa_typedb_get_reductions( lua_State* ls)
 static int mewa_typedb_derive_type( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:derive_type";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 	try
 	{
 		int nargs = mewa::lua::checkNofArguments( functionName, ls, 3/*minNofArgs*/, 6/*maxNofArgs*/);
@@ -926,7 +955,7 @@ static int mewa_typedb_derive_type( lua_State* ls)
 static int mewa_typedb_resolve_type( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:resolve_type";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 	try
 	{
 		int nargs = mewa::lua::checkNofArguments( functionName, ls, 3/*minNofArgs*/, 4/*maxNofArgs*/);
@@ -959,7 +988,7 @@ static int mewa_typedb_resolve_type( lua_State* ls)
 static int mewa_typedb_type_name( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:type_name";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 	try
 	{
 		mewa::lua::checkNofArguments( functionName, ls, 2/*minNofArgs*/, 2/*maxNofArgs*/);
@@ -976,7 +1005,7 @@ static int mewa_typedb_type_name( lua_State* ls)
 static int mewa_typedb_type_string( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:type_string";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 	try
 	{
 		int nargs = mewa::lua::checkNofArguments( functionName, ls, 2/*minNofArgs*/, 3/*maxNofArgs*/);
@@ -995,7 +1024,7 @@ static int mewa_typedb_type_string( lua_State* ls)
 static int mewa_typedb_type_context( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:type_context";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 	try
 	{
 		mewa::lua::checkNofArguments( functionName, ls, 2/*minNofArgs*/, 2/*maxNofArgs*/);
@@ -1012,7 +1041,7 @@ static int mewa_typedb_type_context( lua_State* ls)
 static int mewa_typedb_type_parameters( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:type_parameters";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 	try
 	{
 		mewa::lua::checkNofArguments( functionName, ls, 2/*minNofArgs*/, 2/*maxNofArgs*/);
@@ -1028,7 +1057,7 @@ static int mewa_typedb_type_parameters( lua_State* ls)
 static int mewa_typedb_type_nof_parameters( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:type_nof_parameters";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 	try
 	{
 		mewa::lua::checkNofArguments( functionName, ls, 2/*minNofArgs*/, 2/*maxNofArgs*/);
@@ -1044,7 +1073,7 @@ static int mewa_typedb_type_nof_parameters( lua_State* ls)
 static int mewa_typedb_type_constructor( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:type_constructor";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 	try
 	{
 		mewa::lua::checkNofArguments( functionName, ls, 2/*minNofArgs*/, 2/*maxNofArgs*/);
@@ -1060,7 +1089,7 @@ static int mewa_typedb_type_constructor( lua_State* ls)
 static int mewa_typedb_type_scope( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "typedb:type_scope";
-	mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+	mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 	try
 	{
 		mewa::lua::checkNofArguments( functionName, ls, 2/*minNofArgs*/, 2/*maxNofArgs*/);
@@ -1157,7 +1186,7 @@ struct LuaTreeMetaMethods
 	static int create( lua_State* ls)
 	{
 		[[maybe_unused]] static const char* functionName = "typedb:*_tree";
-		mewa_typedb_userdata_t* td = (mewa_typedb_userdata_t*)luaL_checkudata( ls, 1, mewa_typedb_userdata_t::metatableName());
+		mewa_typedb_userdata_t* td = getTypedbArgument( functionName, ls, 1);
 		try
 		{
 			constexpr int nargs = tree_nof_args<UD>();
-- 
2.43.0


From c8f32e6bbc43f95559a630776d81fcc803161aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 65/75] fix: a type whose definition failed because of its
 scope was left as type without a name bound to it

---
 src/typedb.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index a130b9a..48ebb06 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -256,7 +256,18 @@ int TypeDatabase::defineType( const Scope& scope, int contextType, const std::st
 	TypeDef typeDef( contextType, m_identMap->get( name));
 	m_typerecMap.push_back( TypeRecord( constructor, scope, parameteridx, parameterlen, typeDef));
 
-	int prev_typerec = m_typeTable->getOrSet( scope, typeDef, typerec);
+	int prev_typerec;
+	try
+	{
+		prev_typerec = m_typeTable->getOrSet( scope, typeDef, typerec);
+	}
+	catch (...)
+	{
+		// ... not defined, e.g. because of an invalid scope
+		m_typerecMap.pop_back();
+		m_parameterMap.erase( m_parameterMap.end() - parameterlen, m_parameterMap.end());
+		throw;
+	}
 	if (prev_typerec/*already exists*/)
 	{
 		// Check if there is a conflict, and find the end of the single linked list (-> lastListIndex):
-- 
2.43.0


From adcd4a5ec77fd4186b571f47841cbe4722ae9da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 66/75] fix: undefined shift when the type of a missing
 argument was tested

---
 src/lua_parameter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lua_parameter.hpp b/src/lua_parameter.hpp
index 07eb343..7ee60e7 100644
--- a/src/lua_parameter.hpp
+++ b/src/lua_parameter.hpp
@@ -34,7 +34,8 @@ int checkNofArguments( const char* functionName, lua_State* ls, int minNofArgs,
 
 inline bool isArgumentType( const char* functionName, lua_State* ls, int li, int luaTypeMask)
 {
-	return (((1U << lua_type( ls, li)) & luaTypeMask) != 0);
+	int type = lua_type( ls, li);
+	return type >= 0/*not LUA_TNONE*/ && (((1U << type) & luaTypeMask) != 0);
 }
 
 std::string_view getArgumentAsString( const char* functionName, lua_State* ls, int li);
-- 
2.43.0


From 87a89ec023d20e1cccedb7c2fcf974ca071d2128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 67/75] fix: a token that is not a table in the definition of a
 compiler crashed the loader

---
 src/lua_load_automaton.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index 1cbb8cf..8d2e9fb 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -221,6 +221,11 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 					throw mewa::Error( mewa::Error::BadKeyInGeneratedLuaTable,
 								mewa::string_format( "table '%s/%s', row %d col %d", tableName, keystr, rowcnt, colcnt));
 				}
+				if (!lua_istable( ls, -1))
+				{
+					throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable,
+								mewa::string_format( "table '%s/%s', row %d", tableName, keystr, rowcnt));
+				}
 				auto arg = parseStringArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr));
 				if (arg.size() > 3 || arg.empty())
 				{
-- 
2.43.0


From 72110dc8bac132df87359c36029ab3e2b742454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 68/75] fix: mewa.stacktrace read out of bounds for main
 chunks, failed for code not loaded from a file and for long paths

---
 src/lua_parameter.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index a92a4b1..15f7c95 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -717,25 +717,32 @@ void mewa::lua::pushStackTrace( lua_State* ls, const char* functionName, int nn,
 			lua_pushinteger( ls, ar.linedefined);				// STK: [STKTR] [ELEM] "line" [LINE]
 			lua_rawset( ls, -3);						// STK: [STKTR] [ELEM]
 		}
+		bool isFile = ar.source[0] == '@';
+		char const* filename = isFile ? ar.source + 1 : ar.short_src;
 		lua_pushliteral( ls, "file");						// STK: [STKTR] [ELEM] "file"
-		lua_pushstring( ls, ar.short_src);					// STK: [STKTR] [ELEM] "file" [FILENAME]
+		lua_pushstring( ls, filename);						// STK: [STKTR] [ELEM] "file" [FILENAME]
 		lua_rawset( ls, -3);							// STK: [STKTR] [ELEM]
-		auto fi = locationMap.find( ar.short_src);
+		auto fi = locationMap.find( filename);
 		if (fi == locationMap.end())
 		{
-			auto ins = locationMap.insert( {ar.short_src, mewa::readFileLines( ar.short_src)} );
-			fi = ins.first;
+			std::vector<std::string> lines;
+			try
+			{
+				if (isFile) lines = mewa::readFileLines( filename);
+			}
+			catch (const mewa::Error&) {}	//... source not available, no function names
+			fi = locationMap.insert( {filename, std::move(lines)} ).first;
 		}
-		if ((int)fi->second.size() >= ar.linedefined)
+		if (ar.linedefined >= 1 && (int)fi->second.size() >= ar.linedefined)
 		{
 			char const* ln = fi->second[ ar.linedefined-1].c_str();
 			for (; *ln && (unsigned char)*ln <= 32; ++ln){}
-			if (0==std::memcmp( ln, "function ", 8)) ln += 8;
+			if (0==std::strncmp( ln, "function ", 9)) ln += 9;
 			for (; *ln && (unsigned char)*ln <= 32; ++ln){}
 			char const* le = std::strchr( ln, '(');
 			if (!le) le = std::strchr( ln, '\0');
 			std::string funcstr( ln, le-ln);
-			for (auto ignore : ignoreList)
+			for (auto const& ignore : ignoreList)
 			{
 				const char* si = std::strstr( funcstr.c_str(), ignore.c_str());
 				do_ignore |= (!!si);
@@ -744,10 +751,6 @@ void mewa::lua::pushStackTrace( lua_State* ls, const char* functionName, int nn,
 			lua_pushlstring( ls, ln, le-ln);				// STK: [STKTR] [ELEM] "function" [FUNCNAME]
 			lua_rawset( ls, -3);						// STK: [STKTR] [ELEM]
 		}
-		else
-		{
-			throw mewa::Error( mewa::Error::LogicError, string_format( "%s line %d", __FILE__, (int)__LINE__));
-		}
 		if (do_ignore)
 		{
 			lua_pop( ls, 1);
-- 
2.43.0


From e767f0b45183436c92b97401764817e68d676b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:47 +0000
Subject: [PATCH 69/75] fix: inconsistent tables in the definition of a
 compiler crashed the loader or the debug output of the compiler

---
 src/lua_load_automaton.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index 8d2e9fb..3d096ee 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -227,7 +227,7 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 								mewa::string_format( "table '%s/%s', row %d", tableName, keystr, rowcnt));
 				}
 				auto arg = parseStringArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr));
-				if (arg.size() > 3 || arg.empty())
+				if (arg.size() > 3 || arg.size() < 2)
 				{
 					throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable,
 								mewa::string_format( "table '%s/%s', row %d", tableName, keystr, rowcnt));
@@ -514,6 +514,15 @@ mewa::Automaton mewa::luaLoadAutomaton( lua_State *ls, int li)
 	{
 		throw mewa::Error( mewa::Error::MissingMewaVersion);
 	}
+	for (auto const& action : actions)
+	{
+		if (action.second.type() == mewa::Automaton::Action::Shift) continue;
+		if (action.second.nonterminal() <= 0 || action.second.nonterminal() > (int)nonterminals.size()
+		||  action.second.call() < 0 || action.second.call() > (int)calls.size())
+		{
+			throw mewa::Error( mewa::Error::LanguageAutomatonCorrupted);
+		}
+	}
 	return mewa::Automaton( version, language, typesystem, cmdline, lexer, actions, gotos, calls, nonterminals);
 }
 
-- 
2.43.0


From bc404613ef659d455e6e6154d93ae44d6ea5b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:46 +0000
Subject: [PATCH 70/75] fix: token and state numbers out of range in the
 definition of a compiler crashed the lexer or the printing of tables

---
 src/lua_load_automaton.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index 3d096ee..3ac517a 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -47,7 +47,7 @@ static std::map<KEY,VAL> parsePackedTable( lua_State *ls, int li, const char* ta
 	{
 		++rowcnt;
 		int packedkey = lua_tointeger( ls, -2);
-		if (packedkey <= 0)
+		if (packedkey <= 0 || (packedkey >> mewa::Automaton::ShiftTerminal)/*state*/ >= mewa::Automaton::MaxState)
 		{
 			throw mewa::Error( mewa::Error::BadKeyInGeneratedLuaTable, mewa::string_format( "table '%s', row %d", tableName, rowcnt));
 		}
@@ -141,6 +141,7 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 	//     and apply the definitions at the end of parsing, because in a lua map they can appear in any order.
 	std::vector<std::string> ignores;
 	// ... the same for the patterns ignored, a token of the same length is preferred
+	std::vector<int> indentLexems;
 	int rowcnt = 0;
 
 	lua_pushvalue( ls, li);
@@ -258,13 +259,12 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 		}
 		else if (0==std::strcmp( keystr, "indentl"))
 		{
-			auto indentLexems = parseIntegerArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr));
+			indentLexems = parseIntegerArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr));
 			if (indentLexems.size() != 2)
 			{
 				throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable,
 							mewa::string_format( "table '%s/%s'", tableName, keystr));
 			}
-			rt.setIndentLexems( {0/*no line*/,indentLexems[0]+0,indentLexems[0]+1,indentLexems[0]+2,indentLexems[1]} );
 		}
 		lua_pop( ls, 1);
 	}
@@ -277,6 +277,14 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 	{
 		rt.defineLexem( keyword);
 	}
+	if (!indentLexems.empty())
+	{
+		if (indentLexems[0] < 1 || indentLexems[0] > rt.nofTerminals() - 2)
+		{
+			throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, mewa::string_format( "table '%s/indentl'", tableName));
+		}
+		rt.setIndentLexems( {0/*no line*/,indentLexems[0]+0,indentLexems[0]+1,indentLexems[0]+2,indentLexems[1]} );
+	}
 	return rt;
 }
 
-- 
2.43.0


From e04ac04987d09e6db26f112bc0a04e63dc1103ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 71/75] fix: overflow of a number in the lexer definition of a
 compiler definition

---
 src/lua_load_automaton.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index 3ac517a..87e9087 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -20,6 +20,7 @@
 #include <cstring>
 #include <cstdio>
 #include <cmath>
+#include <limits>
 #include <string>
 #include <vector>
 #include <map>
@@ -127,6 +128,10 @@ static int string2int( const std::string& value)
 	char const* si = value.c_str();
 	for (; *si >= '0' && *si <= '9'; ++si)
 	{
+		if (rt > (std::numeric_limits<int>::max() - (*si - '0')) / 10)
+		{
+			throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, value);
+		}
 		rt = rt * 10 + (*si - '0');
 	}
 	if (*si) throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, value);
-- 
2.43.0


From 7626cd847b039611f5a3f17cfb6e5b90ca2f51d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:00 +0000
Subject: [PATCH 72/75] fix: data races between Lua states used by different
 threads on the counter for call table names and the flags for deprecated
 functions

---
 src/lua_userdata.hpp | 3 ++-
 src/lualib_mewa.cpp  | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lua_userdata.hpp b/src/lua_userdata.hpp
index 1a3e60f..09c9e5e 100644
--- a/src/lua_userdata.hpp
+++ b/src/lua_userdata.hpp
@@ -19,6 +19,7 @@
 #include "strings.hpp"
 #include <string>
 #include <string_view>
+#include <atomic>
 #include <cstdio>
 extern "C" {
 #include <lua.h>
@@ -56,7 +57,7 @@ struct CallTableName :public TableName
 {
 	void init()
 	{
-		static int tableIdx = 0;
+		static std::atomic<int> tableIdx( 0); //... shared by all Lua states, they may run in different threads
 		TableName::init( MEWA_COMPILER_METATABLE_NAME, MEWA_CALLTABLE_FMT, ++tableIdx);
 	}
 };
diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index f3bebfe..312acf2 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -36,10 +36,11 @@
 #include <iostream>
 #include <fstream>
 #include <limits>
+#include <atomic>
 #include <inttypes.h>
 
-static int g_called_deprecated_get_type = 0;	//< Counter for calls of deprecated function typedb:get_type
-static int g_called_deprecated_get_types = 0;	//< Counter for calls of deprecated function typedb:get_types
+static std::atomic<bool> g_called_deprecated_get_type( false);	//< True, if the deprecated function typedb:get_type has been called
+static std::atomic<bool> g_called_deprecated_get_types( false);	//< True, if the deprecated function typedb:get_types has been called
 
 extern "C" {
 #include <lua.h>
@@ -843,12 +844,12 @@ static int mewa_typedb_this_types( lua_State* ls)
 
 static int mewa_typedb_get_type( lua_State* ls)
 {
-	++g_called_deprecated_get_type;
+	g_called_deprecated_get_type = true;
 	return mewa_typedb_this_type( ls);
 }
 static int mewa_typedb_get_types( lua_State* ls)
 {
-	++g_called_deprecated_get_types;
+	g_called_deprecated_get_types = true;
 	return mewa_typedb_this_types( ls);
 }
 
-- 
2.43.0


From 27106d4c189875eb3f8a046482fb8c34fdaa4b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:22 +0000
Subject: [PATCH 73/75] fix: incomplete UTF-8 character at the end of a token
 pattern was skipped beyond the end of the pattern

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index df77cd6..eece931 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -60,7 +60,7 @@ static char parseFirstChar( char const*& si, bool allowNonAscii)
 		{
 			throw Error( Error::IllegalFirstCharacterInLexer, parseChar(si));
 		}
-		si += len;
+		for (++si; --len > 0 && utf8mid( *si); ++si){} //... not beyond the end if the character is incomplete
 		return rt;
 	}
 }
-- 
2.43.0


From d462a9ac64895c17e11989e37393b135a8f80ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:16 +0000
Subject: [PATCH 74/75] fix: an error raised without message by a function
 called in a run led to an empty error message

---
 src/lua_run_compiler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index 3993a9e..6507619 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -369,8 +369,8 @@ static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbg
 		if (rc)
 		{
 			const char* msg = lua_tostring( ls, -1);
-			mewa::Error err = mewa::Error::parseError( msg);
-			if (err.code() == mewa::Error::RuntimeException)
+			mewa::Error err = mewa::Error::parseError( msg ? msg : "");
+			if (err.code() == mewa::Error::RuntimeException || err.code() == mewa::Error::Ok/*error raised without message*/)
 			{
 				throw mewa::Error( luaErrorCode2ErrorCode( rc), msg ? msg : "");
 			}
-- 
2.43.0


From 14f466326d28556f3f1637b1a01686a9ff5fff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:56 +0000
Subject: [PATCH 75/75] fix: a list of context types was not recognized as such
 when its first element was not the first visited

---
 src/lua_parameter.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 15f7c95..dad8220 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -64,19 +64,11 @@ void mewa::lua::throwArgumentError( const char* functionName, int li, mewa::Erro
 bool mewa::lua::argumentIsArray( lua_State* ls, int li)
 {
 	bool rt = false;
-	if (lua_type( ls, 2) == LUA_TTABLE)
+	if (lua_type( ls, li) == LUA_TTABLE)
 	{
-		lua_pushvalue( ls, li);
-		lua_pushnil( ls);
-		if (lua_next( ls, -2))
-		{
-			rt = lua_isinteger( ls, -2) && 1==lua_tointeger( ls, -2);
-			lua_pop( ls, 2);
-		}
-		else
-		{
-			lua_pop( ls, 1);
-		}
+		lua_rawgeti( ls, li, 1);
+		rt = !lua_isnil( ls, -1);
+		lua_pop( ls, 1);
 	}
 	return rt;
 }
-- 
2.43.0

