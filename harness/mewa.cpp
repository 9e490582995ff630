#include "mewa.hpp"
#include <iostream>
#include <sstream>
#include <fstream>
#include <cmath>
#include <unistd.h>
#include <sys/stat.h>

using namespace mw;
using namespace pbt;

extern "C" int luaopen_mewa( lua_State* ls);
extern int mewa_main( int argc, const char* argv[]);

static const Val g_nil;

const Val& Val::operator[]( const char* key) const
{
	for (auto& e : tab) if (e.first.t == Str && e.first.s == key) return e.second;
	return g_nil;
}
const Val& Val::at( int idx) const
{
	for (auto& e : tab) if (e.first.t == Num && e.first.n == idx) return e.second;
	return g_nil;
}
int Val::len() const
{
	int n = 0;
	while (!at( n+1).isNil()) ++n;
	return n;
}
std::string Val::repr() const
{
	switch (t)
	{
		case Nil: return "nil";
		case Bool: return b ? "true":"false";
		case Num: return (n == std::floor( n) && std::fabs( n) < 1e15) ? fmt( "%.0f", n == 0 ? 0.0 : n) : fmt( "%.17g", n);
		case Str: return quote( s, s.size());
		case Fun: return "<function>";
		case Other: return "<" + s + ">";
		case Tab:
		{
			std::vector<std::pair<std::string,std::string>> keys;
			for (auto& e : tab) keys.push_back( {e.first.t == Num ? fmt( "%020.6f", e.first.n) : "~" + e.first.repr(), (e.first.t == Num ? "" : (e.first.repr() + "=")) + e.second.repr()});
			// array part rendered positionally only if dense
			bool dense = true; int nn = 0;
			for (auto& e : tab) if (e.first.t == Num) ++nn;
			for (int i=1; i<=nn; ++i) if (at( i).isNil()) dense = false;
			if (!dense)
			{
				keys.clear();
				for (auto& e : tab) keys.push_back( {e.first.t == Num ? fmt( "%020.6f", e.first.n) : "~" + e.first.repr(), "[" + e.first.repr() + "]=" + e.second.repr()});
			}
			std::sort( keys.begin(), keys.end());
			std::string rt = "{";
			int i = 0;
			for (auto& k : keys) {if (i++) rt += ","; rt += k.second;}
			return rt + "}";
		}
	}
	return "?";
}
const Val& CallResult::operator[]( size_t i) const { return i < ret.size() ? ret[i] : g_nil; }

Lua::Lua()
{
	ls = luaL_newstate();
	if (!ls) throw std::bad_alloc();
	luaL_openlibs( ls);
	lua_getglobal( ls, "package");
	lua_getfield( ls, -1, "preload");
	lua_pushcfunction( ls, luaopen_mewa);
	lua_setfield( ls, -2, "mewa");
	lua_pop( ls, 2);
	// keep the current stack clean and the module loaded as global 'mewa'
	lua_getglobal( ls, "require");
	lua_pushliteral( ls, "mewa");
	if (lua_pcall( ls, 1, 1, 0)) fail( "harness-require", lua_tostring( ls, -1));
	lua_setglobal( ls, "mewa");
}
Lua::~Lua() { lua_close( ls); }

void Lua::push( const Val& v)
{
	luaL_checkstack( ls, 10, "harness");
	switch (v.t)
	{
		case Val::Nil: lua_pushnil( ls); break;
		case Val::Bool: lua_pushboolean( ls, v.b); break;
		case Val::Num: lua_pushnumber( ls, v.n); break;
		case Val::Str: lua_pushlstring( ls, v.s.data(), v.s.size()); break;
		case Val::Tab:
			lua_newtable( ls);
			for (auto& e : v.tab) {push( e.first); push( e.second); lua_rawset( ls, -3);}
			break;
		default: lua_pushnil( ls);
	}
}
Val Lua::get( int idx, int depth)
{
	Val rt;
	luaL_checkstack( ls, 10, "harness");
	if (idx < 0 && idx > LUA_REGISTRYINDEX) idx = lua_gettop( ls) + idx + 1;
	switch (lua_type( ls, idx))
	{
		case LUA_TNIL: case LUA_TNONE: break;
		case LUA_TBOOLEAN: rt = Val::boolean( lua_toboolean( ls, idx)); break;
		case LUA_TNUMBER: rt = Val::num( lua_tonumber( ls, idx)); break;
		case LUA_TSTRING: {size_t n; const char* p = lua_tolstring( ls, idx, &n); rt = Val::str( std::string_view( p, n)); break;}
		case LUA_TFUNCTION: rt.t = Val::Fun; break;
		case LUA_TTABLE:
			rt.t = Val::Tab;
			if (depth > 400) {rt.t = Val::Other; rt.s = "too deep"; break;}
			lua_pushnil( ls);
			while (lua_next( ls, idx))
			{
				Val k = get( -2, depth+1);
				Val v = get( -1, depth+1);
				rt.tab.push_back( {std::move( k), std::move( v)});
				lua_pop( ls, 1);
			}
			break;
		default: rt.t = Val::Other; rt.s = lua_typename( ls, lua_type( ls, idx));
	}
	return rt;
}
CallResult Lua::pcallTop( int nargs)
{
	CallResult rt;
	int base = lua_gettop( ls) - nargs - 1;
	if (lua_pcall( ls, nargs, LUA_MULTRET, 0))
	{
		size_t n = 0; const char* m = lua_tolstring( ls, -1, &n);
		rt.error = m ? std::string( m, n) : std::string( "(error object is no string)");
	}
	else
	{
		rt.ok = true;
		for (int i=base+1; i<=lua_gettop( ls); ++i) rt.ret.push_back( get( i));
	}
	lua_settop( ls, base);
	return rt;
}
CallResult Lua::exec( const std::string& source, const std::string& chunkname)
{
	if (luaL_loadbuffer( ls, source.data(), source.size(), chunkname.c_str()))
	{
		CallResult rt;
		rt.error = std::string( "LOAD: ") + lua_tostring( ls, -1);
		lua_pop( ls, 1);
		return rt;
	}
	return pcallTop( 0);
}
CallResult Lua::method( const char* obj, const char* name, const std::vector<Val>& args)
{
	luaL_checkstack( ls, 20 + (int)args.size(), "harness");
	lua_getglobal( ls, obj);
	lua_getfield( ls, -1, name);
	lua_insert( ls, -2);
	for (auto& a : args) push( a);
	return pcallTop( 1 + (int)args.size());
}
CallResult Lua::function( const char* table, const char* name, const std::vector<Val>& args)
{
	luaL_checkstack( ls, 20 + (int)args.size(), "harness");
	lua_getglobal( ls, table);
	lua_getfield( ls, -1, name);
	lua_remove( ls, -2);
	for (auto& a : args) push( a);
	return pcallTop( (int)args.size());
}
void Lua::setGlobal( const char* name, const Val& v) { push( v); lua_setglobal( ls, name); }

void mw::writeFile( const std::string& path, std::string_view content)
{
	FILE* f = fopen( path.c_str(), "wb");
	if (!f) fail( "harness-io", "cannot write " + path);
	fwrite( content.data(), 1, content.size(), f);
	fclose( f);
}
bool mw::readFile( const std::string& path, std::string& content)
{
	FILE* f = fopen( path.c_str(), "rb");
	if (!f) return false;
	content.clear();
	char buf[ 8192]; size_t n;
	while ((n = fread( buf, 1, sizeof buf, f)) > 0) content.append( buf, n);
	fclose( f);
	return true;
}
ProgResult mw::runProgram( const std::vector<std::string>& args)
{
	ProgResult rt;
	std::vector<const char*> argv;
	argv.push_back( "mewa");
	for (auto& a : args) argv.push_back( a.c_str());
	argv.push_back( nullptr);
	std::ostringstream out, err;
	std::streambuf* so = std::cout.rdbuf( out.rdbuf());
	std::streambuf* se = std::cerr.rdbuf( err.rdbuf());
	try { rt.exitCode = mewa_main( (int)argv.size()-1, argv.data()); }
	catch (const std::exception& e)
	{
		std::cout.rdbuf( so); std::cerr.rdbuf( se);
		fail( "program-exception", std::string( "exception escaped from main: ") + e.what());
	}
	std::cout.rdbuf( so); std::cerr.rdbuf( se);
	rt.out = out.str(); rt.err = err.str();
	return rt;
}
ProgResult mw::generate( Case& c, const std::string& grammar, const std::string& templat, const std::vector<std::string>& moreArgs)
{
	std::string gf = c.tmpdir + "/g.g", of = c.tmpdir + "/g.lua", tf = c.tmpdir + "/g.tpl";
	writeFile( gf, grammar);
	writeFile( tf, templat);
	unlink( of.c_str());
	std::vector<std::string> args = {"-g", "-t", tf, "-o", of};
	args.insert( args.end(), moreArgs.begin(), moreArgs.end());
	args.push_back( gf);
	ProgResult rt = runProgram( args);
	rt.outExists = readFile( of, rt.outFile);
	return rt;
}

static std::string strField( lua_State* ls, int idx, const char* name)
{
	lua_pushstring( ls, name); lua_rawget( ls, idx);
	size_t n = 0; const char* p = lua_type( ls, -1) == LUA_TSTRING ? lua_tolstring( ls, -1, &n) : nullptr;
	std::string rt( p ? p : "", n);
	lua_pop( ls, 1);
	return rt;
}
static int intField( lua_State* ls, int idx, const char* name, bool* defined = nullptr)
{
	lua_pushstring( ls, name); lua_rawget( ls, idx);
	if (defined) *defined = lua_type( ls, -1) == LUA_TNUMBER;
	int rt = (int)lua_tointeger( ls, -1);
	lua_pop( ls, 1);
	return rt;
}
static std::string reprAt( lua_State* ls, int idx)
{
	struct Tmp {static Val get( lua_State* ls, int idx, int depth)
	{
		Val rt;
		luaL_checkstack( ls, 10, "harness");
		if (idx < 0) idx = lua_gettop( ls) + idx + 1;
		switch (lua_type( ls, idx))
		{
			case LUA_TBOOLEAN: rt = Val::boolean( lua_toboolean( ls, idx)); break;
			case LUA_TNUMBER: rt = Val::num( lua_tonumber( ls, idx)); break;
			case LUA_TSTRING: {size_t n; const char* p = lua_tolstring( ls, idx, &n); rt = Val::str( std::string_view( p, n)); break;}
			case LUA_TFUNCTION: rt.t = Val::Fun; break;
			case LUA_TTABLE:
				rt.t = Val::Tab;
				if (depth > 50) {rt.t = Val::Other; break;}
				lua_pushnil( ls);
				while (lua_next( ls, idx)) {Val k = get( ls, -2, depth+1), v = get( ls, -1, depth+1); rt.tab.push_back( {k,v}); lua_pop( ls, 1);}
				break;
			case LUA_TNIL: break;
			default: rt.t = Val::Other; rt.s = "userdata";
		}
		return rt;
	}};
	return Tmp::get( ls, idx, 0).repr();
}

Node mw::nodeFromLua( lua_State* ls, int idx)
{
	luaL_checkstack( ls, 20, "harness");
	if (idx < 0) idx = lua_gettop( ls) + idx + 1;
	Node rt;
	if (lua_type( ls, idx) != LUA_TTABLE) fail( "ast-node", fmt( "AST node is a %s and not a table", lua_typename( ls, lua_type( ls, idx))));
	rt.line = intField( ls, idx, "line");
	lua_pushstring( ls, "call"); lua_rawget( ls, idx);
	if (lua_isnil( ls, -1))
	{
		lua_pop( ls, 1);
		rt.leaf = true;
		rt.name = strField( ls, idx, "name");
		rt.value = strField( ls, idx, "value");
		return rt;
	}
	if (lua_type( ls, -1) != LUA_TTABLE) fail( "ast-node", "AST node with call that is not a table");
	int ci = lua_gettop( ls);
	rt.callname = strField( ls, ci, "name");
	rt.name = rt.callname.substr( 0, rt.callname.find( ' '));
	lua_pushstring( ls, "obj"); lua_rawget( ls, ci);
	rt.value = lua_isnil( ls, -1) ? "" : reprAt( ls, -1);
	lua_pop( ls, 2);
	lua_pushstring( ls, "scope"); lua_rawget( ls, idx);
	if (lua_type( ls, -1) == LUA_TTABLE)
	{
		rt.hasScope = true;
		lua_rawgeti( ls, -1, 1); rt.scope0 = (int)lua_tointeger( ls, -1); lua_pop( ls, 1);
		lua_rawgeti( ls, -1, 2); rt.scope1 = (int)lua_tointeger( ls, -1); lua_pop( ls, 1);
	}
	lua_pop( ls, 1);
	rt.step = intField( ls, idx, "step", &rt.hasStep);
	lua_pushstring( ls, "arg"); lua_rawget( ls, idx);
	if (lua_type( ls, -1) != LUA_TTABLE) fail( "ast-node", "AST node without arg table");
	int ai = lua_gettop( ls);
	int n = (int)lua_rawlen( ls, ai);
	for (int i=1; i<=n; ++i)
	{
		lua_rawgeti( ls, ai, i);
		rt.arg.push_back( nodeFromLua( ls, -1));
		lua_pop( ls, 1);
	}
	lua_pop( ls, 1);
	return rt;
}
std::string Node::repr( bool lines, bool scopes) const
{
	if (leaf) return name + ":" + quote( value) + (lines ? fmt( "@%d", line) : "");
	std::string rt = name;
	if (!value.empty()) rt += "<" + value + ">";
	if (lines) rt += fmt( "@%d", line);
	if (scopes && hasScope) rt += fmt( "{%d,%d}", scope0, scope1);
	if (scopes && hasStep) rt += fmt( ">>%d", step);
	rt += "(";
	int i = 0;
	for (auto& a : arg) {if (i++) rt += " "; rt += a.repr( lines, scopes);}
	return rt + ")";
}

static int recordCall( lua_State* ls)		// upvalue 1: Compiler*, args: name, node, ...
{
	Compiler* cp = (Compiler*)lua_touserdata( ls, lua_upvalueindex( 1));
	int n = lua_gettop( ls);
	bool failed = false;
	std::string msg;
	try
	{
		Invocation inv;
		size_t len; const char* p = lua_tolstring( ls, 1, &len);
		inv.func = std::string( p, len);
		inv.node = nodeFromLua( ls, 2);
		inv.nargs = n-1;
		if (n >= 3) inv.obj = reprAt( ls, 3);
		if (n >= 4) inv.options = reprAt( ls, 4);
		cp->calls.push_back( inv);
	}
	catch (const Fail& f) {failed = true; msg = f.msg;}
	if (failed) {lua_pushlstring( ls, msg.data(), msg.size()); msg = std::string(); return lua_error( ls);}
	return 0;
}

std::string Compiler::load( const std::string& generatedTable, const std::string& luaPrelude)
{
	lua_pushlightuserdata( lua.ls, this);
	lua_pushcclosure( lua.ls, recordCall, 1);
	lua_setglobal( lua.ls, "__record");
	auto r = lua.exec(
		"typesystem = setmetatable( {}, {__index = function( t, k)\n"
		"  if k:sub(1,4) == 'ref_' then local v = {ref=k}; rawset( t, k, v); return v end\n"
		"  local f = function( node, ...) if __oncall then return __oncall( k, node, ...) end; return __record( k, node, ...) end\n"
		"  rawset( t, k, f); return f end})\n" + luaPrelude);
	if (!r.ok) return "prelude: " + r.error;
	r = lua.exec( "__def = " + generatedTable, "=generated");
	if (!r.ok) return "generated table: " + r.error;
	r = lua.exec( "__compiler = mewa.compiler( __def)");
	if (!r.ok) return "mewa.compiler: " + r.error;
	if (!onCall.empty())
	{
		r = lua.exec( "__oncall = " + onCall);
		if (!r.ok) return "oncall: " + r.error;
	}
	return "";
}
RunResult Compiler::run( const std::string& source, bool withOutput, const std::string& target, const Val& options, const std::string& debugFile)
{
	RunResult rt;
	calls.clear();
	std::string inf = c.tmpdir + "/" + inputName, outf = c.tmpdir + "/out.txt", tgf = c.tmpdir + "/target.tpl";
	writeFile( inf, source);
	unlink( outf.c_str());
	if (withOutput) writeFile( tgf, target);
	std::vector<Val> args;
	args.push_back( withOutput ? Val::str( tgf) : Val());
	args.push_back( options);
	args.push_back( Val::str( inf));
	args.push_back( Val::str( outf));
	if (!debugFile.empty()) args.push_back( Val::str( debugFile));
	auto r = lua.method( "__compiler", "run", args);
	rt.ok = r.ok;
	rt.error = r.error;
	rt.calls = std::move( calls);
	calls.clear();
	rt.outExists = readFile( outf, rt.outFile);
	return rt;
}
