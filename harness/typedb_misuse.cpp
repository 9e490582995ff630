// T08: misuse of the type database and the library functions
#include "mewa.hpp"
#include <climits>
#include <unistd.h>
#include <fcntl.h>
#include <sanitizer/allocator_interface.h>
using namespace pbt;
using namespace mw;

namespace {

const char* g_prelude = R"LUA(
unpack = unpack or table.unpack
function repr( v, depth, seen)
	depth = depth or 0
	local t = type(v)
	if t == "number" then
		if v ~= v then return "nan" end
		return string.format( "%.17g", v)
	elseif t == "string" then return string.format( "%q", v)
	elseif t == "table" then
		if depth > 6 then return "{...}" end
		local keys = {}
		for k,e in pairs(v) do keys[ #keys+1] = "[" .. repr( k, depth+1) .. "]=" .. repr( e, depth+1) end
		table.sort( keys)
		return "{" .. table.concat( keys, ",") .. "}"
	elseif t == "userdata" or t == "function" or t == "thread" then return "<" .. t .. ">"
	else return tostring(v) end
end
function try( f, ...)
	local r = table.pack( pcall( f, ...))
	if not r[1] then return "ERR:" .. tostring(r[2]) end
	local rt = {}
	for i=2,r.n do rt[ #rt+1] = repr( r[i]) end
	return table.concat( rt, ";")
end
function treestr( nd, leaf)
	local rt = "(" .. repr( nd:scope()) .. "|" .. leaf( nd)
	local chd = {}
	for cd in nd:chld() do chd[ #chd+1] = treestr( cd, leaf) end
	return rt .. table.concat( chd, " ") .. ")"
end
function listleaf( nd) local l = {} for e in nd:list() do l[ #l+1] = repr(e) end return table.concat( l, ",") end
function instleaf( nd) return repr( nd:instance()) end
inames = {"a","b"}
scopes = {}
steps = {}
maxhandle = 0
function snap( db)
	local out = {}
	local function add( s) out[ #out+1] = s end
	local oscope, ostep = db:scope()
	add( repr( oscope) .. "@" .. repr( ostep))
	for _,st in ipairs( steps) do
		db:step( st)
		for _,n in ipairs( inames) do add( try( db.get_instance, db, n)) end
		for h=1,maxhandle do
			add( try( db.get_reductions, db, h))
			if pcall( db.type_name, db, h) then for _,n in ipairs( inames) do add( try( db.resolve_type, db, h, n)) end end
			for k=1,maxhandle do if k ~= h then add( try( db.get_reduction, db, k, h)) end end
		end
		for _,n in ipairs( inames) do add( try( db.resolve_type, db, 0, n)) end
	end
	for _,sc in ipairs( scopes) do
		db:scope( sc)
		for _,n in ipairs( inames) do
			add( try( db.this_instance, db, n))
			for h=0,math.min( maxhandle, 3) do add( try( db.this_types, db, h, n)) end
		end
	end
	for h=0,maxhandle do
		add( try( db.type_name, db, h)) add( try( db.type_string, db, h)) add( try( db.type_context, db, h)) add( try( db.type_parameters, db, h))
		add( try( db.type_nof_parameters, db, h)) add( try( db.type_constructor, db, h)) add( try( db.type_scope, db, h))
	end
	for _,n in ipairs( inames) do add( try( function() return treestr( db:instance_tree( n), instleaf) end)) end
	add( try( function() return treestr( db:type_tree(), listleaf) end))
	add( try( function() return treestr( db:reduction_tree(), listleaf) end))
	db:scope( oscope, ostep)
	return table.concat( out, "\n")
end
mutator = {scope=true, step=true, set_instance=true, def_type=true, def_type_as=true, def_reduction=true}
function snapdiff( a, b)
	local la, lb = {}, {}
	for l in (a .. "\n"):gmatch( "(.-)\n") do la[ #la+1] = l end
	for l in (b .. "\n"):gmatch( "(.-)\n") do lb[ #lb+1] = l end
	for i=1,math.max( #la, #lb) do if la[i] ~= lb[i] then return "before: " .. tostring(la[i]) .. "  after: " .. tostring(lb[i]) end end
	return "?"
end
-- execute one call, returns status ("ok","err","crash of the rule") and description
function exec( name, self, ...)
	local before = snap( typedb)
	local r = table.pack( pcall( typedb[ name], self, ...))
	local refused = not r[1] or ((name == "def_type" or name == "def_type_as") and r[2] == -1)
	if not mutator[ name] or refused or self ~= typedb then
		local after = snap( typedb)
		if before ~= after then return "CHANGED", (r[1] and "returned " or "raised ") .. tostring(r[2]) .. ": " .. snapdiff( before, after) end
	end
	if not r[1] then return "err", tostring(r[2]) end
	return refused and "refused" or "ok", repr( r[2])
end
other = mewa.typedb()
function recurse() local t = {}; t.x = t; return t end
function deep( n) local t = {}; for i=1,n do t = {t} end; return t end
)LUA";

std::string wildNumber( Gen& g)
{
	static const char* v[] = {"0","1","2","3","-1","-2","4","5","10","31","32","33","100","0.5","-0.5","2.9999999","1e-300","1e300","-1e300","(0/0)","(1/0)","(-1/0)",
		"2147483647","2147483648","-2147483648","-2147483649","4294967295","4294967296","4294967297","9007199254740992","9223372036854775807","-9223372036854775808","1e19","-0.0","65536","1000000000"};
	return v[ g.below( sizeof(v)/sizeof(v[0]))];
}
std::string wildString( Gen& g)
{
	static const char* v[] = {"\"\"","\"a\"","\"b\"","\"1\"","\"2147483648\"","\"0x10\"","\"\\0\"","\"a\\0b\"","\"\\255\\254\"","(\"x\"):rep(100)","(\"y\"):rep(70000)","\"%s%n%d\"","\"nil\"","\"1e999\""};
	return v[ g.below( sizeof(v)/sizeof(v[0]))];
}
std::string wild( Gen& g, int depth = 0);
std::string wildTable( Gen& g, int depth)
{
	static const char* v[] = {"{}","{1}","{1,2}","{0,10}","{2,1}","{1,2,3}","{5,5}","{-1,5}","{0}","{nil,1}","{1,nil,3}","{[0]=1}","{[2]=1}","{[1.5]=2}","{type=1}","{type=1,constructor=\"c\"}","{constructor=1}","{{1,\"c\"}}","{{type=1,constructor=2}}","{{type=1}}","{{1}}","{{}}","{a=1,b=2}",
		"{1,2,x=3}","recurse()","deep(300)","{\"1\",\"2\"}","{\"a\",\"b\"}","{true,false}","setmetatable({},{__index=function() return 1 end})","setmetatable({},{__index=function() error('idx') end})","setmetatable({1,2},{__len=function() return 1e9 end})","_G","{{1,2,3}}","{{{1}}}","{other}","{typedb}","{[2147483648]=1}","{1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35}"};
	if (depth < 3 && g.chance( 1,2))
	{
		std::string rt = "{"; int n = g.range( 1, 4);
		for (int i=0; i<n; ++i) rt += (i ? ",":"") + (g.chance( 1,6) ? "type=" : g.chance( 1,8) ? "constructor=" : std::string()) + wild( g, depth+1);
		return rt + "}";
	}
	return v[ g.below( sizeof(v)/sizeof(v[0]))];
}
std::string wild( Gen& g, int depth)
{
	switch (g.weighted( {6,3,4,1,1,1,1,1,1}))
	{
		case 0: return wildNumber( g);
		case 1: return wildString( g);
		case 2: return wildTable( g, depth);
		case 3: return "nil";
		case 4: return "true";
		case 5: return "false";
		case 6: return "print";
		case 7: return g.flip() ? "other" : "typedb";
		default: return g.flip() ? "io.stdout" : "coroutine.create(print)";
	}
}
struct State {int width; int ntypes; std::vector<std::string> scopes;};

std::string okType( Gen& g, const State& st) {return fmt( "%d", g.range( 0, st.ntypes + (g.chance( 1,6) ? 2 : 0)));}
std::string okScope( Gen& g, const State& st)
{
	if (g.chance( 3,4)) return g.pick( st.scopes);
	int a = g.range( 0, st.width), b = g.range( 0, st.width);
	return fmt( "{%d,%d}", a, b);		// may be empty, reversed or overlap without nesting
}
std::string okName( Gen& g) {return g.flip() ? "'a'" : "'b'";}
std::string okMask( Gen& g) {return g.chance( 1,2) ? fmt( "typedb.reduction_tagmask(%d,%d)", g.range( 1,3), g.range( 1,3)) : wildNumber( g);}
std::string okParams( Gen& g, const State& st)
{
	std::string rt = "{"; int n = g.range( 0, 3);
	for (int i=0; i<n; ++i)
	{
		std::string t = okType( g, st);
		if (i) rt += ",";
		switch (g.below( 3)) {case 0: rt += t; break; case 1: rt += "{" + t + ",'pc'}"; break; default: rt += "{type=" + t + ",constructor={op=1}}";}
	}
	return rt + "}";
}
std::string args( Gen& g, const State& st, const std::string& m)
{
	std::vector<std::string> a;
	auto T = [&](){return okType( g, st);};
	if (m == "scope") {if (g.chance( 9,10)) a.push_back( okScope( g, st)); if (g.flip()) a.push_back( fmt( "%d", g.range( 0, st.width)));}
	else if (m == "step") {if (g.chance( 9,10)) a.push_back( fmt( "%d", g.range( 0, st.width)));}
	else if (m == "set_instance") {a.push_back( okName( g)); a.push_back( "{v=1}");}
	else if (m == "get_instance" || m == "this_instance") a.push_back( okName( g));
	else if (m == "def_type") {a.push_back( T()); a.push_back( okName( g)); if (g.flip()) {a.push_back( g.flip() ? "nil" : "'con'"); if (g.flip()) a.push_back( okParams( g, st));}}
	else if (m == "def_type_as") {a.push_back( T()); a.push_back( okName( g)); a.push_back( T());}
	else if (m == "this_type") {a.push_back( T()); a.push_back( okName( g)); if (g.flip()) a.push_back( okParams( g, st));}
	else if (m == "this_types") {a.push_back( T()); a.push_back( okName( g));}
	else if (m == "def_reduction") {a.push_back( T()); a.push_back( T()); a.push_back( g.flip() ? "'rc'" : "nil"); a.push_back( fmt( "%d", g.range( 1,3))); if (g.flip()) a.push_back( g.flip() ? "0.25" : "1");}
	else if (m == "reduction_tagmask") {int n = g.range( 0,3); for (int i=0; i<n; ++i) a.push_back( fmt( "%d", g.range( 1,3)));}
	else if (m == "get_reduction") {a.push_back( T()); a.push_back( T()); if (g.flip()) a.push_back( okMask( g));}
	else if (m == "get_reductions") {a.push_back( T()); if (g.flip()) {a.push_back( okMask( g)); if (g.flip()) a.push_back( okMask( g));}}
	else if (m == "derive_type") {a.push_back( T()); a.push_back( T()); if (g.flip()) {a.push_back( okMask( g)); if (g.flip()) {a.push_back( okMask( g)); if (g.flip()) a.push_back( g.flip() ? "-1" : "2");}}}
	else if (m == "resolve_type") {a.push_back( g.flip() ? T() : okParams( g, st)); a.push_back( okName( g)); if (g.flip()) a.push_back( okMask( g));}
	else if (m == "type_string" ) {a.push_back( T()); if (g.flip()) a.push_back( "'::'");}
	else if (m == "instance_tree") {if (g.chance( 9,10)) a.push_back( okName( g));}
	else if (m.rfind( "_tree") != std::string::npos) {}
	else a.push_back( T());
	// mutations of the argument list
	int nmut = (int)g.weighted( {4,6,2,1});
	for (int i=0; i<nmut; ++i)
	{
		switch (g.weighted( {8,1,1}))
		{
			case 0: if (!a.empty()) {a[ g.below( a.size())] = wild( g); break;} /*FALLTHROUGH*/
			case 1: a.insert( a.begin() + g.below( a.size()+1), wild( g)); break;
			case 2: if (!a.empty()) a.erase( a.begin() + g.below( a.size()));
		}
	}
	std::string rt;
	for (auto& e : a) rt += ", " + e;
	return rt;
}

void t08_typedb( Gen& g, Case& c)
{
	Lua L;
	auto r = L.exec( g_prelude);
	if (!r.ok) fail( "harness", r.error);
	r = L.exec( "typedb = mewa.typedb()");
	State st; st.width = 4 + g.size/5; st.ntypes = 0;
	// laminar scopes
	st.scopes.push_back( "{0,2147483647}");
	int pos = 0; std::set<int> steps = {0, st.width, INT_MAX-1};
	while (pos < st.width && st.scopes.size() < 6)
	{
		int e = pos + g.range( 1, st.width - pos);
		st.scopes.push_back( fmt( "{%d,%d}", pos, e)); steps.insert( pos); steps.insert( e-1);
		if (e - pos > 2) {int m = pos + (e - pos)/2; st.scopes.push_back( fmt( "{%d,%d}", pos+1, m+1)); steps.insert( m);}
		pos = e + g.range( 0, 2);
	}
	std::string s = "scopes = {"; for (auto& e : st.scopes) s += e + ",";
	s += "}\nsteps = {"; for (int e : steps) s += fmt( "%d,", e);
	s += "}\n";
	r = L.exec( s);
	if (!r.ok) fail( "harness", r.error);
	c.log( "%s", s.c_str());
	static const char* methods[] = {"def_type","set_instance","def_reduction","scope","step","def_type_as","get_instance","this_instance","this_type","this_types","reduction_tagmask","get_reduction","get_reductions",
		"derive_type","resolve_type","type_name","type_string","type_context","type_parameters","type_nof_parameters","type_constructor","type_scope","instance_tree","type_tree","reduction_tree"};
	int nops = g.range( 1, 6 + g.size/3);
	int nred = 0, nerr = 0, nok = 0, nrefmut = 0;
	for (int i=0; i<nops; ++i)
	{
		std::string m = g.flip() ? methods[ g.below( 6)] : methods[ g.below( sizeof(methods)/sizeof(methods[0]))];
		if ((m == "def_type" && st.ntypes >= 6) || (m == "def_reduction" && nred >= 10)) m = "get_reductions";
		std::string a = args( g, st, m);
		std::string self = g.chance( 1,25) ? wild( g) : "typedb";
		std::string src = fmt( "return exec( '%s', %s%s)", m.c_str(), self.c_str(), a.c_str());
		if (m == "reduction_tagmask" && g.flip()) src = a.empty() ? "return exec( 'reduction_tagmask')" : fmt( "return exec( 'reduction_tagmask'%s)", a.c_str());
		c.log( "%s", src.c_str()+7);
		if (m == "def_type") {++st.ntypes; L.setGlobal( "maxhandle", Val::num( st.ntypes + 1));}
		if (m == "def_reduction") ++nred;
		r = L.exec( src);
		if (!r.ok) fail( "harness-call", r.error + " in " + src);
		if (r[0].s == "CHANGED") fail( "refused-call-changed-state-" + m, src.substr( 7) + " " + r[1].s);
		if (r[0].s == "err") {++nerr; if (i > 3) c.label( "refused-" + m);}
		else {++nok;}
		if (r[0].s != "ok" && nok && (m == "def_type" || m == "def_reduction" || m == "set_instance" || m == "scope" || m == "def_type_as")) ++nrefmut;
		c.log( "   -> %s %s", r[0].s.c_str(), quote( r[1].s, 200).c_str());
	}
	r = L.exec( "typedb = nil; other = nil; collectgarbage()");
	if (!r.ok) fail( "harness", r.error);
	c.count( "calls", nops); c.count( "refused", nerr);
	c.nontrivial( nok >= 2 && nrefmut >= 1);
}

// Calls correct up to one argument that cannot be meant: they have to be refused and to leave everything as it was
void t08_refused( Gen& g, Case& c)
{
	Lua L;
	auto r = L.exec( g_prelude);
	if (!r.ok) fail( "harness", r.error);
	r = L.exec( "typedb = mewa.typedb(); scopes = {{0,2147483647},{2,9}}; steps = {0,3,9}");
	if (!r.ok) fail( "harness", r.error);
	State st; st.width = 10; st.ntypes = 0; st.scopes = {"{0,2147483647}","{2,9}"};
	int n = g.range( 1, 6);
	for (int i=1; i<=n; ++i)
	{
		std::string src = fmt( "return exec( 'def_type', typedb, %d, '%s', %s, {%s})", g.range( 0, i-1), g.flip() ? "a" : "b", g.flip() ? "'con'" : "nil", g.flip() && i > 1 ? fmt( "%d", g.range( 1, i-1)).c_str() : "");
		c.log( "%s", src.c_str()+7);
		r = L.exec( src);
		if (!r.ok) fail( "harness-call", r.error);
		if (r[0].s == "ok") {++st.ntypes; L.setGlobal( "maxhandle", Val::num( st.ntypes));}
		if (st.ntypes >= 2 && g.flip())
		{
			src = fmt( "return exec( 'def_reduction', typedb, %d, %d, nil, %d)", g.range( 1, st.ntypes), g.range( 1, st.ntypes), g.range( 1, 32));
			c.log( "%s", src.c_str()+7);
			r = L.exec( src);
			if (!r.ok) fail( "harness-call", r.error);
		}
		if (g.chance( 1,4)) L.exec( fmt( "typedb:scope( %s)", st.scopes[ g.below( 2)].c_str()));
	}
	if (!st.ntypes) fail( "harness", "no type");
	L.exec( "typedb:scope( {0,2147483647}, 0)");
	std::string known = "'a'";	// name of the first type or of another one
	{
		auto kn = L.exec( "return typedb:type_name( 1)");
		if (!kn.ok) fail( "harness", kn.error);
		known = "'" + kn[0].s + "'";
	}
	int ncalls = g.range( 1, 6);
	for (int ci=0; ci<ncalls; ++ci)
	{
		auto T = [&](){return fmt( "%d", g.range( 1, st.ntypes));};
		auto T0 = [&](){return fmt( "%d", g.range( 0, st.ntypes));};
		// a handle that denotes no type
		auto bad = [&]() -> std::string
		{
			static const char* v[] = {"-1","-2","-2147483648","2147483647","2147483648","4294967296","4294967297","1.5","-0.5","1e300","-1e300","(0/0)","(1/0)","'x'","''","true","{}","print","io.stdout"};
			if (g.chance( 3,5)) return fmt( "%d", st.ntypes + (g.flip() ? 1 : g.range( 1, 1000)));
			return v[ g.below( sizeof(v)/sizeof(v[0]))];
		};
		auto list = [&]( bool withBad)
		{
			int sz = g.chance( 1,6) ? g.range( 1, 40) : g.range( 1, 4), at = withBad ? g.below( sz) : -1;
			std::string rt = "{";
			for (int k=0; k<sz; ++k)
			{
				std::string t = k == at ? bad() : T();
				bool plain = t[0] != '{';	// a table would be a type/constructor pair
				switch (plain ? g.below( 3) : 1) {case 0: rt += t; break; case 1: rt += "{" + t + ",'c'}"; break; default: rt += "{type=" + t + ",constructor={op=1}}";}
				rt += ",";
			}
			return rt + "}";
		};
		std::string name = g.flip() ? "'a'" : "'c'", m, a;
		switch (g.below( 26))
		{
			case 0: m = "def_type"; a = bad() + ", " + name; break;
			case 1: m = "def_type"; a = T0() + ", " + name + ", nil, " + list( true); break;
			case 2: m = "def_type_as"; a = bad() + ", " + name + ", " + T(); break;
			case 3: m = "def_type_as"; a = T0() + ", " + name + ", " + (g.chance( 1,5) ? std::string("0") : bad()); break;
			case 4: m = g.flip() ? "this_type" : "this_types"; a = bad() + ", " + name; break;
			case 5: m = "def_reduction"; a = bad() + ", " + T() + ", nil, 1"; break;
			case 6: m = "def_reduction"; a = T() + ", " + (g.chance( 1,5) ? std::string("0") : bad()) + ", nil, 1"; break;
			case 7: m = "get_reduction"; a = bad() + ", " + T(); break;
			case 8: m = "get_reduction"; a = T() + ", " + (g.chance( 1,5) ? std::string("0") : bad()); break;
			case 9: m = "get_reductions"; a = g.chance( 1,5) ? std::string("0") : bad(); break;
			case 10: m = "derive_type"; a = bad() + ", " + T(); break;
			case 11: m = "derive_type"; a = T() + ", " + (g.chance( 1,5) ? std::string("0") : bad()); break;
			case 12: m = "resolve_type"; a = bad(); if (a == "{}") a = "{{}}"; a += ", " + known; break;
			case 13: case 14: case 15: m = "resolve_type"; a = list( true) + ", " + known; break;
			case 16: m = g.flip() ? "type_name" : g.flip() ? "type_string" : "type_context"; a = bad(); break;
			case 17: m = g.flip() ? "type_parameters" : "type_nof_parameters"; a = bad(); break;
			case 18: m = g.flip() ? "type_constructor" : "type_scope"; a = bad(); break;
			case 19: case 20:
			{
				static const char* v[] = {"0","-1","33","34","64","65","256","257","4294967296","4294967297","2147483648","1.5","(0/0)","(1/0)","'x'","true","{}"};
				std::string tag = v[ g.below( sizeof(v)/sizeof(v[0]))];
				if (g.flip()) {m = "def_reduction"; a = "0, " + T() + ", nil, " + tag;}
				else {m = "reduction_tagmask"; a.clear(); int k = g.range( 0, 3); for (int j=0; j<k; ++j) a += fmt( "%d, ", g.range( 1, 32)); a += tag; if (g.flip()) a += ", 3";}
				break;
			}
			case 21:
			{
				static const char* v[] = {"-1","-0.001","-1e-30","(0/0)","(-1/0)","'x'","true","{}"};
				m = "def_reduction"; a = "0, " + T() + ", nil, 1, " + v[ g.below( sizeof(v)/sizeof(v[0]))];
				break;
			}
			case 22:
			{
				static const char* v[] = {"{5,5}","{0,0}","{6,5}","{9,2}","{-1,5}","{-5,-2}","{2147483647,2147483647}","{1.5,3}","{1,2.5}","{'x',3}","{1,'x'}","{1,{}}","{1,2147483648}","{4294967296,4294967298}","{1,4294967298}","{(0/0),3}","{0,1e300}","{1,2,3}","true","'x'","5"};
				m = "scope"; a = v[ g.below( sizeof(v)/sizeof(v[0]))];
				break;
			}
			case 23:
			{
				static const char* v[] = {"-1","-2147483648","2147483648","4294967296","4294967297","1.5","1e300","(0/0)","'x'","true","{}"};
				a = v[ g.below( sizeof(v)/sizeof(v[0]))];
				if (g.flip()) m = "step"; else {m = "scope"; a = "{2,9}, " + a;}
				break;
			}
			case 24:
			{
				static const char* v[] = {"true","{}","print","nil"};
				std::string nm = v[ g.below( sizeof(v)/sizeof(v[0]))];
				switch (g.below( 7))
				{
					case 0: m = "def_type"; a = "0, " + nm; break;
					case 1: m = "def_type_as"; a = "0, " + nm + ", " + T(); break;
					case 2: m = g.flip() ? "this_type" : "this_types"; a = "0, " + nm; break;
					case 3: m = "set_instance"; a = nm + ", {1}"; break;
					case 4: m = g.flip() ? "get_instance" : "this_instance"; a = nm; break;
					case 5: m = "resolve_type"; a = T0() + ", " + nm; break;
					default: m = "resolve_type"; a = list( false) + ", " + nm; break;
				}
				break;
			}
			default:
			{
				// too few or too many arguments
				static const char* v[][2] = {{"def_type",""},{"def_type","0"},{"def_type","0,'n',nil,{},1"},{"def_type_as","0,'n'"},{"def_type_as","0,'n',1,1"},{"this_type","0"},{"this_type","0,'a',{},1"},{"this_types","0"},{"this_types","0,'a',{}"},
					{"def_reduction","0,1,nil"},{"def_reduction","0,1,nil,1,0,0"},{"get_reduction","1"},{"get_reduction","0,1,nil,1"},{"get_reductions",""},{"derive_type","0"},{"derive_type","0,1,nil,nil,nil,nil"},{"resolve_type","0"},{"resolve_type","0,'a',nil,1"},
					{"type_name",""},{"type_name","1,1"},{"type_string",""},{"type_string","1,'.',1"},{"type_context",""},{"type_parameters","1,1"},{"type_nof_parameters",""},{"type_constructor","1,2"},{"type_scope",""},{"step","1,2"},{"scope","{0,1},0,0"},
					{"set_instance","'a'"},{"set_instance","'a',nil"},{"set_instance","'a',1,1"},{"get_instance",""},{"get_instance","'a',1"},{"this_instance",""},{"this_instance","'a','b'"},{"type_tree","1"},{"reduction_tree","1"},{"instance_tree",""},{"instance_tree","'a',1"}};
				int k = g.below( sizeof(v)/sizeof(v[0]));
				m = v[k][0]; a = v[k][1];
			}
		}
		std::string src = fmt( "return exec( '%s', typedb%s%s)", m.c_str(), a.empty() ? "" : ", ", a.c_str());
		c.log( "%s", src.c_str()+7);
		r = L.exec( src);
		if (!r.ok) fail( "harness-call", r.error + " in " + src);
		if (r[0].s == "CHANGED") fail( "refused-call-changed-state-" + m, src.substr( 7) + " " + r[1].s);
		if (r[0].s != "err") fail( "not-refused-" + m, src.substr( 7) + " returned " + r[1].s);
		c.label( "must-refuse-" + m);
	}
	c.count( "must-refuse", ncalls);
	c.nontrivial( st.ntypes >= 1);
}

// Library functions and the compiler object
const char* g_smallgrammar =
"% LANGUAGE 'test';\n% TYPESYSTEM 'ts';\n% CMDLINE 'cmd';\nIDENT : '[a-z]+';\nstart = prog (st);\nprog = stm prog (>>blk) | ;\nstm = IDENT ';' (st 7) | '{' prog '}' ({}sc {x=1});\n";

// one call of a library function or a run of the compiler as Lua expression
std::string libraryOp( Gen& g)
{
	std::string src;
	switch (g.weighted( {3,2,2,2,4,4,1}))
	{
		case 0: src = "mewa.tostring"; break;
		case 1: src = g.flip() ? "mewa.llvm_float_tohex" : "mewa.llvm_double_tohex"; break;
		case 2: src = "mewa.stacktrace"; break;
		case 3: src = g.flip() ? "mewa.version" : g.flip() ? "mewa.typedb" : "mewa.compiler"; break;
		case 4:
		{
			// load a mutated table
			int nm = g.range( 1, 3);
			src = "(function() local d = mkdef(); ";
			for (int k=0; k<nm; ++k)
			{
				src += "mutate( d, {"; int pl = g.range( 1, 5); for (int j=0; j<pl; ++j) src += fmt( "%d,", (int)g.below( 30));
				src += "}, " + wild( g, 2) + ") ";
			}
			src = src + "; return tryall( mewa.compiler, d) end)()";
			break;
		}
		case 5:
		{
			static const char* fn[] = {"'in.txt'","'tpl.txt'","'out.txt'","'nofile'","''","nil","'dbg.txt'","'.'"};
			std::vector<std::string> a;
			for (int k=0; k<5; ++k) a.push_back( g.chance( 1,8) ? wild( g) : fn[ g.below( 8)]);
			if (g.chance( 2,3)) a[1] = g.flip() ? "nil" : "{x=1}";
			if (g.chance( 2,3)) a[2] = "'in.txt'";
			int na = g.chance( 3,4) ? 5 : g.range( 0, 6);
			while ((int)a.size() > na) a.pop_back();
			while ((int)a.size() < na) a.push_back( wild( g));
			src = "tryall( comp.run, " + (g.chance( 1,12) ? wild( g) : std::string("comp"));
			for (auto& e : a) src += ", " + e;
			src += ")";
			if (src.find( '/') != std::string::npos && src.find( "(0/0)") == std::string::npos && src.find( "1/0") == std::string::npos) return "";
			break;
		}
		case 6: src = g.flip() ? "tostring( comp)" : "tostring( typedb)"; src = "tryall( tostring, comp)"; break;
	}
	if (src.find( "tryall") == std::string::npos)
	{
		std::string a; int na = g.range( 0, 4);
		for (int k=0; k<na; ++k)
		{
			std::string w = wild( g);
			// a table filled by __index up to infinity or the global environment is no finite input
			a += ", " + w;
		}
		src = "tryall( " + src + a + ")";
	}
	// no access to the variables of the harness itself
	for (size_t at; (at = src.find( "_G")) != std::string::npos;) src.replace( at, 2, "{}");
	// patterns of that length overflow the stack in std::regex (see known findings of G06)
	for (size_t at; (at = src.find( "70000")) != std::string::npos;) src.replace( at, 5, "1000");
	return src;
}

void t08_library( Gen& g, Case& c)
{
	static std::string deftab;
	if (deftab.empty())
	{
		auto p = generate( c, g_smallgrammar);
		if (p.exitCode || !p.outExists) fail( "harness-grammar", p.err);
		deftab = p.outFile;
	}
	Lua L;
	auto r = L.exec( g_prelude);
	if (!r.ok) fail( "harness", r.error);
	if (chdir( c.tmpdir.c_str())) fail( "harness", "chdir");
	struct Back {~Back(){if (chdir( "/")) abort();}} back;
	writeFile( c.tmpdir + "/in.txt", "a; { b; }");
	writeFile( c.tmpdir + "/tpl.txt", "{Code} {Source} {x} {");
	r = L.exec( "typesystem = setmetatable({},{__index=function(t,k) return function(node, ...) print( k, node) end end}); function mkdef() return " + deftab + "\nend\ntypedb = mewa.typedb()\n"
		"function tryall( f, ...) local r = table.pack( pcall( f, ...)); if r[1] then return 'ok', tostring(r[2]) else return 'err', tostring(r[2]) end end\n"
		"function mutate( t, path, v) local e = t; for i=1,#path do local keys = {}; for k,_ in pairs(e) do keys[ #keys+1] = k end; table.sort( keys, function(a,b) return tostring(a) < tostring(b) end);\n"
		"  if #keys == 0 then return end; local k = keys[ 1 + path[i] % #keys]; if i == #path or type( e[k]) ~= 'table' then e[k] = v; return end; e = e[k] end end\n"
		"comp = mewa.compiler( mkdef())\n");
	if (!r.ok) fail( "harness", r.error);
	int nops = g.range( 1, 4 + g.size/10);
	int nerr = 0, nok = 0;
	for (int i=0; i<nops; ++i)
	{
		std::string src = libraryOp( g);
		if (src.empty()) continue;
		c.log( "%s", src.c_str());
		r = L.exec( "return " + src);
		if (!r.ok) fail( "harness-call", r.error + " in " + src);
		if (r[0].s == "err") ++nerr; else ++nok;
		c.log( "   -> %s %s", r[0].s.c_str(), quote( r[1].s, 200).c_str());
	}
	r = L.exec( "comp = nil; typedb = nil; collectgarbage()");
	c.count( "library-calls", nops); c.count( "library-refused", nerr);
	c.label( nerr ? "library-refused" : "library-ok");
	c.nontrivial( nerr > 0 && nok > 0);
}

Register r08( Property{ "T08",
	"type database: at least two accepted calls and one refused definition, scope or instance call; library: at least one accepted and one refused call; refused: every call has exactly one argument that has to be refused",
	{{"typedb", t08_typedb, 5000, 60000, 30}, {"library", t08_library, 3000, 30000, 30}, {"refused", t08_refused, 3000, 60000, 20}},
	{"an explicit call of the metamethod __gc by the script is excluded",
	 "queries do at most a few thousand steps because types (6) and reductions (10) are few"}});

// ---------------------------------------------------------------- R05: memory and files
long g_bytes = 0, g_blocks = 0;
void onMalloc( const volatile void* p, size_t n) {if (p) {g_bytes += __sanitizer_get_allocated_size( p); ++g_blocks;}}
void onFree( const volatile void* p) {if (p) {g_bytes -= __sanitizer_get_allocated_size( p); --g_blocks;}}
int openFiles()
{
	int n = 0;
	for (int fd=0; fd<200; ++fd) if (fcntl( fd, F_GETFD) >= 0) ++n;
	return n;
}

// The function 'history' defined by the script is called again and again: memory and open files do not grow
void measure( Case& c, const std::string& script)
{
	static bool hooked = false;
	if (!hooked && __sanitizer_install_malloc_and_free_hooks( onMalloc, onFree)) hooked = true;
	if (!hooked) fail( "harness-hooks", "hooks not installed");
	fflush( stdout); fflush( stderr);
	struct Quiet
	{
		int so, se;
		Quiet() {so = dup( 1); se = dup( 2); int f = open( "/dev/null", O_WRONLY); dup2( f, 1); dup2( f, 2); close( f);}
		~Quiet() {fflush( stdout); fflush( stderr); dup2( so, 1); dup2( se, 2); close( so); close( se);}
	};
	std::string err;
	long life[ 3], lifeFiles[ 3];
	long rep[ 4], repFiles[ 4];
	{
		Quiet quiet;
		// [1] whole life of a Lua state
		for (int k=0; k<3 && err.empty(); ++k)
		{
			{
				Lua L;
				CallResult r = L.exec( script + "\nhistory()");
				if (!r.ok) err = r.error;
			}
			life[ k] = g_bytes; lifeFiles[ k] = openFiles();
		}
		// [2] repetitions in one Lua state
		if (err.empty())
		{
			Lua L;
			{
				CallResult r = L.exec( script);
				if (!r.ok) err = r.error;
			}
			for (int k=0; k<4 && err.empty(); ++k)
			{
				{
					CallResult r = L.exec( "for i=1,2 do history() end; collectgarbage(); collectgarbage()");
					if (!r.ok) err = r.error;
				}
				rep[ k] = g_bytes; repFiles[ k] = openFiles();
			}
		}
	}
	if (!err.empty()) fail( "harness-script", err);
	if (life[1] > life[0] && life[2] > life[1]) fail( "memory-lost", fmt( "memory not released when the Lua state is closed: %ld, %ld, %ld bytes after every cycle", life[0], life[1], life[2]));
	if (lifeFiles[2] > lifeFiles[1] && lifeFiles[1] > lifeFiles[0]) fail( "files-left-open", fmt( "%ld, %ld, %ld open files after every cycle", lifeFiles[0], lifeFiles[1], lifeFiles[2]));
	bool grows = true;
	for (int k=1; k<4; ++k) grows &= rep[k] > rep[k-1];
	if (grows) fail( "memory-grows", fmt( "memory grows with every repetition: %ld, %ld, %ld, %ld bytes", rep[0], rep[1], rep[2], rep[3]));
	if (repFiles[3] > repFiles[2] && repFiles[2] > repFiles[1]) fail( "files-grow", fmt( "%ld, %ld, %ld open files after every repetition", repFiles[1], repFiles[2], repFiles[3]));
}

void r05_typedb( Gen& g, Case& c)
{
	State st; st.width = 10; st.ntypes = 0;
	st.scopes = {"{0,2147483647}","{0,10}","{1,5}","{2,4}","{6,9}"};
	static const char* methods[] = {"def_type","set_instance","def_reduction","scope","step","def_type_as","get_instance","this_instance","this_type","this_types","reduction_tagmask","get_reduction","get_reductions",
		"derive_type","resolve_type","type_name","type_string","type_context","type_parameters","type_nof_parameters","type_constructor","type_scope","instance_tree","type_tree","reduction_tree"};
	std::string s = "function recurse() local t = {}; t.x = t; return t end\nfunction deep( n) local t = {}; for i=1,n do t = {t} end; return t end\nfunction walk( t) if type(t) == 'userdata' and t.chld then for n in t:chld() do if n.list then n:list() end; if n.instance then n:instance() end; n:scope(); walk( n) end end end\n"
		"-- handles on many nodes of a tree at the same time, iterators not run to their end, some handles released earlier than others\n"
		"function HOLD( nn) local keep = {}; local function hold( n) keep[ #keep+1] = n; if n.list then keep[ #keep+1] = n:list() end; for c in n:chld() do hold( c); if #keep > nn then break end end end\n"
		"for k,f in ipairs{ 'type_tree','reduction_tree','instance_tree'} do local ok, t = pcall( typedb[ f], typedb, k == 3 and 'inst' or nil); if not ok then ok, t = pcall( typedb[ f], typedb) end; if ok and type(t) == 'userdata' then pcall( hold, t); pcall( hold, t); local f,s,v = t:chld(); for i=1,2 do v = f(s,v); keep[ #keep+1] = v or f; if not v then break end end end; if nn % 2 == 0 then for i=1,#keep,2 do keep[i] = false end; if nn % 5 == 0 then collectgarbage() end end end end\n"
		"REFUSED = 0; OK = 0\nfunction exec( f, self, ...) local ok, t = pcall( typedb[ f], self, ...); if ok then OK = OK + 1; pcall( walk, t) else REFUSED = REFUSED + 1 end end\n"
		"function history()\ntypedb = mewa.typedb(); other = mewa.typedb()\n";
	int nops = g.range( 1, 6 + g.size/2), nred = 0;
	for (int i=0; i<nops; ++i)
	{
		std::string m = g.flip() ? methods[ g.below( 6)] : methods[ g.below( sizeof(methods)/sizeof(methods[0]))];
		if ((m == "def_type" && st.ntypes >= 6) || (m == "def_reduction" && nred >= 10)) m = "get_reductions";
		std::string a = args( g, st, m);
		s += fmt( "exec( '%s', %s%s)\n", m.c_str(), g.chance( 1,25) ? wild( g).c_str() : "typedb", a.c_str());
		if (m == "def_type") ++st.ntypes;
		if (m == "def_reduction") ++nred;
	}
	// closures that refer to the database, trees that outlive it, contents larger than the buffers kept inside
	static const char* bulk[] = {
		"local td = typedb; for i=1,NN do exec( 'def_type', typedb, 0, 'bulk' .. i, function() return td end) end",
		"local td = typedb; for i=1,NN do exec( 'set_instance', typedb, 'inst' .. (i % 50), {td}) end",
		"local td, ok, t = typedb, pcall( typedb.def_type, typedb, 0, 'root'); local p = {}; for i=1,NN do p[i] = {type=t, constructor={td,p}} end; exec( 'def_type', typedb, 0, 'withparameters', {td}, p); exec( 'type_parameters', typedb, t+1); exec( 'this_types', typedb, 0, 'withparameters')",
		"local ids = {}; for i=1,NN do ids[i] = typedb:def_type( 0, 'node' .. i); if i > 1 then exec( 'def_reduction', typedb, ids[i], ids[i > 3 and i-3 or i-1], {typedb}, 1, 0.001) end end; exec( 'get_reductions', typedb, ids[1]); exec( 'derive_type', typedb, ids[NN], ids[1]); exec( 'resolve_type', typedb, ids[1], 'nothing')",
		"local ok, t = pcall( typedb.instance_tree, typedb, 'inst1'); local ok2, u = pcall( typedb.reduction_tree, typedb); local ok3, v = pcall( typedb.type_tree, typedb); typedb = mewa.typedb(); collectgarbage(); pcall( walk, t); pcall( walk, u); pcall( walk, v)",
		"local co = coroutine.wrap( function() typedb = mewa.typedb(); exec( 'set_instance', typedb, 'inst1', {typedb}); error( 'gone') end); pcall( co)",
		"for i=1,math.min( NN, 300) do pcall( typedb.scope, typedb, {i*10,i*10+10}); exec( 'def_type', typedb, 0, 'scoped'); exec( 'set_instance', typedb, 'inst', i); if i % 3 == 0 then pcall( typedb.scope, typedb, {i*10+2,i*10+5}); exec( 'def_type', typedb, 0, 'scoped', nil, {1}); exec( 'def_reduction', typedb, 0, 1, nil, 1) end end; HOLD( NN)",
		"for i=1,math.min( NN, 20) do HOLD( i) end"};
	if (g.chance( 1,4))
	{
		int nb = g.range( 1, 3);
		for (int i=0; i<nb; ++i)
		{
			static const int nn[] = {2,5,60,300,1200};
			s += fmt( "do local NN = %d; ", nn[ g.below( 5)]) + bulk[ g.below( sizeof(bulk)/sizeof(bulk[0]))] + " end\n";
			nops += 4;
		}
	}
	s += "typedb = nil; other = nil\nend\n";
	for (size_t at; (at = s.find( "_G")) != std::string::npos;) s.replace( at, 2, "{}");
	c.logs( s); c.key( s);
	c.nontrivial( nops >= 4);
	measure( c, s);
}

void r05_library( Gen& g, Case& c)
{
	static std::string deftab;
	if (deftab.empty())
	{
		auto p = generate( c, g_smallgrammar);
		if (p.exitCode || !p.outExists) fail( "harness-grammar", p.err);
		deftab = p.outFile;
	}
	if (chdir( c.tmpdir.c_str())) fail( "harness", "chdir");
	struct Back {~Back(){if (chdir( "/")) abort();}} back;
	static const char* sources[] = {"a; { b; }","","a","a; } b;","a; ? b;","{{{{ a; }}}}","a; b; c; d; e; f; { g; h; { i; } j; }",nullptr};
	static std::string deep;
	if (deep.empty()) {for (int i=0; i<400; ++i) deep += "{ a; "; for (int i=0; i<400; ++i) deep += "}";}
	sources[ 7] = deep.c_str();
	writeFile( c.tmpdir + "/in.txt", sources[ g.below( 8)]);
	writeFile( c.tmpdir + "/in2.txt", sources[ g.below( 8)]);
	writeFile( c.tmpdir + "/tpl.txt", "{Code} {Source} {Sec} {x} {");
	// what the functions do
	static const char* acts[] = {"print( k, node)","print_section( 'Sec', node)","debug( node)","error( 'failed')","error( {})","error( mewa.tostring( node))","local t = mewa.typedb(); t:def_type( 0, 'x', node); t:def_type( 1)","comp:run( nil, nil, 'in2.txt', 'out2.txt', 'dbg2.txt')",
		"pcall( comp.run, comp, nil, nil, 'in2.txt', 'out2.txt', 'dbg2.txt')","KEEP = node","print( recurse())","return coroutine.wrap( function() print( 'x'); error( 'y') end)()","local x = nil + 1","local x = mewa.compiler( mkdef()); x:run( 'tpl.txt', nil, 'in2.txt', 'out2.txt')","print( ('x'):rep( 10000))","debug( ('x'):rep( 10000))","print_section()"};
	std::string act;
	int na = g.range( 0, 3);
	for (int i=0; i<na; ++i) act += "if N % " + fmt( "%d", g.range( 1, 4)) + " == 0 then " + acts[ g.below( sizeof(acts)/sizeof(acts[0]))] + " end\n";
	std::string s = "function recurse() local t = {}; t.x = t; return t end\nfunction deep( n) local t = {}; for i=1,n do t = {t} end; return t end\n"
		"typesystem = setmetatable({},{__index=function(t,k) return function(node, ...) N = N + 1; if D > 2 then return end; D = D + 1; \n" + act + " for i,a in ipairs( node.arg) do if a.call then a.call.proc( a) end end; D = D - 1 end end})\nfunction mkdef() return " + deftab + "\nend\n"
		"function tryall( f, ...) local r = table.pack( pcall( f, ...)); if r[1] then return 'ok', tostring(r[2]) else return 'err', tostring(r[2]) end end\n"
		"function mutate( t, path, v) local e = t; for i=1,#path do local keys = {}; for k,_ in pairs(e) do keys[ #keys+1] = k end; table.sort( keys, function(a,b) return tostring(a) < tostring(b) end);\n"
		"  if #keys == 0 then return end; local k = keys[ 1 + path[i] % #keys]; if i == #path or type( e[k]) ~= 'table' then e[k] = v; return end; e = e[k] end end\n"
		"function history() N = 0; D = 0\ntypedb = mewa.typedb(); other = mewa.typedb(); " + (g.flip() ? "" : "comp = comp or ") + "comp = mewa.compiler( mkdef())\n";
	size_t at;
	if ((at = s.find( "comp = comp or comp = ")) != std::string::npos) s.replace( at, 22, "comp = comp or ");
	int nops = g.range( 1, 4 + g.size/6);
	for (int i=0; i<nops; ++i)
	{
		std::string op = g.flip() ? fmt( "tryall( comp.run, comp, %s, nil, 'in.txt', %s%s)", g.flip() ? "nil" : "'tpl.txt'", g.chance( 1,6) ? g.flip() ? "'nodir/out'" : "'/dev/full'" : "'out.txt'", g.flip() ? "" : g.chance( 1,5) ? g.flip() ? ", '/dev/full'" : ", 'nodir/dbg'" : ", 'dbg.txt'") : libraryOp( g);
		if (op.empty()) continue;
		s += "do local _ = " + op + " end\n";
	}
	s += "typedb = nil; other = nil; KEEP = nil\nend\n";
	c.logs( s); c.key( s);
	c.nontrivial( nops >= 2);
	measure( c, s);
}

Register r05( Property{ "R05", "at least four calls of a type database, two calls of library functions or runs of a compiler",
	{{"typedb", r05_typedb, 400, 10000, 60}, {"library", r05_library, 400, 10000, 60}},
	{"Growth is judged over several repetitions of the same history: memory kept once is no leak", "Sizes of blocks as counted by the allocation hooks of the sanitizer"}});

} // namespace
