// U01..U03: helper functions of the library
#include "mewa.hpp"
#include <climits>
#include <cmath>
#include <cfloat>
#include <sys/stat.h>
#include <unistd.h>
using namespace pbt;
using namespace mw;

namespace {

double bitsToDouble( uint64_t b) {double d; memcpy( &d, &b, 8); return d;}
uint64_t doubleToBits( double d) {uint64_t b; memcpy( &b, &d, 8); return b;}

double genDouble( Gen& g)
{
	switch (g.below( 9))
	{
		case 0: return (double)(int64_t)g.below( 2000) - 1000;
		case 1: return bitsToDouble( g.below( UINT64_MAX));				// any
		case 2:										// in or around the range of floats
		{
			uint64_t e = 1023 - 152 + g.below( 285);
			return bitsToDouble( (g.below( 2) << 63) | (e << 52) | g.below( 1ull<<52));
		}
		case 3:										// near to a float: bits below the float mantissa few
		{
			uint64_t e = 1023 - 152 + g.below( 285);
			static const uint64_t low[] = {0,1,0x0FFFFFFF,0x10000000,0x10000001,0x1FFFFFFF,0x08000000};
			return bitsToDouble( (g.below( 2) << 63) | (e << 52) | (g.below( 1ull<<23) << 29) | low[ g.below( 7)]);
		}
		case 4:										// carry over the whole mantissa
		{
			uint64_t e = 1023 - 152 + g.below( 285);
			return bitsToDouble( (g.below( 2) << 63) | (e << 52) | (((1ull<<52)-1) & ~g.below( 1ull << g.below( 34))));
		}
		case 5:
		{
			static const double v[] = {0.0,-0.0,INFINITY,-INFINITY,FLT_MAX,-FLT_MAX,FLT_MIN,-FLT_MIN,DBL_MAX,DBL_MIN,5e-324,1.401298464324817e-45,7.006492321624085e-46,3.4028235677973366e38,3.4028235677973362e38,1e39,4.21,4.25,0.1,1e-40};
			return v[ g.below( sizeof(v)/sizeof(v[0]))];
		}
		case 6: return std::ldexp( 1.0 + (double)g.below( 1000)/1000, g.range( -1070, 1000));
		case 7: return (double)(int64_t)g.below( 1ull<<60);
		default: return ((double)g.below( 1000000))/1000;
	}
}
bool parseHex( const std::string& s, uint64_t& rt)
{
	if (s.empty() || s.size() > 16) return false;
	rt = 0;
	for (char c : s)
	{
		int d = c >= '0' && c <= '9' ? c-'0' : c >= 'A' && c <= 'F' ? c-'A'+10 : c >= 'a' && c <= 'f' ? c-'a'+10 : -1;
		if (d < 0) return false;
		rt = (rt << 4) | (uint64_t)d;
	}
	return true;
}
// independent of the conversions of the compiler: the float grid as multiples of a power of 2
bool isFloat( double d)
{
	if (d == 0 || std::isinf( d)) return true;
	int e; std::frexp( std::fabs( d), &e);		// |d| = f * 2^e, f in [0.5,1)
	int ulp = std::max( e - 24, -149);
	if (e > 128) return false;
	double q = std::ldexp( d, -ulp);
	return q == std::floor( q);
}
double floatUp( double d)		// next float of larger magnitude
{
	int e; d = std::fabs( d);
	if (d == 0) return std::ldexp( 1.0, -149);
	std::frexp( d, &e);
	return d + std::ldexp( 1.0, std::max( e - 24, -149));
}
double floatDown( double d)		// next float of smaller magnitude
{
	int e; d = std::fabs( d);
	if (d == 0) return 0;
	double m = std::frexp( d, &e);
	int ulp = std::max( e - 24, -149);
	if (m == 0.5 && ulp > -149) --ulp;
	return d - std::ldexp( 1.0, ulp);
}
void u01( Gen& g, Case& c)
{
	Lua L;
	int n = 1 + g.size;
	int nround = 0, nspecial = 0;
	for (int i=0; i<n; ++i)
	{
		double x = genDouble( g);
		if (std::isnan( x)) x = 1.0;
		c.log( "%.17g (%a)", x, x);
		auto r = L.function( "mewa", "llvm_double_tohex", {Val::num( x)});
		if (!r.ok) fail( "error", "llvm_double_tohex: " + r.error);
		uint64_t b;
		if (!parseHex( r[0].s, b)) fail( "format", "llvm_double_tohex returned " + r[0].repr());
		if (b != doubleToBits( x)) fail( "double", fmt( "llvm_double_tohex(%.17g) is %s, the bits are %llX", x, r[0].s.c_str(), (unsigned long long)doubleToBits( x)));
		r = L.function( "mewa", "llvm_float_tohex", {Val::num( x)});
		if (!r.ok) fail( "error", "llvm_float_tohex: " + r.error);
		if (!parseHex( r[0].s, b)) fail( "format", "llvm_float_tohex returned " + r[0].repr());
		double y = bitsToDouble( b);
		if (std::isnan( y) || !isFloat( y)) fail( "no-float", fmt( "llvm_float_tohex(%.17g) is %s = %.17g that is not representable as float", x, r[0].s.c_str(), y));
		if (std::signbit( x) != std::signbit( y)) fail( "sign", fmt( "llvm_float_tohex(%.17g) is %s = %.17g", x, r[0].s.c_str(), y));
		if (x != y) ++nround;
		if (std::isinf( x) || x == 0) {++nspecial; if (x != y) fail( "special", fmt( "llvm_float_tohex(%.17g) is %s = %.17g", x, r[0].s.c_str(), y)); continue;}
		if (std::isinf( y))
		{
			// has to be at least halfway between FLT_MAX and 2^128
			if (std::fabs( x) < std::ldexp( 1.0, 128) - std::ldexp( 1.0, 103)) fail( "not-nearest", fmt( "llvm_float_tohex(%.17g) is infinity", x));
			continue;
		}
		double d = std::fabs( y), a = std::fabs( x), up = floatUp( d), dn = floatDown( d);
		// differences of doubles so close are exact
		double err = std::fabs( d - a);
		if (err > std::fabs( up - a) || (d != 0 && err > std::fabs( a - dn))) fail( "not-nearest", fmt( "llvm_float_tohex(%.17g) is %s = %.17g, %.17g or %.17g is nearer", x, r[0].s.c_str(), y, dn, up));
	}
	c.count( "numbers", n); c.count( "rounded", nround);
	c.nontrivial( nround > 0);
}

// ------------------------------------------------------------------ U02
std::string genStr( Gen& g, bool dots)
{
	static const char* special[] = {"","\"","'","\\","\n","\t","\r","\0","a b","end","nil","true","1","0x1","[[","]]","--","_G","x\\","\\\"","\\n","%d","a=b","{","}","\x7f","\xff","\xc3\xa4","a\"b\"c","\x01" "23","\\0" "9","\x1b[0m","return","goto","_","a1","9a","\xef\xbb\xbf"};
	switch (g.below( 4))
	{
		case 0: return fmt( "k%d", (int)g.below( 30));
		case 1: {int i = (int)g.below( sizeof(special)/sizeof(special[0])); return i == 7 ? std::string( 1, '\0') : std::string( special[i]);}
		case 2:
		{
			std::string s = g.bytes( g.range( 0, 8));
			if (!dots) for (auto& ch : s) if (ch == '.') ch = 'x';
			return s;
		}
		default: {std::string s; int n = g.range( 1, 4); for (int i=0; i<n; ++i) {int k = (int)g.below( sizeof(special)/sizeof(special[0])); s += k == 7 ? std::string( 1, '\0') : std::string( special[k]);} return s;}
	}
}
double genNum( Gen& g)
{
	switch (g.below( 6))
	{
		case 0: return (double)g.below( 20);
		case 1: return -(double)g.below( 2000);
		case 2: return (double)g.below( 1ull<<53);
		case 3: {static const double v[] = {2147483647,2147483648.0,-2147483648.0,-2147483649.0,4294967296.0,9007199254740992.0,-9007199254740992.0,999999,1000000,1e15,1e16,123456789012345.0}; return v[ g.below( 12)];}
		case 4: {static const double v[] = {0.5,-0.25,1.5,0.1,1e-9,3.14159265358979,1e300,-1e-300,12345.678,0.333333333333333314829616256247}; return v[ g.below( 10)];}
		default: return ((double)g.below( 1ull<<40))/1024;
	}
}
Val genVal( Gen& g, int depth, int& budget, bool dots, int& maxdepth, int level)
{
	--budget;
	int t = level == 0 ? (g.chance( 1,8) ? (int)g.below( 3) : 3) : depth > 0 && budget > 0 ? (int)g.weighted( {3,3,1,4}) : (int)g.weighted( {3,3,1});
	switch (t)
	{
		case 0: return Val::num( dots ? genNum( g) : (double)g.below( 100));
		case 1: return Val::str( genStr( g, dots));
		case 2: return Val::boolean( g.flip());
		default:
		{
			Val rt = Val::table();
			maxdepth = std::max( maxdepth, level+1);
			int n = level == 0 ? g.range( 1, 8) : g.small( 8);
			std::set<std::string> used;
			int mode = (int)g.below( 4);		// 0 array, 1 strings, 2 mixed, 3 holes
			for (int i=0; i<n && budget > 0; ++i)
			{
				Val key;
				if (mode == 0) key = Val::num( i+1);
				else if (mode == 1) key = Val::str( genStr( g, dots));
				else if (mode == 2) key = g.flip() ? Val::num( i+1) : Val::str( genStr( g, dots));
				else key = Val::num( g.chance( 1,4) && dots ? std::floor( genNum( g)) : g.range( -1, n+2));
				if (key.t == Val::Num && key.n == 0) key.n = 0;
				if (!used.insert( key.repr()).second) continue;
				Val v = genVal( g, depth-1, budget, dots, maxdepth, level+1);
				rt.tab.push_back( {key, v});
			}
			return rt;
		}
	}
}
void shuffle( Gen& g, Val& v)
{
	for (size_t i=1; i<v.tab.size(); ++i) std::swap( v.tab[i], v.tab[ g.below( i+1)]);
	for (auto& e : v.tab) shuffle( g, e.second);
}
Val evaluate( Lua& L, const std::string& expr)
{
	auto r = L.exec( "return " + expr, "=tostring");
	if (!r.ok) fail( "no-lua-expression", "mewa.tostring returned " + quote( expr, 3000) + " that is no Lua expression: " + r.error);
	return r[0];
}
Val cut( const Val& v, int level, int limit)
{
	if (v.t != Val::Tab) return v;
	if (level >= limit) return Val::str( "@@@");
	Val rt = v;
	for (auto& e : rt.tab) e.second = cut( e.second, level+1, limit);
	return rt;
}
void u02( Gen& g, Case& c)
{
	Lua L;
	int budget = 2 + g.size*2, md = 0;
	Val v = genVal( g, 1 + g.size/12, budget, true, md, 0);
	if (g.chance( 1,30)) {v = Val::table(); int n = g.range( 1000, 3000); for (int i=1; i<=n; ++i) v.tab.push_back( {Val::num( i), Val::num( i*3)});}
	c.log( "%s", v.repr().substr( 0, 3000).c_str());
	auto r = L.function( "mewa", "tostring", {v, Val::num( 0)});
	if (!r.ok) fail( "error", r.error);
	std::string text = r[0].s;
	Val back = evaluate( L, text);
	if (back.repr() != v.repr()) fail( "value-lost", "mewa.tostring returned " + quote( text, 3000) + " that evaluates to " + back.repr());
	r = L.function( "mewa", "tostring", {v, Val::num( 0), Val::boolean( true)});
	if (!r.ok) fail( "error", r.error);
	back = evaluate( L, r[0].s);
	if (back.repr() != v.repr()) fail( "value-lost-indent", "mewa.tostring with indent returned " + quote( r[0].s, 3000) + " that evaluates to " + back.repr());
	// all depths above the depth of the value are no limit
	r = L.function( "mewa", "tostring", {v, Val::num( md + 2 + g.range( 0, 3))});
	if (!r.ok || r[0].s != text) fail( "depth-not-reached", "mewa.tostring with a depth not reached returned " + quote( r[0].s, 3000) + " without " + quote( text, 3000));
	Val sh = v; shuffle( g, sh);
	r = L.function( "mewa", "tostring", {sh, Val::num( 0)});
	if (!r.ok || r[0].s != text) fail( "insertion-order", "mewa.tostring returned " + quote( r[0].s, 3000) + " for other insertion order " + quote( text, 3000));
	c.count( "values", 2 + g.size*2 - budget);
	c.nontrivial( md >= 1 && !v.tab.empty());
	if (md >= 3) c.label( "depth>=3");
	for (auto& e : v.tab) {if (e.first.t == Val::Str && e.second.t == Val::Str) c.label( "string-keys");}
}
void u02_depth( Gen& g, Case& c)
{
	Lua L;
	int budget = 4 + g.size*2, md = 0;
	Val v = genVal( g, 2 + g.size/12, budget, false, md, 0);
	// no string may look like the abbreviation
	int limit = g.range( 2, 2 + md + 1);
	c.log( "maxdepth %d of %s", limit, v.repr().substr( 0, 3000).c_str());
	auto r = L.function( "mewa", "tostring", {v, Val::num( limit), Val::boolean( g.flip())});
	if (!r.ok) fail( "error", r.error);
	std::string s;
	for (size_t i=0; i<r[0].s.size(); ++i) {if (r[0].s.compare( i, 3, "...") == 0) {s += "\"@@@\""; i += 2;} else s += r[0].s[i];}
	Val back = evaluate( L, s);
	Val want = cut( v, 0, limit-1);
	if (back.repr() != want.repr()) fail( "depth", fmt( "mewa.tostring with maxdepth %d returned ", limit) + quote( r[0].s, 3000) + " expected the equivalent of " + want.repr());
	if (want.repr() != v.repr()) c.nontrivial();
	// a cycle: terminates and contains everything above the depth
	std::string path = "t";
	int pl = g.range( 1, 4);
	std::string src = "local t = {} local e = t "; for (int i=0; i<pl; ++i) src += fmt( "e.k%d = {v=%d} e = e.k%d ", i, i, i);
	int cd = g.range( 1, 20);
	src += fmt( "e.back = t return mewa.tostring( t, %d)", cd);
	r = L.exec( src);
	if (!r.ok) fail( "cycle", r.error);
	int open = 0, maxopen = 0;
	for (char ch : r[0].s) {if (ch == '{') maxopen = std::max( maxopen, ++open); if (ch == '}') --open;}
	if (open || maxopen > cd) fail( "cycle", fmt( "maxdepth %d of a cyclic table returned ", cd) + r[0].s);
	c.log( "cycle of %d, maxdepth %d", pl, cd);
}

// ------------------------------------------------------------------ U03
void u03( Gen& g, Case& c)
{
	Lua L;
	// functions calling each other in a chain, spread over files with short and long paths
	std::string dir = c.tmpdir;
	int ndirs = g.chance( 1,3) ? g.range( 1, 4) : 0;
	for (int i=0; i<ndirs; ++i) {dir += "/a_directory_with_a_long_name"; mkdir( dir.c_str(), 0700);}
	int nfiles = g.range( 1, 3), nfuncs = g.range( 1, 2 + g.size/8);
	struct F {std::string name; int file; int line; bool str;};
	std::vector<F> funcs;
	std::vector<std::string> src( nfiles), path( nfiles);
	std::vector<int> line( nfiles, 1);
	for (int i=0; i<nfiles; ++i) path[i] = dir + fmt( "/f%d.lua", i);
	static const char* words[] = {"traverse","visit","error","node","eval","x","stack","utils"};
	std::string useTable = "utils = {}\n";
	std::vector<std::string> ids;
	for (int i=0; i<nfuncs; ++i)
	{
		F f; f.name = std::string( g.chance( 1,3) ? "utils." : "") + words[ g.below( 8)] + fmt( "_%d", i); f.file = (int)g.below( nfiles); f.str = false;
		funcs.push_back( f);
	}
	std::vector<int> order( nfuncs); for (int i=0; i<nfuncs; ++i) order[i] = i;
	for (int i=1; i<nfuncs; ++i) std::swap( order[i], order[ g.below( i+1)]);
	for (int oi : order)
	{
		F& f = funcs[ oi];
		int blank = g.range( 0, 3);
		for (int k=0; k<blank; ++k) {src[ f.file] += k % 2 ? "-- comment\n" : "\n"; ++line[ f.file];}
		f.line = line[ f.file];
		std::string body = oi+1 < nfuncs ? "local r = " + funcs[ oi+1].name + "( n) return r" : std::string( "local r = mewa.stacktrace( unpack( ARGS)) return r");
		bool one = g.flip();
		std::string head = std::string( g.chance( 1,4) ? "\t" : "") + "function " + f.name + (g.chance( 1,4) ? " " : "") + "( n)";
		src[ f.file] += head + (one ? " " : "\n\t") + body + (one ? " end\n" : "\nend\n");
		line[ f.file] += one ? 1 : 3;
	}
	// recursion of the first function
	std::string mainsrc = "local r = " + funcs[0].name + "( 1)\nRESULT = r\n";
	std::string mainpath = dir + "/main.lua";
	writeFile( mainpath, mainsrc);
	for (int i=0; i<nfiles; ++i) writeFile( path[i], src[i]);
	auto r = L.exec( "unpack = unpack or table.unpack\n" + useTable);
	if (!r.ok) fail( "harness", r.error);
	for (int i=0; i<nfiles; ++i) {r = L.exec( "dofile( '" + path[i] + "')"); if (!r.ok) fail( "harness", r.error);}
	bool hasDepth = g.flip(), hasIgnore = g.flip();
	int depth = g.range( 1, nfuncs + 2);
	std::vector<std::string> ign; if (hasIgnore) {int n = g.range( 0, 3); for (int i=0; i<n; ++i) ign.push_back( g.chance( 1,4) ? "utils." : words[ g.below( 8)]);}
	std::string args = hasDepth ? fmt( "%d", depth) : std::string( "nil");
	if (hasIgnore) {args += ",{"; for (auto& s : ign) args += "'" + s + "',"; args += "}";}
	bool mem = g.chance( 1,5);	// main chunk from a string
	r = L.exec( "ARGS = {n=2," + args + "}\nlocal a = ARGS; ARGS = {a[1], a[2]}; local u = unpack; unpack = function( t) return u( t, 1, 2) end");
	if (!r.ok) fail( "harness", r.error);
	c.log( "stacktrace(%s) chain:", args.c_str());
	for (auto& f : funcs) c.log( "  %s file %d line %d", f.name.c_str(), f.file, f.line);
	if (mem) r = L.exec( mainsrc, "the chunk"); else r = L.exec( "dofile( '" + mainpath + "')");
	if (!r.ok) fail( "error", "mewa.stacktrace raised " + r.error);
	r = L.exec( "return RESULT");
	Val have = r[0];
	std::vector<Val> want;
	auto add = [&]( int ln, const std::string& file, const std::string& fn)
	{
		if (hasDepth && (int)want.size() >= depth) return;
		for (auto& s : ign) if (!fn.empty() && fn.find( s) != std::string::npos) return;
		Val e = Val::table();
		if (ln) e.tab.push_back( {Val::str( "line"), Val::num( ln)});
		if (!fn.empty()) e.tab.push_back( {Val::str( "function"), Val::str( fn)});
		e.tab.push_back( {Val::str( "file"), Val::str( file)});
		want.push_back( e);
	};
	for (int i=nfuncs-1; i>=0; --i) add( funcs[i].line, path[ funcs[i].file], funcs[i].name);
	if (!mem) add( 0, mainpath, "");
	// names with a space before the parenthesis
	int n = have.len();
	int wn = (int)want.size();
	if (mem)
	{
		// one element more for the chunk that is no file
		if (!(hasDepth && wn >= depth)) {if (n != wn+1) fail( "length", fmt( "stacktrace has %d elements, expected %d: ", n, wn+1) + have.repr()); n = wn;}
	}
	if (n != wn) fail( "length", fmt( "stacktrace has %d elements, expected %d: ", n, wn) + have.repr());
	for (int i=1; i<=n; ++i)
	{
		Val h = have.at( i);
		for (auto& e : h.tab) if (e.first.s == "function") while (!e.second.s.empty() && e.second.s.back() == ' ') e.second.s.pop_back();
		if (h.repr() != want[ i-1].repr()) fail( "element", fmt( "element %d of the stacktrace is ", i) + have.at( i).repr() + " expected " + want[ i-1].repr());
	}
	c.nontrivial( nfuncs >= 2 && wn >= 1);
	if (ndirs) c.label( "long-path");
	if (mem) c.label( "chunk-without-file");
	if (hasIgnore && !ign.empty()) c.label( "ignore");
}

Register ru01( Property{ "U01", "at least one number of the case is no float and has to be rounded",
	{{"tohex", u01, 40000, 600000, 20}}, {"NaN is excluded"}});
Register ru02( Property{ "U02", "the value is a non empty table; with a depth limit: something is abbreviated",
	{{"roundtrip", u02, 20000, 300000, 20}, {"depth", u02_depth, 10000, 150000, 20}}, {"numbers finite", "keys integer or string"}});
Register ru03( Property{ "U03", "a chain of at least two functions with a non empty result",
	{{"stacktrace", u03, 25000, 400000, 20}}, {"functions defined with 'function name(' at the start of a line, no tail calls"}});

} // namespace
