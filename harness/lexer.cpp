// L01..L03: the lexer of generated compilers
#include "mewa.hpp"
#include <regex>
#include <bitset>
using namespace pbt;
using namespace mw;

namespace {

// ---------------------------------------------------------------- pattern generation
struct Rx
{
	enum T {Lit, Class, Any, Seq, Alt, Group, Rep} t = Lit;
	std::string lit;			// Lit: bytes matched,  Class: candidates that match
	std::string src;			// Lit, Class: regular expression source
	std::vector<Rx> sub;
	int lo = 1, hi = 1;			// Rep
	bool capture = true;
};
const char* g_literals = "abcABCxyz019_";
const char* g_puncts = "+-*/.$#=<>!%&|^(){}[]?:;,~@";

std::string escapeLit( char c)
{
	if (strchr( "+-*.$#&|^(){}[]?/", c)) return std::string( "\\") + c;
	return std::string( 1, c);
}
Rx genClass( Gen& g)
{
	Rx rt; rt.t = Rx::Class;
	bool inverse = g.chance( 1, 5);
	std::bitset<256> set;
	std::string in;
	int n = 1 + g.small( 3);
	for (int i=0; i<n; ++i)
	{
		switch (g.weighted( {4,4,2,1,1}))
		{
			case 0: {char c = g_literals[ g.below( 13)]; in += c; set.set( (unsigned char)c); break;}
			case 1:
			{
				static const char* ranges[] = {"a-z","0-9","A-Z","a-c","1-9","A-C","x-z","!-/","0-0","p-~"};
				const char* r = ranges[ g.below( 10)];
				in += r;
				for (int c=(unsigned char)r[0]; c<=(unsigned char)r[2]; ++c) set.set( c);
				break;
			}
			case 2: {char c = "+*/.$#=<>!%&|(){}?:;,~@_"[ g.below( 24)]; in += c; set.set( (unsigned char)c); break;}
			case 3: {char c = "]-^[."[ g.below( 5)]; in += std::string( "\\") + c; set.set( (unsigned char)c); break;}
			default: if (i == 0) break; if (!in.empty()) {in += ' '; set.set( ' ');} break;
		}
	}
	if (in.empty()) {in = "a"; set.set( 'a');}
	if (in[0] == ' ') in = "q" + in, set.set( 'q');
	if (g.chance( 1, 8)) {in += "-"; set.set( '-');}	// trailing minus is literal
	if (in[0] == '^') in = "a" + in, set.set( 'a');
	rt.src = std::string( "[") + (inverse ? "^" : "") + in + "]";
	for (int c=32; c<127; ++c) if (set.test( c) != inverse) rt.lit.push_back( (char)c);
	if (inverse) {rt.lit += "\n"; rt.lit += "\xC3";}
	if (rt.lit.empty()) rt.lit = "a";
	return rt;
}
bool hasRepetition( const Rx& r)
{
	if (r.t == Rx::Rep) return true;
	for (auto& s : r.sub) if (hasRepetition( s)) return true;
	return false;
}
Rx genRx( Gen& g, int depth)
{
	Rx rt;
	switch (depth <= 0 ? g.weighted( {5,3,1}) : g.weighted( {5,4,1,5,3,3,5}))
	{
		case 0:
			if (g.chance( 1, 5))
			{
				char c = g_puncts[ g.below( strlen( g_puncts))];
				rt.lit = std::string( 1, c); rt.src = escapeLit( c);
			}
			else if (g.chance( 1, 14)) {rt.lit = g.flip() ? "\xC3\xA9" : "\xE2\x86\x92"; rt.src = rt.lit;}
			else {rt.lit = std::string( 1, g_literals[ g.below( 13)]); rt.src = rt.lit;}
			return rt;
		case 1: return genClass( g);
		case 2:
			rt.t = Rx::Class;
			if (g.flip()) {rt.src = "."; rt.lit = "ab01+ ";}
			else switch (g.below( 4))
			{
				case 0: rt.src = "\\d"; rt.lit = "0123456789"; break;
				case 1: rt.src = "\\w"; rt.lit = "abz_09XY"; break;
				case 2: rt.src = "[[:alpha:]]"; rt.lit = "abzXY"; break;
				default: rt.src = "[\\d_]"; rt.lit = "0189_"; break;
			}
			return rt;
		case 3: case 6:
		{
			rt.t = Rx::Seq;
			int n = 2 + g.small( 2);
			for (int i=0; i<n; ++i) rt.sub.push_back( genRx( g, depth-1));
			return rt;
		}
		case 4:
		{
			rt.t = Rx::Group;
			rt.capture = !g.chance( 1, 8);
			Rx alt; alt.t = Rx::Alt;
			int n = 1 + g.small( 2);
			for (int i=0; i<n; ++i) alt.sub.push_back( genRx( g, depth-1));
			rt.sub.push_back( alt);
			return rt;
		}
		default:
		{
			rt.t = Rx::Rep;
			Rx body = genRx( g, depth-1);
			if (body.t == Rx::Seq || body.t == Rx::Rep || body.t == Rx::Alt || (body.t == Rx::Lit && (unsigned char)body.lit[0] >= 128))
			{
				Rx grp; grp.t = Rx::Group; grp.sub.push_back( body); body = grp;
			}
			rt.sub.push_back( body);
			static const int lohi[][2] = {{0,1},{0,-1},{1,-1},{0,2},{1,3},{2,2},{0,0}};
			int k = (int)g.weighted( {5,5,5,2,2,2,1});
			if (lohi[k][1] == -1 && hasRepetition( body)) k = 3;	// nested unbounded repetition makes matching take exponential time
			rt.lo = lohi[k][0]; rt.hi = lohi[k][1];
			return rt;
		}
	}
}
std::string rxSource( const Rx& r)
{
	std::string rt;
	switch (r.t)
	{
		case Rx::Lit: case Rx::Class: case Rx::Any: return r.src;
		case Rx::Seq: for (auto& s : r.sub) rt += s.t == Rx::Alt && r.sub.size() > 1 ? "(?:" + rxSource( s) + ")" : rxSource( s); return rt;
		case Rx::Alt: for (size_t i=0; i<r.sub.size(); ++i) rt += (i ? "|":"") + rxSource( r.sub[i]); return rt;
		case Rx::Group: return (r.capture ? "(" : "(?:") + rxSource( r.sub[0]) + ")";
		case Rx::Rep:
			rt = rxSource( r.sub[0]);
			if (r.lo == 0 && r.hi == 1) return rt + (rt.size() % 2 ? "?" : "{0,1}");
			if (r.lo == 0 && r.hi == -1) return rt + (rt.size() % 3 ? "*" : "{0,}");
			if (r.lo == 1 && r.hi == -1) return rt + "+";
			if (r.lo == r.hi) return rt + fmt( "{%d}", r.lo);
			return rt + fmt( "{%d,%d}", r.lo, r.hi);
	}
	return rt;
}
int rxCaptures( const Rx& r)
{
	int n = r.t == Rx::Group && r.capture ? 1 : 0;
	for (auto& s : r.sub) n += rxCaptures( s);
	return n;
}
// sample with the first unbounded repetition taken n times
std::string rxSample( const Rx& r, Gen& g);
std::string rxLongSample( const Rx& r, Gen& g, int& n)
{
	std::string rt;
	switch (r.t)
	{
		case Rx::Lit: case Rx::Class: case Rx::Any: return rxSample( r, g);
		case Rx::Seq: for (auto& s : r.sub) rt += rxLongSample( s, g, n); return rt;
		case Rx::Alt: {const Rx* s = &r.sub[ g.below( r.sub.size())]; for (auto& o : r.sub) if (hasRepetition( o)) s = &o; return rxLongSample( *s, g, n);}
		case Rx::Group: return rxLongSample( r.sub[0], g, n);
		case Rx::Rep:
		{
			if (r.hi != -1 || n == 0) return rxSample( r, g);
			std::string unit[8];	// few different units repeated
			for (auto& u : unit) u = rxSample( r.sub[0], g);
			size_t total = n;
			for (int i=0; rt.size() < total && i < n; ++i) rt += unit[ (i * 7 + i / 5) % 8];
			n = 0;
			return rt;
		}
	}
	return rt;
}
std::string rxSample( const Rx& r, Gen& g)
{
	std::string rt;
	switch (r.t)
	{
		case Rx::Lit: return r.lit;
		case Rx::Class: case Rx::Any: {char c = r.lit[ g.below( r.lit.size())]; return (unsigned char)c >= 128 ? "\xC3\xA9" : std::string( 1, c);}
		case Rx::Seq: for (auto& s : r.sub) rt += rxSample( s, g); return rt;
		case Rx::Alt: return rxSample( r.sub[ g.below( r.sub.size())], g);
		case Rx::Group: return rxSample( r.sub[0], g);
		case Rx::Rep:
		{
			int n = r.lo + g.small( r.hi == -1 ? 4 : r.hi - r.lo);
			for (int i=0; i<n; ++i) rt += rxSample( r.sub[0], g);
			return rt;
		}
	}
	return rt;
}
// can be written as string in a grammar file
bool quotable( const std::string& s)
{
	bool dq = false, sq = false;
	for (size_t i=0; i<s.size(); ++i)
	{
		if (s[i] == '\n' || s[i] == 0) return false;
		if (s[i] == '"') dq = true;
		if (s[i] == '\'') sq = true;
		if (s[i] == '\\') {if (i+1 == s.size() || s[i+1] == '"' || s[i+1] == '\'' || s[i+1] == '\n') return false; ++i;}
	}
	return !(dq && sq);
}
std::string quoted( const std::string& s, bool preferSingle)
{
	bool dq = s.find( '"') != std::string::npos, sq = s.find( '\'') != std::string::npos;
	char q = dq ? '\'' : sq ? '"' : preferSingle ? '\'' : '"';
	return std::string( 1, q) + s + q;
}

// ---------------------------------------------------------------- lexer definition and reference lexer
struct Pattern
{
	std::string name, src;
	int select = 0;
	bool ignore = false;
	Rx rx;
	std::regex re;
	bool hasSample = true;
};
struct LexDef
{
	std::vector<Pattern> patterns;			// in order of declaration, ignored ones have no name
	std::vector<std::string> keywords;
	std::vector<std::string> eoln;
	std::vector<std::pair<std::string,std::string>> bracket;
	bool indentl = false; int tabsize = 4;
	std::string bad;
};
struct Tok
{
	std::string name, value;	// keyword: name = "" and value = keyword
	int line = 0;
	bool indent = false;
	size_t pos = 0;
};
struct LexResult
{
	std::vector<Tok> toks;
	bool error = false;
	std::string badchar;
	int errline = 0;
	bool undecided = false;		// no statement about the order of equally long ignored tokens and tokens
};
bool isSpace( char c) {return c != 0 && (unsigned char)c <= 32;}

LexResult refLexer( const LexDef& d, const std::string& src)
{
	LexResult rt;
	size_t pos = 0;
	int line = 1;
	bool firstInLine = true;
	std::vector<int> stk;
	auto advance = [&]( size_t n, bool blank)
	{
		for (; n; --n, ++pos) if (src[pos] == '\n') {++line; if (blank) firstInLine = true;}
	};
	auto indentEvents = [&]()
	{
		if (!d.indentl || !firstInLine) return;
		firstInLine = false;
		size_t ls = pos;
		while (ls > 0 && src[ ls-1] != '\n') --ls;
		int cnt = 0;
		for (size_t i=ls; i<pos; ++i) if (((unsigned char)src[i] & 0xC0) != 0x80) cnt += src[i] == '\t' ? d.tabsize : 1;
		while (!stk.empty() && stk.back() > cnt) {stk.pop_back(); rt.toks.push_back( {"END","",line,true,pos});}
		if ((stk.empty() ? 0 : stk.back()) < cnt) {stk.push_back( cnt); rt.toks.push_back( {"IND","",line,true,pos});}
		rt.toks.push_back( {"NL","",line,true,pos});
	};
	for (;;)
	{
		while (pos < src.size() && isSpace( src[pos])) advance( 1, true);
		if (pos == src.size()) break;
		bool comment = false;
		for (auto& o : d.eoln) if (src.compare( pos, o.size(), o) == 0)
		{
			size_t e = src.find( '\n', pos + o.size());
			advance( (e == std::string::npos ? src.size() : e+1) - pos, true);
			comment = true; break;
		}
		if (comment) continue;
		for (auto& o : d.bracket) if (src.compare( pos, o.first.size(), o.first) == 0)
		{
			size_t e = src.find( o.second, pos + o.first.size());
			if (e == std::string::npos) {rt.error = true; rt.badchar = o.first; rt.errline = line; return rt;}
			advance( e + o.second.size() - pos, true);
			comment = true; break;
		}
		if (comment) continue;
		if (src[ pos] == 0)
		{
			// a NUL byte starts no token: texts are characters, the character sets of patterns are read as not including it
			rt.error = true; rt.badchar = src.substr( pos, 1); rt.errline = line;
			return rt;
		}
		size_t best = 0; int bi = -1; std::string value; bool tie = false, kwbest = false;
		for (size_t i=0; i<d.patterns.size(); ++i)
		{
			std::cmatch m;
			const char* b = src.data() + pos;
			if (!std::regex_search( b, src.data() + src.size(), m, d.patterns[i].re, std::regex_constants::match_continuous | std::regex_constants::match_not_null)) continue;
			size_t len = m.length( 0);
			if (len > best) {best = len; bi = (int)i; value = m[ d.patterns[i].select].matched ? m[ d.patterns[i].select].str() : ""; tie = false;}
			else if (len == best && d.patterns[i].ignore != d.patterns[bi].ignore) tie = true;
		}
		for (auto& k : d.keywords) if (src.compare( pos, k.size(), k) == 0 && k.size() >= best && !(kwbest && k.size() == best)) {best = k.size(); bi = -1; kwbest = true; value = k; tie = false;}
		if (tie) {rt.undecided = true; return rt;}
		if (best == 0)
		{
			size_t n = 1;
			if ((unsigned char)src[pos] >= 128) while (pos+n < src.size() && ((unsigned char)src[pos+n] & 0xC0) == 0x80) ++n;
			rt.error = true; rt.badchar = src.substr( pos, n); rt.errline = line;
			return rt;
		}
		if (bi >= 0 && !kwbest && d.patterns[bi].ignore) {advance( best, true); continue;}
		indentEvents();
		rt.toks.push_back( {kwbest ? "" : d.patterns[bi].name, value, line, false, pos});
		advance( best, false);
	}
	if (d.indentl) while (!stk.empty()) {stk.pop_back(); rt.toks.push_back( {"END","",line,true,pos});}
	return rt;
}

std::string genKeyword( Gen& g)
{
	switch (g.weighted( {5,5,1,1}))
	{
		case 0: {std::string s; int n = 1 + g.small( 4); for (int i=0; i<n; ++i) s += g_literals[ g.below( 13)]; return s;}
		case 1:
		{
			std::string s; int n = 1 + g.small( 2);
			for (int i=0; i<n; ++i) s += "+-*/.$#=<>!%&|^(){}[]?:;,~@"[ g.below( 27)];
			return s;
		}
		case 2: return g.flip() ? "\xE2\x86\x92" : "\xC3\xA9t\xC3\xA9";
		default: {static const char* k[] = {"\"","'","\\a","a b","x\\.y","$","$a","\\\\","<\">","if","%d","{}","a\tb"}; return k[ g.below( 13)];}
	}
}

// genPattern: a pattern that can be quoted and is valid, with at least one nonempty match
bool genPattern( Gen& g, Pattern& p, int depth)
{
	for (int tries=0; tries<4; ++tries)
	{
		static const char* fixed[] = {"[a-zA-Z_]+[a-zA-Z_0-9]*","[0-9]+","[\"]((([^\\\\\"])|([\\\\][^\"]))*)[\"]","[']([^']*)[']","0[xX]([0-9a-f]+)","[0-9]*[.][0-9]+","[+-]?[0-9]+","(true|false)","a*b?c","[^a-z \t\n]+","true|false","(a|b|)c","(?:x)?y","[a-]+","x{0,2}y","(\\(a)?b","(\"[^\"]*\"|'[^']*')","[*/\\-+]","(([a-z])|([0-9]))+","[\"][^\"]*[\"]","\\[[^\\]]*\\]","^ab"};
		if (g.chance( 1, 3))
		{
			p.src = fixed[ g.below( sizeof(fixed)/sizeof(*fixed))];
			p.hasSample = false;
		}
		else
		{
			p.rx = genRx( g, depth);
			if (g.chance( 1, 6)) {Rx alt; alt.t = Rx::Alt; alt.sub.push_back( p.rx); alt.sub.push_back( genRx( g, depth-1)); p.rx = alt;}
			p.src = rxSource( p.rx);
			p.hasSample = true;
		}
		if (!quotable( p.src) || p.src.size() > 200) continue;
		try {p.re = std::regex( p.src);} catch (const std::regex_error&) {continue;}
		int mc = (int)p.re.mark_count();
		p.select = mc && g.chance( 1, 3) ? g.range( 1, mc) : 0;
		return true;
	}
	return false;
}
std::string sampleFixed( Gen& g)
{
	static const char* s[] = {"abc","a1_","12","0","0x1f",".5","3.14","+7","-1","true","false","aab","aac","b","c","\"a b\"","\"x\\n\"","'q'","xy","xxy","y","[a]","(ab","ac","+","\"\"","''","\"l\nm\"","ABC","if","+-","$"};
	return s[ g.below( sizeof(s)/sizeof(*s))];
}

// grammar accepting any sequence of tokens and keywords
std::string buildGrammar( const LexDef& d, Gen& g, bool shuffled)
{
	std::vector<std::string> decl;
	for (auto& p : d.patterns)
	{
		if (p.ignore) decl.push_back( fmt( "%% IGNORE %s;", quoted( p.src, g.flip()).c_str()));
		else decl.push_back( p.name + " : " + quoted( p.src, g.flip()) + (p.select || g.chance( 1, 10) ? fmt( " %d", p.select) : std::string()) + ";");
	}
	std::vector<std::string> cmds = {"% LANGUAGE \"test\";", "% TYPESYSTEM \"ts\";", "% CMDLINE \"cmdline\";"};
	for (auto& o : d.eoln) cmds.push_back( "% COMMENT " + quoted( o, g.flip()) + ";");
	for (auto& o : d.bracket) cmds.push_back( "% COMMENT " + quoted( o.first, g.flip()) + " " + quoted( o.second, g.flip()) + ";");
	if (d.indentl) cmds.push_back( fmt( "%% INDENTL IND END NL %d;", d.tabsize));
	if (!d.bad.empty()) cmds.push_back( "% BAD " + d.bad + ";");
	std::vector<std::string> prods;
	prods.push_back( "start = list (prog);");
	std::vector<std::string> items;
	std::set<std::string> seen;
	for (auto& p : d.patterns) if (!p.ignore && seen.insert( p.name).second) items.push_back( p.name);
	for (size_t i=0; i<d.keywords.size(); ++i) items.push_back( quoted( d.keywords[i], g.flip()) + fmt( " (kw %d)", (int)i+1));
	if (d.indentl) {items.push_back( "IND"); items.push_back( "END"); items.push_back( "NL");}
	prods.push_back( "list = list item | ;");
	std::string item;
	bool split = g.flip();
	for (size_t i=0; i<items.size(); ++i)
	{
		if (split) prods.push_back( "item = " + items[i] + ";");
		else item += (i ? " | " : "item = ") + items[i];
	}
	if (!split) prods.push_back( item + ";");
	// interleave declarations and productions keeping the order of each
	std::string rt;
	size_t di = 0, ci = 0, pi = 0;
	bool mix = shuffled && g.flip();
	while (di < decl.size() || ci < cmds.size() || pi < prods.size())
	{
		int k = mix ? (int)g.below( 3) : ci < cmds.size() ? 0 : di < decl.size() ? 1 : 2;
		if (k == 0 && ci < cmds.size()) rt += cmds[ ci++] + "\n";
		else if (k == 1 && di < decl.size()) rt += decl[ di++] + "\n";
		else if (k == 2 && pi < prods.size()) rt += prods[ pi++] + "\n";
	}
	return rt;
}

std::string showLex( const LexResult& r, const LexDef& d)
{
	std::string rt;
	for (auto& t : r.toks) rt += (t.name.empty() ? "keyword" : t.name) + ":" + quote( t.value) + fmt( "@%d ", t.line);
	if (r.error) rt += fmt( "<bad %s at line %d>", quote( r.badchar).c_str(), r.errline);
	return rt;
}
std::string showRun( const RunResult& r)
{
	std::string rt;
	for (auto& i : r.calls) rt += i.node.repr( true, false) + " ";
	if (!r.ok) rt += "<error " + r.error + ">";
	return rt;
}
// the line printed in an error is exactly this number
bool hasLine( const std::string& err, int line)
{
	std::string s = fmt( "at line %d", line);
	size_t p = err.find( s);
	return p != std::string::npos && !isdigit( (unsigned char)err[ p + s.size()]);
}

// the lexer of the generated compiler against the reference
void compare( Case& c, const LexDef& d, const std::string& src, const LexResult& exp, const RunResult& got, const char* what)
{
	auto bad = [&]( const std::string& sig, const std::string& msg)
	{
		fail( sig, msg + fmt( "\n%s source %s\nexpected %s\ngot      %s", what, quote( src, 2000).c_str(), showLex( exp, d).c_str(), showRun( got).c_str()));
	};
	if (exp.error)
	{
		if (got.ok) bad( "bad-token-accepted", "bad character or unterminated comment was accepted");
		if (!got.calls.empty()) bad( "bad-token-called", "type system function called for a source with a bad character");
		if (!hasLine( got.error, exp.errline)) bad( "bad-token-line", fmt( "error does not name line %d", exp.errline));
		if (exp.badchar[0] && got.error.find( exp.badchar) == std::string::npos) bad( "bad-token-text", "error does not name the bad character");
		return;
	}
	if (!got.ok) bad( "refused", "source made of declared tokens only was refused");
	if (got.calls.size() != 1 || got.calls[0].node.leaf) bad( "calls", "expected exactly one call");
	const std::vector<Node>& arg = got.calls[0].node.arg;
	for (size_t i=0; i<std::max( arg.size(), exp.toks.size()); ++i)
	{
		if (i >= arg.size() || i >= exp.toks.size()) bad( "token-count", fmt( "%d tokens expected, %d received", (int)exp.toks.size(), (int)arg.size()));
		const Tok& t = exp.toks[i];
		const Node& n = arg[i];
		if (t.name.empty())
		{
			int ki = 0;
			for (size_t k=0; k<d.keywords.size(); ++k) if (d.keywords[k] == t.value) ki = (int)k+1;
			if (n.leaf || n.name != "kw" || n.value != fmt( "%d", ki)) bad( "token-kind", fmt( "token %d: keyword expected", (int)i+1));
		}
		else
		{
			if (!n.leaf || n.name != t.name) bad( "token-kind", fmt( "token %d: %s expected", (int)i+1, t.name.c_str()));
			if (n.value != t.value) bad( "token-value", fmt( "token %d: value %s expected", (int)i+1, quote( t.value).c_str()));
			if (n.line != t.line) bad( "token-line", fmt( "token %d: line %d expected", (int)i+1, t.line));
		}
	}
}
std::string loadCompiler( Case& c, Compiler& comp, const std::string& grammar)
{
	ProgResult p = generate( c, grammar);
	if (p.exitCode != 0 || !p.outExists) fail( "grammar-refused", "grammar refused: " + p.err + "\n" + grammar);
	std::string e = comp.load( p.outFile);
	if (!e.empty()) fail( "load", e + "\n" + p.outFile);
	return p.outFile;
}
std::string genSourceFragment( Gen& g, const LexDef& d)
{
	switch (g.weighted( {6,4,2,2,1}))
	{
		case 0:
			if (d.patterns.empty()) return "a";
			{
				const Pattern& p = d.patterns[ g.below( d.patterns.size())];
				if (p.hasSample && g.chance( 1, 60)) {int n = 200 + g.small( 9000); return rxLongSample( p.rx, g, n);}
				return p.hasSample ? rxSample( p.rx, g) : sampleFixed( g);
			}
		case 1: return d.keywords.empty() ? "b" : d.keywords[ g.below( d.keywords.size())];
		case 2: return sampleFixed( g);
		case 3: return std::string( 1, "abcABCxyz019_+-*/.$#=<>\"'()"[ g.below( 26)]);
		default: return g.flip() ? "\xC3\xA9" : g.flip() ? std::string( 1, '\0') : std::string( "@");
	}
}
void genPatterns( Gen& g, LexDef& d, int maxPatterns, int maxKeywords, bool withIgnore)
{
	int np = 1 + g.small( maxPatterns-1);
	for (int i=0; i<np; ++i)
	{
		Pattern p;
		if (!genPattern( g, p, 1 + g.small( 2))) continue;
		p.name = i > 0 && g.chance( 1, 6) && !d.patterns.back().ignore ? d.patterns.back().name : fmt( "TOK%d", i+1);
		if (withIgnore && g.chance( 1, 4)) {p.ignore = true; p.select = 0; p.name.clear();}
		d.patterns.push_back( p);
	}
	int nk = g.small( maxKeywords);
	for (int i=0; i<nk; ++i)
	{
		std::string k = g.chance( 1, 4) && !d.keywords.empty() ? d.keywords[ g.below( d.keywords.size())] + genKeyword( g) : genKeyword( g);
		if (!quotable( k) || isSpace( k[0]) || std::find( d.keywords.begin(), d.keywords.end(), k) != d.keywords.end()) continue;
		d.keywords.push_back( k);
	}
	bool any = !d.keywords.empty();
	for (auto& p : d.patterns) if (!p.ignore) any = true;
	if (!any) d.keywords.push_back( "k");
}

void kindTokens( Gen& g, Case& c)
{
	LexDef d;
	genPatterns( g, d, 5, 6, false);
	if (g.chance( 1, 4)) d.bad = g.flip() ? "BAD" : "\"?!\"";
	std::string grammar = buildGrammar( d, g, true);
	c.logs( grammar);
	Compiler comp( c);
	loadCompiler( c, comp, grammar);
	int nsrc = 4;
	for (int s=0; s<nsrc; ++s)
	{
		std::string src;
		int n = g.small( 3 + g.size / 5);
		for (int i=0; i<n; ++i)
		{
			src += genSourceFragment( g, d);
			if (g.chance( 1, 3)) src += g.pick( std::vector<std::string>{" ","\n","  ","\t","\r\n"});
		}
		LexResult exp = refLexer( d, src);
		if (exp.undecided) continue;
		RunResult got = comp.run( src);
		c.log( "source %s\n", quote( src, 1000).c_str());
		compare( c, d, src, exp, got, "token");
		c.label( exp.error ? "bad" : "good");
		c.count( "tokens", (long)exp.toks.size());
		if (exp.toks.size() >= 2) c.nontrivial();
	}
}

// ---------------------------------------------------------------- L02
void genComments( Gen& g, LexDef& d)
{
	static const char* eo[] = {"//","#","--","%%",";;","REM","!"};
	static const char* br[][2] = {{"/*","*/"},{"(*","*)"},{"{-","-}"},{"<!--","-->"},{"\"\"\"","\"\"\""},{"[[","]]"},{"%{","}"},{"begincomment","endcomment"}};
	int n = g.small( 2);
	auto prefixFree = [&]( const std::string& s)
	{
		auto pre = []( const std::string& a, const std::string& b) {return a.compare( 0, b.size(), b) == 0 || b.compare( 0, a.size(), a) == 0;};
		for (auto& e : d.eoln) if (pre( e, s)) return false;
		for (auto& e : d.bracket) if (pre( e.first, s)) return false;
		return true;
	};
	for (int i=0; i<n; ++i) {std::string s = eo[ g.below( 7)]; if (prefixFree( s)) d.eoln.push_back( s);}
	n = g.small( 2);
	for (int i=0; i<n; ++i) {auto& b = br[ g.below( 8)]; if (prefixFree( b[0])) d.bracket.push_back( {b[0],b[1]});}
}
std::string genCommentText( Gen& g, bool lines)
{
	std::string rt;
	int n = g.small( 6);
	for (int i=0; i<n; ++i)
	{
		static const char* t[] = {"a","x1"," ","comment","*","/","\"","'","//","\t","\xC3\xA9","{","(*","0"};
		rt += t[ g.below( 14)];
		if (lines && g.chance( 1, 5)) rt += "\n";
	}
	return rt;
}
std::string genNoise( Gen& g, const LexDef& d, bool last)
{
	std::string rt;
	int n = g.small( 3);
	for (int i=0; i<n; ++i) switch (g.weighted( {4,3,3,2}))
	{
		case 0: rt += g.pick( std::vector<std::string>{" ","\n","\t","  ","\r\n","\f"," \n \n","\v"}); break;
		case 1: if (!d.eoln.empty()) rt += d.eoln[ g.below( d.eoln.size())] + genCommentText( g, false) + (last && i+1 == n && g.flip() ? "" : "\n"); break;
		case 2: if (!d.bracket.empty())
			{
				auto& b = d.bracket[ g.below( d.bracket.size())];
				rt += b.first + genCommentText( g, true) + (g.chance( 1, 25) ? "" : b.second);
			}
			break;
		default:
			{
				std::vector<const Pattern*> ig;
				for (auto& p : d.patterns) if (p.ignore) ig.push_back( &p);
				if (!ig.empty()) {const Pattern* p = ig[ g.below( ig.size())]; rt += p->hasSample ? rxSample( p->rx, g) : sampleFixed( g);}
			}
	}
	return rt;
}
void kindNoise( Gen& g, Case& c)
{
	LexDef d;
	genPatterns( g, d, 4, 4, true);
	genComments( g, d);
	std::string grammar = buildGrammar( d, g, true);
	c.logs( grammar);
	Compiler comp( c);
	loadCompiler( c, comp, grammar);
	for (int s=0; s<4; ++s)
	{
		std::string src;
		int n = g.small( 3 + g.size / 6);
		src += genNoise( g, d, n == 0);
		for (int i=0; i<n; ++i)
		{
			src += genSourceFragment( g, d);
			std::string ns = genNoise( g, d, i+1 == n);
			src += ns.empty() && g.flip() ? " " : ns;
		}
		LexResult exp = refLexer( d, src);
		if (exp.undecided) {c.label( "undecided"); continue;}
		RunResult got = comp.run( src);
		c.log( "source %s\n", quote( src, 1000).c_str());
		compare( c, d, src, exp, got, "noise");
		c.label( exp.error ? "bad" : "good");
		c.count( "tokens", (long)exp.toks.size());
		if (exp.toks.size() >= 2) c.nontrivial();
	}
}
// the same tokens with different noise between them: metamorphic relation without reference lexer
void kindInvariance( Gen& g, Case& c)
{
	LexDef d;
	auto add = [&]( const char* name, const char* src, int select, bool ignore) {Pattern p; p.name = name; p.src = src; p.select = select; p.ignore = ignore; p.hasSample = false; p.re = std::regex( src); d.patterns.push_back( p);};
	add( "IDENT", "[a-zA-Z_]+[a-zA-Z_0-9]*", 0, false);
	add( "NUM", "[0-9]+([.][0-9]+)?", 0, false);
	add( "STR", "[\"]([^\"]*)[\"]", 1, false);
	bool ign = g.flip();
	if (ign) add( "", "@[a-z]*@", 0, true);
	d.keywords = {"+","==","=","if","(",")"};
	bool eo = g.flip(), br = g.flip();
	std::string open = g.flip() ? "/*" : "(*", close = open == "/*" ? "*/" : "*)";
	if (eo) d.eoln.push_back( "//");
	if (br) d.bracket.push_back( {open,close});
	std::string grammar = buildGrammar( d, g, true);
	c.logs( grammar);
	Compiler comp( c);
	loadCompiler( c, comp, grammar);
	int n = g.small( 3 + g.size/4);
	std::vector<std::string> toks;
	static const char* t[] = {"a","foo","if","x1","12","3.5","\"s\"","\"two\nlines\"","\"// no /* comment\"","+","==","=","(",")","\"@x@\""};
	for (int i=0; i<n; ++i) toks.push_back( t[ g.below( 15)]);
	auto noise = [&]( bool sep, bool last) -> std::string
	{
		std::string rt = sep ? g.pick( std::vector<std::string>{" ","\n","\t","\r\n"}) : "";
		int k = g.small( 3);
		for (int i=0; i<k; ++i) switch (g.below( 4))
		{
			case 0: rt += g.pick( std::vector<std::string>{" ","\n","\t","\r\n","\n\n"}); break;
			case 1: if (eo) rt += std::string( g.pick( std::vector<std::string>{"//","// a + b","// \"","///*", "//*/"})) + (last && i+1 == k ? "" : "\n"); break;
			case 2: if (br) rt += open + g.pick( std::vector<std::string>{""," ","a\nb","\n\n\n","**","//","\"","(","1+2"}) + close; break;
			default: if (ign) rt += g.pick( std::vector<std::string>{"@@","@abc@"}); break;
		}
		return rt;
	};
	std::string base;
	std::vector<std::pair<std::string,RunResult>> runs;
	for (int v=0; v<3; ++v)
	{
		std::string src;
		std::vector<int> lines;
		int line = 1;
		auto put = [&]( const std::string& s) {src += s; for (char ch : s) if (ch == '\n') ++line;};
		put( v == 0 ? "" : noise( false, n == 0));
		for (int i=0; i<n; ++i)
		{
			lines.push_back( line);
			put( toks[i]);
			put( v == 0 ? " " : noise( true, i+1 == n));
		}
		RunResult r = comp.run( src);
		c.log( "source %s\n", quote( src, 1000).c_str());
		if (!r.ok) fail( "refused", "source refused: " + r.error + "\nsource " + quote( src, 2000));
		std::string rep;
		if (r.calls.size() != 1) fail( "calls", "expected one call");
		int idx = 0;
		if ((int)r.calls[0].node.arg.size() != n) fail( "noise-changes-tokens", fmt( "%d tokens expected, %d received for %s\n", n, (int)r.calls[0].node.arg.size(), quote( src, 2000).c_str()) + showRun( r));
		for (auto& a : r.calls[0].node.arg)
		{
			if (a.leaf && a.line != lines[ idx]) fail( "token-line", fmt( "token %d has line %d instead of %d in %s\n", idx+1, a.line, lines[idx], quote( src, 2000).c_str()) + showRun( r));
			rep += a.repr( false, false) + " ";
			++idx;
		}
		if (v == 0) base = rep;
		else if (rep != base) fail( "noise-changes-tokens", "comments or white space changed the token sequence\n" + base + "\n" + rep + "\nsource " + quote( src, 2000));
		if (v > 0 && n >= 2) c.nontrivial();
	}
	c.count( "tokens", n);
}

// ---------------------------------------------------------------- L03
void kindIndent( Gen& g, Case& c)
{
	LexDef d;
	auto add = [&]( const char* name, const char* src, int select, bool ignore) {Pattern p; p.name = name; p.src = src; p.select = select; p.ignore = ignore; p.hasSample = false; p.re = std::regex( src); d.patterns.push_back( p);};
	add( "IDENT", "[a-zA-Z_]+[a-zA-Z_0-9]*", 0, false);
	if (g.flip()) add( "NUM", "[0-9]+", 0, false); else add( "NUM", "([0-9]+)([.][0-9]*)?", 1, false);
	if (g.flip()) add( "STR", "[\"]([^\"]*)[\"]", 1, false);
	bool str = d.patterns.size() > 2;
	bool ign = g.chance( 1, 3);
	if (ign) add( "", "@[a-z]*@", 0, true);
	d.keywords = g.flip() ? std::vector<std::string>{":","if"} : std::vector<std::string>{"if",":","="};
	d.indentl = true;
	d.tabsize = 1 + g.small( 7);
	if (g.flip()) d.eoln.push_back( "#");
	bool br = g.flip();
	if (br) d.bracket.push_back( {"/*","*/"});
	std::string grammar = buildGrammar( d, g, true);
	c.logs( grammar);
	Compiler comp( c);
	loadCompiler( c, comp, grammar);
	for (int s=0; s<4; ++s)
	{
		std::string src;
		int nl = g.small( 2 + g.size/6);
		std::vector<int> levels = {0};
		auto indentation = [&]( int cols)
		{
			std::string rt;
			while (cols > 0)
			{
				if (cols >= d.tabsize && g.flip()) {rt += "\t"; cols -= d.tabsize;}
				else {rt += " "; --cols;}
			}
			return rt;
		};
		for (int i=0; i<nl; ++i)
		{
			std::string line;
			switch (g.weighted( {12,2,2,2}))
			{
				case 0:
				{
					int cols;
					switch (g.weighted( {5,4,4,1}))
					{
						case 0: cols = levels.back(); break;
						case 1: cols = levels.back() + 1 + g.small( 8); break;
						case 2: cols = levels[ g.below( levels.size())]; break;
						default: cols = g.small( 20);
					}
					while (levels.back() > cols) levels.pop_back();
					if (levels.back() < cols) levels.push_back( cols);
					line = indentation( cols);
					if (br && g.chance( 1, 10)) line += "/* c */" + indentation( g.small( 4));
					if (ign && g.chance( 1, 10)) line += "@x@";
					int nt = 1 + g.small( 4);
					for (int t=0; t<nt; ++t)
					{
						static const char* tk[] = {"a","if","x1","12",":","\"s\"","\"l\n   m\"","foo",":"};
						std::string tok = tk[ g.below( 9)];
						if (tok[0] == '"' && !str) tok = "b";
						line += (t ? " ":"") + tok;
						if (br && g.chance( 1, 12)) line += " /*c*/";
						if (br && g.chance( 1, 30)) line += " /*c\n d*/";
						if (ign && g.chance( 1, 12)) line += " @abc@";
					}
					if (g.chance( 1, 6)) line += g.flip() ? "  " : "\t";
					if (!d.eoln.empty() && g.chance( 1, 6)) line += "# comment";
					break;
				}
				case 1: line = indentation( g.small( 8)); break;
				case 2: line = indentation( g.small( 8)) + (d.eoln.empty() ? "" : "# a b"); break;
				default: line = indentation( g.small( 8)) + (br ? (g.chance( 1, 5) ? "/* a\n b */" : "/* a */") : ""); break;
			}
			if (g.chance( 1, 12)) line += "\r";
			src += line;
			if (i+1 < nl || g.flip()) src += "\n";
		}
		LexResult exp = refLexer( d, src);
		RunResult got = comp.run( src);
		c.log( "source %s\n", quote( src, 1000).c_str());
		compare( c, d, src, exp, got, "indent");
		int ind = 0, bal = 0;
		for (auto& t : exp.toks) if (t.name == "IND") {++ind; ++bal;} else if (t.name == "END") --bal;
		if (bal) fail( "harness", "reference not balanced");
		c.count( "tokens", (long)exp.toks.size());
		c.count( "opens", ind);
		if (ind >= 1 && exp.toks.size() >= 4) c.nontrivial();
		if (ind >= 2) c.label( "several blocks");
	}
}

Register r1( Property{ "L01", "a source with at least two tokens was compared with the reference lexer",
	{ {"tokens", kindTokens, 9000, 150000, 40} },
	{"Regular expressions have ECMAScript semantics as implemented by std::regex; a pattern never starts with white space", "The grammar accepts every sequence of tokens, so that the children of the root node are the token sequence"} });
Register r2( Property{ "L02", "a source with at least two tokens and noise between them",
	{ {"noise", kindNoise, 6000, 90000, 40}, {"invariance", kindInvariance, 4000, 60000, 40} },
	{"Marks of comments are literal strings and no mark opening a comment is the prefix of another one", "No statement is made if an ignored pattern and a token match the same longest text"} });
Register r3( Property{ "L03", "a source with at least one indented block and four tokens",
	{ {"indent", kindIndent, 9000, 150000, 40} },
	{"Indentation of a line is the number of columns before its first token, a tab counting as the declared number of spaces"} });

} // namespace
