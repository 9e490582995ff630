// G06 robustness and refusals of mewa, G07 faithful compilers, G08 language description and type system stub
#include "mewa.hpp"
#include "lr.hpp"
#include <unistd.h>
#include <dirent.h>
#include <iostream>
using namespace pbt;
using namespace mw;

int mewa_main( int argc, const char* argv[]);

namespace {

int mainProgram( int argc, const char* argv[])	{return mewa_main( argc, argv);}

const std::vector<std::string> luaKeywords = {"and","break","do","else","elseif","end","false","for","function","goto","if","in","local","nil","not","or","repeat","return","then","true","until","while"};
bool isLuaKeyword( const std::string& s) {return std::find( luaKeywords.begin(), luaKeywords.end(), s) != luaKeywords.end();}

// ---------------------------------------------------------------- text of grammar files
struct Lit { std::string text; std::string content; };	// string literal of the grammar and its content

const char* const PUNCT = "!$%&()*+,-./:;<=>?@[]^_`{|}~#";

// content of a string of the grammar: no new lines, no bare quote of its own, a backslash is followed by something else than a quote
Lit literal( Gen& g, const std::vector<std::string>& pieces)
{
	char q = g.flip() ? '\'' : '"';
	if (!pieces.empty() && !pieces[0].empty() && pieces[0][0] == q) q = q == '"' ? '\'' : '"';	// first character is kept

	std::string s;
	for (auto& p : pieces)
	{
		for (char ch : p)
		{
			if (ch == '\n') ch = ' ';
			if (ch == '"' || ch == '\'')
			{
				if (ch == q || (!s.empty() && s.back() == '\\')) ch = 'q';
			}
			s.push_back( ch);
		}
	}
	// an odd number of backslashes at the end would escape the closing quote
	size_t n = 0;
	while (n < s.size() && s[ s.size()-1-n] == '\\') ++n;
	if (n % 2) s.push_back( 'b');
	// a quote after an odd number of backslashes is not allowed
	std::string r;
	for (size_t i=0; i<s.size(); ++i)
	{
		r.push_back( s[i]);
		if (s[i] == '\\' && i+1 < s.size()) {++i; r.push_back( s[i] == '"' || s[i] == '\'' ? 'q' : s[i]);}
	}
	return Lit{ q + r + q, r};
}

std::string anyText( Gen& g, int n, bool control = false)
{
	std::string rt;
	for (int i=0; i<n; ++i) switch (g.weighted( {6,5,2,2,2,1,1,1}))
	{
		case 0: rt += (char)('a' + g.below( 26)); break;
		case 1: rt += PUNCT[ g.below( strlen( PUNCT))]; break;
		case 2: rt += '\\'; break;
		case 3: rt += g.flip() ? '"' : '\''; break;
		case 4: rt += (char)('0' + g.below( 10)); break;
		case 5: rt += "\xc3\xa4"; break;
		case 6: rt += ' '; break;
		case 7: if (control) {static const char ct[] = {'\t','\r','\x01','\x7f','\x1b'}; rt += ct[ g.below( sizeof ct)];} else rt += "]]"; break;
	}
	return rt;
}

std::string regexEscape( const std::string& s)
{
	std::string rt;
	for (unsigned char ch : s)
	{
		if (isalnum( ch) || ch >= 128 || ch == '_' || ch == '"' || ch == '\'' || ch < 32 || ch == 127 || ch == ' ') rt.push_back( ch);
		else {rt.push_back( '\\'); rt.push_back( ch);}
	}
	return rt;
}

std::string identifier( Gen& g, const char* prefix)
{
	std::string rt = prefix;
	int n = g.small( 6);
	for (int i=0; i<n; ++i) rt += "abcdefxyzABZ_0129"[ g.below( 17)];
	return rt;
}

struct CallSpec
{
	std::string func;
	int kind = 0;			// 0 no argument, 1 string, 2 number, 3 reference, 4 table
	std::string text;		// argument as written in the grammar
	std::string lua;		// Lua expression that has the value of the argument
	std::string canon;		// argument as text
	std::string grammar() const	{return kind ? func + " " + text : func;}
	bool operator<( const CallSpec& o) const {return func != o.func ? func < o.func : kind != o.kind ? kind < o.kind : canon < o.canon;}
};

// string literal valid for Lua too
Lit luaLiteral( Gen& g)
{
	std::vector<std::string> pc;
	int n = g.small( 8);
	for (int i=0; i<n; ++i)
	{
		if (g.chance( 1, 4)) {static const char* esc[] = {"\\n","\\t","\\\\","\\a","\\065","\\x41","\\r","\\0"}; pc.push_back( esc[ g.below( 8)]);}
		else
		{
			std::string p = anyText( g, 1 + g.small( 3));
			p.erase( std::remove( p.begin(), p.end(), '\\'), p.end());
			if (!pc.empty() && !p.empty() && isdigit( p[0])) p[0] = 'd';	// digits after a decimal escape
			pc.push_back( p);
		}
	}
	return literal( g, pc);
}

CallSpec genCall( Gen& g, int nfunc)
{
	CallSpec rt;
	rt.func = fmt( "f%d", g.range( 0, nfunc-1));
	if (g.chance( 1, 6)) rt.func += "_" + identifier( g, "x");
	rt.kind = (int)g.weighted( {3,4,2,2,3});
	switch (rt.kind)
	{
		case 0: break;
		case 1:
		{
			Lit l = g.chance( 1, 3) ? literal( g, {g.flip() ? "12" : "ref_a"}) : luaLiteral( g);
			rt.text = rt.lua = l.text;
			rt.canon = (l.content.find( '"') == std::string::npos) ? '"' + l.content + '"' : '\'' + l.content + '\'';
			break;
		}
		case 2:
			rt.text = rt.lua = rt.canon = g.chance( 1, 4) ? "12" : fmt( "%d", (int)g.below( 1000000));
			break;
		case 3:
			rt.text = rt.canon = g.chance( 1, 4) ? "ref_a" : "ref_" + identifier( g, "");
			rt.lua = "{ref=\"" + rt.text + "\"}";
			break;
		case 4:
		{
			int n = 1 + g.small( 4);
			std::string blank = g.flip() ? " " : "";
			rt.text = "{"; rt.canon = "{";
			for (int i=0; i<n; ++i)
			{
				std::string key = fmt( "k%d", i), val, cval;
				switch (g.below( 3))
				{
					case 0: val = cval = fmt( "%d", (int)g.below( 10000)); break;
					case 1: {Lit l = luaLiteral( g); val = cval = l.text; break;}
					case 2: val = cval = g.flip() ? "true" : "false"; break;
				}
				if (i) {rt.text += "," + blank; rt.canon += ",";}
				rt.text += key + blank + "=" + blank + val;
				rt.canon += key + "=" + cval;
			}
			rt.text += blank + "}"; rt.canon += "}";
			rt.lua = rt.text;
			break;
		}
	}
	return rt;
}

// ---------------------------------------------------------------- G08
struct Attr { std::string name; std::vector<std::string> lines; };

struct Rule				// a declaration expected in the language description
{
	std::string op;
	std::vector<std::pair<std::string,Val>> fields;
	std::vector<Attr> attrs;
	std::vector<Attr> shared;	// attributes of the rule it shares the line with
	int line0 = 0, line1 = 0;
};

struct FileWriter
{
	Gen& g;
	std::string text;
	int line = 1;
	explicit FileWriter( Gen& g_) :g(g_){}
	void put( const std::string& s) {text += s; line += (int)std::count( s.begin(), s.end(), '\n');}
	// blank between two lexems of a declaration
	void blank( bool needed = false)
	{
		switch (g.weighted( {8,3,2,1,1,1}))
		{
			case 0: put( needed || g.flip() ? " " : ""); break;
			case 1: put( "\t "); break;
			case 2: put( "\n    "); break;
			case 3: put( " /* " + comment() + " */ "); break;
			case 4: put( " # " + comment() + "\n"); break;
			case 5: put( "\r\n// " + comment() + "\r\n  "); break;
		}
	}
	std::string comment()			// neither attribute nor end of comment
	{
		std::string s = anyText( g, g.small( 8));
		for (size_t i=0; i+1<s.size(); ++i) if (s[i] == '*' && s[i+1] == '/') s[i] = 'x';
		return "c" + s;
	}
};

std::string attrText( Gen& g, bool mayBeEmpty)
{
	if (mayBeEmpty && g.chance( 1, 6)) return "";
	std::string s;
	int n = 1 + g.small( 4);
	for (int i=0; i<n; ++i) s += (i ? " " : "") + anyText( g, 1 + g.small( 5));
	size_t b = s.find_first_not_of( " \t"), e = s.find_last_not_of( " \t");
	if (b == std::string::npos) return "t";
	s = s.substr( b, e-b+1);
	if (s[0] == '@') s[0] = 't';
	for (size_t i=0; i+1<s.size(); ++i) if (s[i] == '*' && s[i+1] == '/') s[i] = 'x';
	if (s.back() == '*') s.back() = 'x';
	return s;
}

const std::set<std::string> reservedAttributes = {"op","name","pattern","select","open","close","nl","tabsize","priority","left","right","scope","call","line"};

std::vector<Attr> genAttrs( Gen& g)
{
	std::vector<Attr> rt;
	int n = 1 + g.small( 3);
	for (int i=0; i<n; ++i)
	{
		Attr a;
		switch (g.weighted( {4,2,1,1}))
		{
			case 0: a.name = fmt( "descr%d", i); break;
			case 1: a.name = identifier( g, i ? "R" : "r") + fmt( "%d", i); break;
			case 2: a.name = luaKeywords[ g.below( luaKeywords.size())]; break;
			case 3: a.name = fmt( "_%d", i); break;
		}
		bool dup = false;
		for (auto& o : rt) dup |= o.name == a.name;
		if (dup || reservedAttributes.count( a.name)) continue;
		a.lines.push_back( attrText( g, true));
		int m = g.small( 3);
		for (int k=0; k<m; ++k) a.lines.push_back( attrText( g, false));
		rt.push_back( a);
	}
	return rt;
}

// returns true if the following declaration may start on the same line
bool putAttrs( FileWriter& w, const std::vector<Attr>& attrs)
{
	Gen& g = w.g;
	std::vector<std::string> lines;
	for (auto& a : attrs)
	{
		lines.push_back( std::string( "@") + (g.chance( 1, 8) ? " " : "") + a.name + (a.lines[0].empty() ? "" : (g.flip() ? " " : "\t") + a.lines[0]));
		for (size_t i=1; i<a.lines.size(); ++i) lines.push_back( a.lines[i]);
	}
	size_t li = 0;
	bool sameline = false;
	while (li < lines.size())
	{
		if (sameline) w.put( "\n");
		sameline = false;
		if (g.chance( 1, 3))
		{
			size_t n = 1 + g.below( lines.size() - li);
			std::string s = "/*";
			if (g.flip()) s += " "; else if (li == 0 && g.flip()) s += "\n";
			for (size_t i=0; i<n; ++i) s += (i ? "\n" + std::string( g.small( 4), ' ') : "") + lines[ li+i];
			s += g.flip() ? " */" : "\n*/";
			w.put( s);
			li += n;
			sameline = true;
		}
		else
		{
			w.put( std::string( g.small( 3), ' ') + (g.flip() ? "#" : "//") + (g.chance( 1, 4) ? "" : " ") + lines[ li++] + "\n");
		}
		if (g.chance( 1, 6)) w.put( sameline ? "\n\n" : "\n");
		if (!w.text.empty() && w.text.back() == '\n') sameline = false;
	}
	return sameline;
}

struct GrammarFile
{
	std::string text;
	std::string language, typesystem, cmdline;
	std::vector<Rule> rules;
	std::vector<CallSpec> calls;
	bool hasAttrs = false;
};

std::string prioText( Gen& g, std::string& canon)
{
	int v = g.range( 0, 31);
	switch (g.below( 4))
	{
		case 0: canon = fmt( "L%d", v); return canon;
		case 1: canon = fmt( "R%d", v); return canon;
		case 2: canon = fmt( "L%d", v); return fmt( "%dL", v);
		default: canon = fmt( "R%d", v); return fmt( "%dR", v);
	}
}

// A grammar file that parses, not necessarily one without conflicts
GrammarFile genFile( Gen& g, bool attrs)
{
	GrammarFile F;
	FileWriter w( g);
	int ntok = 1 + g.small( 4), nnt = 1 + g.small( 4);
	std::vector<std::string> tokens, nts;
	for (int i=0; i<ntok; ++i) tokens.push_back( fmt( "T%d", i) + (g.chance( 1, 4) ? identifier( g, "_") : ""));
	for (int i=0; i<nnt; ++i) nts.push_back( fmt( "n%d", i) + (g.chance( 1, 4) ? identifier( g, "_") : ""));
	bool indent = g.chance( 1, 4);
	std::vector<std::string> symbols = tokens;
	if (indent) {symbols.push_back( "IND"); symbols.push_back( "END"); symbols.push_back( "NL");}
	auto cmdword = [&]( const char* s) {std::string rt = s; if (g.chance( 1, 4)) for (char& ch : rt) if (g.flip()) ch = (char)tolower( ch); return rt;};

	// order of the declarations: 0..2 names, 3 BAD, 4 indentation, 10+ tokens, 20+ ignore, 30+ comments, 100+ nonterminals
	std::vector<int> order;
	for (int i=0; i<3; ++i) if (!g.chance( 1, 8)) order.push_back( i);
	if (g.chance( 1, 3)) order.push_back( 3);
	if (indent) order.push_back( 4);
	std::vector<int> tokdecl;
	for (int i=0; i<ntok; ++i) {order.push_back( 10+i); if (g.chance( 1, 6)) order.push_back( 10+i);}
	int n = g.small( 2); for (int i=0; i<n; ++i) order.push_back( 20);
	n = g.small( 3); for (int i=0; i<n; ++i) order.push_back( 30);
	for (int i=0; i<nnt; ++i) {order.push_back( 100+i); if (i && g.chance( 1, 5)) order.push_back( 100+i);}
	if (g.flip())
	{
		for (size_t i=order.size()-1; i>0; --i) std::swap( order[i], order[ g.below( i+1)]);
		size_t start = std::find( order.begin(), order.end(), 100) - order.begin();	// the start production is the first one
		for (size_t i=0; i<start; ++i) if (order[i] > 100) {std::swap( order[i], order[ start]); break;}
	}
	std::set<std::pair<int,std::string>> prods;
	for (int d : order)
	{
		Rule r;
		if (!w.text.empty() && w.text.back() != '\n') w.put( "\n");
		if (g.chance( 1, 5)) w.put( "\n");
		bool decl = d >= 3;
		if (attrs && decl && g.chance( 1, 2))
		{
			r.attrs = genAttrs( g);
			if (!r.attrs.empty())
			{
				F.hasAttrs = true;
				if (putAttrs( w, r.attrs) && g.chance( 2, 3)) w.put( "\n");
			}
		}
		else if (g.chance( 1, 4)) {w.put( "# " + w.comment() + "\n");}
		r.line0 = w.line;
		if (d < 3)
		{
			static const char* cmd[] = {"LANGUAGE","TYPESYSTEM","CMDLINE"};
			std::string v, t;
			if (g.flip()) v = t = identifier( g, "lang"); else {Lit l = literal( g, {"l", anyText( g, g.small( 8))}); v = l.content; t = l.text;}
			w.put( "%"); w.blank(); w.put( cmdword( cmd[d])); w.blank( true); w.put( t); w.blank(); w.put( ";");
			(d == 0 ? F.language : d == 1 ? F.typesystem : F.cmdline) = v;
			continue;
		}
		else if (d == 3)
		{
			r.op = "BAD";
			std::string v, t;
			if (g.flip()) v = t = identifier( g, "bad"); else {Lit l = literal( g, {"b", anyText( g, g.small( 8), true)}); v = l.content; t = l.text;}
			w.put( "%"); w.blank(); w.put( cmdword( "BAD")); w.blank( true); w.put( t); w.blank(); w.put( ";");
			r.fields = {{"name", Val::str( v)}};
		}
		else if (d == 4)
		{
			r.op = "INDENTL";
			int ts = 1 + g.below( 16);
			w.put( "%"); w.blank(); w.put( cmdword( "INDENTL")); w.blank( true); w.put( g.flip() ? "IND" : "'IND'"); w.blank( true);
			w.put( g.flip() ? "END" : "\"END\""); w.blank( true); w.put( "NL"); w.blank( true); w.put( fmt( "%d", ts)); w.blank(); w.put( ";");
			r.fields = {{"open", Val::str( "IND")}, {"close", Val::str( "END")}, {"nl", Val::str( "NL")}, {"tabsize", Val::num( ts)}};
		}
		else if (d < 20)
		{
			r.op = "TOKEN";
			std::vector<std::string> pc;
			int groups = 0;
			pc.push_back( g.flip() ? "[a-z]" : fmt( "%c", 'a' + (int)g.below( 26)));
			int m = g.small( 4);
			for (int i=0; i<m; ++i) switch (g.below( 4))
			{
				case 0: pc.push_back( regexEscape( anyText( g, 1 + g.small( 4), true))); break;
				case 1: pc.push_back( "(a|b)"); ++groups; break;
				case 2: pc.push_back( "[^\\]x\"]*"); break;
				case 3: pc.push_back( "([^'\\\\]|[\\\\][a-z])+"); ++groups; break;
			}
			Lit l = literal( g, pc);
			int sel = groups && g.flip() ? 1 + g.below( groups) : 0;
			w.put( tokens[ d-10]); w.blank(); w.put( ":"); w.blank(); w.put( l.text);
			r.fields = {{"name", Val::str( tokens[ d-10])}, {"pattern", Val::str( l.content)}};
			if (sel || g.chance( 1, 8)) {w.blank( true); w.put( fmt( "%d", sel));}
			if (sel) r.fields.push_back( {"select", Val::num( sel)});
			w.blank(); w.put( ";");
		}
		else if (d < 30)
		{
			r.op = "IGNORE";
			Lit l = literal( g, {"i", regexEscape( anyText( g, g.small( 6), true))});
			w.put( "%"); w.blank(); w.put( cmdword( "IGNORE")); w.blank( true); w.put( l.text); w.blank(); w.put( ";");
			r.fields = {{"pattern", Val::str( l.content)}};
		}
		else if (d < 100)
		{
			r.op = "COMMENT";
			Lit o = literal( g, {"o", anyText( g, g.small( 5))});
			w.put( "%"); w.blank(); w.put( cmdword( "COMMENT")); w.blank( true); w.put( o.text);
			r.fields = {{"open", Val::str( o.content)}};
			if (g.flip())
			{
				Lit e = literal( g, {"e", anyText( g, g.small( 5))});
				w.blank( true); w.put( e.text);
				r.fields.push_back( {"close", Val::str( e.content)});
			}
			w.blank(); w.put( ";");
		}
		else
		{
			int nt = d-100;
			std::string prio;
			w.put( nts[ nt]);
			if (g.chance( 1, 4)) {w.blank(); w.put( "/"); w.blank(); w.put( prioText( g, prio));}
			w.blank(); w.put( g.chance( 1, 5) ? "→" : "=");
			int nalt = nt ? 1 + g.small( 3) : 1;
			bool first = true;
			std::vector<Attr> shared;
			int sharedLine = 0;
			for (int a=0; a<nalt; ++a)
			{
				// right side first, to know if it is a new one
				std::vector<std::pair<bool,std::string>> right;	// is a string, text
				std::vector<std::string> texts;
				int m = g.small( 4);
				// reach the next nonterminal from here
				if (nt+1 < nnt && a == 0) {right.push_back( {false, nts[ nt+1]}); texts.push_back( nts[ nt+1]);}
				for (int i=0; i<m; ++i) switch (g.below( 3))
				{
					case 0: {std::string s = symbols[ g.below( symbols.size())]; right.push_back( {false,s}); texts.push_back( s); break;}
					case 1: {int lo = a == 0 ? nt+1 : 1; if (lo >= nnt) break; std::string s = nts[ lo + g.below( nnt-lo)]; right.push_back( {false,s}); texts.push_back( s); break;}
					case 2:
					{
						Lit l = literal( g, {fmt( "%c", "+-*/=<>!(){}[];,.kx#"[ g.below( 20)]), anyText( g, g.small( 4))});
						right.push_back( {true, l.content}); texts.push_back( l.text);
						break;
					}
				}
				std::string id;
				for (auto& x : right) id += (x.first ? "s" : "n") + fmt( "%zu:", x.second.size()) + x.second;
				if (!prods.insert( {nt, id}).second) {if (a == 0) {right.push_back( {true, fmt( "uniq%d", (int)prods.size())}); texts.push_back( "\"" + right.back().second + "\""); prods.insert( {nt, id + right.back().second});} else continue;}
				Rule pr = r;
				if (!first)
				{
					pr.attrs.clear();
					w.blank();
					if (attrs && g.chance( 1, 5))
					{
						pr.attrs = genAttrs( g);
						if (!pr.attrs.empty())
						{
							F.hasAttrs = true;
							w.put( "\n");
							if (putAttrs( w, pr.attrs) && g.chance( 2, 3)) w.put( "\n");
						}
					}
					pr.line0 = w.line;
					if (sharedLine == w.line) pr.shared = shared;
					else {shared = pr.attrs; sharedLine = w.line;}
					w.put( "|");
				}
				else {shared = r.attrs; sharedLine = r.line0;}
				pr.op = "PROD";
				pr.fields = {{"left", Val::str( nts[ nt])}};
				if (!prio.empty()) pr.fields.push_back( {"priority", Val::str( prio)});
				std::vector<Val> rv;
				if (right.empty() && g.chance( 1, 3)) {w.blank(); w.put( "ε");}
				for (size_t i=0; i<right.size(); ++i)
				{
					w.blank( i>0); w.put( texts[i]);
					Val e = Val::table();
					e.tab.push_back( {Val::str( "type"), Val::str( right[i].first ? "symbol" : "name")});
					e.tab.push_back( {Val::str( "value"), Val::str( right[i].second)});
					rv.push_back( e);
				}
				pr.fields.push_back( {"right", Val::array( rv)});
				if (g.chance( 1, 2))
				{
					w.blank(); w.put( "("); w.blank();
					int sc = g.below( 3);
					if (sc) {w.put( sc == 1 ? "{}" : ">>"); w.blank(); pr.fields.push_back( {"scope", Val::str( sc == 1 ? "{}" : ">>")});}
					if (!sc || g.chance( 2, 3))
					{
						CallSpec cs = genCall( g, 4);
						F.calls.push_back( cs);
						w.put( cs.func);
						if (cs.kind) {w.blank( true); w.put( cs.text);}
						pr.fields.push_back( {"call", Val::str( cs.kind ? cs.func + " " + cs.canon : cs.func)});
					}
					w.blank(); w.put( ")");
				}
				first = false;
				if (a+1 == nalt || true) pr.line1 = w.line;
				F.rules.push_back( pr);
			}
			w.blank(); w.put( ";");
			continue;
		}
		r.line1 = w.line;
		F.rules.push_back( r);
	}
	if (g.flip()) w.put( "\n");
	if (g.chance( 1, 4)) w.put( (w.text.back() == '\n' ? "# " : " # ") + w.comment() + (g.flip() ? "\n" : ""));
	else if (attrs && g.chance( 1, 6)) w.put( "\n# @last attached to nothing");
	F.text = w.text;
	return F;
}

Val attrVal( const Attr& a)
{
	std::vector<Val> v;
	for (auto& l : a.lines) v.push_back( Val::str( l));
	return Val::array( v);
}

std::string ruleRepr( const Rule& r, const std::vector<Attr>& attrs)
{
	Val t = Val::table();
	t.tab.push_back( {Val::str( "op"), Val::str( r.op)});
	for (auto& f : r.fields) t.tab.push_back( {Val::str( f.first), f.second});
	for (auto& a : attrs) t.tab.push_back( {Val::str( a.name), attrVal( a)});
	return t.repr();
}

std::string run1( Case& c, const std::string& text, const std::string& opt, ProgResult& r)
{
	std::string gf = c.tmpdir + "/g.g", of = c.tmpdir + "/g.out";
	writeFile( gf, text);
	unlink( of.c_str());
	r = runProgram( {opt, "-o", of, gf});
	r.outExists = readFile( of, r.outFile);
	return r.err;
}

void kindLanguage( Gen& g, Case& c)
{
	GrammarFile F = genFile( g, true);
	c.logs( F.text);
	c.key( F.text);
	ProgResult r;
	run1( c, F.text, "-l", r);
	if (r.exitCode) fail( "refused", "mewa -l refused a correct grammar file: " + r.err);
	if (!r.outExists) fail( "no-output", "no output");
	Lua lua;
	auto res = lua.exec( r.outFile, "=langdef");
	if (!res.ok) fail( "not-lua", "language description is no valid Lua: " + res.error + "\n" + r.outFile);
	if (res.ret.size() != 1 || res.ret[0].t != Val::Tab) fail( "not-a-table", "language description returns no table");
	const Val& def = res.ret[0];
	auto expstr = [&]( const char* key, const std::string& v)
	{
		if (def[ key].t != Val::Str || def[ key].s != v) fail( "name", fmt( "%s is %s, expected %s", key, def[ key].repr().c_str(), quote( v).c_str()));
	};
	expstr( "LANGUAGE", F.language); expstr( "TYPESYSTEM", F.typesystem); expstr( "CMDLINE", F.cmdline);
	const Val& rules = def[ "RULES"];
	if (rules.t != Val::Tab) fail( "rules", "no RULES");
	std::map<std::string,std::vector<const Val*>> byOp;
	for (int i=1; i<=rules.len(); ++i) byOp[ rules.at( i)["op"].s].push_back( &rules.at( i));
	// several BAD commands cannot occur here; order is compared for all declarations of the same operation,
	// comments to the end of line and bracket comments being of different operations
	std::map<std::string,std::vector<const Rule*>> expOp;
	auto opOf = []( const std::string& op, bool close) {return op == "COMMENT" ? (close ? op+"2" : op+"1") : op;};
	for (auto& x : F.rules)
	{
		bool close = false;
		for (auto& f : x.fields) close |= f.first == "close";
		expOp[ opOf( x.op, close)].push_back( &x);
	}
	std::map<std::string,std::vector<const Val*>> gotOp;
	for (auto& e : byOp) for (auto v : e.second) gotOp[ opOf( e.first, !(*v)["close"].isNil())].push_back( v);
	if ((int)F.rules.size() != rules.len()) fail( "number-of-rules", fmt( "%d rules, expected %d\n", rules.len(), (int)F.rules.size()) + r.outFile);
	for (auto& e : expOp)
	{
		auto& got = gotOp[ e.first];
		if (got.size() != e.second.size()) fail( "number-of-rules", fmt( "%d rules of %s, expected %d\n", (int)got.size(), e.first.c_str(), (int)e.second.size()) + r.outFile);
		for (size_t i=0; i<got.size(); ++i)
		{
			const Rule& x = *e.second[i];
			Val v = *got[i];
			Val line = v["line"];
			v.tab.erase( std::remove_if( v.tab.begin(), v.tab.end(), []( const std::pair<Val,Val>& kv) {return kv.first.s == "line";}), v.tab.end());
			std::string rs = v.repr();
			if (rs != ruleRepr( x, x.attrs) && (x.shared.empty() || rs != ruleRepr( x, x.shared)))
				fail( "rule", "rule described as\n  " + rs + "\nexpected\n  " + ruleRepr( x, x.attrs));
			if (line.t != Val::Num || line.n < x.line0 || line.n > x.line1)
				fail( "line", fmt( "line %s of a rule written in lines %d to %d: ", line.repr().c_str(), x.line0, x.line1) + rs);
		}
	}
	c.count( "rules", (long)F.rules.size());
	if (F.hasAttrs) c.label( "attributes");
	for (auto& e : expOp) c.label( e.first);
	if (F.rules.size() >= 6 && F.hasAttrs) c.nontrivial();
}

void kindStub( Gen& g, Case& c)
{
	GrammarFile F = genFile( g, false);
	c.logs( F.text);
	c.key( F.text);
	ProgResult r;
	run1( c, F.text, "-s", r);
	if (r.exitCode) fail( "refused", "mewa -s refused a correct grammar file: " + r.err);
	Lua lua;
	lua.exec( "package.loaded['mewa'] = mewa");
	auto res = lua.exec( r.outFile, "=stub");
	if (!res.ok) fail( "not-lua", "type system stub is no valid Lua: " + res.error + "\n" + r.outFile);
	if (res.ret.size() != 1 || res.ret[0].t != Val::Tab) fail( "not-a-table", "type system stub returns no table");
	std::set<std::string> exp, got;
	for (auto& cs : F.calls) exp.insert( cs.func);
	for (auto& kv : res.ret[0].tab)
	{
		if (kv.second.t != Val::Fun) fail( "not-a-function", kv.first.repr() + " is no function");
		got.insert( kv.first.s);
	}
	if (exp != got)
	{
		std::string m = "functions defined:";
		for (auto& s : got) m += " " + s;
		m += "\nfunctions called:";
		for (auto& s : exp) m += " " + s;
		fail( "functions", m);
	}
	for (auto& f : exp)
	{
		int n = 0;
		for (size_t p = r.outFile.find( "function typesystem." + f); p != std::string::npos; p = r.outFile.find( "function typesystem." + f, p+1))
		{
			char nx = r.outFile[ p + 20 + f.size()];
			if (!isalnum( (unsigned char)nx) && nx != '_') ++n;
		}
		if (n != 1) fail( "defined-twice", fmt( "function %s defined %d times", f.c_str(), n));
	}
	c.count( "functions", (long)exp.size());
	if (exp.size() >= 2) c.nontrivial();
}

// ---------------------------------------------------------------- G07
Lit quoted( char q, const std::string& content) {return Lit{ q + content + q, content};}

struct FToken
{
	std::string name, prefix, body, postfix;	// text of the token in the source
	std::string value;
	std::string decl;				// declaration in the grammar file
};
struct FItem
{
	int nt = -1;			// index if declared as own nonterminal
	Lit keyword;
	std::vector<int> tokens;
	bool block = false;
	bool hasCall = false;
	CallSpec call;
	Val obj;
};

void kindFaithful( Gen& g, Case& c)
{
	// [1] the lexer: every lexem starts with another character
	std::string pool = "abcdefghijklmnopqrstuvwxyz!$%&()*+,-./:;<=>?@[]^_`{|}~#\"'\\0123456789";
	for (size_t i=pool.size()-1; i>0; --i) std::swap( pool[i], pool[ g.below( i+1)]);
	size_t poolpos = 0;
	auto first = [&]() {return pool[ poolpos++];};
	auto firstText = [&]() {char ch = first(); return ch == '\\' ? std::string( "\\x") : std::string( 1, ch);};
	int ntok = 1 + g.small( 4);
	std::vector<FToken> toks;
	auto patchar = [&]( char ch) -> std::string
	{
		if (ch == '"') return "\\x22";
		if (ch == '\'') return "\\x27";
		return regexEscape( std::string( 1, ch));
	};
	auto pattext = [&]( const std::string& t) {std::string rt; for (char ch : t) rt += (unsigned char)ch >= 128 ? std::string( 1, ch) : patchar( ch); return rt;};
	for (int i=0; i<ntok; ++i)
	{
		FToken t;
		t.name = fmt( "T%d", i) + (g.chance( 1, 4) ? identifier( g, "_") : "");
		t.prefix = std::string( 1, first());
		std::string pat = pattext( t.prefix);
		int select = 0;
		if (g.flip())
		{
			// literal text
			std::string txt = anyText( g, g.small( 6), true);
			pat += pattext( txt);
			t.prefix += txt;
			t.value = t.prefix;
		}
		else
		{
			// bracket with selected content
			char e = "!$%&()*+,-./:;<=>?@[]^_`{|}~#"[ g.below( 29)];
			int outer = g.small( 2);
			for (int k=0; k<outer; ++k) pat += "(";
			pat += "([^" + patchar( e) + "]*)";
			for (int k=0; k<outer; ++k) pat += ")";
			pat += patchar( e);
			std::string body = anyText( g, g.small( 8), true);
			body.erase( std::remove( body.begin(), body.end(), e), body.end());
			t.body = body;
			t.postfix = std::string( 1, e);
			bool sel = g.flip();
			select = sel ? 1 + outer : 0;
			t.value = sel ? body : t.prefix + body + t.postfix;
		}
		Lit l = quoted( g.flip() ? '"' : '\'', pat);
		t.decl = t.name + (g.flip() ? ": " : " : ") + l.text + (select ? fmt( " %d", select) : "") + ";\n";
		toks.push_back( t);
	}
	std::vector<std::string> lexdecl;
	for (auto& t : toks) lexdecl.push_back( t.decl);
	std::string ignored;
	if (g.chance( 1, 3))
	{
		ignored = std::string( 1, first()) + anyText( g, g.small( 4));
		std::replace( ignored.begin(), ignored.end(), '\n', ' ');
		lexdecl.push_back( "% IGNORE " + quoted( g.flip() ? '"' : '\'', pattext( ignored)).text + ";\n");
	}
	std::string copen, cclose, ceoln;
	if (g.chance( 1, 3))
	{
		Lit o = literal( g, {firstText(), anyText( g, g.small( 3))}), e = literal( g, {anyText( g, 1 + g.small( 3))});
		copen = o.content; cclose = e.content;
		lexdecl.push_back( "% COMMENT " + o.text + " " + e.text + ";\n");
		if (cclose.empty()) throw Discard();
	}
	if (g.chance( 1, 3))
	{
		Lit o = literal( g, {firstText(), anyText( g, g.small( 3))});
		ceoln = o.content;
		lexdecl.push_back( "% COMMENT " + o.text + ";\n");
	}
	bool indent = g.chance( 1, 4);
	if (indent) lexdecl.push_back( "% INDENTL IND END NL " + fmt( "%d", 1 + (int)g.below( 8)) + ";\n");
	std::string language, ts;
	{Lit l = literal( g, {"L", anyText( g, g.small( 6))}); language = l.content; lexdecl.push_back( "% LANGUAGE " + l.text + ";\n");}
	{Lit l = literal( g, {"M", anyText( g, g.small( 6))}); ts = l.content; lexdecl.push_back( "% TYPESYSTEM " + l.text + ";\n");}
	if (g.flip()) {Lit l = literal( g, {"B", anyText( g, g.small( 6))}); lexdecl.push_back( "% BAD " + l.text + ";\n");}

	// [2] productions
	Lit semicolon = literal( g, {firstText()});
	std::string semi = semicolon.content;
	int nitem = 1 + g.small( 6);
	std::vector<FItem> items;
	static std::unique_ptr<Lua> evaluator;
	if (!evaluator) evaluator.reset( new Lua());
	bool hasQuote = false, confusable = false;
	std::vector<CallSpec> calls;
	for (int i=0; i<nitem; ++i)
	{
		FItem it;
		std::string rest = anyText( g, g.small( 4));
		if (g.chance( 1, 3)) rest = std::string( "\\") + rest;
		it.keyword = literal( g, {firstText(), rest});
		// keywords with blanks never match as a whole if blanks are at the end
		while (!it.keyword.content.empty() && it.keyword.content.back() == ' ')
		{
			it.keyword.content.pop_back();
			it.keyword.text.erase( it.keyword.text.size()-2, 1);
			if (it.keyword.content.back() == '\\') {it.keyword.content.push_back( 'z'); it.keyword.text.insert( it.keyword.text.size()-1, "z");}
		}
		if (it.keyword.content.find_first_of( "'\"\\") != std::string::npos) hasQuote = true;
		int m = g.small( 3);
		for (int k=0; k<m; ++k) it.tokens.push_back( g.below( ntok));
		it.block = indent && g.chance( 1, 4);
		it.hasCall = !g.chance( 1, 6);
		if (it.hasCall)
		{
			if (!calls.empty() && g.chance( 1, 4))
			{
				// same name printed, other value
				it.call = calls[ g.below( calls.size())];
				if (it.call.kind == 2 || it.call.kind == 3)
				{
					it.call.text = it.call.lua = '"' + it.call.text + '"';
					it.call.canon = it.call.text;
					it.call.kind = 1;
					confusable = true;
				}
			}
			else it.call = genCall( g, 3);
			calls.push_back( it.call);
			if (it.call.kind)
			{
				auto r = evaluator->exec( "return " + it.call.lua, "=arg");
				if (!r.ok || r.ret.size() != 1) fail( "harness-argument", "harness: " + it.call.lua + ": " + r.error);
				it.obj = r.ret[0];
			}
		}
		if (g.flip()) it.nt = i;
		items.push_back( it);
	}
	std::string startdecl = "start = itemlist (program);\n";
	std::vector<std::string> prods;
	prods.push_back( g.flip() ? "itemlist = itemlist item | item;\n" : "itemlist = item itemlist | item;\n");
	for (auto& it : items)
	{
		std::string rhs = indent ? "NL " : "";
		rhs += it.keyword.text;
		for (int t : it.tokens) rhs += " " + toks[t].name;
		if (it.block) rhs += " IND itemlist END";
		if (!indent) rhs += " " + semicolon.text;
		if (it.hasCall) rhs += " (" + it.call.grammar() + ")";
		if (it.nt >= 0)
		{
			prods.push_back( fmt( "item = item_%d;\n", it.nt));
			prods.push_back( fmt( "item_%d = ", it.nt) + rhs + ";\n");
		}
		else prods.push_back( "item = " + rhs + ";\n");
	}
	// [3] two orders of the declarations
	auto arrange = [&]( bool shuffle)
	{
		std::vector<std::string> d = lexdecl;
		d.push_back( startdecl);
		d.insert( d.end(), prods.begin(), prods.end());
		if (shuffle)
		{
			for (size_t i=d.size()-1; i>0; --i) std::swap( d[i], d[ g.below( i+1)]);
			size_t si = std::find( d.begin(), d.end(), startdecl) - d.begin();
			std::vector<std::string> pre;
			for (size_t i=0; i<si; ++i) if (std::find( prods.begin(), prods.end(), d[i]) != prods.end()) {std::swap( d[i], d[si]); break;}
		}
		std::string rt;
		for (auto& x : d) rt += x;
		return rt;
	};
	std::string g1 = arrange( g.flip()), g2 = arrange( true);

	// [4] sources and the tree expected
	struct Src { std::string text; std::vector<Node> top; };
	std::vector<Src> srcs;
	bool usedToken = false, usedCall = false;
	for (int si=0; si<2; ++si)
	{
		Src S;
		int budget = 12;
		std::function<void(std::vector<Node>&,int,int)> gen = [&]( std::vector<Node>& out, int depth, int n)
		{
			for (int k=0; k<n && budget > 0; ++k)
			{
				--budget;
				const FItem& it = items[ g.below( items.size())];
				if (it.block && depth > 3) {if (k == 0 && n == 1) ++n; if (n > 20) throw Discard(); continue;}
				auto sep = [&]()
				{
					S.text += " ";
					if (!indent && g.chance( 1, 4)) S.text += "\n";
					if (!ignored.empty() && g.chance( 1, 6)) S.text += ignored + " ";
					if (!copen.empty() && g.chance( 1, 6)) S.text += copen + " x " + cclose + " ";
					if (!indent && !ceoln.empty() && g.chance( 1, 6)) S.text += ceoln + " any text\n";
				};
				if (indent) S.text += std::string( depth*2, ' ');
				S.text += it.keyword.content;
				std::vector<Node> sub;
				auto indentLeaf = [&]( const char* nm) {Node leaf; leaf.leaf = true; leaf.name = nm; sub.push_back( leaf);};
				if (indent) indentLeaf( "NL");
				for (int t : it.tokens)
				{
					sep();
					S.text += toks[t].prefix + toks[t].body + toks[t].postfix;
					Node leaf;
					leaf.leaf = true; leaf.name = toks[t].name; leaf.value = toks[t].value;
					sub.push_back( leaf);
					usedToken = true;
				}
				if (indent) {if (!ceoln.empty() && g.chance( 1, 6)) S.text += " " + ceoln + " any text"; S.text += "\n";}
				if (it.block) indentLeaf( "IND");
				if (it.block) {size_t len = S.text.size(); gen( sub, depth+1, 1 + g.small( 2)); if (S.text.size() == len) throw Discard();}
				if (it.block) indentLeaf( "END");
				if (!indent) {sep(); S.text += semi; sep();}
				if (it.hasCall)
				{
					Node nd;
					nd.name = it.call.func;
					nd.callname = it.call.func;
					if (it.call.kind == 1) nd.callname += " " + it.call.text.substr( 1, it.call.text.size()-2);
					else if (it.call.kind) nd.callname += " " + it.call.canon;
					nd.value = it.obj.isNil() ? "" : it.obj.repr();
					nd.arg = sub;
					out.push_back( nd);
					usedCall |= it.call.kind != 0;
				}
				else out.insert( out.end(), sub.begin(), sub.end());
			}
		};
		gen( S.top, 0, 1 + g.small( 5));
		if (S.text.empty()) throw Discard();
		srcs.push_back( S);
	}
	// a comment ends with the first occurrence of its end
	if (!cclose.empty() && (" x " + cclose).find( cclose) != 3) throw Discard();

	c.logs( "grammar 1:\n" + g1 + "grammar 2:\n" + g2);
	for (auto& S : srcs) c.logs( "source:\n" + S.text);
	c.key( g1 + g2);
	std::function<std::string(const Node&)> full = [&]( const Node& n) -> std::string
	{
		if (n.leaf) return n.name + ":" + quote( n.value, 10000);
		std::string rt = "[" + quote( n.callname, 10000) + " " + quote( n.value, 10000) + "](";
		for (auto& a : n.arg) rt += full( a) + " ";
		return rt + ")";
	};
	std::string firstOut;
	for (int gi=0; gi<2; ++gi)
	{
		ProgResult r = generate( c, gi ? g2 : g1);
		if (r.exitCode) fail( "refused", fmt( "grammar %d refused: ", gi+1) + r.err);
		if (!r.outExists) fail( "no-output", "no output written");
		if (gi == 0)
		{
			ProgResult r2 = generate( c, g1);
			if (r2.outFile != r.outFile) fail( "not-deterministic", "two runs on the same grammar file differ");
		}
		Compiler comp( c);
		std::string err = comp.load( r.outFile);
		if (!err.empty()) fail( "not-loaded", err);
		auto nm = comp.lua.exec( "return __def.language, __def.typesystem");
		if (!nm.ok || nm[0].s != language || nm[1].s != ts) fail( "names", "language and type system are " + nm[0].repr() + ", " + nm[1].repr());
		for (auto& S : srcs)
		{
			RunResult rr = comp.run( S.text);
			if (!rr.ok) fail( "not-compiled", fmt( "grammar %d: source not compiled: ", gi+1) + rr.error);
			if (rr.calls.size() != 1 || rr.calls[0].func != "program") fail( "calls", "expected one call of program");
			std::string got, exp;
			for (auto& n : rr.calls[0].node.arg) got += full( n) + "\n";
			for (auto& n : S.top) exp += full( n) + "\n";
			if (got != exp) fail( "tree", fmt( "grammar %d gives\n", gi+1) + got + "expected\n" + exp);
		}
	}
	if (hasQuote) c.label( "quotes or backslashes in keywords");
	if (confusable) c.label( "calls with same text, different value");
	if (indent) c.label( "indentation");
	if (!copen.empty() || !ceoln.empty()) c.label( "comments");
	if (usedToken && usedCall) c.nontrivial();
}

const char* const templateGrammar = "start = item (prog \"a\\\\b\"); item = 'x' ID | ; ID : '[a-z]+';\n";

// grammars up to the limits of the packed tables: every terminal, production, call and state has to survive generation and loading
void kindLargeTables( Gen& g, Case& c)
{
	auto upto = [&]( int max) {switch (g.below( 4)) {case 0: return max; case 1: return max - (int)g.below( max/8+1); default: return 1 + (int)g.below( max);}};
	int nterm = upto( 1022);			// besides the separator
	int nprod = upto( 507);				// besides start and list
	int nwrap = g.flip() ? upto( 250) : (int)g.below( 5);
	int maxlen = 1 + g.below( 14);
	int maxnodes = upto( 3700);
	int ncall = g.below( 3);			// no calls, some, all
	std::vector<int> order;
	for (int i=0; i<nterm; ++i) order.push_back( i);
	for (size_t i=order.size()-1; i>0; --i) std::swap( order[i], order[ g.below( i+1)]);
	size_t pos = 0;
	struct LItem { std::vector<int> seq; bool wrap = false; bool call = false; };
	std::vector<LItem> items;
	std::map<std::vector<int>,int> known;		// sequences to index of item
	std::set<std::vector<int>> nodes;		// states of the trie of all items
	int prods = 0, wraps = 0;
	for (int i=0; i<nprod*2 && prods<nprod; ++i)
	{
		LItem it;
		size_t len = 1 + g.below( maxlen);
		if (!items.empty() && g.chance( 1, 4))
		{
			// prefix shared with another production
			auto& o = items[ g.below( items.size())].seq;
			it.seq.assign( o.begin(), o.begin() + g.below( o.size()+1));
		}
		while (it.seq.size() < len) it.seq.push_back( pos < order.size() ? order[ pos++] : (int)g.below( nterm));
		if (known.count( it.seq)) continue;
		size_t add = 1;
		for (size_t k=1; k<=it.seq.size(); ++k) add += !nodes.count( std::vector<int>( it.seq.begin(), it.seq.begin()+k));
		if ((int)(nodes.size() + items.size() + add) > maxnodes) {if (items.empty()) continue; break;}
		it.wrap = wraps < nwrap && prods+2 <= nprod;
		for (size_t k=1; k<=it.seq.size(); ++k) nodes.insert( std::vector<int>( it.seq.begin(), it.seq.begin()+k));
		prods += it.wrap ? 2 : 1;
		wraps += it.wrap;
		it.call = ncall == 2 || (ncall == 1 && g.flip());
		known[ it.seq] = items.size();
		items.push_back( it);
	}
	if (items.empty()) throw Discard();
	auto kw = [&]( int t) {return fmt( "k%04d", t);};
	std::string text = "% LANGUAGE \"L\";\n% TYPESYSTEM \"T\";\nstart = list (program);\nlist = list item;\nlist = item;\n";
	bool named = g.flip();
	std::set<int> tokens;
	if (named) for (int i=0; i<10; ++i)
	{
		int t = g.below( nterm);
		if (tokens.insert( t).second) text += fmt( "TOK%d : 'k%04d';\n", t, t);
	}
	for (size_t i=0; i<items.size(); ++i)
	{
		auto& it = items[i];
		std::string rhs;
		for (int t : it.seq) rhs += (tokens.count( t) ? fmt( "TOK%d", t) : "\"" + kw( t) + "\"") + " ";
		rhs += "';'";
		if (it.call) rhs += fmt( " (f%d %d)", (int)i, (int)i);
		if (it.wrap) text += fmt( "item = n%d;\nn%d = ", (int)i, (int)i) + rhs + ";\n";
		else text += "item = " + rhs + ";\n";
	}
	c.log( "%d terminals, %d productions, %d calls kind, %d states about\n", nterm, prods+3, ncall, (int)(nodes.size()+items.size()));
	c.key( text);
	ProgResult r = generate( c, text);
	if (r.exitCode) fail( "refused", "grammar refused: " + r.err.substr( 0, 2000) + "\n" + text.substr( 0, 100000));
	Compiler comp( c);
	std::string err = comp.load( r.outFile);
	if (!err.empty()) fail( "not-loaded", err.substr( 0, 2000));
	// [1] all productions
	auto source = [&]( const std::vector<int>& sq) {std::string s; for (int t : sq) s += kw( t) + (g.chance( 1, 8) ? "\n" : " "); return s + "; ";};
	std::string src, exp, got;
	for (size_t i=0; i<items.size(); ++i) src += source( items[i].seq);
	std::vector<int> sel;
	for (size_t i=0; i<items.size(); ++i) sel.push_back( i);
	int extra = g.below( 100);
	for (int i=0; i<extra; ++i) {int k = g.below( items.size()); sel.push_back( k); src += source( items[k].seq);}
	for (int i : sel)
	{
		std::string leafs;
		for (int t : items[i].seq) if (tokens.count( t)) leafs += fmt( "TOK%d=", t) + kw( t) + " ";
		exp += items[i].call ? fmt( "f%d %d %d(%s)\n", i, i, i, leafs.c_str()) : leafs.empty() ? leafs : leafs + "\n";
	}
	RunResult rr = comp.run( src);
	if (!rr.ok) fail( "not-compiled", "source with all productions not compiled: " + rr.error + "\n" + text.substr( 0, 100000));
	if (rr.calls.size() != 1 || rr.calls[0].func != "program") fail( "calls", "expected one call of program");
	std::string bare;
	for (auto& n : rr.calls[0].node.arg)
	{
		if (n.leaf) {bare += n.name + "=" + n.value + " "; continue;}
		got += n.callname + " " + n.value + "(";
		for (auto& a : n.arg) got += a.name + "=" + a.value + " ";
		got += ")\n";
	}
	std::string expCalls, expBare;
	for (size_t p=0; p<exp.size();) {size_t e = exp.find( '\n', p); std::string ln = exp.substr( p, e-p); if (ln.back() == ')') expCalls += ln + "\n"; else expBare += ln; p = e+1;}
	if (got != expCalls || bare != expBare) fail( "tree", "got\n" + got.substr( 0, 5000) + bare.substr( 0, 1000) + "\nexpected\n" + expCalls.substr( 0, 5000) + expBare.substr( 0, 1000) + text.substr( 0, 100000));
	// [2] sequences that differ in one place from a production
	int refused = 0;
	for (int i=0; i<40; ++i)
	{
		std::vector<int> sq = items[ g.below( items.size())].seq;
		size_t at = g.below( sq.size());
		switch (g.below( 5))
		{
			case 0: sq[ at] = g.below( nterm); break;
			case 1: sq[ at] = (sq[ at] + (g.flip() ? 512 : 256)) % nterm; break;
			case 2: sq.erase( sq.begin() + at); break;
			case 3: sq.insert( sq.begin() + at, g.below( nterm)); break;
			default:
			{
				auto& o = items[ g.below( items.size())].seq;
				sq.resize( at);
				for (size_t k=at; k<o.size(); ++k) sq.push_back( o[k]);
			}
		}
		bool expect = known.count( sq);
		std::string s2 = source( sq);
		rr = comp.run( s2);
		if (rr.ok != expect) fail( "acceptance", (expect ? "sentence refused: " + rr.error : std::string( "text accepted that is no sentence: ")) + s2 + "\n" + text.substr( 0, 100000));
		if (!expect) ++refused;
	}
	if (refused >= 5 && items.size() >= 20) c.nontrivial();
	if (nterm >= 512) c.label( "more than 512 terminals");
	if (nodes.size() + items.size() >= 2048) c.label( "more than 2048 states");
	if (prods >= 256) c.label( "more than 256 productions");
	if (wraps >= 128) c.label( "more than 128 nonterminals");
}

void kindTemplate( Gen& g, Case& c)
{
	std::string vals[4];
	for (int i=0; i<4; ++i)
	{
		if (i != 0 && g.chance( 1, 6)) vals[i] = fmt( "%%%s%%", (const char*[]){"luabin","typesystem","language","cmdline","automaton"}[ g.below( 5)]);
		else if (i == 0 || g.flip()) vals[i] = "/" + identifier( g, "v") + (g.flip() ? "" : " x%y");
		else {Lit l = literal( g, {"v", anyText( g, g.small( 6))}); vals[i] = l.content;}
	}
	std::string gr = templateGrammar;
	bool noCmdline = g.chance( 1, 4), explicitBin = g.flip();
	auto lit = [&]( const std::string& s) {return s.find( '"') == std::string::npos ? '"' + s + '"' : '\'' + s + '\'';};
	gr += "%TYPESYSTEM " + lit( vals[1]) + ";\n%LANGUAGE " + lit( vals[2]) + ";\n";
	if (noCmdline) vals[3].clear(); else gr += "%CMDLINE " + lit( vals[3]) + ";\n";
	if (!explicitBin) vals[0] = "/usr/bin/lua";
	static const char* keys[] = {"%luabin%","%typesystem%","%language%","%cmdline%","%automaton%"};
	std::vector<std::pair<int,std::string>> pieces;
	int n = 1 + g.small( 8), nk = 0;
	for (int i=0; i<n; ++i)
	{
		if (g.flip()) {pieces.push_back( {(int)g.below( 5), ""}); ++nk;}
		else
		{
			std::string t;
			switch (g.below( 6))
			{
				case 0: t = anyText( g, 1 + g.small( 6), true); break;
				case 1: t = (const char*[]){"%","%%","%unknown%","% automaton%","%automaton %","%LANGUAGE%","%typesyste%","%s%d%n"}[ g.below( 8)]; break;
				case 2: t = std::string( "a\0b", 3); break;
				case 3: t = "\r\n\n"; break;
				case 4: t = g.bytes( g.small( 8)); break;
				case 5: t = "automaton typesystem"; break;
			}
			// no keys built of several pieces
			t = "." + t + ".";
			pieces.push_back( {-1, t});
		}
	}
	std::string templat;
	for (auto& p : pieces) templat += p.first < 0 ? p.second : keys[ p.first];
	c.logs( gr); c.log( "template: %s\n", quote( templat, 4000).c_str());
	c.key( gr + templat);
	std::vector<std::string> more;
	if (explicitBin) {if (g.flip()) more = {"-b", vals[0]}; else if (g.flip()) more = {"-b" + vals[0]}; else more = {"--luabin=" + vals[0]};}
	ProgResult ra = generate( c, gr, "%automaton%", more);
	if (ra.exitCode || !ra.outExists) fail( "refused", "refused: " + ra.err);
	std::string automaton = ra.outFile.substr( 0, ra.outFile.size()-1);
	std::string exp;
	for (auto& p : pieces) exp += p.first < 0 ? p.second : p.first < 4 ? vals[ p.first] : automaton;
	exp += "\n";
	ProgResult r;
	std::string gf = c.tmpdir + "/g.g", of = c.tmpdir + "/g.lua", tf = c.tmpdir + "/g.tpl";
	if (templat.empty()) throw Discard();
	switch (g.below( 3))
	{
		case 0: r = generate( c, gr, templat, more); break;
		case 1: case 2:
			writeFile( gf, gr); writeFile( tf, templat); unlink( of.c_str());
			more.push_back( "-g");
			more.push_back( g.flip() ? "-t" + tf : "--template=" + tf);
			if (g.flip()) more.push_back( "-o" + of); else if (g.flip()) more.push_back( "--output=" + of);
			else of.clear();
			more.push_back( gf);
			r = runProgram( more);
			if (of.empty()) {r.outExists = true; r.outFile = r.out;} else r.outExists = readFile( of, r.outFile);
			break;
	}
	if (r.exitCode || !r.outExists) fail( "refused", "refused: " + r.err);
	if (r.outFile != exp) fail( "template", "output\n" + quote( r.outFile, 4000) + "\nexpected\n" + quote( exp, 4000));
	if (nk >= 2) c.nontrivial();
	c.count( "keys", nk);
}

// the program generated without template
void kindDefault( Gen& g, Case& c)
{
	std::string ts = identifier( g, "ts") + (g.chance( 1, 3) ? "." + identifier( g, "x") : ""), lang = identifier( g, "la") + (g.flip() ? " 1.0" : ""), cl = identifier( g, "cm");
	bool hasCmd = g.flip(), explicitBin = g.flip();
	std::string bin = "/usr/bin/lua";
	std::string gr = templateGrammar;
	gr += "%TYPESYSTEM \"" + ts + "\";\n%LANGUAGE '" + lang + "';\n";
	if (hasCmd) gr += "%CMDLINE " + cl + ";\n";
	std::vector<std::string> args = {"-g"};
	if (explicitBin) {bin = "/opt/" + identifier( g, "lua"); args.push_back( "-b"); args.push_back( bin);}
	std::string gf = c.tmpdir + "/g.g";
	writeFile( gf, gr);
	args.push_back( gf);
	c.logs( gr);
	c.key( gr);
	ProgResult r = runProgram( args);
	if (r.exitCode) fail( "refused", "refused: " + r.err);
	size_t nl = r.out.find( '\n');
	if (nl == std::string::npos || r.out.substr( 0, nl) != "#!" + bin) fail( "luabin", "first line is " + r.out.substr( 0, nl));
	Lua lua;
	std::string n = fmt( "%d", (int)g.below( 1000));
	auto res = lua.exec(
		"required = {}\n"
		"local function mod(name,m) package.preload[name] = function() required[#required+1] = name; return m end end\n"
		"mod('" + ts + "', setmetatable( {}, {__index=function(t,k) return function() end end}))\n"
		"mod('" + cl + "', {parse=function(l,a) parsed={l,a[1]}; return {target='T" + n + "',options='O" + n + "',input='I" + n + "',output='U" + n + "',debug='D" + n + "'} end})\n"
		"local mewa_real = mewa; package.loaded.mewa = nil\n"
		"package.preload.mewa = function() required[#required+1] = 'mewa'; return {compiler=function(def) mewa_real.compiler(def); compdef=def; return {run=function(self,...) runargs=table.pack(...) end} end} end\n"
		"arg = {'input" + n + "'}\n");
	if (!res.ok) fail( "harness", res.error);
	res = lua.exec( r.out.substr( nl), "=generated");
	if (!res.ok) fail( "not-loaded", "program generated fails: " + res.error);
	res = lua.exec( "local rt = {} for i=1,5 do rt[i] = tostring( runargs[i]) end; return table.concat( required,','), table.concat( rt,','), parsed and parsed[1], parsed and parsed[2], compdef.language");
	if (!res.ok) fail( "harness", res.error);
	std::string exp = hasCmd ? "T"+n+",O"+n+",I"+n+",U"+n+",D"+n : "nil,nil,input"+n+",nil,nil";
	if (res[1].s != exp) fail( "run-arguments", "compiler:run called with " + res[1].s + ", expected " + exp);
	if (hasCmd && (res[2].s != lang || res[3].s != "input"+n)) fail( "cmdline", "command line parser called with " + res[2].repr() + "," + res[3].repr());
	if (res[0].s != ts + (hasCmd ? "," + cl : "") + ",mewa") fail( "modules", "modules loaded: " + res[0].s);
	if (res[4].s != lang) fail( "language", "language is " + res[4].repr());
	if (explicitBin) c.nontrivial();
}

// ---------------------------------------------------------------- G06
std::string baseGrammar( Gen& g, bool small, bool& big)
{
	big = false;
	switch (g.weighted( {6,5,2,2,small ? 0 : 1}))
	{
		case 0: return genFile( g, true).text;
		case 1:
		{
			lr::Grammar G = lr::genAny( g);
			lr::addCalls( g, G, 40);
			return G.text( g);
		}
		case 2: {std::string s; if (!readFile( "harness/corpus/indentl.g", s)) fail( "harness-io", "corpus"); return s;}
		case 3: {std::string s; if (!readFile( "harness/corpus/intro.g", s)) fail( "harness-io", "corpus"); big = true; return s;}
		default: {std::string s; if (!readFile( "harness/corpus/language1.g", s)) fail( "harness-io", "corpus"); big = true; return s;}
	}
}

std::string mutateText( Gen& g, std::string s)
{
	static const char* dict[] = {"%",";","=","|","(",")","{}",">>","{","}",",",":","/","/L1","1R","ε","→","'","\"","/*","*/","//","#","@op","@x y\n","\\","start","T0","n0","n1",
		"% INDENTL A B C 4;","% COMMENT '/*' '*/';","% IGNORE 'a*';","% BAD x;","%LANGUAGE x;","%TYPESYSTEM 'x';","%CMDLINE y;","'[a-z'","'(((a)))' 3","'a{2,3}'","[^]","'a**'","'x{1,100000}'","''","\"\"",
		"(f)","(f 1)","(f true)","(f nil)","(f {a=1})","(f {a=\"\\x41\"})","(f a.b)","(a.b.c)","(f \"\\q\")","99999999999","4096","0","-","-x","$","n0 = n0;","n0 = n0 n0 | ε;","\n","\r\n","\t","\xc3","\xff","\x01"};
	int n = 1 + g.small( 6);
	for (int i=0; i<n; ++i)
	{
		if (s.empty()) s = ";";
		size_t at = g.below( s.size()+1);
		switch (g.below( 9))
		{
			case 0: if (at < s.size()) s[at] = (char)g.below( 256); break;
			case 1: s.insert( at, 1, (char)g.below( 256)); break;
			case 2: s.insert( at, dict[ g.below( sizeof(dict)/sizeof(*dict))]); break;
			case 3: s.erase( at, 1 + g.small( 10)); break;
			case 4: {std::string w = s.substr( at, 1 + g.small( 60)); s.insert( g.below( s.size()+1), w); break;}
			case 5: s.erase( at); break;
			case 6:	// a word replaced by another one
			{
				auto word = [&]( size_t p) {size_t b = s.find_first_not_of( " \t\n;", p); if (b == std::string::npos) return std::pair<size_t,size_t>( p, 0); size_t e = s.find_first_of( " \t\n;", b); if (e == std::string::npos) e = s.size(); return std::pair<size_t,size_t>( b, e-b);};
				auto a = word( std::min( at, s.size()-1)), b = word( g.below( s.size()));
				std::string w = s.substr( b.first, b.second);
				s.replace( a.first, a.second, w);
				break;
			}
			case 7: // line removed or doubled
			{
				size_t b = s.rfind( '\n', at ? at-1 : 0); b = b == std::string::npos ? 0 : b+1;
				size_t e = s.find( '\n', at); e = e == std::string::npos ? s.size() : e+1;
				if (e <= b) break;
				std::string ln = s.substr( b, e-b);
				if (g.flip()) s.erase( b, e-b); else s.insert( b, ln);
				break;
			}
			case 8: s.insert( at, dict[ g.below( 24)]); s.insert( g.below( s.size()+1), dict[ g.below( 24)]); break;
		}
		if (s.size() > 30000) s.resize( 30000);
	}
	return s;
}

const char* const anyTypesystem =
	"debug.setmetatable( function() end, {__index=function(t,k) return function() end end})\n"
	"typesystem = setmetatable( {}, {__index=function(t,k) return function() end end})\n";

void checkGenerated( Gen& g, Case& c, const std::string& text, const std::string& out)
{
	Compiler comp( c);
	std::string err = comp.load( out, anyTypesystem);
	if (!err.empty()) fail( "not-loaded", "generated compiler cannot be loaded: " + err);
	// sources made of pieces of the grammar, compiled or refused
	for (int i=0; i<2; ++i)
	{
		std::string src;
		int n = i ? 1 + g.small( 8) : 0;
		for (int k=0; k<n; ++k)
		{
			size_t p = g.below( text.size()+1);
			src += text.substr( p, 1 + g.small( 5));
			if (g.flip()) src += g.flip() ? " " : "\n  ";
		}
		comp.run( src);
	}
}

void kindMutated( Gen& g, Case& c)
{
	int mode = (int)g.weighted( {5,2,2});
	bool big;
	std::string text = baseGrammar( g, mode == 0, big);
	if (g.chance( 1, 40)) text = g.bytes( g.small( 200));
	else if (!g.chance( 1, 30)) text = mutateText( g, text);
	if (text.find( "\\u") != std::string::npos) throw Discard();	// unknown to Lua 5.2
	c.key( text);
	std::string gf = c.tmpdir + "/m.g", of = c.tmpdir + "/m.out", tf = c.tmpdir + "/m.tpl", df = c.tmpdir + "/m.dbg";
	writeFile( gf, text);
	writeFile( tf, "%automaton%");
	unlink( of.c_str());
	std::vector<std::string> args;
	if (mode == 0) args = {"-g", "-t", tf, "-o", of}; else args = {mode == 1 ? "-l" : "-s", "-o", of};
	bool dbg = mode == 0 && !big && g.chance( 1, 4);
	if (dbg) {args.push_back( "-d"); args.push_back( df);}
	args.push_back( gf);
	c.log( "mode %s%s, grammar:\n", args[0].c_str(), dbg ? " -d" : ""); c.logs( text);
	ProgResult r = runProgram( args);
	r.outExists = readFile( of, r.outFile);
	if (!r.out.empty() && !dbg) fail( "stdout", "unexpected output on stdout: " + r.out.substr( 0, 200));
	if (r.exitCode)
	{
		if (r.outExists) fail( "output-of-failure", "output written although refused: " + r.err);
		if (r.err.find( "ERR ") == std::string::npos) fail( "no-message", "refused without error message: " + r.err);
		if (r.err.find( "ERR #") == std::string::npos) fail( "no-error-code", "refused with an error without code: " + r.err);
		if (r.err.find( "Logic error") != std::string::npos) fail( "logic-error", r.err);
		size_t p = r.err.find( "ERR #");
		c.label( "refused " + r.err.substr( p+4, 4));
		c.nontrivial();
		return;
	}
	if (!r.outExists) fail( "no-output", "no output written");
	if (r.err.find( "ERR") != std::string::npos) fail( "error-ignored", "error printed but exit code 0: " + r.err);
	c.label( std::string( "accepted ") + args[0]);
	if (mode == 0) {checkGenerated( g, c, text, r.outFile); c.nontrivial();}
	else
	{
		Lua lua;
		lua.exec( "package.loaded['mewa'] = mewa");
		auto res = lua.exec( (mode == 1 ? "" : "do return end ") + r.outFile, "=out");
		if (!res.ok) fail( "not-lua", "output is no valid Lua: " + res.error);
	}
}

struct MDecl
{
	std::vector<std::string> lex;
	bool prod = false;
	bool mark = false;		// the error is reported for one of the marked declarations
	int exact = -1;			// lexem whose line is reported
	std::string comment;		// text put in front on a line of its own
	int line0 = 0, line1 = 0, exactLine = 0;
};

void kindMistake( Gen& g, Case& c)
{
	// [1] correct declarations
	std::vector<MDecl> decls;
	auto add = [&]( std::vector<std::string> lex, bool prod = false) -> MDecl& {MDecl d; d.lex = lex; d.prod = prod; decls.push_back( d); return decls.back();};
	int ntok = 2 + g.small( 3), nnt = 2 + g.small( 4);
	std::vector<std::string> T, Nt;
	for (int i=0; i<ntok; ++i) T.push_back( fmt( "T%d", i));
	for (int i=0; i<nnt; ++i) Nt.push_back( fmt( "n%d", i));
	if (g.flip()) add( {"%","LANGUAGE","\"l\"",";"});
	if (g.flip()) add( {"%","TYPESYSTEM","ts",";"});
	if (g.flip()) add( {"%","CMDLINE","'cmd'",";"});
	if (g.flip()) add( {"%","IGNORE","'[$]+'",";"});
	if (g.flip()) add( {"%","BAD","bad",";"});
	if (g.flip()) add( {"%","COMMENT","'//'",";"});
	if (g.flip()) add( {"%","COMMENT","\"/*\"","'*/'",";"});
	for (int i=0; i<ntok; ++i)
	{
		if (g.chance( 1, 3)) add( {T[i],":",fmt( "'(%c)([a-z]*)'", 'a'+i),fmt( "%d", (int)g.below( 3)),";"});
		else add( {T[i],":",fmt( "\"%c[a-z]*\"", 'a'+i),";"});
	}
	add( {"start","=",Nt[0],";"}, true);
	int uniq = 0;
	auto call = [&]( std::vector<std::string>& lex)
	{
		switch (g.below( 10))
		{
			case 0: lex.insert( lex.end(), {"(","f",")"}); break;
			case 1: lex.insert( lex.end(), {"(",">>","f","1",")"}); break;
			case 2: lex.insert( lex.end(), {"(","{}",")"}); break;
			case 3: lex.insert( lex.end(), {"(","g","\"x\\n\"",")"}); break;
			case 4: lex.insert( lex.end(), {"(","g","{","a","=","1",",","b","=","'x'","}",")"}); break;
			case 5: lex.insert( lex.end(), {"(","g","a.b",")"}); break;
			default: break;
		}
	};
	for (int i=0; i<nnt; ++i)
	{
		std::vector<std::string> lex = {Nt[i]};
		if (g.chance( 1, 3)) {lex.push_back( "/"); lex.push_back( g.flip() ? fmt( "L%d", (int)g.below( 32)) : fmt( "%dR", (int)g.below( 32)));}
		lex.push_back( "=");
		int na = 1 + g.small( 2);
		for (int a=0; a<na; ++a)
		{
			if (a) lex.push_back( "|");
			if (a == 0 && i+1 < nnt) lex.push_back( Nt[i+1]);
			lex.push_back( fmt( "'k%d'", uniq++));
			int m = g.small( 3);
			for (int k=0; k<m; ++k) lex.push_back( g.flip() || (a == 0 && i+1 == nnt) ? T[ g.below( ntok)] : Nt[ a == 0 ? i+1 + g.below( nnt-i-1) : g.below( nnt)]);
			call( lex);
		}
		lex.push_back( ";");
		add( lex, true);
	}
	bool indent = g.chance( 1, 3);
	if (indent) {add( {"%","INDENTL","IND","END","NL","4",";"}); decls.back().lex[1] = g.flip() ? "INDENTL" : "indentl";}

	// [2] order
	for (size_t i=decls.size()-1; i>0; --i) std::swap( decls[i], decls[ g.below( i+1)]);
	auto findStart = [&]() {size_t i=0; for (; i<decls.size() && decls[i].lex[0] != "start"; ++i){} return i;};
	{
		size_t si = findStart(), fi = 0;
		for (; fi<decls.size() && !decls[fi].prod; ++fi){}
		if (fi < si) std::swap( decls[fi], decls[si]);
	}
	std::vector<MDecl> correct = decls;

	// [3] one mistake
	int code = 0;
	bool anyLine = false, onlyLang = false, truncate = false;
	auto insertAnywhere = [&]( MDecl d) {d.mark = true; decls.insert( decls.begin() + g.below( decls.size()+1), d);};
	auto insertAfterStart = [&]( MDecl d) {size_t si = findStart(); d.mark = true; decls.insert( decls.begin() + si+1 + g.below( decls.size()-si), d);};
	auto pickProd = [&]( bool notStart) -> MDecl& {std::vector<size_t> ix; for (size_t i=0; i<decls.size(); ++i) if (decls[i].prod && !(notStart && decls[i].lex[0] == "start")) ix.push_back( i); return decls[ ix[ g.below( ix.size())]];};
	auto mk = []( std::vector<std::string> lex, int exact = -1) {MDecl d; d.lex = lex; d.exact = exact; return d;};
	// position in the right side of a production where an element may follow: after '=', '|' or an element
	auto rhsPos = [&]( const MDecl& d)
	{
		std::vector<size_t> ix;
		bool in = false, brk = false;
		for (size_t i=0; i<d.lex.size(); ++i)
		{
			if (d.lex[i] == "(") brk = true;
			if (!brk && in && d.lex[i] != ";" && d.lex[i] != "|") ix.push_back( i);
			if (d.lex[i] == "=" && !brk) in = true;
			if (d.lex[i] == "|") brk = false;
		}
		return ix[ g.below( ix.size())];
	};
	int mistake = (int)g.below( 25);
	switch (mistake)
	{
		case 0:
		{
			code = 501;
			MDecl& d = decls[ g.below( decls.size())];
			size_t p = g.below( d.lex.size()+1);
			d.lex.insert( d.lex.begin()+p, g.pick( std::vector<std::string>{"$","?","!","^","&","~","`","[","]","\\","@",".","<","+","*","- ","> ","\x80","\x01x","\x7f","\" x\n","'\n","'y \" z\n"}));
			if (d.lex[p] == "\x01x") d.lex[p] = "\x7f";
			d.mark = true; d.exact = (int)p;
			break;
		}
		case 1:
			code = 502;
			switch (g.below( 3))
			{
				case 0: insertAnywhere( mk( {"TX",":","'(a)b'", g.pick( std::vector<std::string>{"2","3","17","1000000"}),";"})); break;
				case 1: insertAnywhere( mk( {"TX",":","'(a)b'", g.pick( std::vector<std::string>{"2147483648","4294967296","4294967297","99999999999999999999"}),";"}, 3)); break;
				case 2: if (indent) {code = 0; break;} insertAnywhere( mk( {"%","INDENTL","A","B","C",g.pick( std::vector<std::string>{"2147483648","4294967300","99999999999999999999"}),";"})); break;
			}
			break;
		case 2: code = 503; truncate = true; break;
		case 3:
		{
			code = 504;
			MDecl d = mk( {g.pick( std::vector<std::string>{")","(",",","=","→","|","5","'str'","\"str\"",">>","{}","{","}",":","/","ε","3L","-x","a.b"})}, 0);
			insertAnywhere( d);
			break;
		}
		case 4:
		{
			code = 504;
			MDecl& d = pickProd( false);
			size_t p = rhsPos( d) + 1;
			d.lex.insert( d.lex.begin()+p, g.pick( std::vector<std::string>{"5","3L",",","{","}",":","/","%",">>","{}","=","→",")","ε","-x","a.b"}));
			d.mark = true; d.exact = (int)p;
			break;
		}
		case 5:
			code = 504;
			switch (g.below( 12))
			{
				case 0: insertAnywhere( mk( {"x","=","'a'","(","f","a","b",")",";"}, 6)); break;
				case 1: insertAnywhere( mk( {"x","=","'a'","(","f","1","2",")",";"}, 6)); break;
				case 2: insertAnywhere( mk( {"x","=","'a'","(","f","=",")",";"}, 5)); break;
				case 3: insertAnywhere( mk( {"x","=","'a'","(","f",")","y",";"}, 6)); break;
				case 4: insertAnywhere( mk( {"x","=","'a'","(","f","{","a","=","}",")",";"}, 8)); break;
				case 5: insertAnywhere( mk( {"x","=","'a'","(","f","{","=","1","}",")",";"}, 6)); break;
				case 6: insertAnywhere( mk( {"x","=","'a'","(",luaKeywords[ g.below( luaKeywords.size())],")",";"}, 4)); break;
				case 7: insertAnywhere( mk( {"x","=","'a'","(","f",g.pick( std::vector<std::string>{"a..b","a.","-x","-a.b","a.end","end"}),")",";"}, 5)); break;
				case 8: insertAnywhere( mk( {"x","=","'a'","(",g.pick( std::vector<std::string>{"a..b","a.","-x","a.end.b","1","'s'","true"}),")",";"}, 4)); break;
				case 9: insertAnywhere( mk( {"x","=","'a'","(","f","{",luaKeywords[ g.below( luaKeywords.size())],"=","1","}",")",";"}, 6)); break;
				case 10: insertAnywhere( mk( {"x","=","'a'","(","f","{","a","=","then","}",")",";"}, 8)); break;
				case 11: insertAnywhere( mk( {"x","=","'a'","(","f","{","a","=","1",";","}",")",";"}, 9)); decls.back(); code = 0; break;
			}
			if (code == 0) {decls = correct; }
			break;
		case 6:
			switch (g.below( 3))
			{
				case 0: code = 505; insertAnywhere( g.flip() ? mk( {"x","=","'a'","(",">>","{}","f",")",";"}, 5) : mk( {"x","=","'a'","(","{}","{}",")",";"}, 5)); break;
				case 1: code = 506; insertAnywhere( mk( {"x","=","'a'","(","f","{","a","=","{","b","=","1","}","}",")",";"}, 8)); break;
				case 2: code = 501; insertAnywhere( mk( {"x","=","'a'","(","f",g.pick( std::vector<std::string>{"'\\q'","\"a\\xg1\"","\"\\256\"","'\\ '","\"\\-\""}),")",";"}, 5)); break;
			}
			break;
		case 7:
		{
			code = 507; onlyLang = true;
			MDecl& d = decls[ g.below( decls.size())];
			std::vector<std::string> res( reservedAttributes.begin(), reservedAttributes.end());
			std::string a = res[ g.below( res.size())];
			d.mark = true;
			d.comment = g.flip() ? "# @" + a + " text\n" : g.flip() ? "/* @x y\n  @" + a + " */\n" : "// @" + a + "\n";
			break;
		}
		case 8:
		{
			code = 508;
			MDecl& d = pickProd( true);
			// the first alternative once more
			std::vector<std::string> lex = {d.lex[0]};
			if (g.flip()) {lex.push_back( "/"); lex.push_back( "L2");}
			lex.push_back( "=");
			size_t i = std::find( d.lex.begin(), d.lex.end(), "=") - d.lex.begin() + 1;
			for (; d.lex[i] != "|" && d.lex[i] != ";" && d.lex[i] != "("; ++i) lex.push_back( g.flip() || d.lex[i][0] != '\'' ? d.lex[i] : '"' + d.lex[i].substr( 1, d.lex[i].size()-2) + '"');
			call( lex);
			lex.push_back( ";");
			size_t pos = &d - &decls[0];
			MDecl n = mk( lex); n.prod = true;
			size_t si = findStart();
			size_t at = si+1 + g.below( decls.size()-si);
			if (at <= pos) {decls[ pos].mark = true;} else n.mark = true;
			decls.insert( decls.begin() + at, n);
			break;
		}
		case 9: code = 521; insertAnywhere( mk( {"TX","/","L1",":","'a'",";"}, 3)); break;
		case 10:
			code = 531;
			insertAnywhere( g.pick( std::vector<MDecl>{ mk({"x",";"},1), mk({"x","/",";"},2), mk({"x","/","L1",";"},3), mk({"TX",":",";"},2), mk({"%",";"},1), mk({"x","=","'a'","(",";"},4),
				mk({"x","=","'a'","(","f",";"},5), mk({"x","=","'a'","(","f","1",";"},6), mk({"x","=","'a'","(","f","{","a",";"},7), mk({"x","=","'a'","(","f","{",";"},6), mk({"x","=","'a'","(","f","{","a","=",";"},8), mk({"x","=","'a'","(","f","{","a","=","1",";"},9)}));
			break;
		case 11:
			code = 541;
			insertAnywhere( mk( g.pick( std::vector<std::vector<std::string>>{ {"%","LANGUAGE",";"},{"%","LANGUAGE","a","b",";"},{"%","TYPESYSTEM","'a'","1",";"},{"%","CMDLINE",";"},{"%","IGNORE","'a'","'b'",";"},{"%","BAD",";"},{"%","BAD","a","b",";"},
				{"%","COMMENT",";"},{"%","COMMENT","'a'","'b'","'c'",";"},{"%","INDENTL","A","B","C",";"},{"%","INDENTL","A","B","C","1","2",";"} })));
			break;
		case 12: code = 542; insertAnywhere( mk( {"%",g.pick( std::vector<std::string>{"LANG","TOKEN","INDENT","COMMENTS","x","LANGUAGES","BA"}),"'a'",";"})); break;
		case 13:
		{
			if (!indent) {insertAnywhere( mk( {"%","INDENTL","I1","E1","N1","2",";"})); decls = decls; for (auto& d : decls) d.mark = false;}
			code = 544;
			size_t pos = 0;
			for (; pos < decls.size() && !(decls[pos].lex.size() > 2 && (decls[pos].lex[1] == "INDENTL" || decls[pos].lex[1] == "indentl")); ++pos){}
			size_t at = g.below( decls.size()+1);
			MDecl n = mk( {"%","INDENTL","I2","E2","N2","2",";"});
			if (at <= pos) decls[ pos].mark = true; else n.mark = true;
			decls.insert( decls.begin()+at, n);
			break;
		}
		case 14:
		{
			code = 551;
			std::string nm = T[ g.below( ntok)];
			if (g.flip())
			{
				// keyword and nonterminal
				nm = g.pick( Nt);
				MDecl& d = pickProd( true);
				d.lex.insert( d.lex.begin() + rhsPos( d), "'" + nm + "'");
			}
			else insertAfterStart( mk( {nm,"=","'z'",";"}));
			for (auto& d : decls) for (auto& l : d.lex) if (d.lex[1] != ":" && (l == nm || l == "'" + nm + "'")) d.mark = true;
			break;
		}
		case 15:
		{
			code = 552;
			MDecl& d = pickProd( false);
			d.lex.insert( d.lex.begin() + rhsPos( d), g.pick( std::vector<std::string>{"undefined","t0","T99","Start","n99",indent ? "I" : "IND"}));
			d.mark = true;
			break;
		}
		case 16:
		{
			code = 553;
			insertAfterStart( mk( {"unused","=","'z'",";"}));
			if (g.flip()) insertAfterStart( mk( {"unused","=","'y'","|",T[0],";"}));
			break;
		}
		case 17:
		{
			code = 554;
			MDecl& d = pickProd( false);
			d.lex.insert( d.lex.begin() + rhsPos( d), "start");
			d.mark = true;
			break;
		}
		case 18:
			code = 555;
			if (g.flip()) insertAfterStart( mk( {"start","=",Nt[0],T[0],";"}));
			else
			{
				MDecl& d = decls[ findStart()];
				d.lex.pop_back();
				d.lex.insert( d.lex.end(), {"|","'z'",";"});
				d.mark = true;
			}
			break;
		case 19:
			code = 556; anyLine = true;
			decls.erase( std::remove_if( decls.begin(), decls.end(), []( const MDecl& d) {return d.prod;}), decls.end());
			if (g.chance( 1, 4)) decls.clear();
			break;
		case 20:
			code = 574;
			insertAnywhere( mk( {"x","/",g.pick( std::vector<std::string>{"L32","R32","32","32L","1000R","L32768","L65536","65537","L40000"}),"=","'a'",";"}, 2));
			break;
		case 21:
		{
			code = 434;
			std::string rx = g.pick( std::vector<std::string>{"'('","'[a'","'*a'","'a{2,1}'","'a)'","'[b-a]'","'(?x)'","'a{'"});
			if (g.flip()) insertAnywhere( mk( {"TX",":",rx,";"})); else insertAnywhere( mk( {"%","IGNORE",rx,";"}));
			break;
		}
		case 22:
			code = 435;
			switch (g.below( 3))
			{
				case 0: if (indent) {code = 0; break;} insertAnywhere( mk( g.flip() ? std::vector<std::string>{"%","INDENTL","A","A","C","4",";"} : std::vector<std::string>{"%","INDENTL","A","B","B","4",";"})); break;
				case 1: if (!indent) {code = 0; break;} insertAnywhere( mk( {g.pick( std::vector<std::string>{"IND","END","NL"}),":","'a'",";"})); for (auto& d : decls) if (d.lex.size() == 7 && d.lex[2] == "IND" && d.lex[3] == "END") d.mark = true; break;
				case 2:
				{
					std::string nm = T[ g.below( ntok)];
					MDecl& d = pickProd( false);
					d.lex.insert( d.lex.begin() + rhsPos( d), "'" + nm + "'");
					d.mark = true;
					break;
				}
			}
			break;
		case 23:
			code = 432;
			insertAnywhere( mk( g.pick( std::vector<std::vector<std::string>>{ {"%","COMMENT","''",";"},{"%","COMMENT","'a'","\"\"",";"},{"%","COMMENT","''","'b'",";"} })));
			break;
	}
	if (mistake == 24)
	{
		code = 559;
		int n = 1 + g.small( 3);
		MDecl& d = pickProd( true);
		d.lex.insert( d.lex.begin() + rhsPos( d), "loop0");
		std::string pos = d.lex[0];
		for (int i=0; i<n; ++i)
		{
			MDecl u = mk( {fmt( "loop%d", i), "="});
			auto alt = [&]()
			{
				if (g.flip()) u.lex.push_back( g.flip() ? "'z1'" : "empty0");
				u.lex.push_back( fmt( "loop%d", (i+1) % n));
				if (g.flip()) u.lex.push_back( "empty0");
				call( u.lex);
			};
			alt();
			if (g.chance( 1, 3)) {u.lex.insert( u.lex.end(), {"|","'z2'",pos,"loop0"});}
			u.lex.push_back( ";");
			u.prod = true;
			insertAfterStart( u);
		}
		{
			bool used = false;
			for (auto& x : decls) used |= std::count( x.lex.begin(), x.lex.end(), "empty0");
			MDecl e = mk( {"empty0","="});
			if (g.flip()) e.lex.push_back( "ε");
			e.lex.push_back( ";");
			if (used) {insertAfterStart( e); for (auto& x : decls) if (x.lex[0] == "empty0") x.mark = false;}
		}
		// the production changed may not have a derivation either if it has no other alternative
		for (auto& x : decls) if (x.prod) x.mark = true;
	}
	if (!code) throw Discard();

	// [4] file
	FileWriter w( g);
	int truncated = 0;
	for (size_t di=0; di<decls.size(); ++di)
	{
		MDecl& d = decls[di];
		if (!w.text.empty() && w.text.back() != '\n') w.put( "\n");
		if (g.chance( 1, 4)) w.put( "\n");
		d.line0 = w.line;
		if (!d.comment.empty()) {w.put( d.comment); d.line1 = w.line-1; if (code != 507) d.line0 = w.line;}
		size_t n = d.lex.size();
		if (truncate && di+1 == decls.size()) {n = 1 + g.below( n-1); d.mark = true; truncated = 1;}
		for (size_t i=0; i<n; ++i)
		{
			if (i) {if (g.chance( 1, 5)) w.blank( true); else w.put( " ");}
			if ((int)i == d.exact) d.exactLine = w.line;
			w.put( d.lex[i]);
		}
		if (code != 507) d.line1 = w.line;
	}
	if (g.flip()) w.put( "\n\n# end\n");
	int lastline = w.line;
	if (truncated) decls.back().line1 = lastline;
	const char* modes[] = {"-l","-s","-g"};
	int mode = onlyLang ? 0 : (int)g.below( 3);
	c.log( "mistake %d expecting #%d, mode %s\n", mistake, code, modes[ mode]);
	c.logs( w.text);
	c.key( w.text);
	c.label( fmt( "#%d", code));
	c.nontrivial();
	ProgResult r;
	run1( c, w.text, modes[ mode], r);
	if (r.exitCode == 0) fail( fmt( "accepted-%d", code), fmt( "mistake of #%d not detected", code));
	if (r.outExists) fail( "output-of-failure", "output written although refused: " + r.err);
	int ec = 0, ln = 0;
	size_t p = r.err.find( "ERR #");
	if (p == std::string::npos) fail( "no-error-code", "no error code in: " + r.err);
	ec = atoi( r.err.c_str()+p+5);
	if (ec != code) fail( "wrong-error", fmt( "expected error #%d, got: ", code) + r.err);
	size_t q = r.err.find( "\" at line ", p);
	if (q != std::string::npos) ln = atoi( r.err.c_str()+q+10);
	if (!anyLine)
	{
		std::string exp;
		bool ok = false;
		for (auto& d : decls) if (d.mark)
		{
			int a = d.exact >= 0 ? d.exactLine : d.line0, b = d.exact >= 0 ? d.exactLine : d.line1;
			ok |= ln >= a && ln <= b;
			exp += fmt( " %d..%d", a, b);
		}
		if (!ok) fail( fmt( "wrong-line-%d", code), "expected line" + exp + ", got: " + r.err);
	}
	// the grammar without the mistake is accepted
	FileWriter w2( g);
	for (auto& d : correct)
	{
		for (auto& l : d.lex) w2.put( l + " ");
		w2.put( "\n");
	}
	ProgResult r2;
	run1( c, w2.text, "-l", r2);
	if (r2.exitCode) fail( "correct-refused", "grammar without mistake refused: " + r2.err + "\n" + w2.text);
}

void kindLimits( Gen& g, Case& c)
{
	std::string text;
	int code = 0;
	std::string source;
	bool over = g.flip();
	int which = (int)g.below( 5);
	switch (which)
	{
		case 0:	// production length
		{
			int n = over ? 16 + g.small( 6) : 15 - g.small( 2);
			code = over ? 573 : 0;
			text = "start = item (prog);\n";
			std::string rhs;
			for (int i=0; i<n; ++i) {rhs += fmt( " '%c'", 'a'+i); source += fmt( "%c ", 'a'+i);}
			text += std::string( g.small( 3), '\n') + "item =" + rhs + " (f);\n";
			break;
		}
		case 1:	// nonterminals
		{
			int n = over ? 254 + 1 + g.small( 3) : 254 - g.small( 3);	// without the start symbol
			code = over ? 575 : 0;
			text = "start = n1 (prog);\n";
			for (int i=1; i<=n; ++i) text += i == n ? fmt( "n%d = 'x' (f);\n", i) : fmt( "n%d = n%d%s;\n", i, i+1, g.chance( 1, 20) ? " 'y'" : "");
			source = "x";
			for (size_t p = text.find( "'y'"); p != std::string::npos; p = text.find( "'y'", p+1)) source += " y";
			break;
		}
		case 2:	// productions
		{
			int n = over ? 510 + 1 + g.small( 3) : 510 - g.small( 3);	// without the start production
			code = over ? 572 : 0;
			text = "start = item (prog);\n";
			for (int i=0; i<n; ++i) text += fmt( "item = 'k%d' (f%d);\n", i, i);
			int k = g.below( n);
			if (g.flip()) k = n-1;
			source = fmt( "k%d", k);
			break;
		}
		case 3: // terminals
		{
			int n = over ? 1024 + g.small( 3) : 1023 - g.small( 3);
			code = over ? 576 : 0;
			text = "start = item (prog);\n";
			for (int i=0; i<n; i+=14)
			{
				text += "item =";
				bool sel = g.chance( 1, 8) || i == 0 || i+14 >= n;
				std::string s;
				for (int k=i; k<n && k<i+14; ++k) {text += fmt( " 'k%d'", k); s += fmt( "k%d ", k);}
				text += fmt( " (f%d);\n", i);
				if (sel) source = s;
			}
			break;
		}
		case 4: // states
		{
			// every production starts with its own keyword: one state per symbol, start state and the states after a and start
			int base = 2, total = over ? 4096 + g.small( 5) : 4095 - g.small( 5);
			int n = total - base;
			code = over ? 571 : 0;
			text = "start = item (prog);\n";
			int k = 0;
			while (n > 0)
			{
				int len = std::min( n, 15);
				text += fmt( "item = 'k%d'", k);
				source = fmt( "k%d", k);
				for (int i=1; i<len; ++i) {text += " 'x'"; source += " x";}
				text += fmt( " (f%d);\n", k);
				n -= len;
				++k;
			}
			break;
		}
	}
	c.log( "limit %d: %s limit\n", which, over ? "over" : "at");
	c.logs( text.substr( 0, 2000));
	c.key( text);
	c.nontrivial();
	static const char* names[] = {"production length","nonterminals","productions","terminals","states"};
	c.label( std::string( names[ which]) + (over ? " exceeded" : " at limit"));
	ProgResult r = generate( c, text);
	if (code)
	{
		if (r.exitCode == 0 || r.outExists) fail( fmt( "accepted-%d", code), "limit exceeded but accepted");
		if (r.err.find( fmt( "ERR #%d ", code)) == std::string::npos) fail( "wrong-error", fmt( "expected error #%d, got: ", code) + r.err);
		if (code == 573)
		{
			int line = 1 + (int)std::count( text.begin(), text.begin() + text.find( "\nitem =")+1, '\n');
			if (r.err.find( fmt( "at line %d", line)) == std::string::npos) fail( "wrong-line-573", fmt( "expected line %d: ", line) + r.err);
		}
	}
	else
	{
		if (r.exitCode || !r.outExists) fail( "limit-refused", "grammar at the limit refused: " + r.err);
		Compiler comp( c);
		std::string err = comp.load( r.outFile);
		if (!err.empty()) fail( "not-loaded", err);
		RunResult rr = comp.run( source);
		if (!rr.ok) fail( "limit-broken", "compiler at the limit refuses '" + source.substr( 0, 200) + "': " + rr.error);
		if (rr.calls.size() != 1 || rr.calls[0].func != "prog" || rr.calls[0].node.arg.size() != 1) fail( "limit-tree", "wrong tree");
		std::string want = which == 2 ? "f" + source.substr( 1) : which == 4 ? "f" + source.substr( 1, source.find( ' ')-1) : which == 3 ? "f" + source.substr( 1, source.find( ' ')-1) : "f";
		if (rr.calls[0].node.arg[0].name != want) fail( "limit-tree", "function " + rr.calls[0].node.arg[0].name + " instead of " + want);
		if (comp.run( source + " k0 x").ok) fail( "limit-broken", "wrong source accepted");
	}
}

struct FailingBuf : public std::streambuf
{
	int overflow( int) override	{return EOF;}
	std::streamsize xsputn( const char*, std::streamsize) override	{return 0;}
	int sync() override {return -1;}
};

void kindOptions( Gen& g, Case& c)
{
	std::string gf = c.tmpdir + "/o.g", of = c.tmpdir + "/o.out", tf = c.tmpdir + "/o.tpl", df = c.tmpdir + "/o.dbg";
	writeFile( gf, "start = item (prog); item = 'x' ID (f) | ; ID : '[a-z]+'; %LANGUAGE l; %TYPESYSTEM ts;\n");
	writeFile( tf, "T %automaton%");
	unlink( of.c_str()); unlink( df.c_str());
	std::vector<std::string> args;
	int expect = -1;		// exit code expected, -1 other than 0
	bool out = false;		// output file expected
	std::string expectErr;
	std::string cmd = g.pick( std::vector<std::string>{"-g","-l","-s","--generate-compiler","--generate-language","--generate-template"});
	bool stub = cmd == "-s" || cmd == "--generate-template";
	bool failingStdout = false;
	int scen = (int)g.below( 16);
	switch (scen)
	{
		case 0: args = {cmd, "-o", of, gf}; expect = 0; out = true; break;
		case 1: args = {"-o", of, cmd, gf}; expect = 0; out = true; break;
		case 2: args = {cmd, g.pick( std::vector<std::string>{"-x","--unknown","-","--generate","-G","---","--o"}), gf}; expect = 1; break;
		case 3: args = {cmd}; if (g.flip()) args.push_back( g.pick( std::vector<std::string>{"-o","-b","-d","-t"})); expect = 1; break;
		case 4: args = {cmd, gf, gf}; expect = 1; break;
		case 5: args = {cmd, g.pick( std::vector<std::string>{"-g","-l","-s"}), gf}; expect = 1; break;
		case 6: args = {"-o", of, gf}; expect = 1; break;
		case 7: args = {cmd, "-o", of, c.tmpdir + "/nonexisting.g"}; expect = 2; expectErr = "ERR #2 "; break;
		case 8: args = {cmd, "-o", c.tmpdir + "/no/such/dir/x", gf}; expect = 2; expectErr = "ERR #2 "; break;
		case 9: args = {cmd, "-o", "/dev/full", gf}; expect = 28; expectErr = "ERR #28 "; if (access( "/dev/full", W_OK)) throw Discard(); break;
		case 10: args = {"-g", "-t", c.tmpdir + "/nonexisting.tpl", "-o", of, gf}; expect = 2; expectErr = "ERR #2 "; break;
		case 11: args = {g.pick( std::vector<std::string>{"-h","--help","-v","--version"}), "-o"}; expect = 0; break;
		case 12: args = {gf}; expect = 0; break;
		case 13: args = {cmd, "-o", of, "--", gf}; expect = 0; out = true; break;
		case 14: args = {"-s", g.pick( std::vector<std::string>{"-b/x","-t" + tf,"-d" + df}), gf}; if (g.flip()) std::swap( args[0], args[1]); expect = 1; break;
		case 15: args = {cmd, gf}; failingStdout = true; break;
	}
	bool verbose = scen < 2 && g.flip();
	if (verbose) args.insert( args.begin(), g.flip() ? "-V" : "--verbose");
	bool dbg = scen < 2 && !stub && g.flip();
	if (dbg) args.insert( args.begin(), g.flip() ? "-d" + df : "--dbgout=" + df);
	std::string line;
	for (auto& a : args) line += " " + a;
	c.log( "mewa%s\n", line.c_str());
	for (auto& p : {c.tmpdir}) for (size_t i=line.find( p); i != std::string::npos; i=line.find( p)) line.erase( i, p.size());
	c.key( line);
	c.nontrivial();
	ProgResult r;
	if (failingStdout)
	{
		static FailingBuf fb;
		std::streambuf* so = std::cout.rdbuf();
		// runProgram redirects std::cout itself, here the program writes to a stream that fails
		std::ostringstream err;
		std::streambuf* se = std::cerr.rdbuf( err.rdbuf());
		std::cout.rdbuf( &fb);
		std::vector<const char*> av = {"mewa"};
		for (auto& a : args) av.push_back( a.c_str());
		av.push_back( nullptr);
		r.exitCode = mainProgram( (int)av.size()-1, av.data());
		std::cout.clear();
		std::cout.rdbuf( so); std::cerr.rdbuf( se);
		r.err = err.str();
	}
	else r = runProgram( args);
	r.outExists = readFile( of, r.outFile);
	if (expect >= 0 ? r.exitCode != expect : r.exitCode == 0) fail( "exit-code", fmt( "exit code %d, expected %d: ", r.exitCode, expect) + r.err);
	if (r.exitCode && r.err.empty()) fail( "no-message", "no message on stderr");
	if (!expectErr.empty() && r.err.compare( 0, expectErr.size(), expectErr) != 0) fail( "message", "expected " + expectErr + ", got " + r.err);
	if (out != r.outExists) fail( "output-file", out ? "no output file written" : "output file written");
	if (out)
	{
		// the same on stdout
		ProgResult r2 = runProgram( {cmd, gf});
		if (r2.exitCode) fail( "exit-code", r2.err);
		if (r2.out != r.outFile && r2.out != r.outFile + "\n") fail( "stdout-differs", "output on stdout differs from the file written");
		if (r.out.size()) fail( "stdout", "output on stdout and in file");
		bool mustDebug = (verbose || dbg) && (cmd == "-g" || cmd == "--generate-compiler");
		std::string dbgtext;
		bool dbgfile = readFile( df, dbgtext);
		if (mustDebug && dbg && (!dbgfile || dbgtext.find( "start") == std::string::npos)) fail( "debug-output", "no debug output written");
		if (mustDebug && !dbg && r.err.find( "start") == std::string::npos) fail( "debug-output", "no debug output on stderr");
	}
	c.label( fmt( "scenario %d", scen));
}

Register r6( Property{ "G06", "a grammar refused with an error or translated to a compiler (mutated), every case of mistake, limits and options",
	{ {"mutated", kindMutated, 4500, 90000, 60}, {"mistake", kindMistake, 3000, 60000, 20}, {"limits", kindLimits, 24, 240, 120}, {"options", kindOptions, 400, 3000, 20} },
	{"The line of a mistake is the line of the wrong lexem, or any line of the declaration concerned for mistakes found after parsing", "Grammar files up to 30000 bytes in mutations"} });

Register r7( Property{ "G07", "a grammar whose sources use tokens and calls with arguments (faithful), a template with at least two keys (template), a program with an explicit Lua binary (default), a grammar of at least 20 productions and five refused sequences (largetables)",
	{ {"faithful", kindFaithful, 5000, 100000, 20}, {"template", kindTemplate, 2500, 30000, 20}, {"default", kindDefault, 200, 2000, 20}, {"largetables", kindLargeTables, 40, 800, 60} },
	{"Lexems start with different characters, so that the result does not depend on the rules for ties", "String arguments of calls are Lua strings: escape sequences are evaluated by Lua"} });

Register r8( Property{ "G08", "a grammar file with at least six declarations and attributes (language description) or two functions (stub)",
	{ {"language", kindLanguage, 6000, 120000, 20}, {"stub", kindStub, 2500, 40000, 20} },
	{"Functions called are single identifiers as documented", "Comments opening a declaration start on a line of their own; the line of a declaration is any of the lines it is written in"} });

} // namespace
