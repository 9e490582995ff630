// R01 independence of runs, R02 output and target templates, R03 size of sources, R04 errors of the type system
#include "mewa.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <cmath>
using namespace pbt;
using namespace mw;

namespace {

// ---------------------------------------------------------------- helpers
std::string luaString( std::string_view s)
{
	std::string rt = "\"";
	for (unsigned char ch : s)
	{
		if (isalnum( ch) || ch == ' ' || ch == '_') rt.push_back( (char)ch);
		else rt += fmt( "\\%03d", ch);
	}
	return rt + "\"";
}

std::string anyBytes( Gen& g, int n, bool nul)
{
	std::string rt;
	for (int i=0; i<n; ++i) switch (g.weighted( {10,4,2,1,1}))
	{
		case 0: rt.push_back( (char)('a' + g.below( 26))); break;
		case 1: rt.push_back( " {}%\"'\\:;#$.\n\t,()<>"[ g.below( 20)]); break;
		case 2: rt += g.pick( std::vector<std::string>{"{Code}","%s","%n","%%","{}","ä","\xF0\x9F\x98\x80","{x}","\r\n",".lua:",": ","\""}); break;
		case 3: rt.push_back( (char)(1 + g.below( 255))); break;
		case 4: if (nul) rt.push_back( '\0'); break;
	}
	return rt;
}

// Standard output and error redirected to files
class Capture
{
public:
	Capture( Case& c) :m_out(c.tmpdir + "/stdout.cap"),m_err(c.tmpdir + "/stderr.cap")
	{
		fflush( stdout); fflush( stderr);
		m_so = dup( 1); m_se = dup( 2);
		redirect( m_out, 1); redirect( m_err, 2);
	}
	void stop()
	{
		if (m_so < 0) return;
		fflush( stdout); fflush( stderr);
		dup2( m_so, 1); dup2( m_se, 2);
		close( m_so); close( m_se);
		m_so = m_se = -1;
		readFile( m_out, out); readFile( m_err, err);
	}
	~Capture() {stop();}
	std::string out, err;
private:
	static void redirect( const std::string& file, int fd) {int f = open( file.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0600); dup2( f, fd); close( f);}
	std::string m_out, m_err;
	int m_so, m_se;
};

// ---------------------------------------------------------------- a language of items calling actions
const char* g_grammar =
	"% LANGUAGE \"acts\";\n% TYPESYSTEM \"ts\";\n% CMDLINE \"c\";\n% COMMENT \"//\";\n"
	"NUM : '[0-9]+';\nSTR : '[\\x22]([^\\x22]*)[\\x22]' 1;\n"
	"prog = list (prog);\nlist = item list | ;\nitem = 'act' NUM ';' (act) | STR ';' (str) | '(' list ')' (>>block) | '{' list '}' ({}block);\n";

const char* g_typesystem = R"LUA(
TRACE = {}
ACTIONS = {}
local function tr( s) TRACE[ #TRACE+1] = s end
local function ser( n)
	local s = tostring( n.line) .. "/" .. tostring( n.step) .. (n.scope and ("/" .. n.scope[1] .. "-" .. n.scope[2]) or "")
	if n.call then
		s = s .. n.call.name .. "("
		for i,a in ipairs( n.arg) do s = s .. ser( a) .. "," end
		return s .. ")"
	end
	return s .. n.name .. "=" .. n.value
end
local function all( node)
	for i,a in ipairs( node.arg) do a.call.proc( a) end
end
typesystem = {
	prog = function( node, options) tr( ser( node) .. " options=" .. tostring( type(options) == "table" and options.o or options)); all( node); tr( "end") end,
	block = function( node) tr( "block"); all( node) end,
	act = function( node) tr( "act " .. node.arg[1].value); ACTIONS[ tonumber( node.arg[1].value)]( node) end,
	str = function( node) tr( "str"); print( node.arg[1].value) end
}
)LUA";

std::string table( Case& c)
{
	static std::string src, tab;
	// the table depends on the tree tested only
	if (tab.empty())
	{
		ProgResult r = generate( c, g_grammar);
		if (r.exitCode || !r.outExists) fail( "harness-grammar", r.err);
		tab = r.outFile;
	}
	return tab;
}

struct Print { std::string section; std::string text; };	// section "Code" for print
struct Action
{
	std::string lua;			// body of the function
	std::vector<Print> prints;		// text written to the sections
	bool fails = false;			// raises an error
};
struct Item { int kind = 0; int action = 0; std::string str; std::vector<Item> sub; };	// 0 action, 1 string, 2 block, 3 scope

std::vector<Item> genItems( Gen& g, int nactions, int budget, int depth = 0)
{
	std::vector<Item> rt;
	int n = g.small( budget);
	for (int i=0; i<n; ++i)
	{
		Item it;
		it.kind = depth > 4 ? (int)g.below( 2) : (int)g.weighted( {6,1,1,1});
		switch (it.kind)
		{
			case 0: it.action = (int)g.below( nactions); break;
			case 1: it.str = fmt( "s%d", (int)g.below( 100)); break;
			default: it.sub = genItems( g, nactions, budget/2, depth+1);
		}
		rt.push_back( it);
	}
	return rt;
}
void renderItems( Gen& g, const std::vector<Item>& items, std::string& out)
{
	auto blank = [&]( bool needed) {switch (g.weighted( {8,2,1,1})) {case 0: out += needed || g.flip() ? " " : ""; break; case 1: out += "\n"; break; case 2: out += "\t"; break; case 3: out += " // comment\n"; break;}};
	for (auto& it : items)
	{
		switch (it.kind)
		{
			case 0: out += "act"; blank( true); out += fmt( "%d", it.action); blank( false); out += ";"; break;
			case 1: out += "\"" + it.str + "\""; blank( false); out += ";"; break;
			case 2: out += "("; blank( false); renderItems( g, it.sub, out); out += ")"; break;
			case 3: out += "{"; blank( false); renderItems( g, it.sub, out); out += "}"; break;
		}
		blank( false);
	}
}
// returns false if an action fails
bool effects( const std::vector<Item>& items, const std::vector<Action>& actions, std::map<std::string,std::string>& sections)
{
	for (auto& it : items)
	{
		switch (it.kind)
		{
			case 0:
				for (auto& p : actions[ it.action].prints) sections[ p.section] += p.text;
				if (actions[ it.action].fails) return false;
				break;
			case 1: sections[ "Code"] += it.str; break;
			default: if (!effects( it.sub, actions, sections)) return false;
		}
	}
	return true;
}

std::string fillTemplate( const std::string& t, const std::map<std::string,std::string>& sections, bool& undecided)
{
	std::string rt;
	size_t i = 0;
	while (i < t.size())
	{
		if (t[i] == '{')
		{
			size_t e = t.find( '}', i+1);
			if (e != std::string::npos)
			{
				std::string key = t.substr( i+1, e-i-1);
				auto s = sections.find( key);
				if (s != sections.end()) {rt += s->second; i = e+1; continue;}
				bool ident = !key.empty() && !isdigit( (unsigned char)key[0]);
				for (unsigned char ch : key) ident &= (ch < 128 && isalnum( ch)) || ch == '_';
				if (ident)
				{
					if (key.size() == 1) undecided = true;	// documented nowhere if a single letter is an identifier here
					i = e+1; continue;
				}
			}
		}
		rt.push_back( t[i++]);
	}
	return rt;
}

std::string baseTriple( const std::string& path)
{
	std::string b = path.substr( path.rfind( '/')+1);
	size_t p = b.rfind( '.');
	return p == std::string::npos || p == 0 ? b : b.substr( 0, p);
}

// ---------------------------------------------------------------- R01
struct Session
{
	Lua lua;
	void init( Case& c, int ncomp, const std::vector<Action>& actions)
	{
		must( g_typesystem);
		must( "C = {}\nDEF = " + table( c));
		for (int i=0; i<ncomp; ++i) must( fmt( "C[%d] = mewa.compiler( DEF)", i));
		for (size_t i=0; i<actions.size(); ++i) must( fmt( "ACTIONS[%d] = function( node)\n", (int)i) + actions[i].lua + "\nend");
	}
	std::vector<Val> must( const std::string& code)
	{
		CallResult r = lua.exec( code);
		if (!r.ok) fail( "harness-lua", r.error + " in " + code.substr( 0, 300));
		return r.ret;
	}
};

struct RunOp
{
	int comp = 0;
	std::string call;		// arguments of run as Lua code
	std::string outFile, debugFile;
	std::string want;		// expected output if decided
	bool wantDecided = false;
	bool wantOk = false;
	bool coroutine = false;
};
struct Outcome
{
	bool ok = false;
	std::string error;
	bool outExists = false, debugExists = false;
	std::string out, debug, trace;
	std::string repr() const {return fmt( "ok=%d error=%s\nout(%d)=%s\ndebug(%d)=%s\ntrace=%s\n", ok, error.c_str(), outExists, quote( out, 600).c_str(), debugExists, quote( debug, 1500).c_str(), quote( trace, 600).c_str());}
	bool operator==( const Outcome& o) const {return ok == o.ok && error == o.error && outExists == o.outExists && debugExists == o.debugExists && out == o.out && debug == o.debug && trace == o.trace;}
};
Outcome perform( Session& s, const RunOp& op)
{
	Outcome rt;
	if (!op.outFile.empty()) unlink( op.outFile.c_str());
	if (!op.debugFile.empty()) unlink( op.debugFile.c_str());
	std::string run = fmt( "C[%d]:run( ", op.comp) + op.call + ")";
	CallResult r = s.lua.exec( "TRACE = {}\nlocal ok, err = " + (op.coroutine ? "pcall( coroutine.wrap( function() " + run + " end))" : "pcall( function() " + run + " end)") + "\nreturn ok, tostring( err), table.concat( TRACE, '\\n')");
	if (!r.ok) fail( "harness-lua", r.error);
	rt.ok = r[0].b;
	rt.error = rt.ok ? "" : r[1].s;
	rt.trace = r[2].s;
	if (!op.outFile.empty()) rt.outExists = readFile( op.outFile, rt.out);
	if (!op.debugFile.empty()) rt.debugExists = readFile( op.debugFile, rt.debug);
	return rt;
}

void kindHistories( Gen& g, Case& c)
{
	int ncomp = 1 + (int)g.below( 3);
	std::string dir = c.tmpdir;
	// [1] actions, the first ones do not fail
	std::vector<Action> actions;
	int nact = 2 + g.small( 6);
	std::vector<std::string> nestedSources;
	for (int i=0; i<nact; ++i)
	{
		Action a;
		int n = 1 + g.small( 3);
		for (int k=0; k<n; ++k) switch (g.weighted( {6,4,2,1,1}))
		{
			case 0:
			{
				std::string t = anyBytes( g, g.small( 12), false);
				a.lua += "print( " + luaString( t) + ")\n";
				a.prints.push_back( {"Code", t});
				break;
			}
			case 1:
			{
				std::string t = anyBytes( g, g.small( 12), false), sec = g.pick( std::vector<std::string>{"Sa","Sb","Code"});
				a.lua += "print_section( \"" + sec + "\", " + luaString( t) + ")\n";
				a.prints.push_back( {sec, t});
				break;
			}
			case 2: a.lua += fmt( "debug( \"debug%d\", %d)\n", i, k); break;
			case 3:
			{
				// run of a compiler inside
				int j = (int)g.below( ncomp);
				int kind = g.weighted( {4,1,1});
				std::string in = dir + fmt( "/nest%d_%d.src", i, k), out = dir + fmt( "/nest%d_%d.out", i, k);
				std::string text = kind == 1 ? "\"n\" ; act ;" : fmt( "\"nested%d\" ; \"x\" ;", i);
				writeFile( in, text);
				bool dbg = g.chance( 1, 3);
				std::string call = fmt( "C[%d]:run( TPL, nil, \"%s\", \"%s\"%s)", j, in.c_str(), out.c_str(), dbg ? (", \"" + out + ".dbg\"").c_str() : "");
				if (kind == 2) {call = fmt( "C[%d]:run( TPL, nil, \"%s/nofile\", \"%s\")", j, dir.c_str(), out.c_str());}
				if (g.flip()) a.lua += "TRACE[#TRACE+1] = tostring( pcall( function() " + call + " end))\n";
				else {a.lua += call + "\n"; if (kind) {a.fails = true; k = n;}}
				break;
			}
			case 4: a.lua += "collectgarbage()\n"; break;
		}
		if (!a.fails && g.chance( 1, 8))
		{
			a.lua += g.pick( std::vector<std::string>{"error( \"action failed\")\n", "local x = nil; x.y = 1\n", "error( {})\n", "typedb = mewa.typedb(); typedb:get_type( 1)\n", "print_section()\n"});
			a.fails = true;
		}
		actions.push_back( a);
	}
	std::vector<std::string> templates = {"{Code}", "A{Sa}B{Sb}C{Code}D{Source}\n", "{Triple}/{Sb}{Sa}/{Code}{none}{ }"};
	for (size_t i=0; i<templates.size(); ++i) writeFile( dir + fmt( "/t%d.x.tpl", (int)i), templates[i]);
	auto prologue = "TPL = \"" + dir + "/t0.x.tpl\"";

	Session S;
	S.init( c, ncomp, actions);
	S.must( prologue);
	S.must( "LOG = {}");
	int nops = 2 + g.small( 6);
	bool failedBefore = false, rerun = false;
	int okRuns = 0;
	std::vector<RunOp> done;
	for (int oi=0; oi<nops; ++oi)
	{
		// something between the runs
		if (g.chance( 1, 4)) switch (g.below( 5))
		{
			case 0: S.must( fmt( "print = function( ...) LOG[#LOG+1] = %d; return 'own' end", oi)); break;
			case 1: S.must( "debug = {own = true}"); break;
			case 2: S.must( "collectgarbage()"); break;
			case 3: {int k = (int)g.below( ncomp); S.must( fmt( "C[%d] = nil; collectgarbage(); C[%d] = mewa.compiler( DEF)", k, k)); break;}
			case 4: S.must( "print_section = function() return 'mine' end"); break;
		}
		RunOp op;
		if (!done.empty() && g.chance( 1, 3)) {op = g.pick( done); rerun = true;}
		else
		{
			op.comp = (int)g.below( ncomp);
			op.coroutine = g.chance( 1, 8);
			auto items = genItems( g, nact, 8);
			std::string src;
			if (g.chance( 1, 10)) src += "\n";
			renderItems( g, items, src);
			int fault = g.chance( 1, 3) ? 1 + (int)g.below( 9) : 0;
			std::map<std::string,std::string> sections;
			bool ok = effects( items, actions, sections);
			std::string in = dir + fmt( "/in%d.src", oi);
			size_t ti = g.below( templates.size()+1);
			std::string tf = ti < templates.size() ? dir + fmt( "/t%d.x.tpl", (int)ti) : "";
			op.outFile = dir + fmt( "/out%d", oi);
			if (g.chance( 1, 3)) op.debugFile = dir + fmt( "/dbg%d", oi);
			std::string argT = tf.empty() ? "nil" : luaString( tf), argI = luaString( in), argO = luaString( op.outFile), argD = op.debugFile.empty() ? "" : ", " + luaString( op.debugFile);
			std::string argP = g.pick( std::vector<std::string>{"nil","{o=1}","\"opt\"","false"});
			switch (fault)
			{
				case 1: src += g.pick( std::vector<std::string>{" act ;"," ;"," )"," act act"," { \"x\" ;"," }"}); break;
				case 2: src += g.pick( std::vector<std::string>{" $"," act 1 ; ?"," \"unterminated"}); break;
				case 3: argI = luaString( dir + "/missing.src"); break;
				case 4: argT = luaString( dir + "/missing.tpl"); break;
				case 5: op.outFile = dir + "/nodir/out"; argO = luaString( op.outFile); break;
				case 6: op.debugFile = dir + "/nodir/dbg"; argD = ", " + luaString( op.debugFile); break;
				case 7: argI = "{}"; break;
				case 8: argI = luaString( dir); break;
				case 9: argT = luaString( dir + "/" + std::string( 300, 'x')); break;
			}
			if (fault) ok = false;
			writeFile( in, src);
			op.call = argT + ", " + argP + ", " + argI + ", " + argO + argD;
			op.wantOk = ok;
			if (ok)
			{
				sections[ "Code"]; sections[ "Source"] = in; sections[ "Triple"] = tf.empty() ? "" : baseTriple( tf);
				bool undecided = false;
				if (!tf.empty()) op.want = fillTemplate( templates[ ti], sections, undecided);
				op.wantDecided = !undecided;
			}
			c.log( "run %d: compiler %d fault %d source %s\n", oi, op.comp, fault, quote( src, 400).c_str());
			c.key( src + op.call);
		}
		S.must( "SP, SD, SS = print, debug, print_section");
		Outcome oc;
		{
			Capture cap( c);
			oc = perform( S, op);
		}
		auto same = S.must( "return rawequal( print, SP), rawequal( debug, SD), rawequal( print_section, SS)");
		if (!same[0].b || !same[1].b) fail( "globals-changed", fmt( "print or debug not restored after run %d (%s)\n", oi, oc.ok ? "succeeded" : "failed") + oc.repr());
		if (!same[2].b) fail( "print-section-left", fmt( "print_section not restored after run %d (%s)\n", oi, oc.ok ? "succeeded" : "failed"));
		if (oc.ok != op.wantOk) fail( "result", fmt( "run %d expected to %s\n", oi, op.wantOk ? "succeed" : "fail") + oc.repr());
		if (oc.ok && op.wantDecided && oc.out != op.want) fail( "output", fmt( "run %d: output differs, expected %s\n", oi, quote( op.want, 600).c_str()) + oc.repr());
		Session fresh;
		fresh.init( c, ncomp, actions);
		fresh.must( prologue);
		Outcome fo;
		{
			Capture cap( c);
			fo = perform( fresh, op);
		}
		if (!(oc == fo)) fail( "differs-from-fresh", fmt( "run %d gives\n", oi) + oc.repr() + "but as first run\n" + fo.repr());
		if (oc.ok && (failedBefore || okRuns)) {c.nontrivial(); c.label( failedBefore ? "success after failure" : "success after success");}
		if (!oc.ok) failedBefore = true; else ++okRuns;
		done.push_back( op);
	}
	if (rerun) c.label( "same run again");
}

// ---------------------------------------------------------------- R02
std::string genValue( Gen& g, int depth = 0)		// Lua expression
{
	switch (depth > 2 ? g.below( 4) : g.weighted( {8,3,1,1,1}))
	{
		case 0: return luaString( anyBytes( g, g.small( g.chance( 1, 30) ? 6000 : 20), true));
		case 1: return g.pick( std::vector<std::string>{"0","1","-5","1e15","0.1","2^53","1/0","-1/0","100000000000000000000","12345.678","1e-300"});
		case 2: return "nil";
		case 3: return g.flip() ? "true" : "false";
		default:
		{
			std::string rt = "{";
			int n = g.small( 3);
			for (int i=0; i<n; ++i) rt += (g.flip() ? fmt( "k%d=", i) : "") + genValue( g, depth+1) + ",";
			return rt + "}";
		}
	}
}

void kindOutput( Gen& g, Case& c)
{
	std::string dir = c.tmpdir;
	std::vector<std::string> secs = {"Sa","Sb","a b","x}y","Constants","_","Sa_1","9","ä","{Sa","Code","", "Nl\n"};
	// [1] target
	std::string tpl;
	int np = g.small( 14);
	for (int i=0; i<np; ++i) switch (g.weighted( {4,4,3,3,2,1}))
	{
		case 0: tpl += "{" + g.pick( secs) + "}"; break;
		case 1: tpl += g.pick( std::vector<std::string>{"{Code}","{Source}","{Triple}"}); break;
		case 2: tpl += g.pick( std::vector<std::string>{"{unknown}","{Auto_2}","{}","{ }","{1x}","{x y}","{{","}}","{","}","{\n}","{a-b}","{un{Code}","{{Code}}","{ i32, i8* }","{_x}","{Ünk}","{Code","Code}"}); break;
		case 3: tpl += anyBytes( g, g.small( 20), true); break;
		case 4: tpl += "\n"; break;
		case 5: tpl += std::string( 1 + g.small( 9000), 'z'); break;
	}
	if (g.chance( 1, 3)) tpl += "{Code}";
	// names of files
	std::string sub = g.chance( 1, 4) ? "/d.ir" : "";
	if (!sub.empty()) mkdir( (dir + sub).c_str(), 0700);
	std::string tname = g.pick( std::vector<std::string>{"target.tpl","x86_64-pc-linux-gnu.tpl","a.b.c","noext",".hidden","trailing.","x.y.tpl","..x","a b.t","ä.tpl"});
	std::string tf = dir + sub + "/" + tname;
	writeFile( tf, tpl);
	// [2] actions
	int nact = 1 + g.small( 5);
	std::vector<Action> actions;
	std::string luaActions;
	for (int i=0; i<nact; ++i)
	{
		Action a;
		int n = 1 + g.small( 3);
		for (int k=0; k<n; ++k)
		{
			int na = (int)g.weighted( {1,6,3,2,1});
			std::string args, vals;
			for (int x=0; x<na; ++x) {std::string v = genValue( g); args += ", " + v;}
			std::string sec = "Code";
			if (g.flip())
			{
				a.lua += "print( " + (args.empty() ? "" : args.substr( 2)) + ")\n";
			}
			else
			{
				sec = g.pick( secs);
				a.lua += "print_section( " + (sec.empty() && g.flip() ? "nil" : luaString( sec)) + args + ")\n";
			}
			a.prints.push_back( {sec, "return rep( " + fmt( "%d", na) + args + ")"});
		}
		actions.push_back( a);
	}
	Session S;
	S.init( c, 1, actions);
	S.must( "function rep( n, ...)\n local r, t = {...}, ''\n for i=1,n do\n  local v = r[i]\n  if v == nil then t = t .. '<nil>' elseif type(v) == 'string' or type(v) == 'number' then t = t .. v else t = t .. mewa.tostring( v, 0, false) end\n end\n return t\nend");
	for (auto& a : actions) for (auto& p : a.prints) p.text = S.must( p.text)[0].s;
	auto items = genItems( g, nact, 3 + g.small( 20));
	std::string src, in = dir + "/" + g.pick( std::vector<std::string>{"in.src","a b.src","in{Code}.src","ä","x\"y"});
	renderItems( g, items, src);
	writeFile( in, src);
	std::map<std::string,std::string> sections;
	effects( items, actions, sections);
	sections[ "Code"]; sections[ "Source"] = in; sections[ "Triple"] = baseTriple( tf);
	bool undecided = false;
	std::string want = fillTemplate( tpl, sections, undecided);
	int mode = (int)g.weighted( {6,2,2,1});
	std::string out = dir + "/out", argO;
	unlink( out.c_str());
	switch (mode)
	{
		case 0: argO = ", " + luaString( out); break;
		case 1: argO = g.flip() ? ", \"stdout\"" : ", nil"; break;
		case 2: argO = ", \"stderr\""; break;
		case 3: argO = ""; break;
	}
	c.log( "target %s: %s\n", tname.c_str(), quote( tpl, 1000).c_str());
	for (size_t i=0; i<actions.size(); ++i) c.log( "action %d: %s\n", (int)i, actions[i].lua.substr( 0, 1000).c_str());
	c.logs( src);
	c.key( tpl + src);
	for (auto& a : actions) c.key( a.lua);
	static const char* modes[] = {"file","stdout","stderr","default"};
	c.label( modes[ mode]);
	if (undecided) {c.label( "undecided"); return;}
	if (want.find( '\0') != std::string::npos) c.label( "NUL in output");
	if (want.size() > 4096) c.label( "more than 4096 bytes");
	int nsub = 0;
	for (auto& s : sections) if (!s.second.empty() && tpl.find( "{" + s.first + "}") != std::string::npos) ++nsub;
	c.nontrivial( nsub >= 2);
	std::string got;
	CallResult r;
	{
		Capture cap( c);
		r = S.lua.exec( "C[0]:run( " + luaString( tf) + ", nil, " + luaString( in) + argO + (mode == 3 && false ? "" : "") + ")");
		cap.stop();
		if (mode == 0) {if (r.ok && !readFile( out, got)) fail( "no-output", "no output file written");}
		else if (mode == 2) got = cap.err;
		else got = cap.out;
	}
	if (!r.ok && mode == 3 && r.error.find( "#421") != std::string::npos) return;
	if (!r.ok) fail( "refused", r.error);
	if (mode == 1 || mode == 3) want += "\n";		// output on the terminal ends with a new line
	if (got != want)
	{
		size_t k = 0;
		while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
		fail( "output", fmt( "output differs at byte %zu of %zu\nexpected: ", k, want.size()) + quote( want.substr( k, 300), 300) + "\ngot:      " + quote( k < got.size() ? got.substr( k, 300) : std::string(), 300));
	}
}

void kindDebug( Gen& g, Case& c)
{
	std::string dir = c.tmpdir;
	int nact = 1 + g.small( 5);
	std::vector<Action> actions;
	std::vector<std::vector<std::string>> lines;
	for (int i=0; i<nact; ++i)
	{
		Action a;
		lines.push_back( {});
		int n = 1 + g.small( 3);
		for (int k=0; k<n; ++k)
		{
			std::string args, line;
			int na = (int)g.below( 4);
			for (int x=0; x<na; ++x)
			{
				std::string t = anyBytes( g, g.small( 30), true);
				if (g.chance( 1, 6)) {args += ", nil"; line += "<nil>";}
				else {args += ", " + luaString( t); line += t;}
			}
			a.lua += "debug( " + (args.empty() ? "" : args.substr( 2)) + ")\n";
			lines.back().push_back( line + "\n");
		}
		actions.push_back( a);
	}
	Session S;
	S.init( c, 1, actions);
	auto items = genItems( g, nact, 12);
	std::string src, in = dir + "/in.src", tf = dir + "/t.tpl", out = dir + "/out", dbg = dir + "/dbg";
	renderItems( g, items, src);
	writeFile( in, src); writeFile( tf, "{Code}");
	unlink( dbg.c_str());

	std::vector<std::string> want;
	std::function<void( const std::vector<Item>&)> walk = [&]( const std::vector<Item>& is) {for (auto& i : is) {if (i.kind == 0) for (auto& l : lines[ i.action]) want.push_back( l); walk( i.sub);}};
	walk( items);
	int mode = (int)g.below( 4);
	std::string argD = mode == 0 ? "" : mode == 1 ? ", \"stderr\"" : mode == 2 ? ", \"stdout\"" : ", " + luaString( dbg);
	c.log( "mode %d\n", mode); c.logs( src);
	for (auto& a : actions) {c.key( a.lua); c.logs( a.lua);}
	c.key( src); c.nontrivial( want.size() >= 2);
	std::string got;
	CallResult r;
	{
		Capture cap( c);
		r = S.lua.exec( "C[0]:run( " + luaString( tf) + ", nil, " + luaString( in) + ", " + luaString( out) + argD + ")");
		cap.stop();
		got = mode == 3 ? "" : mode == 2 ? cap.out : cap.err;
		if (mode == 3) readFile( dbg, got);
	}
	if (!r.ok) fail( "refused", r.error);
	// without debug file there are only the lines printed, otherwise other lines in between
	if (mode == 0)
	{
		std::string all;
		for (auto& l : want) all += l;
		if (got != all) fail( "debug", "debug output on stderr is " + quote( got, 600) + " expected " + quote( all, 600));
	}
	else
	{
		size_t pos = 0;
		for (auto& l : want)
		{
			size_t p = got.find( l, pos);
			if (p == std::string::npos) fail( "debug", "debug line missing " + quote( l, 300) + " in " + quote( got.substr( pos), 1000));
			pos = p + l.size();
		}
	}
	std::string o;
	if (!readFile( out, o)) fail( "no-output", "no output");
}

// ---------------------------------------------------------------- R04
struct Known { int code; const char* text; };
const Known g_known[] = {
	{501,"Bad character in the grammar definition"},{408,"Expected integer as argument"},{421,"Too few arguments"},{455,"Invalid handle (constructor,type,object) assigned. Expected to be a positive/non negative integer number"},
	{591,"Lua runtime error (ERRRUN)"},{601,"Syntax error, unexpected token (expected one of {...})"},{564,"Conflicts detected in the grammar definition. No output written."},{403,"Runtime error exception"},{542,"Unknown command (followed by '%') in the grammar definition"},
	{2,"No such file or directory"},{595,"Lua stack out of memory"},{452,"Duplicate definition"}
};
std::string msgText( Gen& g)
{
	int n = (int)g.weighted( {8,2,1,1});
	std::string rt = anyBytes( g, n == 0 ? 1 + g.small( 20) : n == 1 ? 1 + g.small( 300) : n == 2 ? 490 + g.below( 60) : 1 + g.small( 6000), false);
	return rt.empty() ? "e" : rt;
}

void kindMessages( Gen& g, Case& c)
{
	std::string M;
	bool exact = false;		// an error of mewa
	int kind = (int)g.weighted( {4,4,3,2,2});
	switch (kind)
	{
		case 0: M = msgText( g); break;
		case 1:	// error of mewa
		{
			const Known& k = g_known[ g.below( sizeof(g_known)/sizeof(g_known[0]))];
			M = fmt( "#%d \"%s\"", k.code, k.text);
			if (g.flip()) {M += fmt( " at line %d", 1 + g.small( 100000)); if (g.flip()) M += " in file \"" + g.pick( std::vector<std::string>{"a.lua","x y.lua","d/e.src","a: b",std::string( 60, 'f'),"it's"}) + "\"";}
			if (g.flip()) M += ": " + msgText( g);
			exact = true;
			break;
		}
		case 2: // compile error
			M = fmt( "Error at line %d", 1 + g.small( 100000));
			if (g.chance( 1, 4)) M += " in file \"x.src\"";
			M += ": " + msgText( g);
			exact = true;
			break;
		case 3: // resembling errors of mewa
		{
			const Known& k = g_known[ g.below( sizeof(g_known)/sizeof(g_known[0]))];
			M = fmt( "#%d \"%s\"", k.code, k.text) + g.pick( std::vector<std::string>{" at line "," at line 3"," at line 99999999999"," in file \"x\""," at line 3 in file \"x"," at line 2 in file 'x'"," at line 0",""}) + g.pick( std::vector<std::string>{": ",":",""," ","x"}) + (g.flip() ? msgText( g) : "");
			// cut, changed or extended somewhere
			switch (g.below( 5))
			{
				case 0: M = M.substr( 0, 1 + g.below( M.size())); break;
				case 1: {size_t p = g.below( M.size()); M[p] = " \"#:x\n1"[ g.below( 7)]; break;}
				case 2: {size_t p = g.below( M.size()); M.insert( p, anyBytes( g, 1 + g.small( 3), false)); break;}
				case 3: M.erase( g.below( M.size()), 1); break;
				case 4: break;
			}
			break;
		}
		case 4:
			M = g.pick( std::vector<std::string>{"#","#1","# 1 \"x\"","#501","#501 \"\"","#0 \"\"","#99999999999999999999 \"x\": y","Error at line ","Error at line 5","Error at line x: y","Error at line 0: a","at line 5: x","at line 5 in file \"x\": y","Error at line 5:","Error at line 5: ",".lua:","x.lua:3: y","[C]: x","#404 \"Unexpected exception\"x","#-1 \"x\"","#501 \"Bad character in the grammar definition\" \"x\"","#1000 \"Unknown error\": x","#32768 \"Unknown error\"","#299 \"Unknown error 299\""});
			if (g.chance( 1, 3)) M += anyBytes( g, g.small( 5), false);
			break;
	}
	if (M.empty() || M.find( '\0') != std::string::npos || M.find( " at line 0") != std::string::npos) throw Discard();	// line 0 is none
	// [2] how it is raised
	int how = (int)g.weighted( {6,2,2,2,1});
	std::string code;
	switch (how)
	{
		case 0: code = "error( MSG, 0)"; break;
		case 1: code = "error( MSG)"; break;
		case 2: code = "local function f( n) if n == 0 then error( MSG, 0) end; f( n-1); return 1 end; f( " + fmt( "%d", (int)g.below( 50)) + ")"; break;
		case 3: code = "local ok, err = pcall( function() error( MSG, 0) end); error( err, 0)"; break;
		case 4: code = "coroutine.wrap( function() error( MSG, 0) end)()"; break;
	}
	if (how == 1 || how == 4) exact = false;
	std::vector<Action> actions( 3);
	actions[0].lua = "print( \"a\")";
	actions[1].lua = code;
	actions[1].fails = true;
	actions[2].lua = "print( \"b\")";
	auto items = genItems( g, 3, 8);
	// one that fails, somewhere
	{
		std::vector<Item>* list = &items;
		int d = g.small( g.chance( 1, 10) ? 120 : 6);
		for (int i=0; i<d; ++i) {Item b; b.kind = 2 + (int)g.below( 2); list->push_back( b); list = &list->back().sub; if (g.chance( 1, 6)) {Item s; s.kind = 1; s.str = "q"; list->push_back( s);}}
		Item it; it.action = 1;
		list->push_back( it);
	}
	std::string src;
	renderItems( g, items, src);
	Session S;
	std::string chunk = g.pick( std::vector<std::string>{"=harness","@typesystem.lua","@/a/long/path/to/a/directory/of/some/project/with/typesystem.lua","some code"});
	if (chunk != "=harness" && exact && how == 0) {}
	S.must( g_typesystem);
	S.lua.setGlobal( "MSG", Val::str( M));
	S.must( "C = {}\nDEF = " + table( c));
	S.must( "C[0] = mewa.compiler( DEF); C[1] = mewa.compiler( DEF)");
	std::string acts;
	for (size_t i=0; i<actions.size(); ++i) acts += fmt( "ACTIONS[%d] = function( node)\n", (int)i) + actions[i].lua + "\nend\n";
	CallResult lr = S.lua.exec( acts, chunk);
	if (!lr.ok) fail( "harness-lua", lr.error);
	std::string dir = c.tmpdir, in = dir + "/in.src", out = dir + "/out", in2 = dir + "/in2.src";
	writeFile( in, src);
	unlink( out.c_str());
	bool nested = g.chance( 1, 6);
	if (nested)
	{
		writeFile( in2, "act 0 ; act 9 ;");
		S.must( "ACTIONS[9] = function() C[0]:run( nil, nil, \"" + in + "\", \"" + out + "\") end");
	}
	c.log( "message (%s) %s\nraised by %s in %s%s\n", exact ? "error of mewa" : "text", quote( M, 800).c_str(), code.c_str(), chunk.c_str(), nested ? ", nested" : "");
	c.logs( src);
	c.key( M + code); c.key( src);
	static const char* kinds[] = {"text","error of mewa","compile error","similar to error of mewa","fragments"};
	c.label( kinds[ kind]);
	if (M.size() > 400) c.label( "long message");
	if (nested) c.label( "nested run");
	c.nontrivial();
	CallResult r = S.lua.exec( nested ? "C[1]:run( nil, nil, \"" + in2 + "\", \"" + out + "2\")" : "C[0]:run( nil, nil, \"" + in + "\", \"" + out + "\")");
	if (r.ok) fail( "swallowed", "run did not fail");
	std::string o;
	if (readFile( out, o)) fail( "output-written", "output written by failing run");
	const std::string& R = r.error;
	auto endsWith = [&]( const std::string& s) {return R.size() >= s.size() && 0==R.compare( R.size()-s.size(), s.size(), s);};
	// an error of mewa without line raised by a run inside of another gets the line of the call
	bool located = false;
	if (nested) for (size_t p = R.find( " at line "); p != std::string::npos && !located; p = R.find( " at line ", p+1))
	{
		size_t e = p+9;
		while (e < R.size() && isdigit( (unsigned char)R[e])) ++e;
		if (0==R.compare( e, 10, " in file \"")) {e = R.find( '"', e+10); if (e == std::string::npos) break; ++e;}
		std::string rest = R.substr( 0, p) + R.substr( e);
		located = rest == M || (!exact && rest.size() >= M.size() && 0==rest.compare( rest.size() - M.size(), M.size(), M));
	}
	if (!located && (exact ? R != M : !endsWith( M)))
	{
		fail( exact ? "mewa-error-changed" : "message-lost", "error raised by run: " + quote( R, 1500) + "\nexpected " + (exact ? "" : "... ") + quote( M, 1500));
	}
	if (R != M && !located && R.compare( 0, 4, "#591") != 0) fail( "no-code", "error raised by run has no code: " + quote( R, 600));
	// the run is aborted
	auto tr = S.must( "local n = 0; for i,t in ipairs( TRACE) do if t == 'act 1' then n = n + 1 end end; return n, TRACE[ #TRACE]");
	if (tr[0].n != 1 || tr[1].s != "act 1") fail( "not-aborted", "functions called after the error, last " + tr[1].s);
}

void kindValues( Gen& g, Case& c)
{
	struct E { const char* code; const char* text; };
	static const E es[] = {
		{"error( {})", ""},{"error( nil)", ""},{"error( true)", ""},{"error( 4711)", "4711"},{"error( 0.5, 0)", "0.5"},{"error( setmetatable( {}, {__tostring = function() return 'T' end}))", ""},{"error( print)", ""},{"error()", ""},
		{"local x = nil; x.y = 1", "attempt to index"},{"local x = {}; x()", "attempt to call"},{"local x = 'a' + 1", "attempt to perform arithmetic"},{"local function f() return 1 + f() end; f()", "stack overflow"},
		{"string.rep()", "bad argument #1 to 'rep'"},{"assert( false, 'assertion text')", "assertion text"},{"assert( false)", "assertion failed"},{"mewa.typedb():get_type( 1)", "#421"},{"mewa.compiler( 1)", "#413"},
		{"local t = mewa.typedb(); t:scope( 1)", "#"},{"print_section()", "#421"},{"print_section( {}, 'x')", "#407"},{"mewa.tostring( 1, {})", "#"},{"C[0]:run()", "#421"},{"C[0]:run( nil, nil, '/nonexistent/x', 'y')", "/nonexistent/x"},
		{"require( 'doesnotexist_xyz')", "module 'doesnotexist_xyz' not found"},{"local s = string.rep( 'x', 3000); error( s .. 'END', 0)", "xEND"},{"debug.x = 1; debug.traceback()", ""}
	};
	const E& e = es[ g.below( sizeof(es)/sizeof(es[0]))];
	Session S;
	std::vector<Action> actions( 2);
	actions[0].lua = "print( 'x')";
	actions[1].lua = e.code;
	S.init( c, 1, actions);
	auto items = genItems( g, 1, 6);
	Item it; it.action = 1;
	if (g.flip()) {Item b; b.kind = 2; b.sub = {it}; items.insert( items.begin() + g.below( items.size()+1), b);}
	else items.insert( items.begin() + g.below( items.size()+1), it);
	std::string src, in = c.tmpdir + "/in.src", out = c.tmpdir + "/out";
	renderItems( g, items, src);
	writeFile( in, src);
	unlink( out.c_str());
	c.logs( e.code); c.logs( "\n" + src);
	c.key( e.code); c.key( src);
	c.nontrivial();
	S.must( "SP, SD = print, debug");
	CallResult r = S.lua.exec( "C[0]:run( nil, nil, \"" + in + "\", \"" + out + "\")");
	if (r.ok) fail( "swallowed", "run did not fail");
	if (r.error.find( e.text) == std::string::npos) fail( "message-lost", "expected '" + std::string( e.text) + "' in: " + r.error);
	if (r.error.empty() || r.error[0] != '#') fail( "no-code", "error raised by run: " + r.error);
	auto same = S.must( "return rawequal( print, SP), rawequal( debug, SD)");
	if (!same[0].b || !same[1].b) fail( "globals-changed", "print or debug not restored");
	std::string o;
	if (readFile( out, o)) fail( "output-written", "output written by failing run");
	// the compiler still works
	writeFile( in, "\"fine\";");
	writeFile( c.tmpdir + "/t", "{Code}");
	r = S.lua.exec( "C[0]:run( \"" + c.tmpdir + "/t\", nil, \"" + in + "\", \"" + out + "\")");
	if (!r.ok || !readFile( out, o) || o != "fine") fail( "broken-after-error", "compiler does not work anymore: " + r.error + " " + o);
}

// ---------------------------------------------------------------- R03
struct Shape { const char* name; const char* grammar; const char* verify; int maxn; };
const char* g_lexer = "% LANGUAGE \"l\";\n% TYPESYSTEM \"t\";\n% CMDLINE \"c\";\n% COMMENT \"/*\" \"*/\";\nID : '[a-z][0-9]*';\n";
// verify: Lua function( root, n, lineOf) returning an error text or nil. Identifiers are x1 .. xn
const Shape g_shapes[] = {
	{"right recursive list", "prog = list (prog);\nlist = ID list | ;\n", "return list( root, n)", 300000},
	{"left recursive list", "prog = list (prog);\nlist = list ID | ;\n", "return list( root, n)", 300000},
	{"right recursive list of nodes", "prog = list (prog);\nlist = item ',' list | item;\nitem = ID (item);\n", "return nodes( root, n, 'item')", 200000},
	{"left recursive list of nodes", "prog = list (prog);\nlist = list ',' item | item;\nitem = ID (item);\n", "return nodes( root, n, 'item')", 200000},
	{"left deep tree", "prog = list (prog);\nlist = list ID (cons) | ID (one);\n", "local x = root.arg[1]; for i=n,2,-1 do if x.call.name ~= 'cons' or #x.arg ~= 2 or x.line ~= lineOf(i) then return 'cons ' .. i end; local e = leaf( x.arg[2], i); if e then return e end; x = x.arg[1] end; if x.call.name ~= 'one' or #x.arg ~= 1 then return 'one' end; return leaf( x.arg[1], 1)", 150000},
	{"right deep tree", "prog = list (prog);\nlist = ID list (cons) | ID (one);\n", "local x = root.arg[1]; for i=1,n-1 do if x.call.name ~= 'cons' or #x.arg ~= 2 or x.line ~= lineOf(n) then return 'cons ' .. i end; local e = leaf( x.arg[1], i); if e then return e end; x = x.arg[2] end; if x.call.name ~= 'one' or #x.arg ~= 1 then return 'one' end; return leaf( x.arg[1], n)", 150000},
	{"nesting in brackets", "prog = e (prog);\ne = '(' e ')' (paren) | ID (leaf);\n", "local x = root.arg[1]; for i=1,n-1 do if x.call.name ~= 'paren' or #x.arg ~= 1 then return 'paren ' .. i end; x = x.arg[1] end; if x.call.name ~= 'leaf' or #x.arg ~= 1 then return 'leaf' end; return leaf( x.arg[1], 1)", 30000},
	{"nesting in scopes", "prog = e (prog);\ne = '(' e ')' ({}paren) | ID (leaf);\n", "local x = root.arg[1]; for i=1,n-1 do if x.call.name ~= 'paren' or #x.arg ~= 1 or x.scope[1] ~= 0 or x.scope[2] ~= n-i then return 'paren ' .. i .. ' ' .. tostring(x.scope[1]) .. '-' .. tostring(x.scope[2]) end; x = x.arg[1] end; if x.call.name ~= 'leaf' or #x.arg ~= 1 then return 'leaf' end; return leaf( x.arg[1], 1)", 30000},
	{"list of scopes", "prog = list (prog);\nlist = list item | item;\nitem = ID ({}item);\n", "if #root.arg ~= n then return '#' .. #root.arg end; for i=1,n do local x = root.arg[i]; if x.call.name ~= 'item' or #x.arg ~= 1 or x.scope[1] ~= i-1 or x.scope[2] ~= i then return 'item ' .. i end; local e = leaf( x.arg[1], i); if e then return e end end", 200000},
	{"list of steps", "prog = list (prog);\nlist = item list | item;\nitem = ID (>>item);\n", "if #root.arg ~= n then return '#' .. #root.arg end; for i=1,n do local x = root.arg[i]; if x.call.name ~= 'item' or #x.arg ~= 1 or x.step ~= i then return 'item ' .. i end; local e = leaf( x.arg[1], i); if e then return e end end", 200000},
	{"long productions", "prog = list (prog);\nlist = list item | item;\nitem = ID ID ID ID ID ID ID ID ID ID ID ID ID ID ';' (item);\n", "if #root.arg ~= n/14 then return '#' .. #root.arg end; for i=1,n do local x = root.arg[1+math.floor((i-1)/14)]; if x.call.name ~= 'item' or #x.arg ~= 14 then return 'item ' .. i end; local e = leaf( x.arg[ 1 + (i-1)%14], i); if e then return e end end", 200000},
	{"indentation", "% INDENTL IND END NL 1;\nprog = e (prog);\ne = NL ID IND e END (ind) | NL ID (leaf);\n", "local x = root.arg[1]; for i=1,n-1 do if x.call.name ~= 'ind' or #x.arg ~= 5 then return 'ind ' .. i end; local e = leaf( x.arg[2], i); if e then return e end; x = x.arg[4] end; if x.call.name ~= 'leaf' then return 'leaf' end; return leaf( x.arg[2], n)", 1500},
};
const char* g_verify = R"LUA(
function check( root, n, shape, lineOf)
	local function leaf( x, i)
		if x.name ~= 'ID' then return "leaf " .. i .. " is " .. tostring( x.name) end
		if x.value ~= "x" .. i then return "value of leaf " .. i .. " is " .. x.value end
		if x.line ~= lineOf( i) then return "line of leaf " .. i .. " is " .. x.line .. " instead of " .. lineOf( i) end
	end
	local function list( x, n)
		if #x.arg ~= n then return "list has " .. #x.arg .. " elements" end
		for i=1,n do local e = leaf( x.arg[i], i); if e then return e end end
	end
	local function nodes( x, n, name)
		if #x.arg ~= n then return "list has " .. #x.arg .. " elements" end
		for i=1,n do
			local a = x.arg[i]
			if not a.call or a.call.name ~= name or #a.arg ~= 1 or a.line ~= lineOf( i) then return "node " .. i end
			local e = leaf( a.arg[1], i); if e then return e end
		end
	end
	local env = {leaf=leaf, list=list, nodes=nodes, n=n, root=root, lineOf=lineOf, math=math, tostring=tostring}
	return load( shape, "verify", "t", env)()
end
)LUA";

std::string shapeTable( Case& c, int si)
{
	static std::map<int,std::string> cache;
	auto& tab = cache[ si];
	if (tab.empty())
	{
		ProgResult r = generate( c, std::string( g_lexer) + g_shapes[ si].grammar);
		if (r.exitCode || !r.outExists) fail( "harness-grammar", std::string( g_shapes[ si].name) + ": " + r.err);
		tab = r.outFile;
	}
	return tab;
}

void runShape( Gen& g, Case& c, int si, int n, bool mayBeRefused)
{
	const Shape& sh = g_shapes[ si];
	std::string shape = sh.name;
	if (shape == "long productions") n = std::max( 14, n - n % 14);
	int perLine = 1 + (int)g.below( 20);
	std::string src;
	auto sep = [&]( int i) {return i % perLine == 0 ? "\n" : " ";};
	bool big = g.chance( 1, 20);		// large blank areas and comments
	if (shape == "indentation")
	{
		perLine = 1;
		for (int i=1; i<=n; ++i) src += std::string( i-1, ' ') + fmt( "x%d\n", i);
	}
	else if (shape.compare( 0, 7, "nesting") == 0)
	{
		perLine = 1<<30;
		src = std::string( n-1, '(') + "x1" + std::string( n-1, ')');
	}
	else for (int i=1; i<=n; ++i)
	{
		bool comma = shape.find( "list of nodes") != std::string::npos && i < n;
		src += fmt( "x%d", i) + (comma ? "," : "") + (shape == "long productions" && i % 14 == 0 ? ";" : "") + sep( i);
		if (big && i == n/2) {src += std::string( 300000, ' ') + "/*" + std::string( 300000, '*') + "*/";}
	}
	c.log( "%s of %d, %d per line%s\n", sh.name, n, perLine, big ? ", large blank and comment" : "");
	c.key( fmt( "%d %d %d", si, n, perLine));
	c.label( shape);
	c.nontrivial( n >= 1000);
	Lua lua;
	auto must = [&]( const std::string& code) {CallResult r = lua.exec( code); if (!r.ok) fail( "harness-lua", r.error + " in " + code.substr( 0, 200)); return r.ret;};
	must( g_verify);
	must( fmt( "local function lineOf( i) return 1 + math.floor( (i-1)/%d) end\n", perLine)
		+ fmt( "typesystem = setmetatable( {}, {__index = function( t, k) return function() end end})\ntypesystem.prog = function( node) CALLED = (CALLED or 0) + 1; ERR = check( node, %d, ", n) + luaString( sh.verify) + ", lineOf) end");
	must( "__compiler = mewa.compiler( " + shapeTable( c, si) + ")");
	std::string in = c.tmpdir + "/in.src", out = c.tmpdir + "/out";
	writeFile( in, src);
	CallResult r = lua.exec( "__compiler:run( nil, nil, \"" + in + "\", \"" + out + "\")");
	if (!r.ok)
	{
		if (mayBeRefused && (r.error.find( "#437") == 0 || r.error.find( "#592") == 0 || r.error.find( "#400") == 0)) {c.label( "clean error"); return;}
		fail( "refused", fmt( "source of %d elements refused: ", n) + r.error);
	}
	auto res = must( "return CALLED, tostring( ERR)");
	if (res[0].n != 1) fail( "calls", "function of the root not called exactly once");
	if (res[1].s != "nil") fail( "tree", fmt( "%s of %d: ", sh.name, n) + res[1].s);
}

int logSize( Gen& g, int maxn)
{
	// uniform in the order of magnitude, near powers of two with preference
	int bits = 0;
	while ((1<<(bits+1)) <= maxn) ++bits;
	int b = (int)g.below( bits+1);
	int n = (1<<b) + (g.flip() ? (int)g.below( 1<<b) : g.range( -2, 2));
	return std::max( 1, std::min( n, maxn));
}

void kindSizes( Gen& g, Case& c)
{
	int si = (int)g.below( sizeof(g_shapes)/sizeof(g_shapes[0]));
	int n = logSize( g, g_shapes[ si].maxn / (g.chance( 1, 6) ? 1 : 8));
	runShape( g, c, si, n, false);
}

void kindLimit( Gen& g, Case& c)
{
	static const int shapes[] = {0,1,2,3,5,9};
	int si = shapes[ g.below( sizeof(shapes)/sizeof(shapes[0]))];
	int n = g.flip() ? 900000 + (int)g.below( 300000) : 1 << (19 + g.below( 2));
	runShape( g, c, si, n, true);
}

void kindTokens( Gen& g, Case& c)
{
	static std::string tab;
	if (tab.empty())
	{
		ProgResult r = generate( c, "% LANGUAGE \"l\";\n% TYPESYSTEM \"t\";\n% CMDLINE \"c\";\n% COMMENT \"//\";\n% IGNORE '%[a-z]*%';\nID : '[a-z][a-z0-9]*';\nSTR : '[\\x22]([^\\x22]*)[\\x22]' 1;\nESC : '[\\x27]((?:[^\\x27\\x5C]|[\\x5C].)*)[\\x27]' 1;\nNUM : '[0-9]+';\nprog = list (prog);\nlist = list item | item;\nitem = ID | STR | NUM | ESC;\n");
		if (r.exitCode || !r.outExists) fail( "harness-grammar", r.err);
		tab = r.outFile;
	}
	int n = 1 + g.small( 6);
	std::string src;
	std::vector<std::string> want;
	int line = 1;
	std::vector<int> lines;
	for (int i=0; i<n; ++i)
	{
		int len = logSize( g, 16000);
		std::string t;
		switch (g.below( 6))
		{
			case 0: t = "x" + std::string( len, 'y'); want.push_back( "ID " + t); src += t; lines.push_back( line); break;
			case 1: for (int k=0; k<len; ++k) t.push_back( k % 7 == 6 && g.size > 20 ? '\n' : (char)('a' + k % 26)); want.push_back( "STR " + t); src += "\"" + t + "\""; lines.push_back( line); line += (int)std::count( t.begin(), t.end(), '\n'); break;
			case 2: t = std::string( len, (char)('0' + g.below( 10))); want.push_back( "NUM " + t); src += t; lines.push_back( line); break;
			case 3: for (int k=0; k<len/2; ++k) t += k % 3 == 0 ? "\\'" : k % 3 == 1 ? "\\\\" : "zz"; want.push_back( "ESC " + t); src += "'" + t + "'"; lines.push_back( line); break;
			case 4: src += "%" + std::string( len, 'i') + "%"; break;
			case 5: src += "//" + std::string( len * 50, '/') + "\n" + std::string( len * 10, ' '); line += 1; break;
		}
		src += "\n";
		++line;
	}
	if (want.empty()) throw Discard();
	c.log( "%d tokens, source of %zu bytes, first %s\n", (int)want.size(), src.size(), quote( src, 100).c_str());
	c.key( src);
	size_t maxlen = 0;
	for (auto& w : want) maxlen = std::max( maxlen, w.size());
	c.label( maxlen > 1000 ? "token longer than 1000" : "shorter tokens");
	c.nontrivial( maxlen > 300);
	Lua lua;
	CallResult r = lua.exec( "typesystem = {prog = function( node) R = {}; L = {}; for i,a in ipairs( node.arg) do R[i] = a.name .. ' ' .. a.value; L[i] = a.line end end}\n__compiler = mewa.compiler( " + tab + ")");
	if (!r.ok) fail( "harness-lua", r.error);
	std::string in = c.tmpdir + "/in.src", out = c.tmpdir + "/out";
	writeFile( in, src);
	r = lua.exec( "__compiler:run( nil, nil, \"" + in + "\", \"" + out + "\"); return R, L");
	if (!r.ok) fail( "refused", "source refused: " + r.error.substr( 0, 300));
	if (r[0].len() != (int)want.size()) fail( "tokens", fmt( "%d tokens instead of %d", r[0].len(), (int)want.size()));
	for (size_t i=0; i<want.size(); ++i)
	{
		if (r[0].at( (int)i+1).s != want[i]) fail( "token-value", fmt( "token %d differs: ", (int)i) + quote( r[0].at( (int)i+1).s, 200) + " expected " + quote( want[i], 200));
		if ((int)r[1].at( (int)i+1).n != lines[i]) fail( "token-line", fmt( "line of token %d is %d instead of %d", (int)i, (int)r[1].at( (int)i+1).n, lines[i]));
	}
}

// Tokens and texts longer than what the matching of regular expressions is able to handle
void kindHuge( Gen& g, Case& c)
{
	int kind = (int)g.below( 3);
	int len = 300000 + (int)g.below( 100000);
	static const char* kinds[] = {"identifier","string","text after an opening quote"};
	c.log( "%s of length %d\n", kinds[ kind], len);
	c.key( fmt( "%d %d", kind, len));
	c.label( kinds[ kind]);
	c.nontrivial();
	ProgResult r = generate( c, "% LANGUAGE \"l\";\n% TYPESYSTEM \"t\";\n% CMDLINE \"c\";\nID : '[a-z][a-z0-9]*';\nSTR : '[\\x22]([^\\x22]*)[\\x22]' 1;\nprog = list (prog);\nlist = item list | item;\nitem = ID | STR;\n");
	if (r.exitCode || !r.outExists) fail( "harness-grammar", r.err);
	std::string src, text( len, 'y');
	switch (kind)
	{
		case 0: src = text; break;
		case 1: src = "\"" + text + "\""; break;
		case 2: src = "x \""; for (int i=0; i<len/5; ++i) src += "word "; break;
	}
	std::string in = c.tmpdir + "/in.src", out = c.tmpdir + "/out", log = c.tmpdir + "/child.log";
	writeFile( in, src);
	pid_t pid = fork();
	if (pid == 0)
	{
		int f = open( log.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0600);
		dup2( f, 2); dup2( f, 1);
		Lua lua;
		CallResult lr = lua.exec( "typesystem = {prog = function( node) V = node.arg[1].value; N = #node.arg end}\n__compiler = mewa.compiler( " + r.outFile + ")\n__compiler:run( nil, nil, \"" + in + "\", \"" + out + "\"); return N, V");
		int rc = 0;
		if (kind == 2) rc = !lr.ok && lr.error.find( "#501") == 0 ? 0 : 2;
		else if (!lr.ok) rc = lr.error[0] == '#' ? 0 : 2;
		else rc = lr[0].n == 1 && lr[1].s == text ? 0 : 3;
		fprintf( stderr, "%s\n", lr.error.substr( 0, 400).c_str());
		_exit( rc + 10);
	}
	int st = 0;
	waitpid( pid, &st, 0);
	if (WIFEXITED( st) && WEXITSTATUS( st) == 10) return;
	std::string err;
	readFile( log, err);
	bool regexStack = (!WIFEXITED( st) || WEXITSTATUS( st) == 99) && err.find( "stack-overflow") != std::string::npos && err.find( "std::__detail::_Executor") != std::string::npos;
	fail( regexStack ? "stack-overflow-in-matching-of-regular-expressions" : "huge-token", fmt( "status %d: ", st) + err.substr( 0, 1500));
}

Register r1( Property{ "R01", "a successful run after another run, successful or failed, in the same Lua state",
	{ {"histories", kindHistories, 4000, 140000, 30} },
	{"Runs in one Lua state, one after the other or nested, not in threads"} });
Register r2( Property{ "R02", "two or more sections printed are part of the target template (output), at least two debug lines (debug)",
	{ {"output", kindOutput, 20000, 900000, 30}, {"debug", kindDebug, 4000, 150000, 30} },
	{"Output to stdout ends with a new line", "Undecided if a single letter in braces is an identifier: such templates are not judged"} });
Register r3( Property{ "R03", "a source with at least 1000 elements or levels (sizes, limit), a token longer than 300 characters (tokens), every case (huge)",
	{ {"sizes", kindSizes, 300, 14000, 120}, {"limit", kindLimit, 8, 80, 300}, {"tokens", kindTokens, 400, 14000, 60}, {"huge", kindHuge, 3, 12, 60} },
	{"Sources up to 1.2 million elements"} });
Register r4( Property{ "R04", "every case",
	{ {"messages", kindMessages, 10000, 600000, 20}, {"values", kindValues, 1000, 30000, 20} },
	{"Messages without NUL characters"} });

} // namespace
