// G01 - G05: parser generator and generated parsers against reference models
#include "lr.hpp"
#include <unistd.h>
using namespace pbt;
using namespace mw;
using namespace lr;

namespace {

std::string G_repr( const Grammar& G)
{
	std::string rt;
	for (size_t i=0; i<G.prods.size(); ++i) rt += G.prodText( (int)i) + "\n";
	return rt;
}
bool isConflictReport( const ProgResult& r)
{
	return r.err.find( "#564") != std::string::npos;
}
// generate a compiler; false if the grammar is refused because of conflicts
bool translate( Case& c, const std::string& text, ProgResult& r)
{
	c.logs( text);
	r = generate( c, text);
	if (r.exitCode == 0)
	{
		if (!r.outExists) fail( "no-output", "mewa returned 0 without writing the output\n" + r.err);
		return true;
	}
	if (r.outExists) fail( "output-on-error", "mewa failed but wrote an output file\n" + r.err);
	if (r.err.find( "#577 ") != std::string::npos && text.size() > 1000) throw Discard();	// documented limit of distinct follow sets
	if (!isConflictReport( r)) fail( "refused", "mewa refused the grammar not because of conflicts: " + r.err);
	return false;
}
void load( Compiler& comp, const std::string& lua)
{
	std::string e = comp.load( lua);
	if (!e.empty()) fail( "load", "generated compiler does not load: " + e);
}

struct SyntaxError { bool ok = false; int line = 0; std::string rest; std::set<int> expected; };
// "...#601 "Syntax error..." at line N...: TOKEN { LIST }"
SyntaxError parseSyntaxError( const Grammar& G, const std::string& msg, const Tok* tok)
{
	SyntaxError rt;
	size_t p = msg.find( "#601 ");
	if (p == std::string::npos) return rt;
	p = msg.find( "\" at line ", p);
	if (p == std::string::npos) return rt;
	p += 10;
	rt.line = atoi( msg.c_str() + p);
	while (p < msg.size() && isdigit( (unsigned char)msg[p])) ++p;
	p = msg.find( ": ", p);
	if (p == std::string::npos) return rt;
	std::string arg = msg.substr( p+2);
	std::vector<std::string> heads;
	if (!tok) heads.push_back( "$");
	else if (G.terms[ tok->term].keyword) {heads.push_back( "'" + tok->text + "'"); heads.push_back( "\"" + tok->text + "\"");}
	else heads.push_back( G.terms[ tok->term].name + " = \"" + tok->value + "\"");
	for (auto& h : heads)
	{
		std::string head = h + " { ";
		if (arg.compare( 0, head.size(), head) == 0 && arg.size() >= head.size() + 1)
		{
			std::string list = arg.substr( head.size());
			if (list.size() >= 2 && list.substr( list.size()-2) == " }") list.resize( list.size()-2);
			else if (list == "}") list.clear();
			else {rt.rest = "list of expected tokens not terminated: " + arg; return rt;}
			if (!splitExpected( G, list, rt.expected)) {rt.rest = "list of expected tokens not understood: " + list; return rt;}
			rt.ok = true;
			return rt;
		}
	}
	rt.rest = "names another token: " + arg;
	return rt;
}

std::vector<int> randomTokens( Gen& g, const Grammar& G, int maxlen)
{
	std::vector<int> rt;
	int n = g.small( maxlen);
	for (int i=0; i<n && G.terms.size() > 1; ++i) rt.push_back( 1 + (int)g.below( G.terms.size()-1));
	return rt;
}

// ---------------------------------------------------------------- G01
void kindLanguage( Gen& g, Case& c)
{
	Grammar G = genParsable( g);
	addCalls( g, G, 30);
	ProgResult r;
	if (!translate( c, G.text( g), r)) {c.label( "conflicts"); return;}
	Compiler comp( c);
	load( comp, r.outFile);
	Earley ea( G);
	Deriver d( G);
	int n = 10, acc = 0, rej = 0;
	std::vector<int> last;
	for (int i=0; i<n; ++i)
	{
		std::vector<int> toks;
		bool derived = false;
		switch (i == 0 || !d.possible() ? 0 : g.weighted( {1,4,5}))
		{
			case 0: if (i) toks = randomTokens( g, G, 6); break;
			case 1: d.derive( g, 1 + g.below( 10 + g.size)).yield( toks); derived = true; last = toks; break;
			default: if (last.empty()) {d.derive( g, 1 + g.small( 20)).yield( last);} toks = mutate( g, G, last); break;
		}
		if (toks.size() > 400) toks.resize( 400);
		ea.run( toks);
		size_t viable = ea.run( toks);
		bool expect = viable == toks.size() && ea.accepted();
		if (derived && toks.size() < 400 && !expect) fail( "harness", "derived sentence not recognized by the reference");
		Rendered rd = render( g, G, toks);
		c.log( "source %s expect %s\n", quote( rd.src, 600).c_str(), expect ? "accept" : "reject");
		RunResult rr = comp.run( rd.src);
		if (expect)
		{
			if (!rr.ok) fail( "sentence-refused", "a sentence of the grammar is refused: " + rr.error + "\n" + G_repr( G) + "tokens: " + tokNames( G, toks));
			if (rr.calls.empty()) fail( "no-call", "no function called for an accepted sentence\n" + G_repr( G) + "tokens: " + tokNames( G, toks));
			++acc;
		}
		else
		{
			if (rr.ok) fail( "nonsentence-accepted", "text accepted that is no sentence of the grammar\n" + G_repr( G) + "tokens: " + tokNames( G, toks));
			if (rr.error.find( "#601 ") == std::string::npos) fail( "not-a-syntax-error", "rejection is no syntax error: " + rr.error);
			++rej;
		}
	}
	c.count( "accepted", acc); c.count( "rejected", rej);
	if (acc >= 2 && rej >= 2 && G.prods.size() >= 4) c.nontrivial();
	auto nu = G.nullable();
	for (size_t i=0; i<nu.size(); ++i) if (nu[i]) c.label( "nullable");
}

// ---------------------------------------------------------------- G02
void checkConflicts( Gen& g, Case& c, const Grammar& G)
{
	LalrResult ref = lalr( G);
	if (ref.overflow) {c.label( "too large"); c.logs( "too large"); return;}
	ProgResult r;
	bool ok = translate( c, G.text( g), r);
	if (ok)
	{
		if (!ref.conflicts.empty())
		{
			auto& f = ref.conflicts[0];
			std::string ps;
			for (int p : f.reduce) ps += G.prodText( p) + "\n";
			fail( "conflict-not-reported", fmt( "grammar with LALR(1) conflict on %s accepted, reductions in conflict:\n", f.term ? G.terms[ f.term].name.c_str() : "$") + ps + "grammar:\n" + G_repr( G));
		}
		if (!r.err.empty() && r.err.find( "Warning") != std::string::npos) fail( "warning-on-success", "warnings but success: " + r.err);
	}
	else
	{
		LalrResult imprecise = lalr( G, true, true);
		if (ref.conflicts.empty())
		{
			// known imprecision of the lookahead sets calculated
			std::string sig = !lalr( G, true, false).conflicts.empty() ? "refused-because-of-end-mark-in-first-sets"
					: !lalr( G, false, true).conflicts.empty() || !imprecise.conflicts.empty() ? "refused-because-of-merged-lookaheads" : "conflict-wrong";
			fail( sig, "LALR(1) grammar refused: " + r.err + "\ngrammar:\n" + G_repr( G));
		}
		// every message names a conflict
		std::istringstream in( r.err);
		std::string line;
		int nmsg = 0;
		while (std::getline( in, line))
		{
			size_t p = line.find( "#561"), q = line.find( "#562");
			bool sr = p != std::string::npos, rr = q != std::string::npos;
			if (!sr && !rr) continue;
			++nmsg;
			bool found = false;
			for (auto& f : imprecise.conflicts)
			{
				bool accept = std::find( f.reduce.begin(), f.reduce.end(), 0) != f.reduce.end();
				if (sr ? !f.shift && !accept : f.reduce.size() < 2) continue;
				std::string tn = f.term ? G.symText( T( f.term)) : std::string( "$");
				std::string tn2 = f.term ? "'" + G.terms[ f.term].name + "'" : tn;
				// the terminal after "<-"
				size_t a = line.rfind( "<-");
				bool hasT = false;
				// productions may contain the arrow as text of a keyword
				while (a != std::string::npos && !hasT)
				{
					std::string rest = " " + line.substr( a+2) + " ";
					hasT = rest.find( " " + tn + " ") != std::string::npos || rest.find( " " + tn2 + " ") != std::string::npos;
					a = a ? line.rfind( "<-", a-1) : std::string::npos;
				}
				bool hasP = false;
				int np = 0;
				for (int pr : f.reduce) if (line.find( G.prodText( pr)) != std::string::npos) ++np;
				if (sr && f.shift)
				{
					hasP = np >= 1;
					bool sp = false;
					for (int pr : f.shiftProds) if (line.find( G.prodText( pr)) != std::string::npos) sp = true;
					hasP = hasP && sp;
				}
				else hasP = np >= 2;
				if (hasT && hasP) {found = true; break;}
			}
			// long lists are abbreviated in messages
			if (!found && line.size() < 480) fail( "message-wrong", "reported conflict is none of the grammar: " + line + "\ngrammar:\n" + G_repr( G));
		}
		if (!nmsg) fail( "no-message", "no conflict named: " + r.err);
	}
	if (G.prods.size() >= 4) c.nontrivial();
	c.label( ok ? "lalr(1)" : "conflicts");
	if (ref.states > 30) c.label( "more than 30 states");
	if (ref.states > 100) c.label( "more than 100 states");
}
void kindConflicts( Gen& g, Case& c)
{
	Grammar G = genAny( g);
	if (g.chance( 1, 3)) addCalls( g, G, 50);
	checkConflicts( g, c, G);
}

// ---------------------------------------------------------------- G03
struct Op { int kind; std::string text; int prio; char assoc; std::string fn; bool defined; };	// kind 0 binary, 1 prefix, 2 postfix, 3 ternary, 4 indexing 'e [ e ]'
void kindOperators( Gen& g, Case& c)
{
	static const std::vector<std::string> spell = {"+","-","*","/","%","^","==","!=","<","<=","&&","||","!","~","++","=>","->","or","and","not","**","&","|","@","."};
	std::vector<Op> ops;
	int n = 1 + g.small( 3 + g.size/8);
	int nlev = 1 + g.small( 6);
	std::vector<int> levels;
	std::vector<char> assoc;
	{
		std::set<int> s;
		while ((int)s.size() < nlev) s.insert( (int)g.below( 31) + (g.flip() ? 0 : 1));
		for (int v : s) {levels.push_back( v); assoc.push_back( g.flip() ? 'L' : 'R');}
	}
	bool mixed = g.chance( 1, 12);
	std::set<std::pair<int,std::string>> used;	// (role, spelling): 0 infix or postfix, 1 prefix
	std::vector<std::string> words = spell;
	bool ternary = false, index = false;
	for (int i=0; i<n; ++i)
	{
		Op o;
		o.kind = (int)g.weighted( {8,3,2,1,1});
		if (o.kind == 3) {if (ternary) o.kind = 0; else ternary = true;}
		if (o.kind == 4) {if (index) o.kind = 0; else index = true;}
		o.text = o.kind == 3 ? "?" : o.kind == 4 ? "[" : g.pick( words);
		if (!used.insert( {o.kind == 1 ? 1 : 0, o.text}).second) continue;
		size_t l = g.below( levels.size());
		o.prio = levels[l];
		o.assoc = mixed && g.flip() ? (assoc[l] == 'L' ? 'R':'L') : assoc[l];
		o.defined = true;
		o.fn = fmt( "op%d", (int)ops.size());
		ops.push_back( o);
	}
	bool parens = g.chance( 3, 4);
	std::string text = "% LANGUAGE \"x\";\n% TYPESYSTEM \"ts\";\n% CMDLINE \"cmd\";\nNUM : '[0-9]+';\nstart = expr (root);\n";
	std::vector<std::string> decl;
	for (auto& o : ops)
	{
		std::string d = fmt( "expr/%c%d = ", o.assoc, o.prio);
		switch (o.kind)
		{
			case 0: d += "expr \"" + o.text + "\" expr"; break;
			case 1: d += "\"" + o.text + "\" expr"; break;
			case 2: d += "expr \"" + o.text + "\""; break;
			case 3: d += "expr \"?\" expr \":\" expr"; break;
			case 4: d += "expr \"[\" expr \"]\""; break;
		}
		decl.push_back( d + " (" + o.fn + ");\n");
	}
	decl.push_back( "expr = NUM (num);\n");
	if (parens) decl.push_back( "expr = \"(\" expr \")\" (par);\n");
	for (size_t i=decl.size(); i>1; --i) {size_t k = g.below( i); std::swap( decl[k], decl[i-1]);}
	for (auto& d : decl) text += d;
	c.logs( text);
	// conflicts expected: an operator following a complete expression against a production ending with an expression, same level, other associativity
	bool expectConflict = false;
	for (auto& a : ops) if (a.kind == 0 || a.kind == 1 || a.kind == 3)
		for (auto& b : ops) if (b.kind != 1 && a.prio == b.prio && a.assoc != b.assoc) expectConflict = true;
	ProgResult r = generate( c, text);
	if (expectConflict)
	{
		c.label( "mixed associativity");
		if (r.exitCode == 0 || r.outExists) fail( "mixed-accepted", "same priority with different associativity accepted");
		if (!isConflictReport( r)) fail( "refused", "no conflict report: " + r.err);
		return;
	}
	if (r.exitCode != 0) fail( "refused", "operator grammar refused: " + r.err);
	Compiler comp( c);
	load( comp, r.outFile);
	for (int e=0; e<6; ++e)
	{
		// generate the expression as token text
		std::vector<std::string> toks;
		int budget = 1 + g.small( 6 + g.size/3);
		struct Ex {
			Gen& g; const std::vector<Op>& ops; bool parens; std::vector<std::string>& toks;
			void gen( int& budget, int depth)
			{
				--budget;
				int k = budget <= 0 || depth > 30 || ops.empty() ? 0 : 1 + (int)g.below( 8);
				if (k == 8 && parens) {toks.push_back( "("); gen( budget, depth+1); toks.push_back( ")"); return;}
				if (k == 0) {toks.push_back( fmt( "%d", (int)g.below( 10))); return;}
				const Op& o = g.pick( ops);
				switch (o.kind)
				{
					case 0: gen( budget, depth+1); toks.push_back( o.text); gen( budget, depth+1); break;
					case 1: toks.push_back( o.text); gen( budget, depth+1); break;
					case 2: gen( budget, depth+1); toks.push_back( o.text); break;
					case 3: gen( budget, depth+1); toks.push_back( "?"); gen( budget, depth+1); toks.push_back( ":"); gen( budget, depth+1); break;
					case 4: gen( budget, depth+1); toks.push_back( "["); gen( budget, depth+1); toks.push_back( "]"); break;
				}
			}
		} ex{g,ops,parens,toks};
		ex.gen( budget, 0);
		// reference: operator precedence parser
		struct Pr {
			const std::vector<Op>& ops; const std::vector<std::string>& toks; size_t pos = 0;
			const Op* infix( const std::string& t) const {for (auto& o : ops) if (o.kind != 1 && o.text == t) return &o; return nullptr;}
			const Op* prefix( const std::string& t) const {for (auto& o : ops) if (o.kind == 1 && o.text == t) return &o; return nullptr;}
			std::string peek() const {return pos < toks.size() ? toks[pos] : std::string( "$");}
			static bool shift( const Op* pending, const Op* next)
			{
				if (!pending) return true;
				if (next->prio != pending->prio) return next->prio > pending->prio;
				return next->assoc == 'R';
			}
			// parse an expression below the pending productions; returns the tree
			std::string parse( const Op* pending)
			{
				std::string left;
				std::string t = peek(); ++pos;
				const Op* p;
				if (isdigit( (unsigned char)t[0])) left = "num(" + t + ")";
				else if (t == "(") {std::string s = parse( nullptr); ++pos; left = "par(" + s + ")";}
				else if ((p = prefix( t))) {std::string s = parse( p); left = p->fn + "(" + s + ")";}
				else fail( "harness", "bad expression at " + t);
				for (;;)
				{
					const Op* o = infix( peek());
					if (!o || !shift( pending, o)) return left;
					++pos;
					switch (o->kind)
					{
						case 0: {std::string s = parse( o); left = o->fn + "(" + left + " " + s + ")"; break;}
						case 2: left = o->fn + "(" + left + ")"; break;
						case 3: {std::string m = parse( nullptr); ++pos; std::string s = parse( o); left = o->fn + "(" + left + " " + m + " " + s + ")"; break;}
						case 4: {std::string m = parse( nullptr); ++pos; left = o->fn + "(" + left + " " + m + ")"; break;}
					}
				}
			}
		} pr{ops,toks};
		std::string expect = pr.parse( nullptr);
		if (pr.pos != toks.size()) fail( "harness", "expression not parsed completely: " + expect);
		std::string src;
		for (auto& t : toks) src += t + (g.chance( 1, 6) ? "\n" : " ");
		c.log( "source %s\n", quote( src, 800).c_str());
		RunResult rr = comp.run( src);
		if (!rr.ok) fail( "expression-refused", "expression refused: " + rr.error + "\nsource: " + src);
		struct Sh {static std::string show( const Node& n) {if (n.leaf) return n.value; std::string s; for (auto& a : n.arg) s += (s.empty() ? "" : " ") + show( a); return n.name + "(" + s + ")";}};
		if (rr.calls.size() != 1 || rr.calls[0].node.arg.size() != 1) fail( "tree", "root expected");
		std::string got = Sh::show( rr.calls[0].node.arg[0]);
		if (got != expect) fail( "tree", "source   " + src + "\nexpected " + expect + "\ngot      " + got);
		int nops = 0;
		for (auto& t : toks) if (!isdigit( (unsigned char)t[0]) && t != "(" && t != ")") ++nops;
		c.count( "operators", nops);
		if (nops >= 2 && ops.size() >= 2) c.nontrivial();
	}
	c.label( fmt( "%d levels", nlev));
}

// ---------------------------------------------------------------- G04
void kindTrees( Gen& g, Case& c)
{
	Grammar G = genParsable( g);
	addCalls( g, G, 20 + 20 * (int)g.below( 5));
	bool rootCall = !g.chance( 1, 6);
	if (!rootCall) {G.prods[0].call.clear(); G.prods[0].flag = 0; G.prods[0].obj.clear();}
	ProgResult r;
	if (!translate( c, G.text( g), r)) {c.label( "conflicts"); return;}
	Compiler comp( c);
	load( comp, r.outFile);
	Deriver d( G);
	if (!d.possible()) return;
	Val options = g.flip() ? Val() : Val::str( "opt");
	for (int i=0; i<5; ++i)
	{
		Tree t = d.derive( g, 1 + g.below( 20 + 3*g.size));
		std::vector<int> toks;
		t.yield( toks);
		Rendered rd = render( g, G, toks);
		c.log( "source %s\n", quote( rd.src, 800).c_str());
		AstBuilder ab( G, rd.toks);
		std::vector<Node> exp;
		ab.build( t, exp);
		RunResult rr = comp.run( rd.src, false, "", options);
		size_t ncalls = exp.size();
		bool leafError = false;
		bool anyCall = false;
		for (auto& p : G.prods) if (!p.call.empty()) anyCall = true;
		if (!anyCall) ncalls = 0;	// nothing to call at all
		else for (size_t k=0; k<exp.size(); ++k) if (exp[k].leaf) {ncalls = k; leafError = true; break;}
		if (rr.ok == leafError) fail( leafError ? "leaf-without-function" : "sentence-refused", (rr.ok ? std::string( "top level token without function accepted") : "sentence refused: " + rr.error) + "\n" + G_repr( G) + tokNames( G, toks));
		if (leafError)
		{
			std::string nm = exp[ ncalls].name + " = " + exp[ ncalls].value;
			if (rr.error.find( "#596") == std::string::npos && rr.error.find( nm) == std::string::npos) fail( "leaf-without-function", "error does not name the token: " + rr.error);
		}
		if (rr.calls.size() != ncalls) fail( "calls", fmt( "%d calls expected and %d done\n", (int)ncalls, (int)rr.calls.size()) + G_repr( G) + tokNames( G, toks));
		int nmarks = 0;
		for (size_t k=0; k<ncalls; ++k)
		{
			std::string a = exp[k].repr(), b = rr.calls[k].node.repr();
			if (a != b) fail( "tree", "expected " + a + "\ngot      " + b + "\n" + G.text( g) + "\nsource " + quote( rd.src, 3000));
			if (rr.calls[k].func != exp[k].name) fail( "function", "function called " + rr.calls[k].func + ", expected " + exp[k].name);
			// arguments: node [obj] [options]
			std::vector<std::string> args;
			if (!exp[k].value.empty()) args.push_back( exp[k].value);
			if (!options.isNil()) args.push_back( options.repr());
			std::vector<std::string> got;
			if (rr.calls[k].nargs >= 2) got.push_back( rr.calls[k].obj);
			if (rr.calls[k].nargs >= 3) got.push_back( rr.calls[k].options);
			if (args != got) fail( "arguments", fmt( "function called with %d arguments %s %s, expected %d", rr.calls[k].nargs, rr.calls[k].obj.c_str(), rr.calls[k].options.c_str(), (int)args.size()+1));
		}
		struct Cnt {static int marks( const Tree& t, const Grammar& G) {int n = t.prod >= 0 && G.prods[ t.prod].flag; for (auto& s : t.sub) n += marks( s, G); return n;}};
		nmarks = Cnt::marks( t, G);
		c.count( "nodes", t.nodes());
		if (t.nodes() >= 8 && nmarks >= 2 && !leafError) c.nontrivial();
		if (nmarks >= 10) c.label( "10 marks or more");
		if (!rootCall) c.label( "several roots");
	}
}

// grammars up to the limits of size
void kindLarge( Gen& g, Case& c)
{
	Grammar G = genLarge( g);
	addCalls( g, G, 50);
	std::string text = G.text( g);
	ProgResult r = generate( c, text);
	c.log( "%d terminals, %d nonterminals, %d productions\n", (int)G.terms.size()-1, (int)G.nts.size(), (int)G.prods.size());
	if (r.exitCode)
	{
		if (r.outExists) fail( "output-on-error", r.err);
		if (r.err.find( "#577") != std::string::npos) {c.label( "too many follow sets"); return;}
		fail( "refused", "grammar refused: " + r.err.substr( 0, 2000));
	}
	Compiler comp( c);
	load( comp, r.outFile);
	Deriver d( G);
	for (int i=0; i<12; ++i)
	{
		Tree t = d.derive( g, 1 + g.below( 400));
		std::vector<int> toks;
		t.yield( toks);
		if (toks.size() > 20000) continue;
		Rendered rd = render( g, G, toks);
		AstBuilder ab( G, rd.toks);
		std::vector<Node> exp;
		ab.build( t, exp);
		RunResult rr = comp.run( rd.src);
		if (!rr.ok) fail( "sentence-refused", "sentence refused: " + rr.error + "\n" + text);
		if (exp.size() != 1 || rr.calls.size() != 1) fail( "calls", "one call expected");
		std::string a = exp[0].repr(), b = rr.calls[0].node.repr();
		if (a != b) fail( "tree", "expected " + a.substr( 0, 3000) + "\ngot      " + b.substr( 0, 3000) + "\n" + text);
		c.count( "nodes", t.nodes());
		if (toks.size() > 300) continue;
		// disturbed
		std::vector<int> bad = mutate( g, G, toks);
		Earley ea( G);
		size_t viable = ea.run( bad);
		bool expect = viable == bad.size() && ea.accepted();
		Rendered rb = render( g, G, bad);
		rr = comp.run( rb.src);
		if (rr.ok != expect) fail( "acceptance", (expect ? "sentence refused: " : "text accepted that is no sentence ") + rr.error + "\n" + text + quote( rb.src, 2000));
		if (!expect)
		{
			const Tok* tok = viable < bad.size() ? &rb.toks[ viable] : nullptr;
			SyntaxError se = parseSyntaxError( G, rr.error, tok);
			if (!se.ok) fail( "message", "syntax error at another token: " + rr.error);
		}
	}
	if (G.prods.size() >= 100) c.nontrivial();
	if (G.prods.size() >= 256) c.label( "256 or more productions");
	if (G.nts.size() >= 129) c.label( "128 or more nonterminals");
	if (G.terms.size() >= 257) c.label( "256 or more terminals");
	if (G.size() >= 1100) c.label( "1000 or more states");
}

// ---------------------------------------------------------------- G05
void kindErrors( Gen& g, Case& c)
{
	Grammar G = genParsable( g);
	addCalls( g, G, 30);
	ProgResult r;
	if (!translate( c, G.text( g), r)) {c.label( "conflicts"); return;}
	Compiler comp( c);
	load( comp, r.outFile);
	Deriver d( G);
	Earley ea( G);
	Canonical can( G);
	auto fol = G.follow();
	int checked = 0;
	for (int i=0; i<8; ++i)
	{
		std::vector<int> toks;
		d.derive( g, 1 + g.below( 15 + g.size)).yield( toks);
		if (toks.size() > 250) toks.resize( 250);
		toks = g.chance( 1, 6) ? randomTokens( g, G, 8) : mutate( g, G, toks);
		size_t viable = ea.run( toks);
		if (viable == toks.size() && ea.accepted()) continue;
		Rendered rd = render( g, G, toks);
		c.log( "source %s\n", quote( rd.src, 800).c_str());
		RunResult rr = comp.run( rd.src);
		std::string ctx = "\n" + G_repr( G) + "source: " + quote( rd.src, 3000);
		if (rr.ok) fail( "accepted", "text accepted that is no sentence" + ctx);
		if (!rr.calls.empty()) fail( "function-called", "function called for a source with a syntax error" + ctx);
		const Tok* tok = viable < toks.size() ? &rd.toks[ viable] : nullptr;
		SyntaxError se = parseSyntaxError( G, rr.error, tok);
		if (!se.ok) fail( "message", fmt( "the first wrong token is number %d (%s) but the message %s: ", (int)viable+1, tok ? tok->text.c_str() : "$", se.rest.c_str()) + rr.error + ctx);
		if (tok ? se.line != tok->line : (se.line < (rd.toks.empty() ? 1 : rd.toks.back().line) || se.line > rd.endLine)) fail( "line", fmt( "line %d expected: ", tok ? tok->line : rd.endLine) + rr.error + ctx);
		// what could follow
		std::vector<Canonical::State> stack = {can.start()};
		bool det = true;
		for (size_t k=0; k<viable && det; ++k)
		{
			for (;;)
			{
				int red = can.reduction( stack.back(), toks[k]);
				bool sh = can.shifts( stack.back(), toks[k]);
				if (red == -2 || (red >= 0 && sh)) {det = false; break;}
				if (red < 0) {if (!sh) fail( "harness", "reference parser stuck"); stack.push_back( can.go( stack.back(), T( toks[k]))); break;}
				stack.resize( stack.size() - G.prods[ red].right.size());
				stack.push_back( can.go( stack.back(), N( G.prods[ red].left)));
			}
		}
		if (!det) fail( "harness", "reference parser not deterministic");
		// all configurations reachable by reductions at this place
		std::vector<std::vector<Canonical::State>> confs = {stack};
		bool good = false, capped = false;
		TSet upper;
		for (size_t k=0; k<confs.size() && !good; ++k)
		{
			auto st = confs[k];
			TSet v = can.actions( st.back());
			upper |= can.shiftable( st.back());
			bool sub = v.any();
			for (int t=0; t<(int)G.terms.size(); ++t) if (v.test( t) && !se.expected.count( t)) sub = false;
			if (sub)
			{
				// nothing that cannot follow in any context
				TSet u = can.shiftable( st.back());
				for (int p : can.completed( st.back())) u |= fol[ G.prods[p].left];
				u.set( 0);	// known imprecision, see G02
				for (int t : se.expected) if (!u.test( t)) sub = false;
			}
			if (sub) good = true;
			if (confs.size() > 300 || st.size() > stack.size() + 40) {capped = true; break;}
			for (int p : can.completed( st.back())) if (p != 0)
			{
				auto n = st;
				n.resize( n.size() - G.prods[p].right.size());
				n.push_back( can.go( n.back(), N( G.prods[p].left)));
				confs.push_back( n);
			}
		}
		if (capped && !good) {c.label( "too many configurations"); continue;}
		if (!good)
		{
			std::string v;
			TSet nx = can.actions( stack.back());
			for (int t=0; t<(int)G.terms.size(); ++t) if (nx.test( t)) v += " " + (t ? G.symText( T(t)) : std::string( "$"));
			fail( "expected-list", "the list of expected tokens is not the one of the place of the error, possible:" + v + "\n" + rr.error + ctx);
		}
		if (tok && se.expected.count( tok->term)) fail( "expected-list", "the wrong token is listed as expected" + rr.error + ctx);
		++checked;
		if (viable >= 2) c.nontrivial();
		if (se.expected.size() >= 3) c.label( "3 or more expected");
	}
	c.count( "errors", checked);
}
// many tokens possible at the place of the error
void kindLongList( Gen& g, Case& c)
{
	Grammar G;
	G.terms.resize( 1);
	G.nts = {"start","prog","st","tail"};
	int n = 2 + g.below( 20 + 4*g.size);
	int len = 1 + g.below( 30);
	for (int i=0; i<n; ++i) {Term t; t.name = fmt( "kw%d%s", i, std::string( len, 'a' + i % 26).c_str()); G.terms.push_back( t);}
	auto add = [&]( int l, std::vector<Sym> r) {Prod p; p.left = l; p.right = r; G.prods.push_back( p);};
	add( 0, {N(1)}); G.prods[0].call = "root";
	add( 1, {N(1),N(2)}); add( 1, {N(2)});
	int split = 1 + g.below( n);
	for (int i=1; i<=n; ++i)
	{
		if (i <= split) add( 2, {T(i),N(3)}); else add( 3, {T(i)});
	}
	if (split == n) add( 3, {});
	c.log( "%d keywords of length %d, %d start\n", n, len, split);
	ProgResult r;
	std::string text = G.text( g);
	r = generate( c, text);
	if (r.exitCode != 0) fail( "refused", r.err);
	Compiler comp( c);
	load( comp, r.outFile);
	Canonical can( G);
	for (int k=0; k<3; ++k)
	{
		// statement start or tail expected
		std::vector<int> toks;
		int m = g.small( 3);
		auto first = [&]() {return 1 + (int)g.below( split);};
		auto second = [&]() {return split + 1 + (int)g.below( n - split);};
		for (int i=0; i<m; ++i) {toks.push_back( first()); if (split < n) toks.push_back( second());}
		std::set<int> expect;
		if (split < n && g.flip())
		{
			if (g.flip()) toks.push_back( second()); // wrong: statement expected
			else {toks.push_back( first()); toks.push_back( first());} // wrong: tail expected
		}
		else if (split < n) toks.push_back( first());	// end of input
		else if (m == 0) {}
		else continue;
		Earley ea( G);
		size_t viable = ea.run( toks);
		if (viable == toks.size() && ea.accepted()) continue;
		std::vector<int> pre( toks.begin(), toks.begin()+viable);
		ea.run( pre);
		TSet nx = ea.next();
		for (int t=0; t<(int)G.terms.size(); ++t) if (nx.test( t)) expect.insert( t);
		Rendered rd = render( g, G, toks);
		RunResult rr = comp.run( rd.src);
		c.log( "source %s\n", quote( rd.src, 300).c_str());
		if (rr.ok) fail( "accepted", "text accepted that is no sentence");
		SyntaxError se = parseSyntaxError( G, rr.error, viable < toks.size() ? &rd.toks[ viable] : nullptr);
		if (!se.ok) fail( "list-truncated", fmt( "%d expected tokens: ", (int)expect.size()) + rr.error);
		if (se.expected != expect) fail( "list-incomplete", fmt( "%d expected tokens, %d listed", (int)expect.size(), (int)se.expected.size()));
		c.nontrivial();
	}
}

// ---------------------------------------------------------------- G09
// productions that make the grammar ambiguous
void ambiguate( Gen& g, Grammar& G)
{
	int n = 1 + (int)g.below( G.nts.size()-1);
	auto term = [&]() -> Sym
	{
		if (G.terms.size() > 1 && g.chance( 2, 3)) return T( 1 + (int)g.below( G.terms.size()-1));
		Term t; t.name = fmt( "k%d", (int)G.terms.size());
		G.terms.push_back( t);
		return T( (int)G.terms.size()-1);
	};
	auto add = [&]( std::vector<Sym> r) {Prod p; p.left = n; p.right = r; G.prods.push_back( p);};
	Sym a = term();
	switch (g.below( 7))
	{
		case 0: add( {N(n),a,N(n)}); break;
		case 1: add( {a,N(n)}); add( {N(n),term()}); break;
		case 2: add( {N(n),N(n)}); break;
		case 3: {Sym b = term(); add( {a,N(n)}); add( {a,N(n),b,N(n)}); break;}
		case 4: add( {N(n),a,N(n),term(),N(n)}); break;
		case 5: {int m = 1 + (int)g.below( G.nts.size()-1); add( {N(n),a,N(m)}); if (m != n) {n = m; add( {N(n),a,N(n)});} break;}
		default: add( {N(n),a,N(n)}); add( {N(n),term(),N(n)}); add( {term(),N(n)}); break;
	}
	G.prune();
}
bool decidable( const Grammar& G, const LalrResult& r)
{
	for (auto& f : r.conflicts) if (!f.shift || f.reduce.size() > 1 || f.reduce[0] == 0) return false;
	return true;
}
void kindPriorities( Gen& g, Case& c)
{
	Grammar G;
	LalrResult base;
	int variant = (int)g.weighted( {7,2,1,1});	// 1: any grammar, 2: no priorities, 3: conflict with accept
	for (int i=0; i<8; ++i)
	{
		G = g.chance( 1, 4) ? Grammar( genAny( g)) : genStructured( g);
		for (int k=(int)g.below( 3); k>=0; --k) ambiguate( g, G);
		if (variant == 3)
		{
			// a list of nullable elements below the start production: the end of input accepts and reduces
			int root = G.prods[0].right.empty() || G.prods[0].right[0].term ? 1 : G.prods[0].right[0].idx;
			std::vector<int> nul;
			auto nu = G.nullable();
			for (size_t n=1; n<nu.size(); ++n) if (nu[n]) nul.push_back( (int)n);
			Prod p;
			if (nul.empty()) {p.left = (int)G.nts.size(); G.nts.push_back( "empty"); G.prods.push_back( p); nul.push_back( p.left);}
			p.left = root;
			p.right = {N( root), N( g.pick( nul))};
			G.prods.push_back( p);
			G.prune();
		}
		base = lalr( G, false, false, 400);
		if (variant || (!base.overflow && !base.conflicts.empty() && decidable( G, base))) break;
	}
	if (base.overflow) {c.label( "too large"); return;}
	// levels
	std::vector<std::string> levels;
	int nlev = 1 + g.small( 5);
	bool consistent = g.chance( 4, 5);
	std::set<int> used;
	for (int i=0; i<nlev; ++i)
	{
		int v = g.chance( 1, 6) ? (int)g.below( 2) : g.chance( 1, 6) ? 31 - (int)g.below( 2) : 1 + (int)g.below( 30);
		if (consistent && !used.insert( v).second) continue;
		std::string num = fmt( "%d", v);
		switch (g.weighted( {5,5,1}))
		{
			case 0: levels.push_back( g.chance( 1, 8) ? num + "L" : "L" + num); break;
			case 1: levels.push_back( g.chance( 1, 8) ? num + "R" : "R" + num); break;
			default: levels.push_back( num); break;
		}
	}
	if (variant != 2)
	{
		// productions in conflict, then others
		std::set<int> inv;
		for (auto& f : base.conflicts) {inv.insert( f.reduce.begin(), f.reduce.end()); inv.insert( f.shiftProds.begin(), f.shiftProds.end());}
		Grammar best = G;
		int bestBad = -1;
		int tries = 1 + (int)g.below( 6);
		for (int i=0; i<tries && bestBad; ++i)
		{
			Grammar H = best;
			int dens = 10 * (int)g.below( 11), over = bestBad < 0 ? 100 : 10 + 10 * (int)g.below( 6);
			for (int p=1; p<(int)H.prods.size(); ++p)
			{
				if (g.below( 100) >= (uint64_t)over) continue;
				bool in = inv.count( p);
				H.prods[p].prio = (in ? g.chance( 19, 20) : g.below( 200) < (uint64_t)dens) ? g.pick( levels) : "";
			}
			// shifts of a terminal have to agree
			if (g.chance( 4, 5)) for (auto& f : base.conflicts) for (int p : f.shiftProds) if (p) H.prods[p].prio = H.prods[ f.shiftProds[0]].prio;
			Resolved r = resolve( H, false, false, 400);
			int bad = r.refuse + r.prioConflicts;
			if (bestBad < 0 || bad < bestBad) {best = H; bestBad = bad;}
		}
		G = best;
		if (g.chance( variant == 3 ? 3 : 1, 4)) G.prods[0].prio = g.pick( levels);
	}
	for (size_t p=0; p<G.prods.size(); ++p) {G.prods[p].call = fmt( "p%d", (int)p); G.prods[p].obj.clear(); G.prods[p].flag = 0;}
	Resolved ref = resolve( G, false, false, 400);
	Resolved imp = resolve( G, true, true, 400);
	ProgResult r;
	bool ok = translate( c, G.text( g), r);
	std::string desc = G_repr( G);
	for (size_t p=0; p<G.prods.size(); ++p) if (!G.prods[p].prio.empty()) desc += G.nts[ G.prods[p].left] + "/" + G.prods[p].prio + " : " + G.prodText( (int)p) + "\n";
	if (ok)
	{
		if (!r.err.empty() && r.err.find( "Warning") != std::string::npos) fail( "warning-on-success", "warnings but success: " + r.err);
		if (ref.refuse) fail( "conflict-not-reported", "grammar accepted with a conflict not decided by priorities\n" + desc);
		if (ref.prioConflicts) fail( "priorities-of-shift-differ", "grammar accepted with different priorities for the shift of a token in a state\n" + desc);
	}
	else
	{
		c.label( "refused");
		if (!ref.refuse && !ref.prioConflicts && !ref.open)
		{
			if (imp.refuse || imp.prioConflicts || imp.open) {c.label( "refused for imprecise lookaheads"); return;}	// reported as finding by G02
			fail( "refused", "grammar refused though all conflicts are decided by priorities: " + r.err + "\n" + desc);
		}
		bool i1 = r.err.find( "#561") != std::string::npos, i2 = r.err.find( "#562") != std::string::npos, i7 = r.err.find( "#557") != std::string::npos;
		if (!i1 && !i2 && !i7) fail( "no-message", "no conflict named: " + r.err);
		if (ref.prioConflicts && !i7) fail( "no-message", "different priorities for the shift of a token not named: " + r.err + "\n" + desc);
		if (!ref.prioConflicts && !imp.prioConflicts && i7) fail( "message-wrong", "priorities of shifts do not differ: " + r.err + "\n" + desc);
		if (ref.refuse && !ref.prioConflicts && !i1 && !i2) fail( "no-message", "conflict not named: " + r.err + "\n" + desc);
		if (ref.refuse && G.prods.size() >= 4 && ref.solved) c.nontrivial();
		return;
	}
	c.label( ref.open ? "accepted, several reductions" : ref.solved ? "accepted, conflicts decided" : "accepted, nothing to decide");
	if (ref.solvedByLeft) c.label( "decided by left associativity");
	if (ref.solvedByRight) c.label( "decided by right associativity");
	if (ref.solvedByValue) c.label( "decided by value");
	c.count( "conflicts decided", ref.solved);
	Compiler comp( c);
	load( comp, r.outFile);
	Deriver d( G);
	if (!d.possible()) return;
	int acc = 0, rej = 0, rejDerived = 0;
	std::vector<int> last;
	for (int i=0; i<8; ++i)
	{
		std::vector<int> toks;
		bool derived = last.empty() || g.chance( 2, 3);
		if (derived) {d.derive( g, 1 + g.below( 12 + g.size)).yield( toks); last = toks;} else toks = mutate( g, G, last);
		if (toks.size() > 300) toks.resize( 300);
		Tree t, t2;
		size_t pos = 0, pos2 = 0;
		int res = runResolved( ref, G, toks, t, pos);
		int res2 = runResolved( imp, G, toks, t2, pos2);
		if (res == 2 || res2 == 2) {c.label( "does not terminate"); continue;}
		Rendered rd = render( g, G, toks);
		c.log( "source %s expect %s\n", quote( rd.src, 600).c_str(), res ? "reject" : "accept");
		RunResult rr = comp.run( rd.src);
		std::string ctx = "\n" + desc + tokNames( G, toks) + "\nsource " + quote( rd.src, 2000);
		auto expTree = [&]( const Tree& tree) {AstBuilder ab( G, rd.toks); std::vector<Node> e; ab.build( tree, e); return e.empty() ? std::string( "nothing") : e[0].repr();};
		std::string want = res ? "refused" : expTree( t), want2 = res2 ? "refused" : expTree( t2);
		std::string got = !rr.ok ? "refused" : rr.calls.empty() ? "nothing" : rr.calls[0].node.repr();
		if (got != want)
		{
			if (got == want2) fail( "conflict-of-imprecise-lookaheads-decided", "expected " + want + "\ngot      " + got + ctx);
			fail( res ? "accepted" : rr.ok ? "tree" : "sentence-refused", "expected " + want + "\ngot      " + got + " " + rr.error + ctx);
		}
		if (res)
		{
			SyntaxError se = parseSyntaxError( G, rr.error, pos < rd.toks.size() ? &rd.toks[ pos] : nullptr);
			if (!se.ok && pos == pos2) fail( "error-position", fmt( "syntax error expected at token %d: ", (int)pos) + rr.error + " " + se.rest + ctx);
			++rej;
			if (derived && toks.size() < 300) ++rejDerived;
		}
		else
		{
			++acc;
			if (rr.calls.size() != 1) fail( "calls", fmt( "%d calls expected and %d done", 1, (int)rr.calls.size()) + ctx);
		}
	}
	c.count( "accepted", acc); c.count( "rejected", rej);
	if (rejDerived) c.label( "derivable text excluded by priorities");
	if (ref.solved && G.prods.size() >= 4 && acc) c.nontrivial();
}

// ---------------------------------------------------------------- R06
// reader of the actions listed in the debug output of a run
struct TraceReader
{
	const Grammar& G;
	const std::string& trace;
	const std::map<std::string,std::string>& dump;		// action and goto table printed by the generator, empty if not known
	size_t pos = 0;
	std::vector<int> states = {1};
	std::map<std::pair<int,std::string>,std::string> actions;
	std::map<std::pair<int,int>,int> gotos;

	TraceReader( const Grammar& G_, const std::string& t, const std::map<std::string,std::string>& d) :G(G_),trace(t),dump(d){}
	std::string rest() const		{return quote( std::string_view( trace).substr( pos), 400);}
	bool at( const std::string& s) const	{return trace.compare( pos, s.size(), s) == 0;}
	void expect( const std::string& s)
	{
		if (!at( s)) fail( "trace", "expected " + quote( s, 400) + " at " + rest() + "\ntrace:\n" + trace.substr( 0, 6000));
		pos += s.size();
	}
	int number()
	{
		size_t p = pos;
		while (pos < trace.size() && isdigit( (unsigned char)trace[pos])) ++pos;
		if (p == pos) fail( "trace", "expected number at " + rest() + "\ntrace:\n" + trace.substr( 0, 6000));
		return atoi( trace.c_str() + p);
	}
	std::vector<std::string> names( const Tok* tok) const
	{
		if (!tok) return {"$"};
		if (G.terms[ tok->term].keyword) return {"'" + tok->text + "'", "\"" + tok->text + "\""};
		return {G.terms[ tok->term].name + " = \"" + tok->value + "\""};
	}
	std::string name;	// name of the token read last
	void token( const Tok* tok)
	{
		for (auto& n : names( tok)) if (at( n + " at line ")) {name = tok && !G.terms[ tok->term].keyword ? G.terms[ tok->term].name : n; pos += n.size(); return;}
		expect( names( tok)[0]);
	}
	void line( const Tok* tok, int lo, int hi)
	{
		expect( " at line ");
		size_t p = pos;
		int n = number();
		if (tok ? n != tok->line : (n < lo || n > hi)) {pos = p; fail( "trace-line", fmt( "expected line %d at ", tok ? tok->line : hi) + rest() + "\ntrace:\n" + trace.substr( 0, 6000));}
		expect( " in state ");
		p = pos;
		n = number();
		if (n != states.back()) {pos = p; fail( "trace-state", fmt( "the parser is in state %d but the trace continues with ", states.back()) + rest() + "\ntrace:\n" + trace.substr( 0, 6000));}
	}
	void action( const std::string& a)
	{
		auto ins = actions.insert( {{states.back(),name},a});
		if (ins.first->second != a) fail( "trace-action", fmt( "two actions in state %d for ", states.back()) + name + ": " + ins.first->second + " and " + a + "\ntrace:\n" + trace.substr( 0, 6000));
		if (dump.empty()) return;
		auto di = dump.find( fmt( "a %d ", states.back()) + name);
		if (di == dump.end() || di->second != a) fail( "dump-action", fmt( "the action in state %d for ", states.back()) + name + " is " + a + " but " + (di == dump.end() ? std::string("none") : di->second) + " in the action table printed by the generator");
	}
	void shift( const Tok* tok)
	{
		expect( "Shift token ");
		token( tok);
		line( tok, 0, 0);
		expect( ", goto ");
		int to = number();
		expect( "\n");
		action( fmt( "Shift goto %d", to));
		states.push_back( to);
	}
	static std::string callText( const Prod& p)	{return p.call + (p.obj.empty() ? "" : " \"" + p.obj + "\"");}
	void reduce( const Prod& p, const Tok* tok, int lo, int hi)
	{
		expect( fmt( "Reduce #%d to ", (int)p.right.size()) + G.nts[ p.left] + " by token ");
		token( tok);
		line( tok, lo, hi);
		std::string call;
		if (!p.call.empty())
		{
			call = callText( p);
			expect( ", call ");
			if (at( p.call + " '" + p.obj + "'")) pos += call.size(); else expect( call);
		}
		expect( ", goto ");
		int to = number();
		expect( "\n");
		action( fmt( "Reduce #%d ", (int)p.right.size()) + G.nts[ p.left] + (call.empty() ? "" : " call " + call));
		pop( p, to);
	}
	void pop( const Prod& p, int to)
	{
		if (states.size() <= p.right.size()) fail( "trace", "more elements reduced than on the stack");
		states.resize( states.size() - p.right.size());
		auto ins = gotos.insert( {{states.back(),p.left},to});
		if (ins.first->second != to) fail( "trace-goto", fmt( "state %d has two successors for ", states.back()) + G.nts[ p.left] + "\ntrace:\n" + trace.substr( 0, 6000));
		if (!dump.empty())
		{
			auto di = dump.find( fmt( "g %d ", states.back()) + G.nts[ p.left]);
			if (di == dump.end() || di->second != fmt( "%d", to)) fail( "dump-goto", fmt( "state %d has for ", states.back()) + G.nts[ p.left] + fmt( " the successor %d but in the goto table of the generator ", to) + (di == dump.end() ? std::string("none") : di->second));
		}
		states.push_back( to);
	}
	void skipReduction( const Prod& p)	// the one missing in the trace, the successor is known by the next action
	{
		size_t q = trace.find( " in state ", pos);
		int to = 0;
		if (at( "Reduce #") && q != std::string::npos) to = atoi( trace.c_str() + q + 10);
		if (states.size() <= p.right.size()) fail( "trace", "more elements reduced than on the stack");
		if (to) pop( p, to);
		else {states.resize( states.size() - p.right.size()); states.push_back( 0);}
	}
	void accept()	{expect( "Accept\n");}
};

// actions of an LR parser for a derivation
struct TraceAction { int prod; int tok; };	// prod < 0: shift of token tok, otherwise reduction when tok is the next token
void traceActions( const Tree& t, int& pos, std::vector<TraceAction>& out)
{
	if (t.prod < 0) {out.push_back( {-1,pos++}); return;}
	for (auto& s : t.sub) traceActions( s, pos, out);
	out.push_back( {t.prod,pos});
}

std::map<std::string,std::string> readTables( const std::string& text)
{
	std::map<std::string,std::string> rt;
	const char* head[2] = {"-- Action table:\n","-- Goto table:\n"};
	for (int k=0; k<2; ++k)
	{
		size_t p = text.find( head[k]);
		if (p == std::string::npos) continue;
		p += strlen( head[k]);
		int state = 0;
		while (p < text.size() && text[p] != '\n')
		{
			size_t e = text.find( '\n', p);
			std::string ln = text.substr( p, e-p);
			p = e == std::string::npos ? text.size() : e+1;
			if (ln[0] == '[') {state = atoi( ln.c_str()+1); continue;}
			size_t a = ln.rfind( " => ");
			if (ln[0] != '\t' || a == std::string::npos || !state) fail( "dump", "line of the " + std::string( head[k]) + " not understood: " + quote( ln, 300));
			std::string key = fmt( "%c %d ", k ? 'g':'a', state) + ln.substr( 1, a-1);
			if (!rt.insert( {key, ln.substr( a+4)}).second) fail( "dump", "two entries for " + key);
		}
	}
	return rt;
}

// value returned by a function and printed in the debug output
std::string traceValue( Gen& g)
{
	return g.pick( std::vector<std::string>{
		"nil","true","1","-2.5","'text'","'%s %n 100%'","{}","{1,2,3}","{a=1,b={c='x'}}","'line\\nbreak'","print","{node.call.name,node.line}","node.arg","string.rep( 'x', 5000)",
		"(function() local t = {} t.self = t return t end)()",
		"(function() local t = {} for i=1,300 do t = {t} end return t end)()",
		"(function() local t = {} local r = t for i=1,30000 do t.next = {} t = t.next end return r end)()",
		"setmetatable( {1}, {__index=function() error( 'index') end,__tostring=function() error( 'ts') end})"});
}

void runTrace( Gen& g, Case& c, bool atEnd)
{
	Grammar G = genParsable( g);
	addCalls( g, G, 20 + 20 * (int)g.below( 5));
	if (g.chance( 1, 6)) {G.prods[0].call.clear(); G.prods[0].flag = 0; G.prods[0].obj.clear();}
	bool anyCall = false;
	for (auto& p : G.prods) if (!p.call.empty()) anyCall = true;
	std::string text = G.text( g);
	ProgResult r, rd;
	if (!translate( c, text, r)) {c.label( "conflicts"); return;}
	std::map<std::string,std::string> dump;
	std::string dumpfn = c.tmpdir + "/gen.dump";
	if (g.flip())
	{
		unlink( dumpfn.c_str());
		rd = generate( c, text, "%automaton%", {"-d", dumpfn});
		if (rd.exitCode != r.exitCode || rd.outFile != r.outFile || rd.err != r.err) fail( "generator", "the generator with debug output gives another result: " + rd.err);
		std::string content;
		if (!readFile( dumpfn, content)) fail( "generator", "no debug output written");
		dump = readTables( content);
		if (dump.empty()) fail( "dump", "no action table in the debug output of the generator: " + quote( content, 2000));
		c.label( "tables of the generator");
	}
	Compiler comp( c);
	std::string value = traceValue( g);
	comp.onCall = "function( name, node, ...) __record( name, node, ...) print( 'called ' .. name) VALUE = " + value + "; if name == 'f1' and ERR then error( ERR, 0) end return VALUE end";
	load( comp, r.outFile);
	Deriver d( G);
	if (!d.possible()) return;
	Earley ea( G);
	std::string dbgfn = c.tmpdir + "/run.dbg";
	for (int i=0; i<4; ++i)
	{
		Tree t = d.derive( g, 1 + g.below( 20 + 3*g.size));
		std::vector<int> toks;
		t.yield( toks);
		bool wrong = g.chance( 1, 3);
		size_t viable = toks.size();
		if (wrong)
		{
			toks = mutate( g, G, toks);
			if (toks.size() > 150) toks.resize( 150);
			viable = ea.run( toks);
			if (viable == toks.size() && ea.accepted()) continue;
		}
		Rendered rn = render( g, G, toks);
		c.log( "source %s\n", quote( rn.src, 800).c_str());
		comp.lua.exec( g.chance( 1, 6) ? "ERR = 'failed %s'" : "ERR = nil");
		RunResult plain = comp.run( rn.src, true, "{Code}");
		unlink( dbgfn.c_str());
		RunResult rr = comp.run( rn.src, true, "{Code}", Val(), dbgfn);
		std::string ctx = "\nvalue returned: " + value + "\n" + G_repr( G) + tokNames( G, toks) + "\n";
		// [1] the run is the same
		if (rr.ok != plain.ok || rr.error != plain.error) fail( "result-differs", "without debug output " + (plain.ok ? std::string( "ok") : plain.error) + ", with debug output " + (rr.ok ? std::string( "ok") : rr.error) + ctx);
		if (rr.outExists != plain.outExists || rr.outFile != plain.outFile) fail( "output-differs", "without debug output " + quote( plain.outFile, 500) + ", with debug output " + quote( rr.outFile, 500) + ctx);
		if (rr.calls.size() != plain.calls.size()) fail( "calls-differ", "number of calls differs" + ctx);
		for (size_t k=0; k<rr.calls.size(); ++k) if (rr.calls[k].func != plain.calls[k].func || rr.calls[k].node.repr() != plain.calls[k].node.repr() || rr.calls[k].nargs != plain.calls[k].nargs) fail( "calls-differ", "call differs" + ctx);
		// [2] the trace is the parse
		std::string trace;
		if (!readFile( dbgfn, trace)) fail( "no-trace", "no debug output written" + ctx);
		TraceReader tr( G, trace, dump);
		int lo = rn.toks.empty() ? 1 : rn.toks.back().line, hi = rn.endLine;
		auto tokAt = [&]( int p) {return p < (int)rn.toks.size() ? &rn.toks[p] : nullptr;};
		if (!wrong)
		{
			std::vector<TraceAction> acts;
			int pos = 0;
			traceActions( t, pos, acts);
			bool end = false;
			for (auto& a : acts)
			{
				if (a.prod < 0) {tr.shift( tokAt( a.tok)); continue;}
				if (a.prod == 0)
				{
					// known finding: if this is the first action at the end of the source then it is missing
					bool printed = tr.at( "Accept\n");
					if (printed) tr.accept();
					else if (end || atEnd) fail( end ? "trace" : "first-action-at-end-of-source", "Accept missing at " + tr.rest() + ctx + trace.substr( 0, 6000));
					continue;
				}
				const Tok* next = tokAt( a.tok);
				if (!next && !end)
				{
					end = true;
					// the same reduction may follow: the number of lines tells
					size_t want = 0, have = 0;
					for (auto& b : acts) want += b.prod > 0 && b.tok == (int)rn.toks.size();
					for (size_t p=tr.pos; trace.compare( p, 8, "Reduce #") == 0; ++have) {p = trace.find( '\n', p); if (p == std::string::npos) break; ++p;}
					if (have + 1 == want)
					{
						if (atEnd) fail( "first-action-at-end-of-source", "Reduce to " + G.nts[ G.prods[ a.prod].left] + " missing at " + tr.rest() + ctx + trace.substr( 0, 6000));
						tr.skipReduction( G.prods[ a.prod]);
						continue;
					}
				}
				if (tr.states.back() == 0) tr.states.back() = -1;
				tr.reduce( G.prods[ a.prod], next, lo, hi);
			}
			c.count( "actions", acts.size());
			// [3] the functions called
			size_t ci = 0;
			for (auto& cl : rr.calls)
			{
				++ci;
				tr.expect( "Calling Lua function: " + cl.node.callname + "\n");
				if (ci == rr.calls.size() && !rr.ok) break;
				if (value == "nil") continue;
				tr.expect( fmt( "Lua call result [%d]\n", (int)ci));
				comp.lua.exec( "node = {call={name='" + cl.node.callname + "'},line=" + fmt( "%d", cl.node.line) + "}");
				if (value == "node.arg")
				{
					// the tree has been checked above
					while (tr.pos < trace.size() && !tr.at( "Calling Lua function: ")) {tr.pos = trace.find( '\n', tr.pos); if (tr.pos == std::string::npos) tr.pos = trace.size()-1; ++tr.pos;}
					continue;
				}
				auto ev = comp.lua.exec( "local ok, s = pcall( mewa.tostring, " + value + ", 0, true) return ok, s");
				if (!ev.ok || ev.ret.size() < 2) fail( "harness", "no value " + ev.error);
				if (ev[0].b) tr.expect( ev[1].s + "\n");
				else if (!tr.at( "Calling Lua function: "))
				{
					// no representation: anything in one line
					c.label( "results without representation");
					tr.pos = std::min( trace.size(), trace.find( '\n', tr.pos));
					if (tr.pos < trace.size()) ++tr.pos;
				}
			}
			if (!anyCall || rr.ok || rr.calls.empty()) {if (rr.ok && tr.pos != trace.size()) fail( "trace", "more in the trace: " + tr.rest() + ctx);}
			if (toks.size() >= 3 && acts.size() >= 8 && tr.gotos.size() >= 2) c.nontrivial();
		}
		else
		{
			// all tokens before the wrong one are shifted, reductions belong to the grammar
			std::vector<Sym> syms;
			size_t nshift = 0;
			for (;;)
			{
				const Tok* next = tokAt( (int)nshift);
				if (!next) break;	// at the end the first action is missing
				if (tr.at( "Shift "))
				{
					if (nshift >= viable) fail( "trace", "token after the wrong one shifted: " + tr.rest() + ctx + trace.substr( 0, 6000));
					tr.shift( next);
					syms.push_back( T( next->term));
					++nshift;
				}
				else if (tr.at( "Reduce "))
				{
					// the production with this right side on the stack
					int found = -1;
					for (size_t p=1; p<G.prods.size() && found < 0; ++p)
					{
						auto& rt = G.prods[p].right;
						if (rt.size() > syms.size() || !std::equal( rt.begin(), rt.end(), syms.end() - rt.size())) continue;
						std::string head = fmt( "Reduce #%d to ", (int)rt.size()) + G.nts[ G.prods[p].left] + " by token ";
						if (tr.at( head)) found = (int)p;
					}
					if (found < 0) fail( "trace", "no production to reduce for " + tr.rest() + ctx + trace.substr( 0, 6000));
					tr.reduce( G.prods[ found], next, lo, hi);
					syms.resize( syms.size() - G.prods[ found].right.size());
					syms.push_back( N( G.prods[ found].left));
				}
				else break;
			}
			if (nshift != viable) fail( "trace", fmt( "%d tokens shifted of %d before the wrong one, the trace continues with ", (int)nshift, (int)viable) + tr.rest() + ctx + trace.substr( 0, 6000));
			if (viable < toks.size())
			{
				tr.expect( "Error token ");
				const Tok* bad = tokAt( (int)viable);
				tr.token( bad);
				tr.line( bad, 0, 0);
				tr.expect( "\n");
				if (tr.pos != trace.size()) fail( "trace", "more in the trace: " + tr.rest() + ctx);
				if (!dump.empty() && dump.count( fmt( "a %d ", tr.states.back()) + tr.name)) fail( "dump-action", "action in the table for the wrong token" + ctx);
				if (viable >= 2) c.nontrivial();
				c.label( "syntax error");
			}
		}
	}
}
void kindTrace( Gen& g, Case& c)	{runTrace( g, c, false);}
void kindTraceEnd( Gen& g, Case& c)	{runTrace( g, c, true);}

Register r1( Property{ "G01", "a grammar of at least 4 productions with at least two accepted and two rejected texts",
	{ {"language", kindLanguage, 10000, 70000, 60} },
	{"Acceptance is decided by an Earley recognizer written for this check", "Token sequences of up to 400 tokens"} });
Register r2( Property{ "G02", "a grammar with at least 4 productions was judged",
	{ {"conflicts", kindConflicts, 16000, 120000, 60} },
	{"LALR(1) is decided by an independent construction (propagation of lookaheads over the LR(0) states)"} });
Register r3( Property{ "G03", "an expression with at least two operators in a grammar of at least two operators",
	{ {"operators", kindOperators, 12000, 90000, 60} },
	{"Operators are binary, prefix, postfix, ternary or bracketing productions of one nonterminal with priority and associativity declared"} });
Register r4( Property{ "G04", "a derivation of at least 8 nodes with at least two step or scope marks",
	{ {"trees", kindTrees, 9000, 70000, 60}, {"large", kindLarge, 60, 1500, 60} },
	{"The expected tree is calculated from the random derivation the source was made of"} });
Register r5( Property{ "G05", "a syntax error after at least two correct tokens",
	{ {"errors", kindErrors, 7000, 60000, 60}, {"longlist", kindLongList, 300, 3000, 60} },
	{"The list of expected tokens must be right for one of the configurations the parser may have reached by reductions at the place of the error (LALR(1) parsers may reduce before they detect an error)"} });
Register r7( Property{ "G09", "a grammar of at least 4 productions where priorities decide conflicts, with an accepted text or with other conflicts undecided",
	{ {"priorities", kindPriorities, 12000, 90000, 60} },
	{"Conflicts are those of an independent LALR(1) construction, decided as documented, texts are parsed with the automaton decided", "If several reductions are in conflict with a shift then the grammar may be refused", "Texts for that the parser does not terminate because of the priorities chosen are excluded"} });
Register r6( Property{ "R06", "a sentence of at least 3 tokens with a trace of at least 8 actions, or a syntax error after at least 2 tokens",
	{ {"trace", kindTrace, 5000, 60000, 60}, {"end", kindTraceEnd, 40, 400, 60} },
	{"The numbers of states are not predicted, they have to be consistent within all traces of a compiler and with the tables printed by the generator", "Values returned that cannot be printed may be replaced by any text of one line", "The first action at the end of the source is required by the kind 'end' only (known finding)"} });

} // namespace
