// Context free grammars: generator, reference recognizer (Earley), LALR(1) conflict decision, canonical LR(1) parsing on the fly
#pragma once
#include "mewa.hpp"
#include <bitset>

namespace lr {
using namespace pbt;

enum { MaxT = 1024 };
typedef std::bitset<MaxT> TSet;		// set of terminals, 0 is the end of input

struct Sym
{
	bool term = true;
	int idx = 0;
	bool operator<( const Sym& o) const	{return term == o.term ? idx < o.idx : term < o.term;}
	bool operator==( const Sym& o) const	{return term == o.term && idx == o.idx;}
};
inline Sym T( int i) {return Sym{true,i};}
inline Sym N( int i) {return Sym{false,i};}

struct Prod
{
	int left = 0;
	std::vector<Sym> right;
	std::string call;		// function name or empty
	std::string obj;		// argument of the call, as string, empty if none
	int flag = 0;			// 0 none, 1 step (>>), 2 scope ({})
	std::string prio;		// e.g. "L3"
};

struct Term
{
	std::string name;		// name of named token, or the text of the keyword
	bool keyword = true;
	int kind = 0;			// of named tokens, selects the pattern
};

struct Grammar
{
	std::vector<Term> terms;	// index 0 unused ($)
	std::vector<std::string> nts;	// nonterminal names, 0 = start
	std::vector<Prod> prods;	// 0 = start production

	std::vector<std::vector<int>> byLeft() const;
	std::vector<bool> nullable() const;
	std::vector<TSet> first( const std::vector<bool>& nullable, bool dollar = false) const;
	std::vector<TSet> follow() const;
	std::vector<bool> productive() const;
	std::string symText( const Sym& s) const;
	std::string prodText( int p) const;			// as mewa prints it: 'left = right...'
	std::string text( Gen& g) const;			// grammar file
	void prune();						// drop unreachable nonterminals, duplicates, unused terminals
	int size() const;
};

struct Conflict { int term; std::vector<int> reduce; bool shift; std::vector<int> shiftProds; };
struct LalrResult { std::vector<Conflict> conflicts; int states = 0; bool overflow = false; };
// dollar: the end of input belongs to the FIRST sets of nullable nonterminals (known finding)
// merged: items of a state with the same left side share their lookaheads (known finding)
// items of the states: terminals that reduce productions and productions that shift a terminal
struct Tables { std::vector<std::map<Sym,int>> go; std::vector<std::map<int,std::vector<int>>> red, shift; };
LalrResult lalr( const Grammar& G, bool dollar = false, bool merged = false, int maxStates = 3000, Tables* tables = nullptr);

// decision of conflicts with priorities of productions
struct Prio
{
	int value = 0; char assoc = 0;	// 0, 'L' or 'R'
	bool defined() const			{return value || assoc;}
	bool operator==( const Prio& o) const	{return value == o.value && assoc == o.assoc;}
	static Prio parse( const std::string& s);
};
struct Resolved
{
	struct State { std::map<int,int> action; std::map<Sym,int> go; };	// action: -1 shift, production to reduce otherwise (0: accept)
	std::vector<State> states;
	int refuse = 0;			// conflicts not decided, the grammar has to be refused
	int prioConflicts = 0;		// shifts of a terminal with different priorities, the grammar has to be refused
	int open = 0;			// decided pairwise, but several reductions are involved, the grammar may be refused
	int solved = 0;			// conflicts decided
	int solvedByValue = 0, solvedByLeft = 0, solvedByRight = 0;
	bool overflow = false;
};
Resolved resolve( const Grammar& G, bool dollar, bool merged, int maxStates);

// Earley sets
struct Earley
{
	explicit Earley( const Grammar& G_);
	// returns number of tokens in the longest viable prefix (productive grammars), ==input.size() if the whole input is one
	size_t run( const std::vector<int>& input);
	bool accepted() const		{return m_accepted;}
	TSet next() const;		// tokens possible after the last set calculated
	struct Item { int prod, dot, origin; bool operator<( const Item& o) const {return prod != o.prod ? prod < o.prod : dot != o.dot ? dot < o.dot : origin < o.origin;}};
private:
	const Grammar& G;
	std::vector<std::vector<int>> m_byLeft;
	std::vector<bool> m_nullable;
	std::vector<std::vector<Item>> m_sets;
	bool m_accepted = false;
};

// Canonical LR(1) states computed on demand
struct Canonical
{
	explicit Canonical( const Grammar& G_);
	typedef std::map<std::pair<int,int>,TSet> State;
	const State& start() const	{return m_start;}
	State go( const State& s, const Sym& x) const;
	TSet actions( const State& s) const;			// valid next tokens
	// reduction with lookahead in s, -1 if none, -2 if ambiguous
	int reduction( const State& s, int term) const;
	bool shifts( const State& s, int term) const;
	std::vector<int> completed( const State& s) const;	// productions complete in s, any lookahead
	TSet shiftable( const State& s) const;
	State closure( State kernel) const;
private:
	const Grammar& G;
	std::vector<std::vector<int>> m_byLeft;
	std::vector<bool> m_nullable;
	std::vector<TSet> m_first;
	State m_start;
};

struct Tree
{
	int prod = -1;			// -1: token
	int term = 0;
	std::vector<Tree> sub;
	void yield( std::vector<int>& out) const {if (prod < 0) out.push_back( term); else for (auto& s : sub) s.yield( out);}
	int nodes() const {int n = 1; for (auto& s : sub) n += s.nodes(); return n;}
};

// run the automaton: 0 accepted, 1 refused (pos = index of the token), 2 undecided (does not terminate)
int runResolved( const Resolved& R, const Grammar& G, const std::vector<int>& toks, Tree& tree, size_t& pos);

struct Deriver			// random derivations
{
	explicit Deriver( const Grammar& G_);
	Tree derive( Gen& g, int budget) const;		// from the start symbol
	bool possible() const		{return m_min[0] < 1000000;}
	const Grammar& G;
	std::vector<std::vector<int>> byLeft;
	std::vector<int> m_min;		// minimal number of tokens+nodes per nonterminal
	std::vector<int> m_prodMin;
	Tree expand( Gen& g, int nt, int& budget, int depth) const;
};

Grammar genRandom( Gen& g);
Grammar genStructured( Gen& g);
void addCalls( Gen& g, Grammar& G, int density);	// density 0..100
std::vector<int> mutate( Gen& g, const Grammar& G, std::vector<int> toks);
inline Grammar genAny( Gen& g) { return g.flip() ? genStructured( g) : genRandom( g); }

Grammar genLarge( Gen& g);		// every production starts with another keyword, LR(0), up to the size limits
Grammar genParsable( Gen& g);		// most probably without conflicts

struct Tok { int term; std::string text; std::string value; int line; };
struct Rendered { std::string src; std::vector<Tok> toks; int endLine; };
Rendered render( Gen& g, const Grammar& G, const std::vector<int>& toks);

// tree expected from the compiler
struct AstBuilder
{
	const Grammar& G;
	const std::vector<Tok>& toks;
	size_t pos = 0;
	int counter = 0;
	int line = 0;
	AstBuilder( const Grammar& G_, const std::vector<Tok>& t) :G(G_),toks(t){}
	void build( const Tree& t, std::vector<mw::Node>& out);
};

std::string tokNames( const Grammar& G, const std::vector<int>& toks);
bool splitExpected( const Grammar& G, const std::string& list, std::set<int>& out);	// parse expected token list

} // namespace
