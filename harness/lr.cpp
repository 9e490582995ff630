#include "lr.hpp"
#include <deque>
using namespace lr;
using mw::Node; using mw::Val;

std::vector<std::vector<int>> Grammar::byLeft() const
{
	std::vector<std::vector<int>> rt( nts.size());
	for (int p=0; p<(int)prods.size(); ++p) rt[ prods[p].left].push_back( p);
	return rt;
}
std::vector<bool> Grammar::nullable() const
{
	std::vector<bool> rt( nts.size(), false);
	for (bool ch=true; ch;)
	{
		ch = false;
		for (auto& p : prods) if (!rt[ p.left])
		{
			bool n = true;
			for (auto& s : p.right) if (s.term || !rt[ s.idx]) n = false;
			if (n) {rt[ p.left] = true; ch = true;}
		}
	}
	return rt;
}
std::vector<TSet> Grammar::first( const std::vector<bool>& nullable, bool dollar) const
{
	std::vector<TSet> rt( nts.size());
	for (bool ch=true; ch;)
	{
		ch = false;
		for (auto& p : prods)
		{
			TSet s = rt[ p.left];
			bool end = true;
			for (auto& x : p.right)
			{
				if (x.term) {s.set( x.idx); end = false; break;}
				s |= rt[ x.idx];
				if (!nullable[ x.idx]) {end = false; break;}
			}
			if (end && dollar) s.set( 0);
			if (s != rt[ p.left]) {rt[ p.left] = s; ch = true;}
		}
	}
	return rt;
}
std::vector<TSet> Grammar::follow() const
{
	auto nu = nullable();
	auto fi = first( nu);
	std::vector<TSet> rt( nts.size());
	rt[0].set( 0);
	for (bool ch=true; ch;)
	{
		ch = false;
		for (auto& p : prods)
		{
			TSet s = rt[ p.left];
			for (int i=(int)p.right.size()-1; i>=0; --i)
			{
				auto& x = p.right[i];
				if (x.term) {s.reset(); s.set( x.idx); continue;}
				TSet n = rt[ x.idx] | s;
				if (n != rt[ x.idx]) {rt[ x.idx] = n; ch = true;}
				if (nu[ x.idx]) s |= fi[ x.idx]; else s = fi[ x.idx];
			}
		}
	}
	return rt;
}
std::vector<bool> Grammar::productive() const
{
	std::vector<bool> rt( nts.size(), false);
	for (bool ch=true; ch;)
	{
		ch = false;
		for (auto& p : prods) if (!rt[ p.left])
		{
			bool n = true;
			for (auto& s : p.right) if (!s.term && !rt[ s.idx]) n = false;
			if (n) {rt[ p.left] = true; ch = true;}
		}
	}
	return rt;
}
static std::string quoted( const std::string& s)
{
	return s.find( '"') == std::string::npos ? "\"" + s + "\"" : "'" + s + "'";
}
std::string Grammar::symText( const Sym& s) const
{
	if (!s.term) return nts[ s.idx];
	return terms[ s.idx].keyword ? quoted( terms[ s.idx].name) : terms[ s.idx].name;
}
std::string Grammar::prodText( int p) const
{
	std::string rt = nts[ prods[p].left] + " =";
	for (auto& s : prods[p].right) rt += " " + symText( s);
	return rt;
}
int Grammar::size() const
{
	int n = 0;
	for (auto& p : prods) n += 1 + (int)p.right.size();
	return n;
}
static const char* tokenPattern[] = {"[0-9]+","[A-Z][A-Za-z]*","[\"]([^\"]*)[\"]","@[a-z]*"};
std::string Grammar::text( Gen& g) const
{
	std::string rt = "% LANGUAGE \"x\";\n% TYPESYSTEM \"ts\";\n% CMDLINE \"cmd\";\n";
	std::string lex;
	for (size_t i=1; i<terms.size(); ++i) if (!terms[i].keyword)
	{
		lex += terms[i].name + " : '" + tokenPattern[ terms[i].kind] + "'" + (terms[i].kind == 2 ? " 1" : "") + ";\n";
	}
	bool lexFirst = g.chance( 4, 5);
	if (lexFirst) rt += lex;
	auto bl = byLeft();
	std::vector<bool> done( prods.size(), false);
	for (int p=0; p<(int)prods.size(); ++p) if (!done[p])
	{
		rt += nts[ prods[p].left];
		if (!prods[p].prio.empty()) rt += "/" + prods[p].prio;
		rt += " =";
		std::vector<int> alts = {p};
		// alternatives keep the order of productions
		if (g.flip()) for (int q : bl[ prods[p].left]) if (q > p && !done[q] && prods[q].prio == prods[p].prio) alts.push_back( q);
		int i = 0;
		for (int q : alts)
		{
			done[q] = true;
			if (i++) rt += g.flip() ? " |" : "\n\t|";
			for (auto& s : prods[q].right) rt += " " + symText( s);
			if (!prods[q].call.empty())
			{
				rt += std::string( " (") + (prods[q].flag == 1 ? ">>" : prods[q].flag == 2 ? "{}" : "") + prods[q].call;
				if (!prods[q].obj.empty()) rt += " \"" + prods[q].obj + "\"";
				rt += ")";
			}
		}
		rt += " ;\n";
	}
	if (!lexFirst) rt += lex;
	return rt;
}
void Grammar::prune()
{
	std::vector<bool> reach( nts.size(), false);
	std::vector<int> q = {0};
	reach[0] = true;
	while (!q.empty())
	{
		int n = q.back(); q.pop_back();
		for (auto& p : prods) if (p.left == n) for (auto& s : p.right) if (!s.term && !reach[ s.idx]) {reach[ s.idx] = true; q.push_back( s.idx);}
	}
	std::vector<int> nmap( nts.size(), -1), tmap( terms.size(), -1);
	std::vector<std::string> nn; std::vector<Term> nt; nt.push_back( terms[0]);
	for (size_t i=0; i<nts.size(); ++i) if (reach[i]) {nmap[i] = (int)nn.size(); nn.push_back( nts[i]);}
	std::vector<Prod> np;
	std::set<std::pair<int,std::vector<Sym>>> seen;
	for (auto& p : prods) if (reach[ p.left] && seen.insert( {p.left,p.right}).second) np.push_back( p);
	for (auto& p : np)
	{
		p.left = nmap[ p.left];
		for (auto& s : p.right)
		{
			if (!s.term) s.idx = nmap[ s.idx];
			else
			{
				if (tmap[ s.idx] < 0) {tmap[ s.idx] = (int)nt.size(); nt.push_back( terms[ s.idx]);}
				s.idx = tmap[ s.idx];
			}
		}
	}
	prods = np; nts = nn; terms = nt;
}

// ---------------------------------------------------------------- LALR(1) by propagation of lookaheads on LR(0) states
LalrResult lr::lalr( const Grammar& G, bool dollar, bool merged, int maxStates, Tables* tables)
{
	LalrResult rt;
	auto bl = G.byLeft();
	auto nu = G.nullable();
	auto fi = G.first( nu, dollar);
	typedef std::pair<int,int> It;
	std::map<std::vector<It>,int> idx;
	struct St { std::vector<It> kernel; std::vector<TSet> la; std::map<Sym,int> go; };
	std::vector<St> sts;
	auto closure = [&]( const St& s, std::map<It,TSet>& items)
	{
		std::deque<It> q;
		for (size_t i=0; i<s.kernel.size(); ++i) {items[ s.kernel[i]] |= s.la[i]; q.push_back( s.kernel[i]);}
		while (!q.empty())
		{
			It it = q.front(); q.pop_front();
			struct Merge {std::function<void()> f; ~Merge() {f();}} mg{[&](){
				if (!merged || !q.empty()) return;
				std::map<int,TSet> byLeft;
				for (auto& i : items) byLeft[ G.prods[ i.first.first].left] |= i.second;
				for (auto& i : items)
				{
					TSet& n = byLeft[ G.prods[ i.first.first].left];
					if (n != i.second) {i.second = n; q.push_back( i.first);}
				}
			}};
			auto& r = G.prods[ it.first].right;
			if (it.second >= (int)r.size() || r[ it.second].term) continue;
			TSet la;
			int k = it.second+1;
			for (; k<(int)r.size(); ++k)
			{
				if (r[k].term) {la.set( r[k].idx); break;}
				la |= fi[ r[k].idx];
				if (!nu[ r[k].idx]) break;
			}
			if (k == (int)r.size()) la |= items[ it];
			for (int p : bl[ r[ it.second].idx])
			{
				auto ins = items.insert( {It( p,0), TSet()});
				TSet n = ins.first->second | la;
				if (ins.second || n != ins.first->second) {ins.first->second = n; q.push_back( It( p,0));}
			}
		}
	};
	sts.push_back( St()); sts[0].kernel = {It(0,0)}; sts[0].la.resize( 1); sts[0].la[0].set( 0);
	idx[ sts[0].kernel] = 0;
	std::deque<int> work = {0};
	std::set<int> inWork = {0};
	while (!work.empty())
	{
		int si = work.front(); work.pop_front(); inWork.erase( si);
		std::map<It,TSet> items;
		closure( sts[ si], items);
		std::map<Sym,std::map<It,TSet>> go;
		for (auto& it : items)
		{
			auto& r = G.prods[ it.first.first].right;
			if (it.first.second < (int)r.size()) go[ r[ it.first.second]][ It( it.first.first, it.first.second+1)] |= it.second;
		}
		for (auto& e : go)
		{
			std::vector<It> k;
			for (auto& i : e.second) k.push_back( i.first);
			auto ins = idx.insert( {k,(int)sts.size()});
			bool ch = ins.second;
			if (ins.second)
			{
				if ((int)sts.size() >= maxStates) {rt.overflow = true; return rt;}
				sts.push_back( St()); sts.back().kernel = k; sts.back().la.resize( k.size());
			}
			St& ns = sts[ ins.first->second];
			int j = 0;
			for (auto& i : e.second) {TSet n = ns.la[j] | i.second; if (n != ns.la[j]) {ns.la[j] = n; ch = true;} ++j;}
			sts[ si].go[ e.first] = ins.first->second;
			if (ch && inWork.insert( ins.first->second).second) work.push_back( ins.first->second);
		}
	}
	rt.states = (int)sts.size();
	for (auto& s : sts)
	{
		std::map<It,TSet> items;
		closure( s, items);
		std::map<int,std::vector<int>> red;
		std::map<int,std::vector<int>> sh;
		for (auto& it : items)
		{
			auto& r = G.prods[ it.first.first].right;
			if (it.first.second < (int)r.size()) {if (r[ it.first.second].term) sh[ r[ it.first.second].idx].push_back( it.first.first);}
			else for (int t=0; t<(int)G.terms.size(); ++t) if (it.second.test( t)) red[t].push_back( it.first.first);
		}
		for (auto& r : red) if (r.second.size() > 1 || sh.count( r.first)) rt.conflicts.push_back( Conflict{ r.first, r.second, sh.count( r.first) > 0, sh.count( r.first) ? sh[ r.first] : std::vector<int>()});
		if (tables) {tables->go.push_back( s.go); tables->red.push_back( red); tables->shift.push_back( sh);}
	}
	return rt;
}
Prio Prio::parse( const std::string& s)
{
	Prio rt;
	for (char ch : s)
	{
		if (ch == 'L' || ch == 'R') rt.assoc = ch;
		else rt.value = rt.value * 10 + (ch - '0');
	}
	return rt;
}
Resolved lr::resolve( const Grammar& G, bool dollar, bool merged, int maxStates)
{
	Resolved rt;
	Tables tb;
	if (lalr( G, dollar, merged, maxStates, &tb).overflow) {rt.overflow = true; return rt;}
	std::vector<Prio> prio;
	for (auto& p : G.prods) prio.push_back( Prio::parse( p.prio));
	rt.states.resize( tb.go.size());
	for (size_t si=0; si<tb.go.size(); ++si)
	{
		auto& st = rt.states[ si];
		st.go = tb.go[ si];
		for (auto& sh : tb.shift[ si])
		{
			st.action[ sh.first] = -1;
			for (int p : sh.second) if (!(prio[p] == prio[ sh.second[0]])) {++rt.prioConflicts; break;}
		}
		for (auto& rd : tb.red[ si])
		{
			auto sh = tb.shift[ si].find( rd.first);
			int winner = -1, nwin = 0;
			if (sh == tb.shift[ si].end())
			{
				if (rd.second.size() > 1) ++rt.refuse;
				st.action[ rd.first] = rd.second[0];
				continue;
			}
			bool refuse = false;
			Prio s = prio[ sh->second[0]];
			for (int p : rd.second)
			{
				Prio r = prio[ p];
				if (r.defined() != s.defined()) refuse = true;
				else if (r.value != s.value) {if (r.value > s.value) {winner = p; ++nwin;} ++rt.solvedByValue;}
				else if (r.assoc != s.assoc || !r.assoc) refuse = true;
				else if (r.assoc == 'L') {winner = p; ++nwin; ++rt.solvedByLeft;}
				else ++rt.solvedByRight;
			}
			if (refuse || nwin > 1) ++rt.refuse;
			else if (rd.second.size() > 1) ++rt.open;
			else ++rt.solved;
			if (winner >= 0) st.action[ rd.first] = winner;
		}
	}
	return rt;
}
int lr::runResolved( const Resolved& R, const Grammar& G, const std::vector<int>& toks, Tree& tree, size_t& pos)
{
	std::vector<int> st = {0};
	std::vector<Tree> trees;
	pos = 0;
	size_t steps = 0, limit = 2000 + 20 * G.prods.size(), size = 0;
	for (;;)
	{
		int t = pos < toks.size() ? toks[ pos] : 0;
		auto& S = R.states[ st.back()];
		auto a = S.action.find( t);
		if (a == S.action.end()) return 1;
		if (a->second < 0)
		{
			Tree n; n.term = t;
			trees.push_back( n);
			st.push_back( S.go.at( T( t)));
			++pos; steps = 0; size = st.size();
			continue;
		}
		if (++steps > limit + 4*size) return 2;
		auto& p = G.prods[ a->second];
		Tree n; n.prod = a->second;
		size_t len = p.right.size();
		n.sub.assign( std::make_move_iterator( trees.end() - len), std::make_move_iterator( trees.end()));
		trees.resize( trees.size() - len);
		st.resize( st.size() - len);
		trees.push_back( std::move( n));
		if (a->second == 0) {tree = std::move( trees.back()); return 0;}
		st.push_back( R.states[ st.back()].go.at( N( p.left)));
	}
}

// ---------------------------------------------------------------- Earley
Earley::Earley( const Grammar& G_) :G(G_),m_byLeft(G_.byLeft()),m_nullable(G_.nullable()){}
size_t Earley::run( const std::vector<int>& input)
{
	m_sets.clear();
	m_accepted = false;
	std::vector<std::set<Item>> seen;
	auto fill = [&]( size_t k)
	{
		auto& S = m_sets[k];
		auto add = [&]( const Item& it) {if (seen[k].insert( it).second) m_sets[k].push_back( it);};
		for (size_t i=0; i<S.size(); ++i)
		{
			Item it = m_sets[k][i];
			auto& r = G.prods[ it.prod].right;
			if (it.dot < (int)r.size())
			{
				if (r[ it.dot].term) continue;
				for (int p : m_byLeft[ r[ it.dot].idx]) add( Item{p,0,(int)k});
				if (m_nullable[ r[ it.dot].idx]) add( Item{it.prod, it.dot+1, it.origin});
			}
			else
			{
				int left = G.prods[ it.prod].left;
				for (size_t j=0; j<m_sets[ it.origin].size(); ++j)
				{
					Item o = m_sets[ it.origin][j];
					auto& ro = G.prods[ o.prod].right;
					if (o.dot < (int)ro.size() && !ro[ o.dot].term && ro[ o.dot].idx == left) add( Item{o.prod, o.dot+1, o.origin});
				}
			}
		}
	};
	m_sets.push_back( {Item{0,0,0}}); seen.push_back( {Item{0,0,0}});
	fill( 0);
	for (size_t k=0; k<input.size(); ++k)
	{
		std::vector<Item> ns;
		std::set<Item> se;
		for (auto& it : m_sets[k])
		{
			auto& r = G.prods[ it.prod].right;
			if (it.dot < (int)r.size() && r[ it.dot].term && r[ it.dot].idx == input[k]) {Item n{it.prod, it.dot+1, it.origin}; if (se.insert( n).second) ns.push_back( n);}
		}
		if (ns.empty()) return k;
		m_sets.push_back( ns); seen.push_back( se);
		fill( k+1);
	}
	for (auto& it : m_sets.back()) if (it.prod == 0 && it.origin == 0 && it.dot == (int)G.prods[0].right.size()) m_accepted = true;
	return input.size();
}
TSet Earley::next() const
{
	TSet rt;
	for (auto& it : m_sets.back())
	{
		auto& r = G.prods[ it.prod].right;
		if (it.dot < (int)r.size()) {if (r[ it.dot].term) rt.set( r[ it.dot].idx);}
		else if (it.prod == 0) rt.set( 0);
	}
	return rt;
}

// ---------------------------------------------------------------- canonical LR(1)
Canonical::Canonical( const Grammar& G_) :G(G_),m_byLeft(G_.byLeft()),m_nullable(G_.nullable()),m_first(G_.first( m_nullable))
{
	State k; k[ {0,0}].set( 0);
	m_start = closure( k);
}
Canonical::State Canonical::closure( State items) const
{
	std::deque<std::pair<int,int>> q;
	for (auto& e : items) q.push_back( e.first);
	while (!q.empty())
	{
		auto it = q.front(); q.pop_front();
		auto& r = G.prods[ it.first].right;
		if (it.second >= (int)r.size() || r[ it.second].term) continue;
		TSet la;
		int k = it.second+1;
		for (; k<(int)r.size(); ++k)
		{
			if (r[k].term) {la.set( r[k].idx); break;}
			la |= m_first[ r[k].idx];
			if (!m_nullable[ r[k].idx]) break;
		}
		if (k == (int)r.size()) la |= items[ it];
		for (int p : m_byLeft[ r[ it.second].idx])
		{
			auto ins = items.insert( {{p,0}, TSet()});
			TSet n = ins.first->second | la;
			if (ins.second || n != ins.first->second) {ins.first->second = n; q.push_back( {p,0});}
		}
	}
	return items;
}
Canonical::State Canonical::go( const State& s, const Sym& x) const
{
	State k;
	for (auto& e : s)
	{
		auto& r = G.prods[ e.first.first].right;
		if (e.first.second < (int)r.size() && r[ e.first.second] == x) k[ {e.first.first, e.first.second+1}] |= e.second;
	}
	return closure( k);
}
TSet Canonical::shiftable( const State& s) const
{
	TSet rt;
	for (auto& e : s)
	{
		auto& r = G.prods[ e.first.first].right;
		if (e.first.second < (int)r.size() && r[ e.first.second].term) rt.set( r[ e.first.second].idx);
	}
	return rt;
}
TSet Canonical::actions( const State& s) const
{
	TSet rt = shiftable( s);
	for (auto& e : s) if (e.first.second == (int)G.prods[ e.first.first].right.size()) rt |= e.second;
	return rt;
}
bool Canonical::shifts( const State& s, int term) const	{return shiftable( s).test( term);}
int Canonical::reduction( const State& s, int term) const
{
	int rt = -1;
	for (auto& e : s) if (e.first.second == (int)G.prods[ e.first.first].right.size() && e.second.test( term)) {if (rt >= 0) return -2; rt = e.first.first;}
	return rt;
}
std::vector<int> Canonical::completed( const State& s) const
{
	std::vector<int> rt;
	for (auto& e : s) if (e.first.second == (int)G.prods[ e.first.first].right.size()) rt.push_back( e.first.first);
	return rt;
}

// ---------------------------------------------------------------- derivations
Deriver::Deriver( const Grammar& G_) :G(G_),byLeft(G_.byLeft()),m_min(G_.nts.size(),1000000),m_prodMin(G_.prods.size(),1000000)
{
	for (bool ch=true; ch;)
	{
		ch = false;
		for (size_t p=0; p<G.prods.size(); ++p)
		{
			int n = 1;
			for (auto& s : G.prods[p].right) n += s.term ? 1 : m_min[ s.idx];
			if (n < m_prodMin[p]) {m_prodMin[p] = n; ch = true;}
			if (n < m_min[ G.prods[p].left]) {m_min[ G.prods[p].left] = n; ch = true;}
		}
	}
}
Tree Deriver::expand( Gen& g, int nt, int& budget, int depth) const
{
	Tree rt;
	std::vector<int> cand;
	if (budget > 0 && depth < 400) {for (int p : byLeft[ nt]) if (m_prodMin[p] < 1000000) cand.push_back( p);}
	else
	{
		for (int p : byLeft[ nt]) if (m_prodMin[p] == m_min[ nt]) {cand.push_back( p); break;}
	}
	rt.prod = cand[ g.below( cand.size())];
	if (budget > 4 && cand.size() > 1)
	{
		auto nn = [&]( int p) {int n = 0; for (auto& s : G.prods[p].right) if (!s.term) ++n; return n;};
		int p2 = cand[ g.below( cand.size())];
		if (nn( p2) > nn( rt.prod)) rt.prod = p2;
	}
	budget -= 1;
	for (auto& s : G.prods[ rt.prod].right)
	{
		if (s.term) {Tree t; t.term = s.idx; rt.sub.push_back( t); --budget;}
		else rt.sub.push_back( expand( g, s.idx, budget, depth+1));
	}
	return rt;
}
Tree Deriver::derive( Gen& g, int budget) const
{
	return expand( g, 0, budget, 0);
}

// ---------------------------------------------------------------- generators
static const char* g_words[] = {"+","-","*","/","(",")","{","}","[","]",";",",",":=","==","if","then","else","while","fn","let","in","do","end","not","and","or",".","!","?","->","a","b","c","d","e","'","<<","<","%%"};
static void newTerm( Gen& g, Grammar& G, int nNamed)
{
	static const char* nm[] = {"NUM","IDENT","STR","ATTR"};
	if ((int)G.terms.size()-1 < nNamed) {Term t; t.keyword = false; t.kind = (int)G.terms.size()-1; t.name = nm[ t.kind]; G.terms.push_back( t);}
	else
	{
		size_t k = G.terms.size()-1 - nNamed;
		Term t;
		enum {NW = sizeof(g_words)/sizeof(g_words[0])};
		t.name = k < NW ? g_words[k] : fmt( "w%d", (int)k);
		G.terms.push_back( t);
	}
}
static void fixProductive( Gen& g, Grammar& G)
{
	if (G.terms.size() <= 1) {Term t; t.name = "+"; G.terms.push_back( t);}
	for (;;)
	{
		auto pr = G.productive();
		bool done = true;
		for (size_t n=0; n<pr.size(); ++n) if (!pr[n] && n != 0)
		{
			Prod p; p.left = (int)n;
			if (g.chance( 3, 4)) p.right.push_back( T( 1 + (int)g.below( G.terms.size()-1)));
			G.prods.push_back( p);
			done = false;
			break;
		}
		if (done) break;
	}
}
Grammar lr::genRandom( Gen& g)
{
	Grammar G;
	G.terms.resize( 1);
	int nNamed = g.small( 2);
	int nt = 1 + g.small( 2 + g.size/12);
	for (int i=0; i<nt; ++i) newTerm( g, G, nNamed);
	int nn = 1 + g.small( 2 + g.size/12);
	G.nts.push_back( "start");
	for (int i=0; i<nn; ++i) G.nts.push_back( fmt( "%c%s", 'a' + i % 26, i >= 26 ? "x" : ""));
	Prod s; s.left = 0; s.right.push_back( N( 1)); G.prods.push_back( s);
	bool allowEmpty = g.chance( 3, 4);
	int wt = 1 + g.below( 5);
	for (int n=1; n<=nn; ++n)
	{
		int np = 1 + g.small( 3);
		for (int i=0; i<np; ++i)
		{
			Prod p; p.left = n;
			int len = g.small( 4) + (allowEmpty ? 0 : 1);
			for (int k=0; k<len; ++k)
			{
				// forward references preferred in order to reach everything
				if (g.below( 6) < (uint64_t)wt) p.right.push_back( T( 1 + (int)g.below( nt)));
				else if (g.chance( 2, 3) && n < nn) p.right.push_back( N( n+1 + (int)g.below( nn-n)));
				else p.right.push_back( N( 1 + (int)g.below( nn)));
			}
			G.prods.push_back( p);
		}
	}
	fixProductive( g, G);
	G.prune();
	return G;
}

namespace {
struct Builder
{
	Gen& g;
	Grammar G;
	int nNamed;
	int budget;
	std::vector<int> open;		// nonterminals for recursion
	Builder( Gen& g_) :g(g_)
	{
		G.terms.resize( 1);
		nNamed = g.below( 4);
		for (int i=0; i<nNamed; ++i) newTerm( g, G, nNamed);
		budget = 3 + g.small( 4 + g.size/3);
		G.nts.push_back( "start");
	}
	int nt( const char* base) {G.nts.push_back( fmt( "%s%d", base, (int)G.nts.size())); return (int)G.nts.size()-1;}
	Sym term()
	{
		if (G.terms.size() > 1 && g.chance( 1, 3)) return T( 1 + (int)g.below( G.terms.size()-1));
		newTerm( g, G, nNamed);
		return T( (int)G.terms.size()-1);
	}
	void add( int l, std::vector<Sym> r) {Prod p; p.left = l; p.right = std::move( r); G.prods.push_back( p);}
	Sym any()
	{
		if (budget <= 0 || g.chance( 1, 3)) return term();
		if (!open.empty() && g.chance( 1, 5)) return N( g.pick( open));
		return N( make());
	}
	int make()
	{
		--budget;
		switch (g.below( 13))
		{
			case 0:	// list, left or right recursive
			{
				int l = nt( "list"); Sym x = any();
				if (g.flip()) add( l, {N(l),x}); else add( l, {x,N(l)});
				if (g.flip()) add( l, {}); else add( l, {x});
				return l;
			}
			case 1:	// list with separator
			{
				int l = nt( "seq"); Sym x = any(), s = term();
				if (g.flip()) add( l, {N(l),s,x}); else add( l, {x,s,N(l)});
				add( l, {x});
				if (g.chance( 1, 4)) add( l, {x,s});
				return l;
			}
			case 2:	// optional
			{
				int l = nt( "opt");
				add( l, {any()}); add( l, {});
				return l;
			}
			case 3: // block
			{
				int l = nt( "block"); Sym o = term(), c = term();
				open.push_back( l);
				Sym x = any();
				open.pop_back();
				add( l, {o,x,c});
				if (g.flip()) add( l, {o,c});
				if (g.flip()) add( l, {any()});
				return l;
			}
			case 4:	// stratified expressions
			{
				int n = 1 + g.small( 3);
				std::vector<int> lev;
				for (int i=0; i<=n; ++i) lev.push_back( nt( "expr"));
				for (int i=0; i<n; ++i)
				{
					int k = 1 + g.small( 2);
					for (int j=0; j<k; ++j) switch (g.below( 4))
					{
						case 0: case 1: add( lev[i], {N(lev[i]),term(),N(lev[i+1])}); break;
						case 2: add( lev[i], {N(lev[i+1]),term(),N(lev[i])}); break;
						default: add( lev[i], {term(),N(lev[i])}); break;
					}
					add( lev[i], {N(lev[i+1])});
				}
				add( lev[n], {any()});
				if (g.flip()) add( lev[n], {term(),N(lev[0]),term()});
				return lev[0];
			}
			case 5:	// alternatives
			{
				int l = nt( "alt");
				open.push_back( l);
				int k = 2 + g.small( 3);
				for (int i=0; i<k; ++i) {std::vector<Sym> r; int m = 1 + g.small( 3); for (int j=0; j<m; ++j) r.push_back( j == 0 && g.flip() ? term() : any()); add( l, r);}
				open.pop_back();
				return l;
			}
			case 6:	// sequence with nullable parts
			{
				int l = nt( "sq");
				std::vector<Sym> r;
				int m = 1 + g.small( 4);
				for (int j=0; j<m; ++j)
				{
					if (g.flip()) {int o = nt( "o"); add( o, {term()}); add( o, {}); r.push_back( N(o));}
					else r.push_back( any());
				}
				if (g.flip()) r.push_back( term());
				add( l, r);
				return l;
			}
			case 7:	// assignment: LALR(1) and not SLR(1)
			{
				int s = nt( "asg"), l = nt( "lv"), r = nt( "rv");
				Sym eq = term(), st = term(), id = any();
				add( s, {N(l),eq,N(r)}); add( s, {N(r)});
				add( l, {st,N(r)}); add( l, {id});
				add( r, {N(l)});
				return s;
			}
			case 8: // LR(1), LALR(1) if the right context does not decide
			{
				int s = nt( "ctx"), a = nt( "ca"), b = nt( "cb");
				Sym x = term(), y = term(), u = term(), v = term(), w = term();
				add( s, {x,N(a),u}); add( s, {x,N(b),v});
				if (g.flip()) add( s, {y,N(a),v});
				if (g.flip()) add( s, {y,N(b),u});
				if (g.flip()) {add( a, {w}); add( b, {w});} else {add( a, {}); add( b, {});}
				return s;
			}
			case 9:	// nullable followed by alternatives that differ later
			{
				int s = nt( "pre"), a = nt( "pa"), b = nt( "pb"), o = nt( "po");
				Sym w = term();
				add( o, {term()}); add( o, {});
				add( a, {w}); add( b, {w});
				add( s, {N(a),N(o),term()}); add( s, {N(b)});
				if (g.flip()) add( s, {N(b),term()});
				return s;
			}
			case 10: // nested use of the same nonterminal in different contexts
			{
				int s = nt( "nest"), e = nt( "ne");
				Sym o = term(), c = term();
				add( e, {o,N(e),c});
				if (g.flip()) add( e, {}); else add( e, {any()});
				if (g.flip()) add( e, {o,N(e)});
				add( s, {N(e)});
				if (g.flip()) add( s, {N(e),term()});
				return s;
			}
			case 11: // chain of units
			{
				int a = nt( "un"), b = nt( "ur");
				add( a, {N(b)}); add( b, {any()});
				if (g.flip()) add( a, {term(),N(a)});
				return a;
			}
			default: // statement with optional tail
			{
				int s = nt( "st"), t = nt( "tl");
				Sym i = term();
				open.push_back( s);
				add( s, {i,any(),N(t)});
				open.pop_back();
				if (g.flip()) add( t, {term(),N(s)}); else add( t, {term(),any()});
				add( t, {});
				add( s, {any()});
				return s;
			}
		}
	}
};
}
Grammar lr::genStructured( Gen& g)
{
	Builder b( g);
	Prod s; s.left = 0; b.G.prods.push_back( s);
	int root = b.make();
	b.G.prods[0].right = {N( root)};
	Grammar G = b.G;
	if (g.chance( 1, 4))		// disturb one production
	{
		Prod& p = G.prods[ 1 + g.below( G.prods.size()-1)];
		if (!p.right.empty())
		{
			size_t i = g.below( p.right.size());
			switch (g.below( 3))
			{
				case 0: p.right.erase( p.right.begin()+i); break;
				case 1: p.right[i] = g.flip() && G.nts.size() > 1 ? N( 1 + (int)g.below( G.nts.size()-1)) : T( 1 + (int)g.below( G.terms.size()-1)); break;
				default: p.right.insert( p.right.begin()+i, g.flip() ? N( 1 + (int)g.below( G.nts.size()-1)) : T( 1 + (int)g.below( G.terms.size()-1))); break;
			}
		}
	}
	fixProductive( g, G);
	G.prune();
	return G;
}
Grammar lr::genLarge( Gen& g)
{
	Grammar G;
	G.terms.resize( 1);
	int nNamed = g.below( 4);
	int nt = 8 + g.below( g.flip() ? 60 : 1013);
	for (int i=0; i<nt; ++i) newTerm( g, G, nNamed);
	int nn = 1 + g.below( g.flip() ? 30 : 252);
	int np = nn + g.below( 505 - nn);
	int maxlen = 1 + g.below( 14);
	G.nts.push_back( "start");
	for (int i=0; i<nn; ++i) G.nts.push_back( fmt( "n%d", i));
	Prod s; s.left = 0; s.right.push_back( N( 1)); G.prods.push_back( s);
	std::vector<int> count( nn+1, 0), base( nn+1, 0);
	for (int n=1; n<=nn; ++n) base[n] = g.below( nt);
	int total = 0;
	for (int i=0; i<np; ++i)
	{
		int n = i < nn ? i+1 : 1 + (int)g.below( nn);
		if (count[n] >= nt) continue;
		Prod p; p.left = n;
		p.right.push_back( T( 1 + (base[n] + count[n]++) % nt));
		int len = (int)g.below( maxlen);
		if (total + len > 3500) len = 0;
		// the first production of the second half ends the recursion
		bool leaf = i < nn && n > nn/2;
		// few separators after nonterminals as the number of FOLLOW sets is limited
		for (int k=0; k<len; ++k)
		{
			if (leaf || g.flip() || k+1 >= len) p.right.push_back( T( 1 + (int)g.below( nt)));
			else {p.right.push_back( N( 1 + (int)g.below( nn))); p.right.push_back( T( nt - (int)g.below( 2))); ++k;}
		}
		if (i < nn && n <= nn/2)	// reaches its children in a binary tree of nonterminals
		{
			p.right.resize( std::min<size_t>( p.right.size(), 12));
			p.right.resize( std::min<size_t>( p.right.size(), 9));
			if (!p.right.back().term) p.right.push_back( T( nt));
			p.right.push_back( N( 2*n));
			p.right.push_back( T( nt));
			if (2*n+1 <= nn) p.right.push_back( N( 2*n+1));
			for (auto& x : p.right) if (!x.term && x.idx <= n) x.idx = std::min( nn, 2*n);
		}
		total += (int)p.right.size();
		G.prods.push_back( p);
	}
	G.prune();
	return G;
}
Grammar lr::genParsable( Gen& g)
{
	Grammar G;
	for (int i=0; i<6; ++i)
	{
		G = genAny( g);
		if (G.prods.size() >= 4 || i >= 4)
		{
			LalrResult r = lalr( G, true, true, 600);
			if (!r.overflow && r.conflicts.empty()) break;
		}
	}
	return G;
}
void lr::addCalls( Gen& g, Grammar& G, int density)
{
	for (size_t p=0; p<G.prods.size(); ++p)
	{
		if (p > 0 && g.below( 100) >= (uint64_t)density) continue;
		auto& pr = G.prods[p];
		pr.call = fmt( "f%d", (int)g.below( 2 + G.prods.size()/2));
		if (g.chance( 1, 3)) pr.obj = fmt( "o%d", (int)g.below( 5));
		pr.flag = (int)g.weighted( {4,2,2});
	}
}
std::vector<int> lr::mutate( Gen& g, const Grammar& G, std::vector<int> t)
{
	int k = 1 + g.small( 2);
	for (int i=0; i<k; ++i)
	{
		int nt = (int)G.terms.size()-1;
		size_t at = g.below( t.size()+1);
		switch (g.below( 6))
		{
			case 0: if (at < t.size()) t.erase( t.begin()+at); break;
			case 1: if (nt > 0) t.insert( t.begin()+at, 1 + (int)g.below( nt)); break;
			case 2: if (nt > 0 && at < t.size()) t[at] = 1 + (int)g.below( nt); break;
			case 3: if (at+1 < t.size()) std::swap( t[at], t[at+1]); break;
			case 4: t.resize( at); break;
			default: if (at < t.size()) t.insert( t.begin()+at, t[at]); break;
		}
	}
	return t;
}
Rendered lr::render( Gen& g, const Grammar& G, const std::vector<int>& toks)
{
	Rendered rt;
	int line = 1;
	int nl = g.below( 3) == 0 ? 2 : 8;
	for (int t : toks)
	{
		while (g.chance( 1, nl) && rt.src.size() < 100000) {rt.src += '\n'; ++line;}
		Tok k; k.term = t; k.line = line;
		if (G.terms[t].keyword) k.text = k.value = G.terms[t].name;
		else switch (G.terms[t].kind)
		{
			case 0: k.text = k.value = fmt( "%d", (int)g.below( 1000)); break;
			case 1: k.text = k.value = g.pick( std::vector<std::string>{"A","Bc","Xyz","IfThen","Q"}); break;
			case 2: {std::string v = g.pick( std::vector<std::string>{"","x","a b","+","line\nbreak","'","\\n"}); k.value = v; k.text = "\"" + v + "\""; break;}
			default: k.text = k.value = g.pick( std::vector<std::string>{"@","@a","@attr"}); break;
		}
		rt.src += k.text;
		for (char c : k.text) if (c == '\n') ++line;
		rt.src += ' ';
		rt.toks.push_back( k);
	}
	if (g.chance( 1, 3)) {rt.src += '\n'; ++line;}
	rt.endLine = line;
	return rt;
}
void AstBuilder::build( const Tree& t, std::vector<Node>& out)
{
	if (t.prod < 0)
	{
		const Tok& k = toks[ pos++];
		if (!G.terms[ k.term].keyword)
		{
			Node n; n.leaf = true; n.name = G.terms[ k.term].name; n.value = k.value; n.line = k.line;
			line = k.line;
			out.push_back( n);
		}
		return;
	}
	const Prod& p = G.prods[ t.prod];
	int entry = counter;
	if (p.call.empty()) {for (auto& s : t.sub) build( s, out); return;}
	Node n;
	for (auto& s : t.sub) build( s, n.arg);
	n.name = p.call;
	n.value = p.obj.empty() ? "" : Val::str( p.obj).repr();
	n.line = line;
	if (p.flag) ++counter;
	if (p.flag == 2) {n.hasScope = true; n.scope0 = entry; n.scope1 = counter;}
	else {n.hasStep = true; n.step = counter;}
	out.push_back( n);
}
std::string lr::tokNames( const Grammar& G, const std::vector<int>& toks)
{
	std::string rt;
	for (int t : toks) rt += (rt.empty() ? "" : " ") + (t ? G.terms[t].name : std::string("$"));
	return rt;
}
// the list is 'a, b, c', keywords are quoted
bool lr::splitExpected( const Grammar& G, const std::string& list, std::set<int>& out)
{
	std::map<std::string,int> names;
	names["$"] = 0;
	for (int i=1; i<(int)G.terms.size(); ++i)
	{
		if (G.terms[i].keyword) {names[ "'" + G.terms[i].name + "'"] = i; names[ "\"" + G.terms[i].name + "\""] = i;}
		else names[ G.terms[i].name] = i;
	}
	size_t p = 0;
	if (list.empty()) return true;
	for (;;)
	{
		// longest name at this place followed by separator or end
		int best = -1; size_t len = 0;
		for (auto& n : names)
		{
			if (list.compare( p, n.first.size(), n.first) == 0 && n.first.size() > len)
			{
				size_t e = p + n.first.size();
				if (e == list.size() || list.compare( e, 2, ", ") == 0) {best = n.second; len = n.first.size();}
			}
		}
		if (best < 0) return false;
		out.insert( best);
		p += len;
		if (p == list.size()) return true;
		p += 2;
	}
}
