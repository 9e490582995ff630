// T01..T07: type database against reference models written from the documentation
#include "mewa.hpp"
#include <climits>
#include <cmath>
#include <unistd.h>
using namespace pbt;
using namespace mw;

namespace {

struct Sc
{
	int s = 0, e = INT_MAX;
	bool contains( int step) const		{return s <= step && step < e;}
	bool operator<( const Sc& o) const	{return s != o.s ? s < o.s : e < o.e;}
	bool operator==( const Sc& o) const	{return s == o.s && e == o.e;}
	long len() const			{return (long)e - s;}
	Val val() const				{return Val::ints( {s,e});}
	std::string str() const			{return e == INT_MAX ? fmt( "{%d,INF}", s) : fmt( "{%d,%d}", s, e);}
};

// Properly nested scopes, the root scope is element 0
std::vector<Sc> genScopes( Gen& g, int maxn, int width)
{
	std::vector<Sc> rt; rt.push_back( Sc());
	int budget = g.range( 1, maxn);
	// divide {lo,hi} recursively
	struct Rec {static void run( Gen& g, std::vector<Sc>& rt, int lo, int hi, int& budget, int depth, const Sc& parent)
	{
		int pos = lo;
		int nch = g.range( 1, 4);
		for (int i=0; i<nch && budget > 0 && pos < hi; ++i)
		{
			int s = g.chance( 1,3) ? pos : pos + (int)g.below( std::min( hi-pos, 1 + (hi-pos)/2));
			if (s >= hi) break;
			int e = g.chance( 1,5) ? hi : s + 1 + (int)g.below( hi - s);
			if (s == parent.s && e == parent.e) {if (e - s <= 1) break; --e;}
			Sc sc; sc.s = s; sc.e = e;
			rt.push_back( sc);
			--budget;
			if (e - s > 1 && depth < 12 && !g.chance( 1,4)) run( g, rt, s, e, budget, depth+1, sc);
			pos = e;
		}
	}};
	while (budget > 0)
	{
		int before = budget;
		int base = (int)rt.size() == 1 ? 0 : 0;
		(void)base;
		int lo = 0;
		for (size_t i=1; i<rt.size(); ++i) if (rt[i].e != INT_MAX && rt[i].e > lo) lo = rt[i].e;
		if (lo > 1000000) break;
		Sc root;
		Rec::run( g, rt, lo, lo + g.range( 2, width), budget, 0, root);
		if (budget == before) break;
	}
	return rt;
}
int genStep( Gen& g, const std::vector<Sc>& scopes)
{
	const Sc& sc = g.pick( scopes);
	int hi = sc.e == INT_MAX ? 100 : sc.e;
	switch (g.below( 5))
	{
		case 0: return sc.s;
		case 1: return hi-1;
		case 2: return hi;			// just outside
		case 3: return sc.s > 0 ? sc.s-1 : 0;	// just outside
		default: return sc.s + (int)g.below( hi - sc.s);
	}
}

struct Db
{
	Lua& L; std::string var; Case& c;
	Sc scope; int step = 0;
	Db( Lua& L_, const std::string& var_, Case& c_) :L(L_),var(var_),c(c_)
	{
		auto r = L.exec( var + " = mewa.typedb()");
		if (!r.ok) fail( "new-typedb", r.error);
	}
	CallResult call( const char* m, const std::vector<Val>& args)
	{
		return L.method( var.c_str(), m, args);
	}
	CallResult must( const char* m, const std::vector<Val>& args)
	{
		auto r = call( m, args);
		if (!r.ok)
		{
			std::string as; for (auto& a : args) as += (as.empty() ? "":", ") + a.repr();
			fail( std::string("unexpected-error-") + m, var + ":" + m + "(" + as + ") raised " + r.error);
		}
		return r;
	}
	void setScope( const Sc& sc, int step_ = -1)
	{
		std::vector<Val> args = {sc.val()};
		if (step_ >= 0) args.push_back( Val::num( step_));
		auto r = must( "scope", args);
		Val want = scope.val();
		if (r[0].len() != 2 || r[0].at(1).n != scope.s || r[0].at(2).n != scope.e || r[1].n != step)
			fail( "scope-previous", fmt( "scope() returned %s,%s as previous scope and step, expected %s,%d", r[0].repr().c_str(), r[1].repr().c_str(), want.repr().c_str(), step));
		scope = sc; step = step_ >= 0 ? step_ : sc.e-1;
		c.log( "%s:scope(%s%s)", var.c_str(), sc.str().c_str(), step_ >= 0 ? fmt( ",%d", step_).c_str() : "");
		if (step_ < 0)
		{
			auto q = must( "step", {});
			if (q[0].n != step) fail( "implicit-step", fmt( "step after scope(%s) is %s, expected %d", sc.str().c_str(), q[0].repr().c_str(), step));
		}
	}
	void setStep( int st)
	{
		auto r = must( "step", {Val::num( st)});
		if (r[0].n != step) fail( "step-previous", fmt( "step() returned %s as previous step, expected %d", r[0].repr().c_str(), step));
		step = st;
		c.log( "%s:step(%d)", var.c_str(), st);
	}
};

// ------------------------------------------------------------------ T01
struct InstModel
{
	std::map<std::string, std::map<Sc,Val>> m;
	const Val* get( const std::string& n, int step) const
	{
		auto i = m.find( n); if (i == m.end()) return nullptr;
		const Val* rt = nullptr; long best = LONG_MAX;
		for (auto& e : i->second) if (e.first.contains( step) && e.first.len() < best) {best = e.first.len(); rt = &e.second;}
		return rt;
	}
	const Val* getThis( const std::string& n, const Sc& sc) const
	{
		auto i = m.find( n); if (i == m.end()) return nullptr;
		auto k = i->second.find( sc); return k == i->second.end() ? nullptr : &k->second;
	}
};
Val genValue( Gen& g, int& serial)
{
	++serial;
	switch (g.below( 6))
	{
		case 0: return Val::num( serial);
		case 1: return Val::str( fmt( "v%d", serial));
		case 2: {Val t = Val::table(); t.tab.push_back( {Val::str( "id"), Val::num( serial)}); return t;}
		case 3: return Val::boolean( g.flip());
		case 4: return Val::num( serial + 0.5);
		default: return Val::array( {Val::num( serial), Val::str( "x")});
	}
}
void checkInst( Db& db, const InstModel& m, const std::string& name)
{
	auto r = db.must( "get_instance", {Val::str( name)});
	const Val* w = m.get( name, db.step);
	std::string have = r[0].repr(), want = w ? w->repr() : "nil";
	if (have != want) fail( "get_instance", fmt( "get_instance('%s') at step %d is %s, expected %s", name.c_str(), db.step, have.c_str(), want.c_str()));
}
void checkThis( Db& db, const InstModel& m, const std::string& name)
{
	auto r = db.must( "this_instance", {Val::str( name)});
	const Val* w = m.getThis( name, db.scope);
	std::string have = r[0].repr(), want = w ? w->repr() : "nil";
	if (have != want) fail( "this_instance", fmt( "this_instance('%s') in scope %s is %s, expected %s", name.c_str(), db.scope.str().c_str(), have.c_str(), want.c_str()));
}
void t01( Gen& g, Case& c)
{
	Lua L;
	Db db( L, "typedb", c);
	auto scopes = genScopes( g, 1 + g.size*g.size/60, 4 + g.size);
	std::vector<std::string> names;
	int nn = g.range( 1, 1 + g.size/20);
	for (int i=0; i<nn; ++i) names.push_back( fmt( "n%d", i));
	InstModel m;
	int serial = 0;
	int nops = g.range( 1, 3 + g.size*2);
	bool nested = false, innerFirst = false;
	for (int i=0; i<nops; ++i)
	{
		switch (g.weighted( {6,2,2,2,1}))
		{
			case 0:
			{
				Sc sc = g.pick( scopes);
				db.setScope( sc, g.flip() ? genStep( g, scopes) : -1);
				const std::string& n = g.pick( names);
				Val v = genValue( g, serial);
				c.log( "set_instance('%s',%s)", n.c_str(), v.repr().c_str());
				db.must( "set_instance", {Val::str( n), v});
				for (auto& e : m.m[n])
				{
					if (e.first.s <= sc.s && e.first.e >= sc.e && !(e.first == sc)) nested = true;
					if (e.first.s >= sc.s && e.first.e <= sc.e && !(e.first == sc)) innerFirst = true;
				}
				m.m[n][sc] = v;
				break;
			}
			case 1: db.setStep( genStep( g, scopes)); checkInst( db, m, g.pick( names)); break;
			case 2: db.setScope( g.pick( scopes)); checkThis( db, m, g.pick( names)); break;
			case 3: checkInst( db, m, g.pick( names)); checkThis( db, m, g.pick( names)); break;
			case 4: {auto r = db.must( "get_instance", {Val::str( "undefined")}); if (!r[0].isNil()) fail( "get_instance-undefined", r[0].repr()); break;}
		}
	}
	// final sweep over everything
	std::set<int> steps;
	for (auto& s : scopes) {steps.insert( s.s); if (s.s) steps.insert( s.s-1); if (s.e != INT_MAX) {steps.insert( s.e); steps.insert( s.e-1);} else steps.insert( INT_MAX-1);}
	c.log( "final sweep");
	std::string dummy;
	dummy.swap( c.m_log);
	for (int st : steps) {db.setStep( st); for (auto& n : names) checkInst( db, m, n);}
	for (auto& s : scopes) {db.setScope( s); for (auto& n : names) checkThis( db, m, n);}
	c.m_log.swap( dummy);
	if (nested) c.label( "inner-after-outer");
	if (innerFirst) c.label( "outer-after-inner");
	bool sameEnd = false;
	for (auto& e : m.m) for (auto& a : e.second) for (auto& b : e.second) if (!(a.first == b.first) && a.first.e == b.first.e) sameEnd = true;
	if (sameEnd) c.label( "shared-scope-end");
	c.count( "definitions", serial);
	c.nontrivial( nested || innerFirst);
}

// ------------------------------------------------------------------ types
struct MType
{
	int handle; int ctx; std::string name; std::vector<std::pair<int,Val>> params; Val constructor; Sc scope;
};
struct TypeModel
{
	std::map<int,MType> types;
	struct Key {Sc sc; int ctx; std::string name; bool operator<( const Key& o) const {return std::tie(sc,ctx,name) < std::tie(o.sc,o.ctx,o.name);}};
	struct Entry {std::vector<int> list; bool alias = false;};
	std::map<Key,Entry> tab;

	const Entry* getThis( const Sc& sc, int ctx, const std::string& n) const
	{
		auto i = tab.find( {sc,ctx,n}); return i == tab.end() ? nullptr : &i->second;
	}
	const Entry* get( int step, int ctx, const std::string& n) const
	{
		const Entry* rt = nullptr; long best = LONG_MAX;
		for (auto& e : tab) if (e.first.ctx == ctx && e.first.name == n && e.first.sc.contains( step) && e.first.sc.len() < best) {best = e.first.sc.len(); rt = &e.second;}
		return rt;
	}
	std::string sig( int h) const
	{
		std::string rt; for (auto& p : types.at( h).params) rt += fmt( "%d,", p.first); return rt;
	}
	std::string str( int h, const std::string& sep) const
	{
		if (!h) return "";
		const MType& t = types.at( h);
		std::string rt = t.ctx ? str( t.ctx, sep) + sep : "";
		rt += t.name;
		if (!t.params.empty())
		{
			rt += "("; int i=0;
			for (auto& p : t.params) {if (i++) rt += ","; rt += str( p.first, sep);}
			rt += ")";
		}
		return rt;
	}
};
// returns handle or -1
int defType( Gen& g, Db& db, TypeModel& m, const std::string& name, int ctx, int& serial, int maxparams, bool& dup)
{
	Case& c = db.c;
	MType t; t.ctx = ctx; t.name = name; t.scope = db.scope;
	int np = g.chance( 1,2) ? 0 : g.small( maxparams);
	if (m.types.empty()) np = 0;
	std::vector<int> handles; for (auto& e : m.types) handles.push_back( e.first);
	std::vector<Val> plist;
	for (int i=0; i<np; ++i)
	{
		int ph = g.chance( 1,2) ? handles[ g.below( std::min<size_t>( handles.size(), 2))] : g.pick( handles);
		Val con;
		switch (g.below( 3))
		{
			case 0: plist.push_back( Val::num( ph)); break;
			case 1: {con = genValue( g, serial); plist.push_back( Val::array( {Val::num( ph), con})); break;}
			default: {con = genValue( g, serial); Val p = Val::table(); p.tab.push_back( {Val::str( "type"), Val::num( ph)}); p.tab.push_back( {Val::str( "constructor"), con}); plist.push_back( p);}
		}
		t.params.push_back( {ph,con});
	}
	std::vector<Val> args = {Val::num( ctx), Val::str( name)};
	if (g.chance( 2,3)) t.constructor = genValue( g, serial);
	if (!t.constructor.isNil() || np || g.flip())
	{
		args.push_back( t.constructor);
		if (np || g.flip()) args.push_back( Val::array( plist));
	}
	std::string ps; for (auto& p : plist) ps += (ps.empty() ? "":", ") + p.repr();
	auto r = db.must( "def_type", args);
	int h = (int)r[0].n;
	c.log( "%s:def_type(%d,'%s',%s,{%s}) -> %d   in %s", db.var.c_str(), ctx, name.c_str(), t.constructor.repr().c_str(), ps.c_str(), h, db.scope.str().c_str());
	auto& e = m.tab[ {db.scope,ctx,name}];
	bool isdup = false;
	std::string sig; for (auto& p : t.params) sig += fmt( "%d,", p.first);
	for (int o : e.list) if (m.sig( o) == sig) isdup = true;
	if (e.alias)
	{
		// name taken by a synonym: may be refused or accepted, but must not touch the original (checked elsewhere)
		c.label( "overload-after-synonym");
		if (h == -1) {dup = true; return -1;}
		if (isdup) fail( "duplicate-accepted", fmt( "def_type(%d,'%s') repeats a definition but returned %d", ctx, name.c_str(), h));
		m.tab[ {db.scope,ctx,name}].alias = true;
		t.handle = h;
		if (m.types.count( h)) fail( "handle-reused", fmt( "def_type returned the handle %d already used", h));
		m.types[ h] = t;
		return h;
	}
	if (isdup)
	{
		dup = true;
		if (h != -1) fail( "duplicate-accepted", fmt( "def_type(%d,'%s') with the same parameters in the same scope returned %d, expected -1", ctx, name.c_str(), h));
		return -1;
	}
	if (h <= 0) fail( "definition-refused", fmt( "def_type(%d,'%s') returned %d for a new definition", ctx, name.c_str(), h));
	if (m.types.count( h)) fail( "handle-reused", fmt( "def_type returned the handle %d already used", h));
	t.handle = h;
	e.list.push_back( h);
	m.types[ h] = t;
	return h;
}
std::vector<int> intList( const Val& v)
{
	std::vector<int> rt;
	for (int i=1; i<=v.len(); ++i) rt.push_back( (int)v.at( i).n);
	return rt;
}
std::string listStr( const std::vector<int>& l) {std::string rt; for (int x : l) rt += fmt( "%s%d", rt.empty() ? "":",", x); return "{" + rt + "}";}

void checkTypes( Db& db, const TypeModel& m, int ctx, const std::string& name)
{
	bool former = (ctx + name.size() + m.types.size()) % 4 == 0;	// former names of the functions are still supported
	auto r = db.must( former ? "get_types" : "this_types", {Val::num( ctx), Val::str( name)});
	auto have = intList( r[0]);
	auto* e = m.getThis( db.scope, ctx, name);
	std::vector<int> want; if (e) want = e->list;
	std::set<int> hs( have.begin(), have.end()), ws( want.begin(), want.end());
	if (e && e->alias)
	{
		if (!hs.count( want[0])) fail( "synonym", fmt( "this_types(%d,'%s') in scope %s is %s, the name is a synonym of %d", ctx, name.c_str(), db.scope.str().c_str(), listStr( have).c_str(), want[0]));
		return;
	}
	if (hs != ws || have.size() != want.size())
		fail( "this_types", fmt( "this_types(%d,'%s') in scope %s is %s, expected %s", ctx, name.c_str(), db.scope.str().c_str(), listStr( have).c_str(), listStr( want).c_str()));
	// exact lookup with every signature and one not existing
	for (int h : want)
	{
		std::vector<Val> ps, pairs;
		for (auto& p : m.types.at( h).params) {ps.push_back( Val::num( p.first)); Val tc = Val::table(); tc.tab.push_back( {Val::str( "constructor"), Val::str( "ignored")}); tc.tab.push_back( {Val::str( "type"), Val::num( p.first)}); pairs.push_back( tc);}
		for (auto& pl : {ps,pairs})
		{
			std::vector<Val> args = {Val::num( ctx), Val::str( name)};
			if (!pl.empty()) args.push_back( Val::array( pl));
			auto q = db.must( former ? "get_type" : "this_type", args);
			if (q[0].n != h || q[0].t != Val::Num) fail( "this_type", fmt( "this_type(%d,'%s',%s) in scope %s is %s, expected %d", ctx, name.c_str(), Val::array( pl).repr().c_str(), db.scope.str().c_str(), q[0].repr().c_str(), h));
		}
	}
	if (!m.types.empty())
	{
		// a signature not defined here: the one of the first overload with one more parameter
		std::vector<Val> ps; std::string sig;
		if (!want.empty()) for (auto& p : m.types.at( want.back()).params) {ps.push_back( Val::num( p.first)); sig += fmt( "%d,", p.first);}
		int extra = m.types.begin()->first;
		ps.push_back( Val::num( extra)); sig += fmt( "%d,", extra);
		int expect = 0;
		for (int h : want) if (m.sig( h) == sig) expect = h;
		auto q = db.must( former ? "get_type" : "this_type", {Val::num( ctx), Val::str( name), Val::array( ps)});
		if ((q[0].isNil() ? 0 : (int)q[0].n) != expect) fail( "this_type", fmt( "this_type(%d,'%s',%s) in scope %s is %s, expected %d", ctx, name.c_str(), Val::array( ps).repr().c_str(), db.scope.str().c_str(), q[0].repr().c_str(), expect));
	}
}
void checkAttributes( Db& db, const TypeModel& m, int h)
{
	const MType& t = m.types.at( h);
	auto bad = [&]( const char* what, const std::string& have, const std::string& want) {fail( what, fmt( "%s(%d) is %s, expected %s", what, h, have.c_str(), want.c_str()));};
	auto r = db.must( "type_name", {Val::num( h)});
	if (r[0].repr() != Val::str( t.name).repr()) bad( "type_name", r[0].repr(), Val::str( t.name).repr());
	r = db.must( "type_context", {Val::num( h)});
	if (r[0].n != t.ctx || r[0].t != Val::Num) bad( "type_context", r[0].repr(), fmt( "%d", t.ctx));
	r = db.must( "type_nof_parameters", {Val::num( h)});
	if (r[0].n != (int)t.params.size()) bad( "type_nof_parameters", r[0].repr(), fmt( "%zu", t.params.size()));
	r = db.must( "type_constructor", {Val::num( h)});
	if (r[0].repr() != t.constructor.repr()) bad( "type_constructor", r[0].repr(), t.constructor.repr());
	r = db.must( "type_scope", {Val::num( h)});
	if (r[0].repr() != t.scope.val().repr()) bad( "type_scope", r[0].repr(), t.scope.val().repr());
	r = db.must( "type_parameters", {Val::num( h)});
	Val want = Val::table(); int pi = 0;
	for (auto& p : t.params)
	{
		Val e = Val::table();
		e.tab.push_back( {Val::str( "type"), Val::num( p.first)});
		if (!p.second.isNil()) e.tab.push_back( {Val::str( "constructor"), p.second});
		want.tab.push_back( {Val::num( ++pi), e});
	}
	if (r[0].repr() != want.repr()) bad( "type_parameters", r[0].repr(), want.repr());
	r = db.must( "type_string", {Val::num( h)});
	if (r[0].s != m.str( h, " ")) bad( "type_string", r[0].repr(), quote( m.str( h, " "), 10000));
	r = db.must( "type_string", {Val::num( h), Val::str( "::")});
	if (r[0].s != m.str( h, "::")) bad( "type_string", r[0].repr(), quote( m.str( h, "::"), 10000));
}
void t02( Gen& g, Case& c)
{
	Lua L;
	Db db( L, "typedb", c);
	auto scopes = genScopes( g, 1 + g.size/8, 4 + g.size/2);
	int nn = g.range( 1, 1 + g.size/20);
	std::vector<std::string> names; for (int i=0; i<nn; ++i) names.push_back( fmt( "t%d", i));
	TypeModel m; int serial = 0;
	int nops = g.range( 1, 5 + g.size);
	bool dup = false, overload = false, alias = false, aliasdup = false;
	std::vector<int> contexts = {0};
	for (int i=0; i<nops; ++i)
	{
		if (g.chance( 1,2)) db.setScope( g.pick( scopes), g.flip() ? genStep( g, scopes) : -1);
		switch (g.weighted( {8,2,2}))
		{
			case 0:
			{
				int ctx = g.pick( contexts);
				const std::string& n = g.pick( names);
				int h = defType( g, db, m, n, ctx, serial, 1 + g.size/15, dup);
				if (h > 0 && contexts.size() < 6 && g.chance( 1,4)) contexts.push_back( h);
				if (h > 0 && m.tab[ {db.scope,ctx,n}].list.size() > 1) overload = true;
				break;
			}
			case 1:
			{
				if (m.types.empty()) break;
				std::vector<int> handles; for (auto& e : m.types) handles.push_back( e.first);
				int h = g.pick( handles), ctx = g.pick( contexts);
				std::string n = g.chance( 1,2) ? g.pick( names) : fmt( "alias%d", g.range( 0,2));
				auto& e = m.tab[ {db.scope,ctx,n}];
				auto r = db.must( "def_type_as", {Val::num( ctx), Val::str( n), Val::num( h)});
				c.log( "def_type_as(%d,'%s',%d) -> %s   in %s", ctx, n.c_str(), h, r[0].repr().c_str(), db.scope.str().c_str());
				if (e.list.empty())
				{
					if (r[0].n != h) fail( "def_type_as", fmt( "def_type_as(%d,'%s',%d) of a new name returned %s", ctx, n.c_str(), h, r[0].repr().c_str()));
					e.list.push_back( h); e.alias = true; alias = true;
				}
				else
				{
					aliasdup = true;
					if (r[0].n != -1) fail( "def_type_as-duplicate", fmt( "def_type_as(%d,'%s',%d) of a name existing in the scope returned %s, documented is -1", ctx, n.c_str(), h, r[0].repr().c_str()));
				}
				break;
			}
			default: checkTypes( db, m, g.pick( contexts), g.pick( names)); break;
		}
	}
	c.log( "final sweep");
	std::string keep = c.m_log;
	for (auto& s : scopes)
	{
		db.setScope( s);
		for (int ctx : contexts) for (auto& n : names) checkTypes( db, m, ctx, n);
		for (int ctx : contexts) for (int a=0; a<3; ++a) checkTypes( db, m, ctx, fmt( "alias%d", a));
	}
	for (auto& t : m.types) checkAttributes( db, m, t.first);
	c.m_log = keep;
	if (dup) c.label( "duplicate");
	if (overload) c.label( "overload");
	if (alias) c.label( "synonym");
	if (aliasdup) c.label( "synonym-duplicate");
	c.count( "types", m.types.size());
	c.nontrivial( overload && (dup || scopes.size() > 2));
}

// ------------------------------------------------------------------ reductions
struct Redu { Sc scope; int to, from; Val con; int tag; double weight; };
struct ReduModel
{
	std::vector<Redu> list;
	// all reductions visible at step from a type: not hidden by one of an inner scope with the same destination
	std::vector<const Redu*> visible( int step, int from, uint32_t mask) const
	{
		std::map<int,long> innermost;
		for (auto& r : list) if (r.from == from && r.scope.contains( step) && (mask & (1u << (r.tag-1))))
		{
			auto ins = innermost.insert( {r.to,r.scope.len()});
			if (r.scope.len() < ins.first->second) ins.first->second = r.scope.len();
		}
		std::vector<const Redu*> rt;
		for (auto& r : list) if (r.from == from && r.scope.contains( step) && (mask & (1u << (r.tag-1))) && innermost[ r.to] == r.scope.len()) rt.push_back( &r);
		return rt;
	}
};
struct Graph
{
	std::vector<int> types;
	std::vector<Sc> scopes;
	TypeModel tm;
	ReduModel rm;
	bool dup = false, multitag = false, hidden = false;
};
// define one reduction, check acceptance
void defRedu( Gen& g, Db& db, Graph& gr, int to, int from, int tag, double weight, int& serial)
{
	Redu r{ db.scope, to, from, Val(), tag, weight};
	if (g.chance( 5,6)) r.con = genValue( g, serial);
	const Redu* same = nullptr;
	for (auto& o : gr.rm.list) if (o.scope == db.scope && o.to == to && o.from == from)
	{
		if (o.tag == tag) same = &o; else gr.multitag = true;
	}
	for (auto& o : gr.rm.list) if (!(o.scope == db.scope) && o.to == to && o.from == from && ((o.scope.s <= db.scope.s && o.scope.e >= db.scope.e) || (db.scope.s <= o.scope.s && db.scope.e >= o.scope.e))) gr.hidden = true;
	std::vector<Val> args = {Val::num( to), Val::num( from), r.con, Val::num( tag)};
	if (weight != 0 || g.flip()) args.push_back( Val::num( weight));
	auto res = db.call( "def_reduction", args);
	db.c.log( "def_reduction( to %d, from %d, %s, tag %d, weight %g) -> %s   in %s", to, from, r.con.repr().c_str(), tag, weight, res.ok ? "ok" : "error", db.scope.str().c_str());
	if (same)
	{
		gr.dup = true;
		if (res.ok && !(same->con.isNil() && r.con.isNil())) fail( "duplicate-reduction", fmt( "second definition of reduction %d<-%d with tag %d in scope %s accepted", to, from, tag, db.scope.str().c_str()));
	}
	else
	{
		if (!res.ok) fail( "reduction-refused", "def_reduction of a new reduction raised " + res.error);
		gr.rm.list.push_back( r);
	}
}
std::string reduStr( int type, const Val& con, double w, bool count) {return fmt( "%d:%s:%g:%d", type, con.repr().c_str(), w, (int)count);}

void checkReductions( Db& db, const Graph& gr, int from, bool useMask, uint32_t mask, bool useCount, uint32_t countmask)
{
	std::vector<Val> args = {Val::num( from)};
	if (useMask || useCount) args.push_back( useMask ? Val::num( mask) : Val());
	if (useCount) args.push_back( Val::num( countmask));
	if (!useMask) mask = 0xffffffffu;
	if (!useCount) countmask = 0;
	auto r = db.must( "get_reductions", args);
	std::multiset<std::string> have, want;
	for (int i=1; i<=r[0].len(); ++i)
	{
		const Val& e = r[0].at( i);
		have.insert( reduStr( (int)e["type"].n, e["constructor"], e["weight"].n, e["count"].b));
	}
	for (auto* v : gr.rm.visible( db.step, from, mask)) want.insert( reduStr( v->to, v->con, v->weight, (countmask >> (v->tag-1)) & 1));
	if (have != want)
	{
		std::string hs, ws; for (auto& s : have) hs += s + " "; for (auto& s : want) ws += s + " ";
		fail( "get_reductions", fmt( "get_reductions(%d, mask %08x, count %08x) at step %d: have [ %s], expected [ %s]", from, mask, countmask, db.step, hs.c_str(), ws.c_str()));
	}
}
void checkReduction( Db& db, const Graph& gr, int to, int from, bool useMask, uint32_t mask)
{
	std::vector<Val> args = {Val::num( to), Val::num( from)};
	if (useMask) args.push_back( Val::num( mask)); else mask = 0xffffffffu;
	std::vector<const Redu*> cand;
	for (auto* v : gr.rm.visible( db.step, from, mask)) if (v->to == to) cand.push_back( v);
	auto r = db.call( "get_reduction", args);
	double minw = 1e30; int nmin = 0;
	for (auto* v : cand) {if (v->weight < minw) {minw = v->weight; nmin = 1;} else if (v->weight == minw) ++nmin;}
	if (cand.size() > 1 && !r.ok && nmin > 1) return; 	// ambiguous definitions in one scope are refused with an error
	if (!r.ok) fail( "unexpected-error-get_reduction", r.error);
	if (cand.empty())
	{
		if (!r[0].isNil()) fail( "get_reduction", fmt( "get_reduction(%d,%d,mask %08x) at step %d is %s,%s, expected nil", to, from, mask, db.step, r[0].repr().c_str(), r[1].repr().c_str()));
		return;
	}
	for (auto* v : cand) if (v->weight == minw && r[0].t == Val::Num && r[0].n == v->weight && r[1].repr() == v->con.repr()) return;
	fail( "get_reduction", fmt( "get_reduction(%d,%d,mask %08x) at step %d is %s,%s, expected %g,%s", to, from, mask, db.step, r[0].repr().c_str(), r[1].repr().c_str(), cand[0]->weight, cand[0]->con.repr().c_str()));
}
uint32_t genMask( Gen& g, const std::vector<int>& tags)
{
	switch (g.below( 4))
	{
		case 0: return 0xffffffffu;
		case 1: return 1u << (g.pick( tags)-1);
		case 2: {uint32_t m = 0; for (int t : tags) if (g.flip()) m |= 1u << (t-1); return m;}
		default: return (uint32_t)g.below( 1ull<<32);
	}
}
// weights are multiples of a unit of the case, a power of two, so that sums are exact also as float
double genWeight( Gen& g, double unit = 1/16.0)
{
	switch (g.below( 4))
	{
		case 0: return 0.0;
		case 1: return g.range( 1, 4) * unit;
		case 2: return g.range( 0, 64) * unit;
		default: return g.range( 1, 3) * 16 * unit;
	}
}
double genUnit( Gen& g)
{
	static const double units[] = {1/16.0, 1/1024.0, 1/65536.0, 8.0};
	return units[ g.weighted( {6,1,1,1})];
}
void makeTypes( Gen& g, Db& db, Graph& gr, int n, int& serial)
{
	for (int i=0; i<n; ++i)
	{
		auto r = db.must( "def_type", {Val::num( 0), Val::str( fmt( "T%d", i)), Val::num( i)});
		gr.types.push_back( (int)r[0].n);
		MType t; t.handle = (int)r[0].n; t.ctx = 0; t.name = fmt( "T%d", i); t.constructor = Val::num( i);
		gr.tm.types[ t.handle] = t;
		gr.tm.tab[ {db.scope,0,t.name}].list.push_back( t.handle);
	}
	(void)serial; (void)g;
}
void t03( Gen& g, Case& c)
{
	Lua L;
	Db db( L, "typedb", c);
	Graph gr; int serial = 0;
	gr.scopes = genScopes( g, 1 + g.size/8, 4 + g.size/2);
	makeTypes( g, db, gr, g.range( 2, 2 + g.size/15), serial);
	std::vector<int> tags; int nt = g.range( 1,5);
	for (int i=0; i<nt; ++i) tags.push_back( g.range( 1,32));
	int nops = g.range( 1, 5 + g.size);
	for (int i=0; i<nops; ++i)
	{
		if (g.chance( 1,2)) db.setScope( g.pick( gr.scopes), g.flip() ? genStep( g, gr.scopes) : -1);
		switch (g.weighted( {10,1,1,1,2,2,2}))
		{
			case 0:
			{
				int from = g.pick( gr.types), to = g.pick( gr.types);
				if (from == to) break;
				defRedu( g, db, gr, to, from, g.pick( tags), genWeight( g), serial);
				break;
			}
			case 1:	// bad tag
			{
				int tag = g.pick( std::vector<int>{0,33,34,-1,64,255,256,257,1000000});
				auto r = db.call( "def_reduction", {Val::num( gr.types[0]), Val::num( gr.types[1]), Val::num( 1), Val::num( tag), Val::num( 0)});
				if (r.ok) fail( "bad-tag-accepted", fmt( "tag %d accepted", tag));
				c.label( "bad-tag");
				break;
			}
			case 2:	// bad weight
			{
				double w = g.pick( std::vector<double>{-1.0/16,-1,-1e20});
				auto r = db.call( "def_reduction", {Val::num( gr.types[0]), Val::num( gr.types[1]), Val::num( 1), Val::num( 1), Val::num( w)});
				if (r.ok) fail( "bad-weight-accepted", fmt( "weight %g accepted", w));
				c.label( "bad-weight");
				break;
			}
			case 3: // self reduction
			{
				auto r = db.call( "def_reduction", {Val::num( gr.types[0]), Val::num( gr.types[0]), Val::num( 1), Val::num( 1), Val::num( 0)});
				if (r.ok) fail( "self-reduction-accepted", "reduction of a type to itself accepted");
				break;
			}
			case 4: db.setStep( genStep( g, gr.scopes)); checkReductions( db, gr, g.pick( gr.types), g.flip(), genMask( g, tags), g.flip(), genMask( g, tags)); break;
			case 5: checkReduction( db, gr, g.pick( gr.types), g.pick( gr.types), g.flip(), genMask( g, tags)); break;
			case 6:
			{
				// tag masks are built from tags
				std::vector<Val> args; uint32_t want = 0; int n = g.range( 0,5);
				for (int k=0; k<n; ++k) {int t = g.range( 1,32); args.push_back( Val::num( t)); want |= 1u << (t-1);}
				auto r = db.must( "reduction_tagmask", args);
				if (r[0].n != (double)want && (int64_t)r[0].n != (int64_t)(int32_t)want) fail( "reduction_tagmask", fmt( "reduction_tagmask is %s, expected %u", r[0].repr().c_str(), want));
				// and can be used where a mask is expected
				checkReductions( db, gr, g.pick( gr.types), true, (uint32_t)(int64_t)r[0].n, false, 0);
				break;
			}
		}
	}
	std::string keep = c.m_log;
	std::set<int> steps;
	for (auto& s : gr.scopes) {steps.insert( s.s); if (s.s) steps.insert( s.s-1); if (s.e != INT_MAX) {steps.insert( s.e); steps.insert( s.e-1);}}
	uint32_t mk = genMask( g, tags), ck = genMask( g, tags);
	for (int st : steps)
	{
		db.setStep( st);
		for (int t : gr.types)
		{
			checkReductions( db, gr, t, false, 0, false, 0);
			checkReductions( db, gr, t, true, mk, true, ck);
		}
		for (int a : gr.types) for (int b : gr.types) checkReduction( db, gr, a, b, true, mk);
	}
	c.m_log = keep;
	if (gr.dup) c.label( "duplicate");
	if (gr.multitag) c.label( "several-tags-same-scope");
	if (gr.hidden) c.label( "hiding");
	c.count( "reductions", gr.rm.list.size());
	c.nontrivial( gr.hidden || gr.multitag);
}

// ------------------------------------------------------------------ paths
struct Path { int end; double w; std::vector<const Redu*> steps; int root; int count; };

// enumerate all simple paths (no type twice) from a start
void enumPaths( const Graph& gr, int step, uint32_t mask, uint32_t countmask, int maxcount, std::vector<const Redu*>& st, std::vector<int>& onpath, double w, int count, int root, std::vector<Path>& out, long& budget, double wlimit)
{
	if (--budget < 0) throw Discard();
	int cur = onpath.back();
	out.push_back( {cur,w,st,root,count});
	for (auto* r : gr.rm.visible( step, cur, mask))
	{
		if (std::find( onpath.begin(), onpath.end(), r->to) != onpath.end()) continue;
		int nc = count + ((countmask >> (r->tag-1)) & 1);
		if (nc > maxcount) continue;
		if (w + r->weight > wlimit) continue;
		st.push_back( r); onpath.push_back( r->to);
		enumPaths( gr, step, mask, countmask, maxcount, st, onpath, w + r->weight, nc, root, out, budget, wlimit);
		st.pop_back(); onpath.pop_back();
	}
}
// a long path or cycle through all types with few shortcuts, branches with many edges
void genLargeReductions( Gen& g, Db& db, Graph& gr, const std::vector<int>& tags, int& serial, double unit)
{
	size_t nt = gr.types.size();
	size_t ring = g.chance( 1,3) ? nt : nt > 3 ? nt - g.below( nt/2) : nt;	// the rest is not reachable or a leaf
	bool closed = g.chance( 3,4);
	double w = genWeight( g, unit);
	for (size_t i=0; i+1<ring; ++i) defRedu( g, db, gr, gr.types[i+1], gr.types[i], tags[0], g.chance( 1,5) ? genWeight( g, unit) : w, serial);
	if (closed && ring > 2) defRedu( g, db, gr, gr.types[0], gr.types[ring-1], tags[0], w, serial);
	int chords = g.small( 3);
	for (int i=0; i<chords; ++i)
	{
		size_t a = g.below( ring), b = g.below( ring);
		if (a != b) defRedu( g, db, gr, gr.types[b], gr.types[a], g.pick( tags), genWeight( g, unit), serial);
	}
	size_t hub = g.below( ring);
	if (g.flip()) for (size_t i=ring; i<nt; ++i) defRedu( g, db, gr, gr.types[i], gr.types[hub], g.pick( tags), genWeight( g, unit), serial);
}
void genReductions( Gen& g, Db& db, Graph& gr, const std::vector<int>& tags, int n, int& serial, double unit)
{
	int shape = (int)g.below( 4);
	for (int i=0; i<n; ++i)
	{
		if (g.chance( 1,3)) db.setScope( g.pick( gr.scopes));
		size_t nt = gr.types.size();
		size_t a, b;
		switch (shape)
		{
			case 0: a = g.below( nt); b = g.below( nt); break;
			case 1: a = g.below( nt); b = std::min( nt-1, a + 1 + g.below( 2)); break;		// forward, diamonds
			case 2: a = g.below( nt); b = (a+1) % nt; if (g.chance( 1,4)) b = g.below( nt); break;	// cycles with chords
			default: a = 1 + g.below( nt-1); b = g.below( a); if (g.chance( 1,5)) std::swap( a,b); break;
		}
		if (a == b) continue;
		defRedu( g, db, gr, gr.types[b], gr.types[a], g.pick( tags), genWeight( g, unit), serial);
	}
}
std::vector<std::pair<int,std::string>> pathOf( const Val& v)
{
	std::vector<std::pair<int,std::string>> rt;
	for (int i=1; i<=v.len(); ++i) rt.push_back( {(int)v.at( i)["type"].n, v.at( i)["constructor"].repr()});
	return rt;
}
std::string pathStr( const std::vector<std::pair<int,std::string>>& p) {std::string rt; for (auto& e : p) rt += fmt( " ->%d[%s]", e.first, e.second.c_str()); return rt;}
std::vector<std::pair<int,std::string>> pathOf( const Path& p)
{
	std::vector<std::pair<int,std::string>> rt;
	for (auto* r : p.steps) rt.push_back( {r->to, r->con.repr()});
	return rt;
}
void t04( Gen& g, Case& c)
{
	Lua L;
	Db db( L, "typedb", c);
	Graph gr; int serial = 0;
	gr.scopes = genScopes( g, 1 + g.size/12, 4 + g.size/4);
	bool large = g.chance( 1, 8);
	double unit = genUnit( g);
	makeTypes( g, db, gr, large ? g.range( 5, 8 + g.size) : g.range( 2, 3 + g.size/14), serial);
	std::vector<int> tags; int nt = g.range( 1,3);
	for (int i=0; i<nt; ++i) tags.push_back( g.range( 1,32));
	if (large) genLargeReductions( g, db, gr, tags, serial, unit);
	else genReductions( g, db, gr, tags, g.range( 1, 3 + (int)gr.types.size()*3), serial, unit);
	if (large) c.label( "large");
	int nq = g.range( 1, 6);
	bool found = false, ambiguous = false, limited = false;
	for (int q=0; q<nq; ++q)
	{
		if (g.chance( 2,3)) db.setStep( genStep( g, gr.scopes));
		int from = g.pick( gr.types), to = g.chance( 1,10) ? 0 : g.pick( gr.types);
		bool useMask = g.chance( 1,2), useCount = g.chance( 1,2), useMax = g.chance( 2,3);
		uint32_t mask = genMask( g, tags), cmask = genMask( g, tags);
		int maxc = g.pick( std::vector<int>{0,1,2,3,-1,100,20,60});
		std::vector<Val> args = {Val::num( to), Val::num( from)};
		if (useMask || useCount || useMax) args.push_back( useMask ? Val::num( mask) : Val());
		if (useCount || useMax) args.push_back( useCount ? Val::num( cmask) : Val());
		if (useMax) args.push_back( Val::num( maxc));
		if (!useMask) mask = 0xffffffffu;
		if (!useCount) cmask = 0;
		int limit = useMax ? (maxc == -1 ? INT_MAX : maxc) : 1;
		std::vector<Path> paths; std::vector<const Redu*> st; std::vector<int> on = {from};
		long budget = 4000;
		enumPaths( gr, db.step, mask, cmask, limit, st, on, 0, 0, 0, paths, budget, 1e30);
		double best = 1e30; std::vector<const Path*> bests; bool anyWithoutLimit = false;
		for (auto& p : paths) if (p.end == to)
		{
			if (p.w < best) {best = p.w; bests.clear();}
			if (p.w == best) bests.push_back( &p);
		}
		auto r = db.must( "derive_type", args);
		c.log( "derive_type(to %d, from %d, mask %s%08x, count %s%08x, max %s%d) at step %d -> %s | %s | %s", to, from, useMask ? "":"nil/", mask, useCount ? "":"nil/", cmask, useMax ? "":"nil/", maxc, db.step, r[0].repr().c_str(), r[1].repr().c_str(), r[2].repr().c_str());
		if (cmask && limit < 3) {limited = true; (void)anyWithoutLimit;}
		if (bests.empty())
		{
			if (!r[0].isNil()) fail( "derive-phantom", fmt( "derive_type(%d,%d) found %s where no path exists", to, from, r[0].repr().c_str()));
			continue;
		}
		if (r[0].t != Val::Tab) fail( "derive-missed", fmt( "derive_type(%d,%d) returned %s, a path of weight %g exists:%s", to, from, r[0].repr().c_str(), best, pathStr( pathOf( *bests[0])).c_str()));
		if (r[1].t != Val::Num || r[1].n != best) fail( "derive-weight", fmt( "derive_type(%d,%d) reports weight %s, the minimum is %g:%s", to, from, r[1].repr().c_str(), best, pathStr( pathOf( *bests[0])).c_str()));
		auto have = pathOf( r[0]);
		bool valid = false;
		for (auto* p : bests) if (pathOf( *p) == have) valid = true;
		if (!valid) fail( "derive-path", fmt( "derive_type(%d,%d) returned%s which is not one of the %zu cheapest paths, e.g.%s", to, from, pathStr( have).c_str(), bests.size(), pathStr( pathOf( *bests[0])).c_str()));
		if (bests.size() == 1 && !r[2].isNil()) fail( "derive-false-ambiguity", fmt( "derive_type(%d,%d) reports an alternative %s but the cheapest path is unique:%s", to, from, r[2].repr().c_str(), pathStr( have).c_str()));
		if (bests.size() > 1)
		{
			ambiguous = true;
			if (r[2].isNil()) fail( "derive-ambiguity-missed", fmt( "derive_type(%d,%d) reports no alternative but there are %zu cheapest paths:%s and%s", to, from, bests.size(), pathStr( pathOf( *bests[0])).c_str(), pathStr( pathOf( *bests[1])).c_str()));
			auto alt = intList( r[2]);
			bool altok = false;
			for (auto* p : bests)
			{
				std::vector<int> ts; for (auto* s : p->steps) ts.push_back( s->to);
				if (ts == alt && (pathOf( *p) != have || gr.multitag)) altok = true;
			}
			if (!altok) fail( "derive-alternative", fmt( "derive_type(%d,%d) reports the alternative %s that is no other cheapest path", to, from, r[2].repr().c_str()));
		}
		if (have.size() >= 2) found = true;
	}
	if (found) c.label( "path>=2");
	if (ambiguous) c.label( "ambiguous");
	if (limited) c.label( "limited");
	if (gr.hidden) c.label( "hiding");
	if (gr.multitag) c.label( "several-tags-same-scope");
	c.nontrivial( found || ambiguous);
}

// ------------------------------------------------------------------ T05
void t05( Gen& g, Case& c)
{
	Lua L;
	Db db( L, "typedb", c);
	Graph gr; int serial = 0;
	gr.scopes = genScopes( g, 1 + g.size/12, 4 + g.size/4);
	bool large = g.chance( 1, 8);
	double unit = genUnit( g);
	makeTypes( g, db, gr, large ? g.range( 5, 8 + g.size) : g.range( 2, 3 + g.size/14), serial);
	std::vector<int> tags; int nt = g.range( 1,3);
	for (int i=0; i<nt; ++i) tags.push_back( g.range( 1,32));
	if (large) genLargeReductions( g, db, gr, tags, serial, unit);
	else genReductions( g, db, gr, tags, g.range( 1, 3 + (int)gr.types.size()*2), serial, unit);
	if (large) c.label( "large");
	// members
	std::vector<std::string> names = {"m","n","o"};
	int nm = g.range( 1, 3 + g.size/8);
	bool dup = false;
	std::vector<int> base = gr.types;
	for (int i=0; i<nm; ++i)
	{
		db.setScope( g.pick( gr.scopes));
		int ctx = g.chance( 1,6) ? 0 : g.pick( base);
		const std::string& n = g.pick( names);
		if (g.chance( 1,8))
		{
			auto& e = gr.tm.tab[ {db.scope,ctx,n}];
			if (e.list.empty())
			{
				int h = g.pick( base);
				db.must( "def_type_as", {Val::num( ctx), Val::str( n), Val::num( h)});
				c.log( "def_type_as(%d,'%s',%d) in %s", ctx, n.c_str(), h, db.scope.str().c_str());
				e.list.push_back( h); e.alias = true;
			}
		}
		else
		{
			if (gr.tm.tab[ {db.scope,ctx,n}].alias) continue;
			defType( g, db, gr.tm, n, ctx, serial, 2, dup);
		}
	}
	// reductions to and from context 0
	if (g.chance( 1,3)) {db.setScope( g.pick( gr.scopes)); defRedu( g, db, gr, 0, g.pick( base), g.pick( tags), genWeight( g, unit), serial);}
	int nq = g.range( 1, 6);
	bool found = false, ambig = false, arr = false;
	for (int q=0; q<nq; ++q)
	{
		if (g.chance( 2,3)) db.setStep( genStep( g, gr.scopes));
		const std::string& n = g.pick( names);
		std::vector<int> roots; std::vector<Val> rootcon; std::vector<bool> pair;
		bool asList = g.chance( 1,2);
		int nr = asList ? g.range( 1, 4) : 1;
		std::vector<Val> list;
		for (int i=0; i<nr; ++i)
		{
			int t = g.chance( 1,8) ? 0 : g.pick( base);
			if (std::find( roots.begin(), roots.end(), t) != roots.end() && g.chance( 3,4)) continue;
			roots.push_back( t);
			bool isPair = t != 0 && g.flip();
			Val con;
			if (isPair) {con = genValue( g, serial); Val p = Val::table(); p.tab.push_back( {Val::str( "type"), Val::num( t)}); p.tab.push_back( {Val::str( "constructor"), con}); list.push_back( p);}
			else list.push_back( Val::num( t));
			rootcon.push_back( con); pair.push_back( isPair);
		}
		bool useMask = g.chance( 1,2);
		uint32_t mask = genMask( g, tags);
		std::vector<Val> args = {asList ? Val::array( list) : list[0], Val::str( n)};
		if (useMask) args.push_back( Val::num( mask)); else mask = 0xffffffffu;
		std::vector<Path> paths; long budget = 4000;
		std::vector<const Redu*> st;
		for (size_t i=0; i<roots.size(); ++i)
		{
			bool again = false;
			for (size_t k=0; k<i; ++k) if (roots[k] == roots[i]) again = true;
			if (again) continue;
			std::vector<int> on = {roots[i]};
			if (roots[i] == 0) paths.push_back( {0,0,{},(int)i,0});
			else enumPaths( gr, db.step, mask, 0, INT_MAX, st, on, 0, 0, (int)i, paths, budget, 1e30);
		}
		double best = 1e30; std::vector<const Path*> bests;
		for (auto& p : paths) if (auto* e = gr.tm.get( db.step, p.end, n))
		{
			(void)e;
			if (p.w < best) {best = p.w; bests.clear();}
			if (p.w == best) bests.push_back( &p);
		}
		auto r = db.must( "resolve_type", args);
		c.log( "resolve_type(%s,'%s',mask %s%08x) at step %d -> %s | %s | %s", args[0].repr().c_str(), n.c_str(), useMask ? "":"nil/", mask, db.step, r[0].repr().c_str(), r[1].repr().c_str(), r[2].repr().c_str());
		if (asList && roots.size() > 1) arr = true;
		if (bests.empty())
		{
			if (!r[0].isNil()) fail( "resolve-phantom", fmt( "resolve_type found %s where no context defining the name is reachable", r[0].repr().c_str()));
			continue;
		}
		if (r[0].isNil()) fail( "resolve-missed", fmt( "resolve_type found nothing, but context %d is reachable with weight %g", bests[0]->end, best));
		if (bests.size() > 1)
		{
			ambig = true;
			if (r[0].t != Val::Tab || r[0].len() != 2) fail( "resolve-ambiguity-missed", fmt( "resolve_type returned %s, but there are %zu cheapest paths, to %d and %d", r[0].repr().c_str(), bests.size(), bests[0]->end, bests[1]->end));
			std::multiset<int> ends; for (auto* p : bests) ends.insert( p->end);
			int a = (int)r[0].at(1).n, b = (int)r[0].at(2).n;
			if (!ends.count( a)) fail( "resolve-ambiguity", fmt( "conflicting context type %d is none of the cheapest", a));
			ends.erase( ends.find( a));
			if (!ends.count( b)) fail( "resolve-ambiguity", fmt( "conflicting context type %d is none of the cheapest", b));
			continue;
		}
		if (r[0].t != Val::Num) fail( "resolve-false-ambiguity", fmt( "resolve_type returned %s but the cheapest path is unique", r[0].repr().c_str()));
		const Path& p = *bests[0];
		if ((int)r[0].n != p.end) fail( "resolve-context", fmt( "resolve_type returned context %s, the nearest is %d", r[0].repr().c_str(), p.end));
		auto have = pathOf( r[1]); auto want = pathOf( p);
		if (asList && pair[ p.root]) want.insert( want.begin(), {roots[ p.root], rootcon[ p.root].repr()});
		else if (asList && have.size() == want.size()+1 && have[0].first == roots[ p.root]) have.erase( have.begin());	// element given as plain type
		if (have != want) fail( "resolve-path", fmt( "resolve_type returned the reductions%s, expected%s", pathStr( have).c_str(), pathStr( want).c_str()));
		auto items = intList( r[2]);
		auto* e = gr.tm.get( db.step, p.end, n);
		std::set<int> hs( items.begin(), items.end()), ws( e->list.begin(), e->list.end());
		if (e->alias) {if (!hs.count( e->list[0])) fail( "resolve-items", "synonym is missing in the items " + listStr( items));}
		else if (hs != ws || items.size() != e->list.size()) fail( "resolve-items", fmt( "resolve_type returned the items %s, expected %s", listStr( items).c_str(), listStr( e->list).c_str()));
		if (!p.steps.empty()) found = true;
	}
	if (found) c.label( "path>=1");
	if (ambig) c.label( "ambiguous");
	if (arr) c.label( "several-roots");
	c.nontrivial( found || ambig);
}

// ------------------------------------------------------------------ T06
struct TreeNode { Sc scope; Val value; std::vector<TreeNode> chld; };
TreeNode treeFromVal( const Val& v)
{
	TreeNode rt;
	rt.scope.s = (int)v["scope"].at( 1).n; rt.scope.e = (int)v["scope"].at( 2).n;
	rt.value = v["value"];
	const Val& ch = v["chld"];
	for (int i=1; i<=ch.len(); ++i) rt.chld.push_back( treeFromVal( ch.at( i)));
	return rt;
}
void collect( const TreeNode& n, std::vector<const TreeNode*>& out, int depth = 0)
{
	if (depth > 200) fail( "tree-depth", "tree is deeper than the scopes defined");
	out.push_back( &n);
	for (auto& c : n.chld)
	{
		if (c.scope.s < n.scope.s || c.scope.e > n.scope.e) fail( "tree-nesting", fmt( "scope %s of a tree node is not contained in the scope %s of its parent", c.scope.str().c_str(), n.scope.str().c_str()));
		collect( c, out, depth+1);
	}
	for (size_t i=0; i<n.chld.size(); ++i) for (size_t k=i+1; k<n.chld.size(); ++k)
	{
		const Sc &a = n.chld[i].scope, &b = n.chld[k].scope;
		if (a.s < b.e && b.s < a.e) fail( "tree-siblings", fmt( "sibling scopes %s and %s overlap", a.str().c_str(), b.str().c_str()));
	}
}
const char* walkSource =
	"local budget = ...\n"
	"function walk( node, get)\n"
	"  __n = __n + 1\n"
	"  if __n > __max then error( 'more tree nodes than scopes (' .. __max .. ')', 0) end\n"
	"  local rt = {scope = node:scope(), chld = {}}\n"
	"  rt.value = get( node)\n"
	"  for chld in node:chld() do table.insert( rt.chld, walk( chld, get)) end\n"
	"  return rt\n"
	"end\n";
const char* listGetter = "local l = {}; for x in n:list() do table.insert( l, x); if #l > 100000 then error('list iterator does not end') end end; return l";
TreeNode getTree( Lua& L, const std::string& expr, const char* getter, int maxNodes)
{
	auto r = L.exec( fmt( "__n = 0; __max = %d; return walk( %s, function( n) %s end)", maxNodes, expr.c_str(), getter));
	if (!r.ok) fail( "tree-error", expr + ": " + r.error);
	return treeFromVal( r[0]);
}
void t06( Gen& g, Case& c)
{
	Lua L;
	auto l = L.exec( walkSource);
	if (!l.ok) fail( "harness", l.error);
	Db db( L, "typedb", c);
	Graph gr; int serial = 0;
	gr.scopes = genScopes( g, 1 + g.size/8, 4 + g.size/2);
	makeTypes( g, db, gr, g.range( 2, 5), serial);
	std::vector<int> tags = {1,2,3};
	std::vector<std::string> names = {"a","b","c"};
	InstModel im; bool dup = false;
	int nops = g.range( 1, 5 + g.size/2);
	std::vector<int> base = gr.types;
	for (int i=0; i<nops; ++i)
	{
		if (g.chance( 2,3)) db.setScope( g.pick( gr.scopes));
		switch (g.below( 3))
		{
			case 0: {const auto& n = g.pick( names); Val v = genValue( g, serial); db.must( "set_instance", {Val::str( n), v}); c.log( "set_instance('%s',%s) in %s", n.c_str(), v.repr().c_str(), db.scope.str().c_str()); im.m[n][db.scope] = v; break;}
			case 1: defType( g, db, gr.tm, g.pick( names), g.chance( 1,2) ? 0 : g.pick( base), serial, 2, dup); break;
			default: {int a = g.pick( base), b = g.pick( base); if (a != b) defRedu( g, db, gr, a, b, g.pick( tags), genWeight( g), serial); break;}
		}
	}
	int maxn = (int)gr.scopes.size() + 2;
	// instances
	for (auto& n : names)
	{
		if (!im.m.count( n)) continue;
		TreeNode root = getTree( L, fmt( "typedb:instance_tree('%s')", n.c_str()), "return n:instance()", maxn);
		std::vector<const TreeNode*> nodes; collect( root, nodes);
		std::map<Sc,std::string> have, want;
		for (auto* nd : nodes)
		{
			if (nd->value.isNil()) continue;
			if (!have.insert( {nd->scope,nd->value.repr()}).second) fail( "tree-twice", fmt( "instance_tree has scope %s twice", nd->scope.str().c_str()));
		}
		for (auto& e : im.m[n]) want[ e.first] = e.second.repr();
		if (have != want)
		{
			std::string hs, ws; for (auto& e : have) hs += e.first.str() + "=" + e.second + " "; for (auto& e : want) ws += e.first.str() + "=" + e.second + " ";
			fail( "instance_tree", fmt( "instance_tree('%s') has [ %s], expected [ %s]", n.c_str(), hs.c_str(), ws.c_str()));
		}
		if (nodes.size() >= 4) c.label( "instance-nodes>=4");
	}
	// types
	{
		TreeNode root = getTree( L, "typedb:type_tree()", listGetter, maxn);
		std::vector<const TreeNode*> nodes; collect( root, nodes);
		std::multiset<std::string> have, want;
		std::set<Sc> seen;
		for (auto* nd : nodes)
		{
			if (!seen.insert( nd->scope).second) fail( "tree-twice", fmt( "type_tree has scope %s twice", nd->scope.str().c_str()));
			for (int h : intList( nd->value)) have.insert( fmt( "%s:%d", nd->scope.str().c_str(), h));
		}
		for (auto& t : gr.tm.types) want.insert( fmt( "%s:%d", t.second.scope.str().c_str(), t.first));
		if (have != want)
		{
			std::string hs, ws; for (auto& e : have) hs += e + " "; for (auto& e : want) ws += e + " ";
			fail( "type_tree", fmt( "type_tree has [ %s], expected [ %s]", hs.c_str(), ws.c_str()));
		}
	}
	// reductions
	{
		TreeNode root = getTree( L, "typedb:reduction_tree()", listGetter, maxn);
		std::vector<const TreeNode*> nodes; collect( root, nodes);
		std::multiset<std::string> have, want;
		std::set<Sc> seen;
		for (auto* nd : nodes)
		{
			if (!seen.insert( nd->scope).second) fail( "tree-twice", fmt( "reduction_tree has scope %s twice", nd->scope.str().c_str()));
			for (int i=1; i<=nd->value.len(); ++i)
			{
				const Val& e = nd->value.at( i);
				have.insert( fmt( "%s: %g<-%g %s tag %g weight %g", nd->scope.str().c_str(), e["to"].n, e["from"].n, e["constructor"].repr().c_str(), e["tag"].n, e["weight"].n));
			}
		}
		for (auto& r : gr.rm.list) want.insert( fmt( "%s: %g<-%g %s tag %g weight %g", r.scope.str().c_str(), (double)r.to, (double)r.from, r.con.repr().c_str(), (double)r.tag, r.weight));
		if (have != want)
		{
			std::string hs, ws; for (auto& e : have) hs += "\n  " + e; for (auto& e : want) ws += "\n  " + e;
			fail( "reduction_tree", fmt( "reduction_tree has %s\nexpected %s", hs.c_str(), ws.c_str()));
		}
	}
	std::set<Sc> used; for (auto& t : gr.tm.types) used.insert( t.second.scope); for (auto& r : gr.rm.list) used.insert( r.scope);
	c.nontrivial( used.size() >= 3);
}

// ------------------------------------------------------------------ T07
std::string genName( Gen& g, const std::vector<std::string>& have, bool large)
{
	std::string n;
	switch (g.weighted( {4,3,3,2,2,large ? 2 : 0}))
	{
		case 0: n = g.text( "ab", g.range( 0, 6)); break;
		case 1: n = g.bytes( g.range( 1, 4)); break;
		case 2: if (!have.empty()) {n = g.pick( have); int k = (int)g.below( 4); if (k == 0) n += g.text( "ab\0" "c", 1); else if (k == 1 && !n.empty()) n.pop_back(); else if (k == 2 && !n.empty()) n[ g.below( n.size())] ^= (char)(1 << g.below( 8)); else n += '\0'; break;} // fallthrough
		case 3: n = g.text( "abc", 1) + std::string( g.range( 0,3), '\0') + g.text( "ab", g.range( 0,2)); break;
		case 4: n = std::string( g.range( 7, 300), (char)('a' + g.below( 2))) + g.text( "ab", g.range( 0,2)); break;
		default: n = std::string( g.pick( std::vector<int>{4095,4096,32767,32768,65528,65530,65531,65535,65536,65537,65540,70000,131072}) + g.range( 0,3), 'x') + g.text( "ab", g.range( 0,2));
	}
	return n;
}
void t07( Gen& g, Case& c)
{
	Lua L;
	int ndb = g.range( 1,3);
	std::vector<Db> dbs;
	for (int i=0; i<ndb; ++i) dbs.emplace_back( L, fmt( "db%d", i), c);
	int nn = g.range( 2, 5 + g.size);
	std::vector<std::string> names; std::set<std::string> uniq;
	bool longname = false, prefix = false;
	for (int i=0; i<nn; ++i)
	{
		std::string n = genName( g, names, g.size > 25);
		if (uniq.insert( n).second) names.push_back( n);
		if (n.size() > 4000) longname = true;
		if (n.find( '\0') != std::string::npos) prefix = true;
	}
	std::vector<std::map<std::string,int>> inst( ndb), types( ndb);
	std::vector<std::map<int,std::string>> handles( ndb);
	int serial = 0;
	int nops = g.range( 2, 5 + 2*g.size);
	for (int i=0; i<nops; ++i)
	{
		int d = (int)g.below( ndb);
		const std::string& n = g.pick( names);
		if (g.flip())
		{
			dbs[d].must( "set_instance", {Val::str( n), Val::num( ++serial)});
			inst[d][n] = serial;
			c.log( "db%d:set_instance(%s,%d)", d, quote( n, 40).c_str(), serial);
		}
		else
		{
			auto r = dbs[d].must( "def_type", {Val::num( 0), Val::str( n), Val::num( ++serial)});
			bool known = types[d].count( n);
			c.log( "db%d:def_type(0,%s) -> %s", d, quote( n, 40).c_str(), r[0].repr().c_str());
			if (known != (r[0].n == -1)) fail( "name-confused", fmt( "def_type of the %s name %s returned %s", known ? "existing" : "new", quote( n, 60).c_str(), r[0].repr().c_str()));
			if (!known) {types[d][n] = (int)r[0].n; handles[d][ (int)r[0].n] = n;}
		}
	}
	for (int d=0; d<ndb; ++d)
	{
		for (auto& n : names)
		{
			auto r = dbs[d].must( "get_instance", {Val::str( n)});
			auto i = inst[d].find( n);
			if (i == inst[d].end() ? !r[0].isNil() : (r[0].n != i->second)) fail( "instance-name", fmt( "db%d:get_instance(%s) is %s, expected %s", d, quote( n, 60).c_str(), r[0].repr().c_str(), i == inst[d].end() ? "nil" : fmt( "%d", i->second).c_str()));
			r = dbs[d].must( "this_type", {Val::num( 0), Val::str( n)});
			auto t = types[d].find( n);
			if (t == types[d].end() ? !r[0].isNil() : (r[0].n != t->second)) fail( "type-name", fmt( "db%d:this_type(%s) is %s, expected %s", d, quote( n, 60).c_str(), r[0].repr().c_str(), t == types[d].end() ? "nil" : fmt( "%d", t->second).c_str()));
		}
		for (auto& h : handles[d])
		{
			auto r = dbs[d].must( "type_name", {Val::num( h.first)});
			if (r[0].t != Val::Str || r[0].s != h.second) fail( "type_name", fmt( "type_name(%d) is %s, defined was %s", h.first, quote( r[0].s, 60).c_str(), quote( h.second, 60).c_str()));
			r = dbs[d].must( "type_string", {Val::num( h.first)});
			if (r[0].t != Val::Str || r[0].s != h.second) fail( "type_string", fmt( "type_string(%d) is %s, defined was %s", h.first, quote( r[0].s, 60).c_str(), quote( h.second, 60).c_str()));
		}
	}
	if (longname) c.label( "name>4000 bytes");
	if (prefix) c.label( "zero-byte");
	if (ndb > 1) c.label( "several-databases");
	c.nontrivial( types[0].size() >= 3 && (longname || prefix || ndb > 1));
}
void t07many( Gen& g, Case& c)
{
	// masses of generated names, checked against numbering
	Lua L;
	int n = 1000 + (int)g.below( 200) * g.size;
	int mode = (int)g.below( 5);
	int len = g.range( 1, 40);
	c.log( "%d names, mode %d, length %d", n, mode, len);
	c.key( fmt( "%d %d %d", n, mode, len));
	auto r = L.exec( fmt(
		"local db = mewa.typedb()\n"
		"local mode, len, n = %d, %d, %d\n"
		"local function name( i)\n"
		"  if mode == 0 then return tostring( i)\n"
		"  elseif mode == 1 then return string.rep( 'x', len) .. i\n"
		"  elseif mode == 2 then return i .. string.rep( '\\0', len)\n"
		"  elseif mode == 3 then return string.char( i %% 256, math.floor( i / 256) %% 256, math.floor( i / 65536) %% 256)\n"
		"  else return string.rep( 'a', i %% 97) .. '_' .. i end\n"
		"end\n"
		"local h = {}\n"
		"for i=1,n do h[i] = db:def_type( 0, name(i), i); if h[i] <= 0 then error( 'def_type of a new name #' .. i .. ' returned ' .. h[i], 0) end; db:set_instance( name(i), i) end\n"
		"for i=1,n do\n"
		"  if db:type_name( h[i]) ~= name(i) then error( 'type_name of #' .. i .. ' is wrong', 0) end\n"
		"  if db:this_type( 0, name(i)) ~= h[i] then error( 'this_type of #' .. i .. ' is wrong', 0) end\n"
		"  if db:get_instance( name(i)) ~= i then error( 'get_instance of #' .. i .. ' is wrong', 0) end\n"
		"  if db:type_constructor( h[i]) ~= i then error( 'type_constructor of #' .. i .. ' is wrong', 0) end\n"
		"  if i %% 50 == 0 and db:def_type( 0, name(i), i) ~= -1 then error( 'def_type of existing name #' .. i .. ' is not refused', 0) end\n"
		"end\n"
		"if db:get_instance( 'not defined') ~= nil then error( 'undefined name found', 0) end\n", mode, len, n));
	if (!r.ok) fail( "many-names", r.error);
	c.nontrivial();
	c.count( "names", n);
}

Register r01( Property{ "T01", "random histories of scope/step/set_instance/get_instance/this_instance over random properly nested scopes, every answer compared with a map model and a full sweep over all scope borders at the end; non-trivial = a name is defined in two scopes of which one encloses the other",
	{{"history", t01, 12000, 250000, 20}}, {"scopes used are properly nested, as scopes of AST nodes are"}});
Register r02( Property{ "T02", "random histories of def_type/def_type_as over nested scopes, contexts, names and parameter lists, compared with a model of overload lists, all attributes of all types re-read at the end; non-trivial = overloads exist and a duplicate was tried or several scopes were used",
	{{"history", t02, 6000, 150000, 20}}, {}});
Register r03( Property{ "T03", "random histories of def_reduction with tags, weights, scopes (also refused ones) compared with a list model for all types, steps at all scope borders and random tag masks; non-trivial = a reduction hides another one or two tags compete in one scope",
	{{"history", t03, 5000, 120000, 20}}, {"two reductions of the same types and scope but different selected tags are both reported"}});
Register r04( Property{ "T04", "random reduction graphs (arbitrary, forward with shortcuts, cyclic, tree with back edges) with weights in 1/16 steps, tags, nested scopes; oracle = exhaustive enumeration of all simple paths; non-trivial = a path of at least two reductions or an ambiguous result was expected",
	{{"graph", t04, 12000, 250000, 20}}, {"weights are multiples of a power of two (1/16, 1/1024, 1/65536 or 8) so that float sums are exact","graphs with more than 4000 simple paths per query are discarded"}});
Register r05( Property{ "T05", "random reduction graphs with members, synonyms and hidden definitions, single and list queries; oracle = exhaustive enumeration of simple paths from all roots; non-trivial = a result over at least one reduction or an ambiguous result was expected",
	{{"graph", t05, 12000, 250000, 20}}, {"weights are multiples of a power of two"}});
Register r06( Property{ "T06", "random histories of set_instance/def_type/def_reduction over nested scopes, the three trees walked completely through the Lua iterators and compared as multisets; non-trivial = definitions in at least 3 scopes",
	{{"history", t06, 4000, 80000, 20}}, {"synonyms (def_type_as) and refused duplicates are not part of the compared trees"}});
Register r07( Property{ "T07", "sets of similar names (prefixes, single bit differences, zero bytes, lengths around powers of two up to 131074 bytes) used in 1..3 interleaved databases, plus cases with 1000..21000 generated names; non-trivial = at least 3 types and a long name, zero bytes or several databases",
	{{"names", t07, 4000, 60000, 20}, {"many", t07many, 60, 1500, 60}}, {}});

} // namespace
