// Choice-sequence property-based testing engine.
// Every generated case is a pure function of a sequence of bounded integer choices.
// The engine records that sequence, so that a failing case can be replayed and
// shrunk (delete / zero / minimize choices) without per-type shrinkers.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <functional>
#include <initializer_list>
#include <algorithm>

namespace pbt {

struct Fail { std::string sig; std::string msg; };
struct Discard {};

std::string fmt( const char* f, ...) __attribute__((format(printf,1,2)));
[[noreturn]] void fail( const std::string& sig, const std::string& msg);
std::string quote( std::string_view s, size_t maxlen = 200);
uint64_t hash64( std::string_view s, uint64_t seed = 0x9E3779B97F4A7C15ull);
inline uint64_t mix64( uint64_t x)
{
	x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31);
}

enum { MaxChoices = 1<<20 };

struct ChoiceBuf		// lives in shared memory, survives a crash of the worker
{
	volatile uint64_t n;
	volatile uint64_t overflow;
	uint64_t v[ MaxChoices];
};

class Gen
{
public:
	// Random mode
	Gen( uint64_t seed, int size_, ChoiceBuf* rec_) :size(size_),m_state(seed),m_rec(rec_),m_replay(nullptr),m_bytes(nullptr),m_pos(0){m_rec->n=0; m_rec->overflow=0;}
	// Replay mode
	Gen( const std::vector<uint64_t>& replay, int size_, ChoiceBuf* rec_) :size(size_),m_state(0),m_rec(rec_),m_replay(&replay),m_bytes(nullptr),m_pos(0){m_rec->n=0; m_rec->overflow=0;}
	// Byte mode (coverage guided fuzzing)
	Gen( const uint8_t* data, size_t len, int size_, ChoiceBuf* rec_) :size(size_),m_state(0),m_rec(rec_),m_replay(nullptr),m_bytes(data),m_nbytes(len),m_pos(0){m_rec->n=0; m_rec->overflow=0;}

	int size;		// 1..100, how large structures may get

	uint64_t below( uint64_t n);			// uniform in [0,n)
	int range( int lo, int hi)			{return lo + (int)below( (uint64_t)((int64_t)hi - lo + 1));}	// shrinks to lo
	bool chance( int num, int den)			{return below( den) >= (uint64_t)(den-num);}	// shrinks to false
	bool flip()					{return below( 2);}
	size_t weighted( std::initializer_list<int> w);	// shrinks to 0
	template <class C> const typename C::value_type& pick( const C& c) {return c[ below( c.size())];}
	int small( int hi);				// 0..hi, skewed to small values
	std::string bytes( int n);			// arbitrary bytes
	std::string text( std::string_view alphabet, int n);
	bool exhausted() const				{return m_replay ? m_pos >= m_replay->size() : m_bytes ? m_pos >= m_nbytes : false;}
	uint64_t consumed() const			{return m_rec->n;}

private:
	uint64_t next() {uint64_t z = (m_state += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);}
	uint64_t m_state;
	ChoiceBuf* m_rec;
	const std::vector<uint64_t>* m_replay;
	const uint8_t* m_bytes;
	size_t m_nbytes = 0;
	size_t m_pos;
};

// Per case context: log = rendered case, labels = distribution, nontrivial = counted by the rule of the property
class Case
{
public:
	void log( const char* f, ...) __attribute__((format(printf,2,3)));
	void logs( const std::string& s);
	void label( const std::string& l)		{labels.insert( l);}
	void nontrivial( bool v = true)			{if (v) isNontrivial = true;}
	void key( std::string_view s)			{hash = hash64( s, hash);}
	void count( const std::string& name, long n=1)	{counters[ name] += n;}

	std::string tmpdir;				// scratch directory of this worker, emptied by nobody but reused
	std::set<std::string> labels;
	std::map<std::string,long> counters;
	bool isNontrivial = false;
	uint64_t hash = 0x1234567;
	std::string m_log;
	FILE* sink = nullptr;
};

struct Kind
{
	std::string name;
	void (*fn)( Gen&, Case&);
	int quick;			// number of cases quick tier
	int thorough;			// number of cases thorough tier
	int cpuLimit;			// CPU seconds a single case may use before it counts as non terminating
};

struct Property
{
	std::string id;
	std::string rule;
	std::vector<Kind> kinds;
	std::vector<std::string> assumptions;
};

std::vector<Property>& registry();
struct Register { Register( Property p) {registry().push_back( std::move(p));} };

} // namespace
