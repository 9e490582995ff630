#include "engine.hpp"
#include <cstdarg>
#include <cmath>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unordered_set>
#include <fstream>
#include <iostream>
#include <exception>
#include <stdexcept>

using namespace pbt;

extern "C" __attribute__((used, visibility("default"))) const char* __asan_default_options()
{
	return "detect_leaks=0:exitcode=99:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:handle_abort=1:allocator_may_return_null=0:malloc_context_size=8:quarantine_size_mb=8:max_allocation_size_mb=4000";
}
extern "C" __attribute__((used, visibility("default"))) const char* __ubsan_default_options()
{
	return "print_stacktrace=1:halt_on_error=1";
}

std::string pbt::fmt( const char* f, ...)
{
	va_list ap; va_start( ap, f);
	va_list ap2; va_copy( ap2, ap);
	int n = vsnprintf( nullptr, 0, f, ap);
	va_end( ap);
	std::string rt( n+1, 0);
	vsnprintf( &rt[0], n+1, f, ap2);
	va_end( ap2);
	rt.resize( n);
	return rt;
}
void pbt::fail( const std::string& sig, const std::string& msg) { throw Fail{sig,msg}; }

std::string pbt::quote( std::string_view s, size_t maxlen)
{
	std::string rt = "\"";
	size_t i = 0;
	for (; i<s.size() && i<maxlen; ++i)
	{
		unsigned char c = s[i];
		if (c == '"' || c == '\\') {rt += '\\'; rt += c;}
		else if (c == '\n') rt += "\\n";
		else if (c < 32 || c >= 127) rt += fmt( "\\x%02X", c);
		else rt += c;
	}
	rt += "\"";
	if (i < s.size()) rt += fmt( "...(%zu bytes)", s.size());
	return rt;
}
uint64_t pbt::hash64( std::string_view s, uint64_t seed)
{
	uint64_t h = seed ^ (s.size() * 0xff51afd7ed558ccdull);
	for (unsigned char c : s) {h ^= c; h *= 0x100000001b3ull; h ^= h >> 29;}
	return mix64( h);
}

uint64_t Gen::below( uint64_t n)
{
	if (n == 0) n = 1;
	uint64_t v;
	if (m_replay)
	{
		v = m_pos < m_replay->size() ? (*m_replay)[ m_pos] : 0;
		if (v >= n) v = n-1;
		++m_pos;
	}
	else if (m_bytes)
	{
		v = 0;
		uint64_t m = n-1;
		while (m)
		{
			v = (v << 8) | (m_pos < m_nbytes ? m_bytes[ m_pos] : 0);
			++m_pos;
			m >>= 8;
		}
		v %= n;
	}
	else
	{
		v = n == 1 ? 0 : next() % n;
	}
	if (m_rec->n < MaxChoices) {m_rec->v[ m_rec->n] = v; m_rec->n = m_rec->n + 1;} else {m_rec->overflow = 1; throw Discard();}
	return v;
}
size_t Gen::weighted( std::initializer_list<int> w)
{
	int sum = 0;
	for (int x : w) sum += x;
	int v = (int)below( sum);
	size_t i = 0;
	for (int x : w) {if (v < x) return i; v -= x; ++i;}
	return w.size()-1;
}
int Gen::small( int hi)
{
	if (hi <= 0) return 0;
	switch (below( 3))
	{
		case 0: return (int)below( std::min( hi,2)+1);
		case 1: return (int)below( std::min( hi,8)+1);
		default: return (int)below( hi+1);
	}
}
std::string Gen::bytes( int n)
{
	std::string rt;
	for (int i=0; i<n; ++i) rt += (char)below( 256);
	return rt;
}
std::string Gen::text( std::string_view alphabet, int n)
{
	std::string rt;
	for (int i=0; i<n; ++i) rt += alphabet[ below( alphabet.size())];
	return rt;
}
void Case::logs( const std::string& s)
{
	if (sink) {fwrite( s.data(), 1, s.size(), sink); fputc( '\n', sink); fflush( sink);}
	if (m_log.size() < (1u<<22)) {m_log += s; m_log += '\n';}
}
void Case::log( const char* f, ...)
{
	if (m_log.size() >= (1u<<22)) return;
	char buf[ 4096];
	va_list ap; va_start( ap, f);
	vsnprintf( buf, sizeof buf, f, ap);
	va_end( ap);
	logs( buf);
}
std::vector<Property>& pbt::registry() { static std::vector<Property> r; return r; }

// ---------------------------------------------------------------------------------------------

static double now()
{
	struct timespec ts; clock_gettime( CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec*1e-9;
}
static long residentMB()
{
	long total = 0, res = 0;
	FILE* f = fopen( "/proc/self/statm", "r");
	if (f) {if (fscanf( f, "%ld %ld", &total, &res) != 2) res = 0; fclose( f);}
	return res / 256;
}
static double cpuOf( pid_t pid)
{
	clockid_t c;
	if (clock_getcpuclockid( pid, &c)) return -1;
	struct timespec ts;
	if (clock_gettime( c, &ts)) return -1;
	return ts.tv_sec + ts.tv_nsec*1e-9;
}

enum { MaxMsg = 1<<16, MaxSig = 256 };
struct Shm
{
	volatile uint64_t seq;			// increments with every case started
	volatile uint32_t kind;
	volatile uint32_t size;
	volatile uint64_t idx;
	volatile uint64_t next[ 32];		// next case index per kind of the worker, to resume
	volatile int failed;			// 1 = oracle failure recorded
	volatile int discarded;
	char sig[ MaxSig];
	char msg[ MaxMsg];
	ChoiceBuf choices;
};

static Shm* newShm()
{
	void* p = mmap( nullptr, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) {perror( "mmap"); exit( 1);}
	return (Shm*)p;
}

static std::string g_tmproot;

static std::set<std::string> g_known;		// signatures of known findings of this property
struct KnownInfo {std::string sig; std::string text;};
static std::vector<KnownInfo> g_knownInfo;

static bool runCaseBody( const Kind& k, Gen& g, Case& c, Shm* shm)
{
	try
	{
		k.fn( g, c);
		return true;
	}
	catch (const Discard&) {shm->discarded = 1; return true;}
	catch (const Fail& f)
	{
		snprintf( shm->sig, MaxSig, "%s", f.sig.c_str());
		snprintf( shm->msg, MaxMsg, "%s", f.msg.c_str());
	}
	catch (const std::exception& e)
	{
		snprintf( shm->sig, MaxSig, "cpp-exception");
		snprintf( shm->msg, MaxMsg, "C++ exception escaped: %s", e.what());
	}
	shm->failed = 1;
	return false;
}

struct Failure
{
	int kind = -1; int size = 0; std::string sig, msg; std::vector<uint64_t> choices; bool valid = false;
};

static std::string readTail( const std::string& path, size_t maxlen = 12000)
{
	std::ifstream f( path, std::ios::binary);
	std::stringstream ss; ss << f.rdbuf();
	std::string s = ss.str();
	size_t p = s.find( "ERROR: AddressSanitizer");
	if (p == std::string::npos) p = s.find( "runtime error:");
	if (p != std::string::npos) {p = s.rfind( '\n', p); s = s.substr( p == std::string::npos ? 0 : p);}
	else if (s.size() > maxlen) s = s.substr( s.size()-maxlen);
	return s.substr( 0, maxlen);
}

static void redirectStd( const std::string& path)
{
	int fd = open( path.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0600);
	if (fd >= 0) {dup2( fd, 1); dup2( fd, 2); if (fd > 2) close( fd);}
	int nul = open( "/dev/null", O_RDONLY);
	if (nul >= 0) {dup2( nul, 0); if (nul > 2) close( nul);}
}

static std::string crashSig( int status, const std::string& log)
{
	size_t p = log.find( "ERROR: AddressSanitizer: ");
	if (p != std::string::npos)
	{
		p += 25; size_t e = log.find_first_of( " \n:", p);
		return "crash:asan-" + log.substr( p, e-p);
	}
	p = log.find( "runtime error: ");
	if (p != std::string::npos) return "crash:ubsan";
	if (WIFSIGNALED( status)) return fmt( "crash:signal-%d", WTERMSIG( status));
	return fmt( "crash:exit-%d", WEXITSTATUS( status));
}

// Run one candidate in a forked child
static Failure runIsolated( const Property& prop, int kind, int size, const std::vector<uint64_t>& choices, Shm* shm, std::string* caselog = nullptr)
{
	Failure rt;
	const Kind& k = prop.kinds[ kind];
	std::string log = g_tmproot + "/iso.log";
	std::string clog = g_tmproot + "/iso.case";
	shm->failed = 0; shm->discarded = 0; shm->choices.n = 0;
	unlink( clog.c_str());
	pid_t pid = fork();
	if (pid == 0)
	{
		redirectStd( log);
		Gen g( choices, size, &shm->choices);
		Case c;
		c.tmpdir = g_tmproot + "/iso";
		if (caselog) c.sink = fopen( clog.c_str(), "w");
		mkdir( c.tmpdir.c_str(), 0700);
		bool ok = runCaseBody( k, g, c, shm);
		_exit( ok ? 0 : 42);
	}
	int status = 0;
	bool hang = false;
	for (;;)
	{
		pid_t r = waitpid( pid, &status, WNOHANG);
		if (r == pid) break;
		double c = cpuOf( pid);
		if (c > k.cpuLimit) {kill( pid, SIGKILL); waitpid( pid, &status, 0); hang = true; break;}
		usleep( 500);
	}
	if (hang) {rt.valid = true; rt.sig = "hang"; rt.msg = fmt( "case used more than %d s CPU time without terminating", k.cpuLimit);}
	else if (WIFEXITED( status) && WEXITSTATUS( status) == 0) {}
	else if (WIFEXITED( status) && WEXITSTATUS( status) == 42 && shm->failed) {rt.valid = true; rt.sig = shm->sig; rt.msg = shm->msg;}
	else {std::string t = readTail( log); rt.valid = true; rt.sig = crashSig( status, t); rt.msg = "process died: " + rt.sig + "\n" + t;}
	if (rt.valid)
	{
		rt.kind = kind; rt.size = size;
		rt.choices.assign( shm->choices.v, shm->choices.v + shm->choices.n);
	}
	if (caselog)
	{
		std::ifstream f( clog); std::stringstream ss; ss << f.rdbuf(); *caselog = ss.str();
	}
	return rt;
}

static bool sameClass( const Failure& a, const Failure& b)
{
	if (a.sig == b.sig) return true;
	return a.sig.compare( 0, 5, "crash") == 0 && b.sig.compare( 0, 5, "crash") == 0;
}

static Failure shrink( const Property& prop, Failure f, Shm* shm, double budget, int& steps)
{
	double t0 = now();
	double lim = budget;
	steps = 0;
	if (f.sig == "hang") lim = std::max( lim, 4.0*prop.kinds[ f.kind].cpuLimit);
	auto attempt = [&]( const std::vector<uint64_t>& ch) -> bool
	{
		if (now() - t0 > lim) return false;
		++steps;
		Failure r = runIsolated( prop, f.kind, f.size, ch, shm);
		if (r.valid && sameClass( r, f))
		{
			// accept only if not larger (shortlex on what has been really consumed)
			if (r.choices.size() < f.choices.size() || (r.choices.size() == f.choices.size() && r.choices < f.choices))
			{
				f.choices = r.choices; f.msg = r.msg; f.sig = r.sig; return true;
			}
		}
		return false;
	};
	bool progress = true;
	while (progress && now() - t0 < lim)
	{
		progress = false;
		// delete chunks
		for (size_t len = std::max<size_t>( 1, f.choices.size()/2); len >= 1 && now()-t0 < lim; len = len/2)
		{
			size_t pos = f.choices.size() > len ? f.choices.size()-len : 0;
			for (;;)
			{
				if (f.choices.size() >= len && pos + len <= f.choices.size())
				{
					std::vector<uint64_t> ch( f.choices.begin(), f.choices.begin()+pos);
					ch.insert( ch.end(), f.choices.begin()+pos+len, f.choices.end());
					if (attempt( ch)) progress = true;
				}
				if (pos == 0 || now()-t0 >= lim) break;
				pos = pos > len ? pos-len : 0;
				if (pos + len > f.choices.size()) pos = f.choices.size() > len ? f.choices.size()-len : 0;
			}
		}
		// delete a chunk and decrement a preceding choice (list length)
		if (f.choices.size() < 400)
		for (size_t i=0; i<f.choices.size() && now()-t0 < lim; ++i)
		{
			if (f.choices[i] == 0) continue;
			for (size_t len = 1; len <= 12 && i+1+len <= f.choices.size(); ++len)
			{
				std::vector<uint64_t> ch( f.choices);
				ch[i] -= 1;
				ch.erase( ch.begin()+i+1, ch.begin()+i+1+len);
				if (attempt( ch)) {progress = true; break;}
			}
		}
		// zero chunks
		for (size_t len = 8; len >= 1; len /= 2)
		for (size_t pos = 0; pos + len <= f.choices.size() && now()-t0 < lim; pos += len)
		{
			bool allz = true;
			for (size_t i=0; i<len; ++i) if (f.choices[ pos+i]) allz = false;
			if (allz) continue;
			std::vector<uint64_t> ch( f.choices);
			for (size_t i=0; i<len; ++i) ch[ pos+i] = 0;
			if (attempt( ch)) progress = true;
		}
		// minimize single values
		for (size_t i=0; i<f.choices.size() && now()-t0 < lim; ++i)
		{
			uint64_t lo = 0, hi = f.choices[i];
			while (lo < hi && now()-t0 < lim && i < f.choices.size())
			{
				uint64_t mid = lo + (hi-lo)/2;
				std::vector<uint64_t> ch( f.choices);
				ch[i] = mid;
				if (attempt( ch)) {progress = true; hi = i < f.choices.size() ? std::min( mid, f.choices[i]) : 0;}
				else lo = mid+1;
			}
		}
	}
	return f;
}

static std::string jsonStr( const std::string& s)
{
	std::string rt = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') {rt += '\\'; rt += c;}
		else if (c == '\n') rt += "\\n";
		else if (c == '\t') rt += "\\t";
		else if (c < 32 || c >= 127) rt += fmt( "\\u%04x", c);
		else rt += c;
	}
	return rt + "\"";
}

struct WorkerResult
{
	std::map<std::string,long> labels, counters, known;
	long evaluations = 0, discarded = 0, nontrivial = 0, done = 0;
	std::unordered_set<uint64_t> hashes;
	std::vector<std::string> samples;
};

static void saveResult( const std::string& path, const WorkerResult& r)
{
	std::ofstream f( path, std::ios::binary);
	f << r.evaluations << " " << r.discarded << " " << r.nontrivial << " " << r.done << "\n";
	f << r.labels.size() << "\n";
	for (auto& l : r.labels) f << l.second << " " << l.first << "\n";
	f << r.counters.size() << "\n";
	for (auto& l : r.counters) f << l.second << " " << l.first << "\n";
	f << r.known.size() << "\n";
	for (auto& l : r.known) f << l.second << " " << l.first << "\n";
	f << r.hashes.size() << "\n";
	for (auto h : r.hashes) f << h << "\n";
	f << r.samples.size() << "\n";
	for (auto& s : r.samples) {f << s.size() << "\n"; f.write( s.data(), s.size()); f << "\n";}
}
static void loadResult( const std::string& path, WorkerResult& r)
{
	std::ifstream f( path, std::ios::binary);
	long a,b,c,d; if (!(f >> a >> b >> c >> d)) return;
	r.evaluations += a; r.discarded += b; r.nontrivial += c; r.done += d;
	size_t n;
	for (auto* m : {&r.labels,&r.counters,&r.known})
	{
		f >> n;
		for (size_t i=0; i<n; ++i) {long v; std::string name; f >> v; f.get(); std::getline( f, name); (*m)[ name] += v;}
	}
	f >> n;
	for (size_t i=0; i<n; ++i) {uint64_t h; f >> h; r.hashes.insert( h);}
	f >> n;
	for (size_t i=0; i<n; ++i) {size_t len; f >> len; f.get(); std::string s( len, 0); f.read( &s[0], len); r.samples.push_back( s);}
}

static uint64_t caseSeed( uint64_t seed, const std::string& id, const std::string& kind, uint64_t idx)
{
	return mix64( mix64( seed) ^ hash64( id) ^ mix64( hash64( kind)) ^ mix64( idx*2654435761ull + 17));
}
static int caseSize( uint64_t idx, bool thorough)
{
	static const int sizes[] = {5,10,20,30,40,50,60,80,100,15};
	(void)thorough;
	return sizes[ idx % 10];
}

static void writeReplay( const std::string& path, const Property& prop, const Failure& f, uint64_t seed, const std::string& rendered)
{
	std::ofstream o( path);
	o << "property " << prop.id << "\n";
	o << "kind " << prop.kinds[ f.kind].name << "\n";
	o << "size " << f.size << "\n";
	o << "seed " << seed << "\n";
	o << "signature " << f.sig << "\n";
	o << "choices " << f.choices.size();
	for (auto c : f.choices) o << " " << c;
	o << "\n---- failure\n" << f.msg << "\n---- rendered case\n" << rendered << "\n";
}
static bool loadReplay( const std::string& path, std::string& id, std::string& kind, Failure& f)
{
	std::ifstream i( path);
	if (!i) return false;
	std::string w;
	while (i >> w)
	{
		if (w == "property") i >> id;
		else if (w == "kind") i >> kind;
		else if (w == "size") i >> f.size;
		else if (w == "seed") {std::string s; i >> s;}
		else if (w == "signature") {i.get(); std::getline( i, f.sig);}
		else if (w == "choices") {size_t n; i >> n; f.choices.resize( n); for (auto& c : f.choices) i >> c; return true;}
		else return false;
	}
	return false;
}

static void rmTree( const std::string& dir)
{
	if (dir.compare( 0, 5, "/tmp/") != 0 && dir.compare( 0, 9, "/dev/shm/") != 0) return;
	pid_t pid = fork();
	if (pid == 0) {execl( "/bin/rm", "rm", "-rf", "--", dir.c_str(), (char*)nullptr); _exit( 1);}
	int st; waitpid( pid, &st, 0);
}

int pbt_main( int argc, char** argv)
{
	std::string id, tier = "quick", evidence, replayDir, replayFile, knownFile, dumpKind;
	uint64_t seed = 1;
	int nworkers = (int)sysconf( _SC_NPROCESSORS_ONLN);
	double scale = 1.0, wallLimit = 0; 
	bool list = false;
	long dumpN = 0;
	for (int i=1; i<argc; ++i)
	{
		std::string a = argv[i];
		auto val = [&]() -> std::string {if (i+1 >= argc) {fprintf( stderr, "missing value for %s\n", a.c_str()); exit( 2);} return argv[ ++i];};
		if (a == "--property") id = val();
		else if (a == "--tier") tier = val();
		else if (a == "--seed") seed = strtoull( val().c_str(), nullptr, 10);
		else if (a == "--workers") nworkers = atoi( val().c_str());
		else if (a == "--scale") scale = atof( val().c_str());
		else if (a == "--wall") wallLimit = atof( val().c_str());
		else if (a == "--evidence") evidence = val();
		else if (a == "--replay-dir") replayDir = val();
		else if (a == "--replay") replayFile = val();
		else if (a == "--known") knownFile = val();
		else if (a == "--list") list = true;
		else if (a == "--dump") {dumpKind = val(); dumpN = atol( val().c_str());}
		else {fprintf( stderr, "unknown option %s\n", a.c_str()); return 2;}
	}
	if (list) {for (auto& p : registry()) {printf( "%s", p.id.c_str()); for (auto& k : p.kinds) printf( " %s", k.name.c_str()); printf( "\n");} return 0;}
	char tmpl[ 64];
	snprintf( tmpl, sizeof tmpl, "/dev/shm/mewapbt.XXXXXX");
	if (!mkdtemp( tmpl)) {snprintf( tmpl, sizeof tmpl, "/tmp/mewapbt.XXXXXX"); if (!mkdtemp( tmpl)) {perror( "mkdtemp"); return 2;}}
	g_tmproot = tmpl;
	struct Cleanup {~Cleanup() {rmTree( g_tmproot);}} cleanup;

	auto findProp = [&]( const std::string& pid) -> const Property* {for (auto& p : registry()) if (p.id == pid) return &p; return nullptr;};
	if (!replayFile.empty())
	{
		Failure f; std::string kind, pid;
		if (!loadReplay( replayFile, pid, kind, f)) {fprintf( stderr, "cannot load replay file\n"); return 2;}
		const Property* p = findProp( pid);
		if (!p) {fprintf( stderr, "unknown property in replay\n"); return 2;}
		int ki = -1;
		for (size_t i=0; i<p->kinds.size(); ++i) if (p->kinds[i].name == kind) ki = (int)i;
		if (ki < 0) {fprintf( stderr, "unknown kind in replay\n"); return 2;}
		Shm* shm = newShm();
		std::string log;
		Failure r = runIsolated( *p, ki, f.size, f.choices, shm, &log);
		printf( "%s\n", log.c_str());
		if (r.valid) {printf( "FAILS: [%s] %s\n", r.sig.c_str(), r.msg.c_str()); printf( "VIOLATION property=%s replay=%s\n", pid.c_str(), replayFile.c_str()); return 1;}
		printf( "replay passes\n");
		return 0;
	}
	const Property* prop = findProp( id);
	if (!prop) {fprintf( stderr, "unknown property '%s'\n", id.c_str()); return 2;}
	if (!dumpKind.empty())
	{
		Shm* shm = newShm();
		for (auto& k : prop->kinds) if (k.name == dumpKind)
		for (long i=0; i<dumpN; ++i)
		{
			int sz = caseSize( i, false);
			Gen g( caseSeed( seed, prop->id, k.name, i), sz, &shm->choices);
			Case c; c.tmpdir = g_tmproot + "/dump"; mkdir( c.tmpdir.c_str(), 0700);
			shm->failed = 0; shm->discarded = 0;
			bool ok = runCaseBody( k, g, c, shm);
			printf( "==== case %ld size %d %s%s\n%s\n", i, sz, c.isNontrivial ? "nontrivial":"trivial", shm->discarded ? " discarded":"", c.m_log.c_str());
			for (auto& l : c.labels) printf( "  label %s\n", l.c_str());
			if (!ok) printf( "  FAIL [%s] %s\n", shm->sig, shm->msg);
			fflush( stdout);
		}
		return 0;
	}
	if (!knownFile.empty())
	{
		// lines: KNOWN property=<id> sig=<signature> :: <text>
		std::ifstream f( knownFile);
		std::string line;
		while (std::getline( f, line))
		{
			std::string pre = "KNOWN property=" + id + " sig=";
			if (line.compare( 0, pre.size(), pre) == 0)
			{
				size_t e = line.find( " :: ", pre.size());
				if (e == std::string::npos) continue;
				g_known.insert( line.substr( pre.size(), e-pre.size()));
				g_knownInfo.push_back( {line.substr( pre.size(), e-pre.size()), line.substr( e+4)});
			}
		}
	}
	bool thorough = tier == "thorough";
	if (wallLimit <= 0) wallLimit = thorough ? 780 : 420;
	double t0 = now();
	std::vector<Shm*> shms;
	std::vector<pid_t> pids( nworkers, -1);
	std::vector<double> caseStartCpu( nworkers, 0);
	std::vector<uint64_t> lastSeq( nworkers, 0);
	std::vector<int> resPart( nworkers, 0);
	for (int w=0; w<nworkers; ++w)
	{
		Shm* shm = newShm();
		for (auto& n : shm->next) n = w;
		shms.push_back( shm);
		mkdir( (g_tmproot + fmt( "/w%d", w)).c_str(), 0700);
	}
	auto startWorker = [&]( int w)
	{
		Shm* shm = shms[ w];
		std::string wdir = g_tmproot + fmt( "/w%d", w);
		int part = resPart[ w]++;
		pid_t pid = fork();
		if (pid == 0)
		{
			redirectStd( g_tmproot + fmt( "/w%d.log", w));
			WorkerResult res;
			std::vector<long> total;
			for (auto& k : prop->kinds) total.push_back( std::max( 1L, (long)std::llround( (thorough ? k.thorough : k.quick)*scale)));
			std::vector<int> nsamples( prop->kinds.size(), part);
			bool timeup = false;
			for (bool any = true; any && !timeup;)
			{
				any = false;
				for (size_t ki=0; ki<prop->kinds.size() && !timeup; ++ki)
				{
					// run a slice of this kind, proportionally
					long slice = std::max( 1L, total[ki] / nworkers / 50);
					for (long s=0; s<slice && (long)shm->next[ki] < total[ki]; ++s)
					{
						any = true;
						const Kind& k = prop->kinds[ ki];
						uint64_t idx = shm->next[ki];
						shm->next[ki] = idx + nworkers;
						int sz = caseSize( idx, thorough);
						shm->kind = (uint32_t)ki; shm->idx = idx; shm->size = sz; shm->failed = 0; shm->discarded = 0;
						__sync_synchronize();
						shm->seq = shm->seq + 1;
						Gen g( caseSeed( seed, prop->id, k.name, idx), sz, &shm->choices);
						Case c;
						c.tmpdir = wdir;
						bool ok = runCaseBody( k, g, c, shm);
						if (!ok)
						{
							if (g_known.count( shm->sig)) {res.known[ shm->sig]++;}
							else {saveResult( g_tmproot + fmt( "/w%d.%d.res", w, part), res); _exit( 42);}
						}
						res.done++;
						if (shm->discarded) {res.discarded++; continue;}
						res.evaluations++;
						for (auto& l : c.labels) res.labels[ k.name + ":" + l]++;
						for (auto& l : c.counters) res.counters[ k.name + ":" + l.first] += l.second;
						if (c.isNontrivial)
						{
							uint64_t h = c.hash ^ hash64( k.name);
							if (c.hash == 0x1234567) h ^= hash64( c.m_log);
							res.nontrivial++;
							bool isnew = res.hashes.insert( h).second;
							if (isnew && nsamples[ki] < 1 && w < 2 && idx >= 3) {nsamples[ki]++; res.samples.push_back( "[" + k.name + "]\n" + c.m_log.substr( 0, 2500));}
						}
						if (now() - t0 > wallLimit) {timeup = true; break;}
						// memory kept by a worker (leaks on error paths, allocator caches) is given back by continuing in a fresh process
						if (res.done % 16 == 0 && residentMB() > 1000) {saveResult( g_tmproot + fmt( "/w%d.%d.res", w, part), res); _exit( 43);}
					}
				}
			}
			saveResult( g_tmproot + fmt( "/w%d.%d.res", w, part), res);
			_exit( 0);
		}
		if (pid < 0) {perror( "fork"); exit( 2);}
		pids[w] = pid;
		lastSeq[w] = 0; caseStartCpu[w] = 0;
	};
	for (int w=0; w<nworkers; ++w) startWorker( w);
	Failure failure;
	int running = nworkers;
	Shm* isoShm = newShm();
	long unconfirmed = 0;
	while (running > 0 && !failure.valid)
	{
		usleep( 3000);
		for (int w=0; w<nworkers && !failure.valid; ++w)
		{
			if (pids[w] < 0) continue;
			int status;
			pid_t r = waitpid( pids[w], &status, WNOHANG);
			Shm* shm = shms[w];
			bool hang = false;
			if (r == 0)
			{
				double c = cpuOf( pids[w]);
				if (shm->seq != lastSeq[w]) {lastSeq[w] = shm->seq; caseStartCpu[w] = c; continue;}
				if (c - caseStartCpu[w] <= prop->kinds[ shm->kind].cpuLimit + 1 || shm->seq != lastSeq[w]) continue;
				kill( pids[w], SIGKILL); waitpid( pids[w], &status, 0); hang = true;
			}
			pids[w] = -1;
			if (!hang && WIFEXITED( status) && WEXITSTATUS( status) == 0) {--running; continue;}
			if (!hang && WIFEXITED( status) && WEXITSTATUS( status) == 43) {startWorker( w); continue;}
			Failure cand;
			cand.valid = true; cand.kind = (int)shm->kind; cand.size = (int)shm->size;
			cand.choices.assign( shm->choices.v, shm->choices.v + shm->choices.n);
			if (hang) {cand.sig = "hang"; cand.msg = "case did not terminate";}
			else if (WIFEXITED( status) && WEXITSTATUS( status) == 42 && shm->failed) {cand.sig = shm->sig; cand.msg = shm->msg;}
			else {std::string t = readTail( g_tmproot + fmt( "/w%d.log", w)); cand.sig = crashSig( status, t); cand.msg = t;}
			// Confirm in a fresh process. A stop that does not reproduce from the recorded choices
			// (e.g. killed because the machine is out of memory) is no finding: the worker continues with its next case
			int tries = cand.sig == "hang" ? 1 : 3;
			Failure first;
			int confirmed = 0;
			for (int i=0; i<tries; ++i)
			{
				Failure rr = runIsolated( *prop, cand.kind, cand.size, cand.choices, isoShm);
				if (rr.valid) {++confirmed; if (!first.valid) first = rr;}
			}
			if (confirmed == tries && !g_known.count( first.sig)) failure = first;
			else
			{
				++unconfirmed;
				fprintf( stderr, "note: worker stopped with [%s] but the case failed only %d of %d times when replayed (not reported)\n%s\n", cand.sig.c_str(), confirmed, tries, cand.msg.substr( 0, 3000).c_str());
				if (unconfirmed > 50) {fprintf( stderr, "too many unconfirmed stops\n"); for (int i=0; i<nworkers; ++i) if (pids[i] > 0) kill( pids[i], SIGKILL); exit( 2);}
				startWorker( w);
			}
		}
	}
	for (int w=0; w<nworkers; ++w) if (pids[w] > 0) {kill( pids[w], SIGKILL); int st; waitpid( pids[w], &st, 0);}

	WorkerResult res;
	for (int w=0; w<nworkers; ++w) for (int p=0; p<resPart[w]; ++p) loadResult( g_tmproot + fmt( "/w%d.%d.res", w, p), res);
	long planned = 0;
	for (auto& k : prop->kinds) planned += std::max( 1L, (long)std::llround( (thorough ? k.thorough : k.quick)*scale));

	int violations = 0;
	std::string replayPath;
	int shrinkSteps = 0;
	if (failure.valid)
	{
		Failure orig = failure;
		Failure s = shrink( *prop, failure, isoShm, 45, shrinkSteps);
		int ok = 0;
		int n = s.sig == "hang" ? 1 : 3;
		for (int i=0; i<n; ++i) if (runIsolated( *prop, s.kind, s.size, s.choices, isoShm).valid) ++ok;
		if (ok < n) s = orig;
		std::string rendered;
		Failure last = runIsolated( *prop, s.kind, s.size, s.choices, isoShm, &rendered);
		if (last.valid) s = last;
		violations = 1;
		if (!replayDir.empty())
		{
			mkdir( replayDir.c_str(), 0755);
			replayPath = replayDir + "/" + prop->id + fmt( "-%016llx.replay", (unsigned long long)hash64( s.sig + s.msg));
			writeReplay( replayPath, *prop, s, seed, rendered);
		}
		fprintf( stderr, "---- rendered case (%s, %zu choices, %d shrink steps)\n%s\n---- failure [%s]\n%s\n", prop->kinds[ s.kind].name.c_str(), s.choices.size(), shrinkSteps,
				rendered.substr( 0, 6000).c_str(), s.sig.c_str(), s.msg.substr( 0, 6000).c_str());
	}
	double wall = now() - t0;
	if (!evidence.empty())
	{
		std::ofstream o( evidence);
		o << "{\n  \"property\": " << jsonStr( prop->id) << ",\n  \"tier\": " << jsonStr( tier) << ",\n  \"seed\": " << seed << ",\n  \"level\": \"exploration\",\n";
		o << "  \"coverage\": {\n    \"evaluations\": " << res.evaluations << ",\n    \"distinct_nontrivial\": " << res.hashes.size() << ",\n";
		o << "    \"rule\": " << jsonStr( prop->rule) << ",\n";
		o << "    \"planned\": " << planned << ",\n    \"discarded\": " << res.discarded << ",\n    \"nontrivial_total\": " << res.nontrivial << ",\n";
		o << "    \"labels\": {";
		int li = 0;
		for (auto& l : res.labels) o << (li++ ? ", ":"") << "\n      " << jsonStr( l.first) << ": " << l.second;
		o << "},\n    \"counters\": {";
		li = 0;
		for (auto& l : res.counters) o << (li++ ? ", ":"") << "\n      " << jsonStr( l.first) << ": " << l.second;
		o << "},\n    \"known_findings_hit\": {";
		li = 0;
		for (auto& l : res.known) o << (li++ ? ", ":"") << jsonStr( l.first) << ": " << l.second;
		o << "},\n    \"samples\": [";
		li = 0;
		for (auto& s : res.samples) {if (li >= 8) break; o << (li++ ? ",":"") << "\n      " << jsonStr( s);}
		o << "]\n  },\n  \"assumptions\": [";
		li = 0;
		for (auto& s : prop->assumptions) o << (li++ ? ", ":"") << jsonStr( s);
		o << "],\n  \"wall_s\": " << fmt( "%.2f", wall) << ",\n  \"violations\": " << violations << "\n}\n";
	}
	for (auto& k : g_knownInfo) printf( "KNOWN-FINDING: property=%s %s (hit %ld times)\n", id.c_str(), k.text.c_str(), res.known.count( k.sig) ? res.known[ k.sig] : 0L);
	printf( "%s %s seed=%llu: %ld evaluations (%ld planned, %ld discarded), %zu distinct nontrivial, %.1fs%s\n", id.c_str(), tier.c_str(), (unsigned long long)seed,
			res.evaluations, planned, res.discarded, res.hashes.size(), wall, unconfirmed ? " [workers stopped without reproducible reason]" : "");
	if (violations)
	{
		printf( "VIOLATION property=%s replay=%s\n", id.c_str(), replayPath.c_str());
		return 1;
	}
	return 0;
}

#ifndef PBT_LIBFUZZER
int main( int argc, char** argv)
{
	// the matching of regular expressions is recursive and takes more stack with the sanitizers
	struct rlimit lim;
	const rlim_t wanted = 56u<<20;
	if (getrlimit( RLIMIT_STACK, &lim) == 0 && lim.rlim_cur != RLIM_INFINITY && lim.rlim_cur < wanted && (lim.rlim_max == RLIM_INFINITY || lim.rlim_max >= wanted) && !getenv( "PBT_STACK"))
	{
		lim.rlim_cur = wanted;
		setenv( "PBT_STACK", "1", 1);
		if (setrlimit( RLIMIT_STACK, &lim) == 0) execv( "/proc/self/exe", argv);
	}
	setvbuf( stdout, nullptr, _IOLBF, 0);
	return pbt_main( argc, argv);
}
#endif
