// Black box access to mewa: the program (main of src/mewa.cpp renamed, called in process)
// and the Lua module (luaopen_mewa), both compiled with sanitizers from /repo's working tree.
#pragma once
#include "engine.hpp"
#include <memory>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
#include <lualib.h>
}

namespace mw {

// Deep copy of a Lua value
struct Val
{
	enum T {Nil, Bool, Num, Str, Tab, Fun, Other} t = Nil;
	bool b = false;
	double n = 0;
	std::string s;
	std::vector<std::pair<Val,Val>> tab;		// sorted by key rendering

	Val(){}
	static Val nil()				{return Val();}
	static Val num( double v)			{Val r; r.t = Num; r.n = v; return r;}
	static Val str( std::string_view v)		{Val r; r.t = Str; r.s = v; return r;}
	static Val boolean( bool v)			{Val r; r.t = Bool; r.b = v; return r;}
	static Val table()				{Val r; r.t = Tab; return r;}
	static Val array( const std::vector<Val>& a)	{Val r; r.t = Tab; int i=0; for (auto& e : a) r.tab.push_back( {num( ++i), e}); return r;}
	static Val ints( const std::vector<int>& a)	{Val r; r.t = Tab; int i=0; for (auto& e : a) r.tab.push_back( {num( ++i), num( e)}); return r;}
	const Val& operator[]( const char* key) const;
	const Val& at( int idx) const;			// array access, 1 based
	int len() const;
	bool isNil() const				{return t == Nil;}
	bool operator==( const Val& o) const		{return repr() == o.repr();}
	bool operator!=( const Val& o) const		{return repr() != o.repr();}
	std::string repr() const;
};

struct CallResult
{
	bool ok = false;
	std::string error;
	std::vector<Val> ret;
	const Val& operator[]( size_t i) const;
};

class Lua
{
public:
	Lua();
	~Lua();
	Lua( const Lua&) = delete;
	lua_State* ls;

	void push( const Val& v);
	Val get( int idx, int depth = 0);
	// run Lua source as chunk with results
	CallResult exec( const std::string& source, const std::string& chunkname = "=harness");
	// call method of a global object
	CallResult method( const char* globalobj, const char* name, const std::vector<Val>& args);
	CallResult function( const char* table, const char* name, const std::vector<Val>& args);
	CallResult pcallTop( int nargs);
	void setGlobal( const char* name, const Val& v);
};

struct ProgResult
{
	int exitCode = -1;
	std::string out;		// standard output
	std::string err;		// standard error
	bool outExists = false;		// output file written
	std::string outFile;		// content of output file
};

void writeFile( const std::string& path, std::string_view content);
bool readFile( const std::string& path, std::string& content);
ProgResult runProgram( const std::vector<std::string>& args);
// mewa -g -t <template> -o <out> <grammar>
ProgResult generate( pbt::Case& c, const std::string& grammar, const std::string& templat = "%automaton%", const std::vector<std::string>& moreArgs = {});

// Tree as received by the type system functions
struct Node
{
	bool leaf = false;
	std::string name;		// leaf: lexem name;   node: function name (first word of call.name)
	std::string value;		// leaf: lexem value;  node: rendering of call.obj ("" if none)
	std::string callname;		// node: call.name
	int line = 0;
	bool hasScope = false; int scope0 = 0, scope1 = 0;
	bool hasStep = false; int step = 0;
	std::vector<Node> arg;
	std::string repr( bool lines = true, bool scopes = true) const;
};

struct Invocation			// one call of a type system function by the compiler
{
	std::string func;		// name of the function called
	Node node;
	std::string obj;		// rendering of 2nd argument if any
	std::string options;		// rendering of last argument
	int nargs = 0;
};

struct RunResult
{
	bool ok = false;
	std::string error;
	std::vector<Invocation> calls;
	bool outExists = false;
	std::string outFile;
};

// A compiler loaded from the output of mewa -g
class Compiler
{
public:
	explicit Compiler( pbt::Case& c_) :c(c_){}
	// returns "" if loaded or the error message
	std::string load( const std::string& generatedTable, const std::string& luaPrelude = "");
	RunResult run( const std::string& source, bool withOutput = false, const std::string& target = "", const Val& options = Val(), const std::string& debugFile = "");
	Lua lua;
	std::vector<Invocation> calls;
	std::string onCall;		// optional Lua code 'function(name,node,obj,options)' evaluated on every call
	std::string inputName = "src.prg";
private:
	pbt::Case& c;
};

Node nodeFromLua( lua_State* ls, int idx);

} // namespace
