#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Source of truth for the statements of the properties.
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

TD = ["src/typedb.hpp", "src/typedb.cpp", "src/scope.hpp", "src/lualib_mewa.cpp", "src/lua_parameter.cpp"]

prop("T01", "Scoped instances: lookup yields the innermost enclosing definition",
 "After any history of typedb:set_instance calls in properly nested scopes, typedb:get_instance(name) returns the value last set for that name in the innermost scope that contains the current scope-step and has a value for it, and nil if there is none. typedb:this_instance(name) returns exactly the value last set in the current scope itself, never one of an enclosing or inner scope. The order in which scopes were populated, other names, and reads in between never change these answers.",
 ["histories", "inputs"], "all histories of set/get/this_instance, scope and step over nested scope trees of any shape, definition order and number of names; any value type",
 "testScope/testRandomScope sample a few fixed shapes of the C++ container; no test drives set_instance/get_instance/this_instance over arbitrary definition orders and nesting.",
 TD, [("ScopedMap keeps entries ordered by scope end and linked to the enclosing definition", "src/scope.hpp ScopedMap::set/scoped_find/scoped_find_inner"), ("getObjectInstance/setObjectInstance/this", "src/typedb.cpp")],
 [("m_objidMap/m_objectInstanceTab", "name to scoped map of object handles", "src/typedb.hpp")], ["typedb:get_instance", "typedb:this_instance"])

prop("T02", "Scoped type definitions: overloads, duplicates and attributes are exact",
 "For every history of typedb:def_type and typedb:def_type_as calls in properly nested scopes, this_type and this_types return exactly the types defined for that context type and name in the current scope (never from another scope, context or name), parameter lists distinguish overloads, and a second definition with the same scope, context, name and parameter types is refused with -1 without changing anything. Every type handle is new and keeps reporting through type_name, type_context, type_parameters, type_nof_parameters, type_constructor, type_scope and type_string exactly what it was defined with. A synonym made by def_type_as designates the given type in the scope, context and name where it is defined, and neither it nor a later definition with its name changes the original type and its overloads.",
 ["histories", "inputs"], "all histories of type definitions with 0..n parameters (with and without constructors), contexts, names, scopes and synonyms",
 "tests/typedb.lua defines a handful of types once; overload lists, duplicates and synonyms over arbitrary nested scopes and definition orders are not exercised.",
 TD, [("type definition keyed by (context, name) in a scoped map with a linked list of overloads", "src/typedb.cpp defineType/defineTypeAs/compareParameterSignature"), ("type attribute getters", "src/typedb.cpp typeName/typeParameters/typeConstructor/typeToString")],
 [("m_typerecMap", "type records", "src/typedb.hpp"), ("m_typeTable", "scoped type index", "src/typedb.hpp")], ["typedb:def_type", "typedb:this_type", "typedb:this_types", "typedb:type_*"])

prop("T03", "Reductions are visible by scope and tag with inner scopes hiding outer",
 "After any history of typedb:def_reduction calls in properly nested scopes, typedb:get_reduction(to,from,tagmask) and typedb:get_reductions(from,tagmask,countmask) report exactly the reductions of that source type whose scope contains the current scope-step and whose tag is selected; for each destination type the definitions of the innermost scope hide those of enclosing scopes. Each reported weight, constructor and count flag is the one belonging to that definition. Of several reductions to the same destination with different selected tags in the same scope get_reductions lists all and get_reduction takes the one of least weight, raising an error if that is not unique. A definition that repeats source, destination and tag in the same scope is refused with an error (silently ignored if neither has a constructor), and weights and tags outside their documented range are refused; a refused definition changes nothing.",
 ["histories", "inputs"], "all histories of reduction definitions with tags 1..32, any weights, nested scopes, and all tag masks",
 "Tests define reductions in a few scopes with few tags; the combination of hiding, tag selection and definition order is not enumerated.",
 TD, [("ScopedRelationMap keeps per source type a linked list of related targets with scope and tag", "src/scope.hpp ScopedRelationMap"), ("tag masks", "src/typedb.hpp TagMask"), ("getReduction/getReductions", "src/typedb.cpp")], (), ["typedb:get_reduction", "typedb:get_reductions", "typedb:reduction_tagmask"])

prop("T04", "derive_type finds a cheapest reduction path or proves there is none",
 "typedb:derive_type(to,from,tagmask,pathlen_mask,max_pathlen) returns a chain of reductions that are all visible at the current scope-step and selected by the tag mask, leading from the source to the destination type, whose weight sum is the minimum over all such chains that respect the limit on counted reductions, and reports that sum; it returns nil exactly if no such chain exists. The returned list carries the constructor of every reduction used. A third result is returned exactly if another distinct chain of the same minimal weight exists.",
 ["inputs", "histories"], "all reduction graphs (with cycles, shortcuts, equal weights, tags, nested scopes) and all queries on them",
 "testRandomTypeDb only generates tree shaped graphs, rejects all shortcut shapes from the check and never uses tag masks, path length limits or cycles.",
 TD, [("Dijkstra search over a priority queue of stack elements", "src/typedb.cpp deriveType/getTypeDerivation"), ("ReduStack/PriorityQueue", "src/typedb.cpp")], (), ["typedb:derive_type"])

prop("T05", "resolve_type finds the nearest context defining the searched name",
 "typedb:resolve_type(contexts,name,tagmask) returns the context type of minimum derivation weight (over all visible, selected reduction chains starting from any of the given context types) in which a type of that name is visible at the current scope-step, a chain of reductions of exactly that weight leading to it, and the complete set of overloads defined there in the innermost scope containing the step. It returns nil exactly if no such context is reachable and returns a pair of conflicting context types instead of a single one exactly if two chains of the same minimal weight lead to a match. With a list of type/constructor pairs as contexts the first element of the returned reduction list is the originating list element.",
 ["inputs", "histories"], "all type/reduction graphs, context lists, scopes, tag masks and names",
 "testRandomTypeDb covers single context types in tree shaped graphs; array contexts, scopes hiding definitions, tag masks and cyclic graphs are not covered.",
 TD, [("resolveType search", "src/typedb.cpp resolveType"), ("result conversion", "src/lua_parameter.cpp pushResolveResult")], (), ["typedb:resolve_type"])

prop("T06", "Introspection trees list every definition exactly once in its scope",
 "typedb:instance_tree, type_tree and reduction_tree always describe the complete state: every instance, type and reduction defined so far appears exactly once, in a node whose scope is the scope of its definition, with the values it was defined with. The scope of every node is contained in the scope of its parent and children of one node are disjoint.",
 ["histories"], "all definition histories over nested scopes",
 "Tests print one small tree and compare it with an expected text.",
 ["src/tree.hpp", "src/typedb.cpp", "src/scope.hpp", "src/lualib_mewa.cpp"], [("tree construction from the scoped tables", "src/typedb.cpp getInstanceTree/getTypeTree/getReductionTree"), ("ScopeHierarchyTreeBuilder", "src/tree.hpp, src/scope.hpp")], (), ["typedb:instance_tree", "typedb:type_tree", "typedb:reduction_tree"])

prop("T07", "Names are never confused, whatever their number, length or content",
 "Two different names given to a type database are always treated as different and equal names as equal, for instances as well as for types, however many names exist, however long they are and whatever bytes they contain. typedb:type_name returns the identical byte string the type was defined with, at any later time. Definitions made in one type database are never visible in another one.",
 ["inputs", "histories"], "all sets of names: tens of thousands of names, long names, shared prefixes, embedded zero bytes, all byte values; several databases used interleaved",
 "testRandomIdentMap uses short random alphanumeric names only.",
 ["src/identmap.hpp", "src/memory_resource.hpp", "src/typedb.cpp"], [("identifier map with block allocated keys", "src/identmap.hpp IdentMap/IdentKeyEnvelop"), ("growing monotonic buffers", "src/memory_resource.hpp")], (), ["typedb:type_name", "typedb:this_type", "typedb:get_instance"])

prop("T08", "Misuse of the type database is refused with an error and no damage",
 "Every call of a typedb method or of a mewa library function with arguments of wrong number, type or range (including arbitrary integers as scopes, steps, type handles, tags and weights, and scopes that overlap without nesting) either returns normally or raises a Lua error; it never crashes, hangs or corrupts memory. A call is refused with an error if a type handle, tag, weight, scope, step or name it gets is outside of what is defined for it or if it has too few or too many arguments. A call refused with an error leaves all answers of the type database as they were before.",
 ["inputs", "histories"], "all call histories with arbitrary argument values",
 "Tests call the API with valid arguments only.",
 ["src/lua_parameter.cpp", "src/lualib_mewa.cpp", "src/typedb.cpp", "src/scope.hpp"], [("argument checking", "src/lua_parameter.cpp"), ("exception to Lua error mapping", "src/lualib_mewa.cpp lippincottFunction"), ("range checks in definitions", "src/typedb.cpp")], (), ["any mewa library call"])

LX = ["src/lexer.cpp", "src/lexer.hpp", "src/utf8.hpp", "src/lua_load_automaton.cpp", "src/automaton_tostring.cpp"]
prop("L01", "Tokenization is longest match over all declared patterns and keywords",
 "A compiled compiler splits any source text into the token sequence in which every token is the longest one among the matches of the declared patterns (the match of a pattern being the one of its ECMAScript regular expression) and the keywords at its position, a keyword winning over a pattern of the same length and the pattern declared first winning among patterns of the same length. The token value is the matched text, or the content of the selected group if a group index was declared. Characters at which nothing matches are reported as bad token and lead to a syntax error, never to a silent skip.",
 ["inputs", "programs"], "all lexer declarations (regular expressions with alternatives, options, repetitions, classes, groups; keywords made of any characters) and all source texts",
 "testLexer runs one hand written source with one set of patterns.",
 LX, [("first character activation sets select the candidate patterns", "src/lexer.cpp LexemDef::activation"), ("candidate choice", "src/lexer.cpp Lexer::matchLexem/next"), ("keyword escaping", "src/lexer.cpp stringToRegex")], (), ["AST leaf values produced by compiler:run"])
prop("L02", "Comments, ignored tokens and white space vanish; line numbers stay exact",
 "Comments declared with %COMMENT (the marks taken literally, winning over tokens), tokens declared with %IGNORE and white space between tokens never influence the token sequence, wherever they are placed between tokens, also at the end of the source without final line end. An unterminated bracket comment does not hang or crash. The line reported for every token and for every error is the number of line ends before the token plus one, with comments and multi-line tokens counted.",
 ["inputs", "programs"], "all source texts and all placements of comments, ignored tokens, blank lines and line ends",
 "testLexer has one source with one comment; %IGNORE has no test.",
 LX, [("comment and ignore handling", "src/lexer.cpp Lexer::next/Scanner"), ("line counting", "src/lexer.cpp Scanner")], (), ["AST 'line' members", "error messages of compiler:run"])
prop("L03", "Indentation tokens follow the off-side rule exactly",
 "With %INDENTL declared, the token stream contains a new-line token before the first token of every line that has tokens, one open-indent token for each line indented deeper than the enclosing block and one close-indent token for every block left, blank and comment-only lines having no effect. The indentation of a line is the number of characters before its first token, a comment before it counting as blank and a tab as the declared number of spaces. Opens and closes are balanced at the end of every source, whatever its last line looks like.",
 ["inputs"], "all sequences of indented, blank and comment lines, mixing blanks and tabs, ending with or without line end",
 "The INDENTL test compiles two fixed sources.",
 LX, [("indent stack", "src/lexer.cpp Scanner indentation handling"), ("indent lexems", "src/lexer.hpp IndentLexems")], (), ["token sequence seen by the grammar"])

GR = ["src/automaton.cpp", "src/automaton_parser.cpp", "src/automaton_structs.hpp", "src/lua_run_compiler.cpp"]
prop("G01", "The generated parser accepts exactly the language of the grammar",
 "For every grammar that mewa translates without complaint, the generated compiler accepts a token sequence if and only if it is derivable from the start symbol of the grammar (including empty productions, left and right recursion and nested scopes marks), and always terminates. Rejection is reported as a syntax error, acceptance without any error.",
 ["programs", "inputs"], "all conflict free grammars within the documented size limits and all token sequences",
 "testAutomaton builds eight textbook grammars and parses a few sentences.",
 GR, [("LALR(1) state construction, FIRST/FOLLOW", "src/automaton.cpp"), ("shift/reduce engine", "src/lua_run_compiler.cpp feedLexem")], (), ["mewa -g exit status", "compiler:run result"])
prop("G02", "Grammar conflicts are reported exactly when the grammar is not LALR(1)",
 "A grammar (without priority attributes) that is not LALR(1), in particular every ambiguous grammar, is rejected by mewa with a conflict report and non zero exit status, without writing a compiler; a grammar that is LALR(1) is accepted. Every reported conflict names productions and a lookahead that really conflict.",
 ["programs"], "all grammars within the documented size limits",
 "Two of the fixed test grammars have conflicts; conflict freeness of arbitrary grammars is not tested.",
 GR, [("conflict detection in action insertion", "src/automaton.cpp insertAction"), ("lookahead computation", "src/automaton.cpp")], (), ["mewa -g exit status and messages"])
prop("G03", "Priorities and associativity shape the tree as declared",
 "In a grammar of binary, prefix and postfix operator productions annotated with L<n>/R<n> priorities, every expression is parsed into exactly the tree that operator precedence demands: a higher priority binds tighter, equal priority groups to the left for L and to the right for R, and parentheses override both. This holds for any number of levels, any mix of associativities per level and any operator spelling.",
 ["programs", "inputs"], "all operator tables and all expressions over them",
 "The example grammars use one fixed operator table.",
 GR, [("priority resolution of shift/reduce conflicts", "src/automaton.cpp insertAction/priority handling")], (), ["AST of compiler:run"])
prop("G09", "Priorities decide exactly the shift/reduce conflicts, as declared",
 "In any grammar with priorities attached to productions, a conflict between shifting a token and reducing a production is decided by the declared priorities alone: the production with the greater number wins, at equal number L reduces and R shifts. The generated compiler then accepts exactly the texts, and builds exactly the trees, of the LALR(1) automaton with these decisions. A conflict the priorities do not decide (one side without priority, equal number with different or no associativity, two reductions) and shifts of one token with different priorities in one state are reported and the grammar is refused; priorities have no effect where there is no conflict.",
 ["programs", "inputs"], "all grammars with any assignment of priorities and all token sequences",
 "The test grammars use priorities for the usual operator tables only.",
 GR, [("priority resolution of shift/reduce conflicts", "src/automaton.cpp insertAction"), ("priorities of shifts", "src/automaton.cpp getShiftNodes")], (), ["mewa -g exit status and messages", "AST of compiler:run"])
prop("G04", "AST nodes mirror the derivation with calls, arguments, scopes and lines",
 "For every accepted source, the tree handed to the Lua functions consists of one node for each reduction by a production with a function call, in derivation order: it calls the declared function with the declared argument object and the options, holds as children in source order all non-keyword tokens (with name, value and line) and nodes below it, productions without call passing theirs through. Nodes of productions marked with {} carry a scope interval that contains exactly the scopes and steps of the nodes inside it, scope intervals are properly nested, steps increase in source order with one increment for every mark, and the line of a node is the line of the last non-keyword token read when its reduction was performed.",
 ["programs", "inputs"], "all grammars with calls, arguments, {} and >> marks, and all sentences",
 "Only the AST of example programs is exercised, and not its scopes for arbitrary shapes.",
 GR, [("building AST nodes on the Lua stack", "src/lua_run_compiler.cpp luaReduceStruct/luaPushLexem"), ("scope and step counting", "src/lua_run_compiler.cpp")], (), ["node tables passed to typesystem functions"])
prop("G05", "Syntax errors name the first wrong token, its line and what was expected",
 "If a source is not a sentence of the grammar, the compiler raises one syntax error that names the first token at which the text read so far is no prefix of any sentence, with the line of that token; every token that could have continued the text correctly is in the list of expected tokens. No function of the type system is called for a source with a syntax error.",
 ["programs", "inputs"], "all conflict free grammars and all wrong sources",
 "Tests check the text of very few errors.",
 GR + ["src/error.cpp"], [("error construction with expected terminals", "src/lua_run_compiler.cpp feedLexem/expectedTerminalList"), ("line tracking", "src/lexer.cpp")], (), ["error message of compiler:run"])
prop("G06", "Any grammar file is translated or refused with an error, never worse",
 "For an arbitrary input file mewa terminates and either writes a complete result that Lua can load or prints an error and exits with a non zero status without writing the output; it never crashes or reads out of bounds. Each documented kind of mistake (undefined symbols, nonterminals never referenced or without a finite derivation, duplicate or conflicting definitions, unknown commands, values out of range, misplaced marks, size limits exceeded) is refused with its documented error number and, where the mistake has a place, the error names its line; grammars at the size limits are translated and work.",
 ["inputs"], "all byte sequences as grammar file; all valid grammars with one injected mistake",
 "testError and a few grammars cover single messages; malformed grammars are nearly untested.",
 ["src/automaton_parser.cpp", "src/automaton.cpp", "src/mewa.cpp", "src/lexer.cpp", "src/error.cpp"], [("grammar parser and checks", "src/automaton_parser.cpp parseLanguageDef"), ("size limits", "src/automaton.cpp Automaton::build"), ("exit codes and output", "src/mewa.cpp main")], (), ["exit status, stderr, output file of mewa"])
prop("G07", "Everything written in the grammar survives into the generated compiler",
 "The Lua file generated by mewa -g loads and reproduces the grammar faithfully: token patterns, keywords, comment marks, bad token names, calls with their string, number, table or reference arguments keep their exact text, including quotes, backslashes and any punctuation, and the order of declarations in the grammar file does not change the behaviour of the compiler. Template, language, type system, command line module and Lua binary are substituted where the template asks for them, and the same input gives byte-identical output every time.",
 ["programs", "inputs"], "all grammars, with all declaration orders and all printable characters in names, patterns and arguments; all templates",
 "The tests generate two compilers and never exercise unusual characters or declaration orders.",
 ["src/automaton_tostring.cpp", "src/languagedef_tostring.cpp", "src/lua_load_automaton.cpp", "src/mewa.cpp", "src/automaton_parser.cpp"], [("printing the automaton as Lua", "src/automaton_tostring.cpp"), ("string escaping", "src/languagedef_tostring.cpp printString"), ("loading it", "src/lua_load_automaton.cpp luaLoadAutomaton")], (), ["file written by mewa -g", "behaviour of the loaded compiler"])
prop("G08", "Language description and type system stub reflect the grammar completely",
 "mewa -l writes a Lua table that loads and lists every command and production of the grammar in order, with exact names, patterns, right sides, priorities, scope marks, calls, line numbers and the decorators given in comments at that place. mewa -s writes a loadable Lua stub that defines every function named in a call of the grammar exactly once and nothing else from it.",
 ["programs", "inputs"], "all grammars including decorator comments",
 "One grammar's description is printed in a test; arbitrary grammars and decorators are not covered.",
 ["src/languagedef_tostring.cpp", "src/automaton_parser.cpp", "src/mewa.cpp", "src/automaton_structs.cpp"], [("printLuaLanguageDefinition", "src/languagedef_tostring.cpp"), ("printLuaTypeSystemStub, parseLanguageDecoratorMap", "src/automaton_parser.cpp")], (), ["output of mewa -l and mewa -s"])

prop("R01", "Compiler runs are independent of each other",
 "The output of compiler:run depends only on the compiler, the options, the target and the source: running the same source again with the same compiler object, after other runs and also after runs that failed with an error, gives the identical output and the identical calls. After a run, whether it succeeded or failed, the global functions print, debug and print_section are what they were before. This holds too for runs started by the functions called by another run.",
 ["histories"], "all sequences of successful and failing runs of one or more compiler objects",
 "Every test runs a compiler once per process.",
 ["src/lualib_mewa.cpp", "src/lua_run_compiler.cpp", "src/lua_userdata.hpp"], [("run set-up and clean-up", "src/lualib_mewa.cpp mewa_compiler_run"), ("output buffers", "src/lua_userdata.hpp mewa_compiler_userdata_t")], (), ["files written by compiler:run", "globals"])
prop("R02", "Output is exactly what was printed, placed in the target template",
 "The output file of a run is the target template with {Code}, {Source}, {Triple} and every section replaced by exactly what the functions printed with print and print_section, in order and of any size and content; identifiers in braces with no content vanish and all other text of the template, including other braces, is kept unchanged. Nothing printed is lost or interpreted.",
 ["inputs", "programs"], "all templates and all printed values",
 "One template is used by the tests.",
 ["src/strings.cpp", "src/lualib_mewa.cpp", "src/fileio.cpp"], [("template_format", "src/strings.cpp"), ("print redirection", "src/lualib_mewa.cpp"), ("file output", "src/fileio.cpp")], (), ["files written by compiler:run"])
prop("R03", "Source size and nesting depth are bounded by memory only",
 "A source of any length or nesting depth is compiled completely: lists of hundreds of thousands of elements, deeply nested expressions, very long tokens and very many open scopes give a complete tree with all elements in order, or, when a real limit is hit, a clean Lua error. It never crashes, corrupts memory or silently drops elements.",
 ["inputs"], "all sizes and shapes of sources (left and right recursive lists, nesting, flat productions, long tokens)",
 "The test sources have at most a few hundred tokens.",
 ["src/lua_run_compiler.cpp", "src/lexer.cpp", "src/lua_serialize.cpp"], [("Lua stack handling of the parser", "src/lua_run_compiler.cpp luaPushLexem/luaReduceStruct"), ("token values", "src/lexer.cpp")], (), ["AST of compiler:run"])
prop("R04", "Errors raised in the type system reach the caller with message and line",
 "An error raised by a Lua function during a compilation aborts the run and is raised by compiler:run with the message of the original error kept completely, wherever in the tree and however deeply it is raised, for any message text (without NUL characters) and any error value. Errors mewa raises itself carry their number, text, line and file and are passed on unchanged.",
 ["inputs", "programs"], "all error messages (any characters, any length, resembling mewa error strings), error values and places",
 "testError parses a few fixed messages.",
 ["src/error.cpp", "src/error.hpp", "src/lua_run_compiler.cpp", "src/lualib_mewa.cpp"], [("error message formatting and parsing", "src/error.cpp map2string/parseError"), ("call of functions", "src/lua_run_compiler.cpp")], (), ["error raised by compiler:run"])

prop("R05", "Nothing is leaked",
 "Repeating any history of library calls (type databases, compilers, runs, utility functions), accepted or refused, does not let the memory of the process grow after full garbage collections and leaves no file open, whatever refers to a type database (constructors, instances, trees). Closing the Lua state releases everything.",
 ["histories", "inputs"], "all call sequences and programs, in particular those refused or failing in the middle and those exceeding the initial buffers",
 "The tests run every scenario once in a short process and do not look at memory.",
 ["src/lualib_mewa.cpp", "src/lua_userdata.hpp", "src/lua_parameter.cpp", "src/memory_resource.hpp", "src/lua_run_compiler.cpp"], [("errors raised by C++ functions", "src/lualib_mewa.cpp lippincottFunction"), ("references to Lua objects", "src/lua_parameter.cpp getArgumentAsConstructor"), ("memory beyond the initial buffers", "src/memory_resource.hpp monotonic_buffer_resource")], (), ["mewa.typedb", "mewa.compiler", "compiler:run"])

prop("R06", "Tracing does not change a compilation, and the trace is the parse",
 "Passing a file for debug output to compiler:run changes nothing else: the same functions are called with the same trees, and the same output is written or the same error raised as without, whatever the functions return. The trace lists the actions of the parser in order: shifts (in source order, with name, value and line of the token) and reductions (with length, nonterminal, next token and function called) of the derivation the functions get as tree, up to the wrong token of a source with a syntax error, then the functions called and the values they returned. Its states form one run of a deterministic automaton, the same for all sources of a compiler and the same as in the action and goto tables mewa -d prints for the grammar; mewa -d generates the same compiler as without -d.",
 ["programs", "inputs"], "all grammars accepted, sources (correct or not) and values returned by functions",
 "The expected traces of language1 are ten fixed programs, run only where LLVM and the bcd module are installed; no test compares a run with and without debug output.",
 ["src/lua_run_compiler.cpp", "src/automaton.cpp", "src/mewa.cpp", "src/lualib_mewa.cpp"], [("trace of the actions", "src/lua_run_compiler.cpp printDebugAction/luaRunCompiler"), ("trace of calls", "src/lua_run_compiler.cpp luaCallNodeFunction"), ("dump of the tables", "src/automaton.cpp printStateTransitions/actionString")], (), ["compiler:run with dbgout", "mewa -d"])

prop("U01", "Floating point numbers are printed as hexadecimal constants LLVM reads back",
 "mewa.llvm_double_tohex(x) is the exact 64 bit IEEE representation of x as hexadecimal digits for every finite number, infinity and zero of either sign. mewa.llvm_float_tohex(x) denotes a number that is exactly representable as 32 bit float (denormalized floats and infinity included) and is a nearest float to x for every finite x, infinity and zero of either sign.",
 ["inputs"], "all 2^64 double values",
 "One value of each is tested.",
 ["src/lualib_mewa.cpp"], [("bit manipulation of the representation", "src/lualib_mewa.cpp mewa_llvm_float_tohex/mewa_llvm_double_tohex")], (), ["mewa.llvm_float_tohex", "mewa.llvm_double_tohex"])
prop("U02", "mewa.tostring writes tables, strings and numbers without losing anything",
 "For any acyclic Lua value made of tables with integer or string keys, strings of any bytes, finite numbers and booleans, mewa.tostring without depth limit gives a Lua expression that evaluates to an equal value, with and without indentation, independent of insertion order. With a depth limit only the tables below that depth are abbreviated, and it terminates for cyclic tables.",
 ["inputs"], "all Lua values without functions and userdata",
 "Used for printing in tests only; arrays with holes, quotes and control characters are not tested.",
 ["src/lua_serialize.cpp", "src/lualib_mewa.cpp"], [("serializeLuaValue/serializeLuaTable", "src/lua_serialize.cpp")], (), ["mewa.tostring"])

prop("U03", "mewa.stacktrace lists exactly the Lua functions on the call stack",
 "For any chain of Lua functions defined in files calling each other, mewa.stacktrace(depth,ignore) returns the list of the active functions from the innermost to the outermost (the main chunk last), each with the path of its file, the line of its definition and its name as written in the definition, without those whose name contains one of the strings to ignore and with not more than depth elements. It never fails, however long the paths are and also for code that was not loaded from a file.",
 ["inputs"], "all call chains, files, path lengths, depths and ignore lists; functions defined with 'function name(' at the start of a line, no tail calls",
 "No test calls mewa.stacktrace directly; it is used in error messages of the example language only.",
 ["src/lua_parameter.cpp", "src/lualib_mewa.cpp", "src/fileio.cpp"], [("pushStackTrace walks the Lua call stack and reads function headers from the source file", "src/lua_parameter.cpp pushStackTrace"), ("readFileLines", "src/fileio.cpp")], (), ["mewa.stacktrace"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
