#!/usr/bin/env python3
# Mutation testing of the checks: mutate.py N SEED [FILE...]
# Makes N random small changes in copies of the sources of /repo, one at a time, and runs the checks (quick tier) of a clone of
# /verif on them until one reports a violation. Prints what killed each change and the changes that survived.
# Works in /tmp/mut only.
import os, random, re, subprocess, sys, shutil, time, json
W = os.environ.get("MUTDIR", "/tmp/mut"); J = os.environ.get("JOBS", "8")
ALL = "T01 T02 T03 T04 T05 T06 T07 T08 L01 L02 L03 G01 G02 G03 G04 G05 G06 G07 G08 G09 R01 R02 R03 R04 R05 R06 U01 U02 U03".split()
FIRST = {
 "scope.hpp": "T01 T03 T06 T02 T04", "typedb.cpp": "T02 T03 T04 T05 T06 T07 T08", "typedb.hpp": "T02 T03 T04 T05 T06 T07", "identmap.hpp": "T07 T02", "tree.hpp": "T06",
 "lexer.cpp": "L01 L02 L03 G07 G06", "lexer.hpp": "L01 L02 L03 G07", "automaton.cpp": "G09 G01 G02 G03 G04 G05 G06", "automaton.hpp": "G01 G03 G04 G05", "automaton_structs.hpp": "G01 G02 G05 G04",
 "automaton_structs.cpp": "G01 G06", "automaton_parser.cpp": "G06 G07 G08 G01 G03", "automaton_tostring.cpp": "G07 G06", "error.cpp": "R04 G06 T08", "error.hpp": "R04 G06", "fileio.cpp": "R02 G06 G07",
 "languagedef_tostring.cpp": "G08", "lua_load_automaton.cpp": "G07 G06 R01", "lua_parameter.cpp": "T08 T02 T03 T05 U03", "lua_run_compiler.cpp": "R03 R01 R02 R04 G04 G03 G05", "lua_serialize.cpp": "U02 R02",
 "lualib_mewa.cpp": "T08 T02 T03 T04 T05 T06 R01 R02 U01 U02 U03", "mewa.cpp": "G06 G07 G08", "strings.cpp": "R02 G07 L01", "utf8.hpp": "L01 L02 L03 G06", "lua_userdata.hpp": "R01 R02 R04", "iterator.hpp": "L01 G06", "memory_resource.hpp": "T04 T05",
}
GROUP = lambda p: "typedb_misuse" if p in ("T08","R05") else "grammar" if p == "R06" else "typedb" if p[0] == "T" else "lexer" if p[0] == "L" else "grammar" if p in ("G01","G02","G03","G04","G05","G09") else "gen" if p[0] == "G" else "run" if p[0] == "R" else "util"

def mutations(line):
    code = line.split("//")[0]
    if not code.strip() or code.strip().startswith(("#","static_assert","*")) : return
    instr = [False]*len(line); q = False
    for i,ch in enumerate(line):
        if ch == '"' and (i == 0 or line[i-1] != '\\'): q = not q
        instr[i] = q
    def sub(rx, to):
        for m in re.finditer( rx, code):
            if not instr[m.start()]:
                yield line[:m.start()] + m.expand( to) + line[m.end():]
    for rx,to in ((r" < ", " <= "),(r" <= ", " < "),(r" > ", " >= "),(r" >= ", " > "),(r" == ", " != "),(r" != ", " == "),(r" && ", " || "),(r" \|\| ", " && "),
                  (r" \+ ", " - "),(r"(\w)\+1\b", r"\1+2"),(r"(\w)-1\b", r"\1-0"),(r" \+= ", " -= "),(r"\+\+(\w+)", r"\1"),(r"\bbreak;", ";"),(r"\bcontinue;", "break;"),(r"\btrue\b", "false"),(r"\bfalse\b", "true"),
                  (r"if \((.*)\)(\s*(?:\{.*|[^()]*;.*)?)$", r"if (!(\1))\2"),(r"if \((.*)\)(\s*)$", r"if (false)\2"),(r"else if \((.*)\)(\s*)$", r"else if (true)\2"),(r"\.back\(\)", ".front()"),(r"\.begin\(\)", ".end()"),(r"upper_bound", "lower_bound"),(r"lower_bound", "upper_bound"),(r"\bmax\(", "min("),(r" & ", " | "),(r"<< ", ">> "),
                  (r"\b0\b", "1"),(r"\b1\b", "2"),(r"\b([2-9]|[1-9]\d+)\b", r"(\1+1)"),(r"push_back", "assign(1,"),(r"(\w+)->second", r"\1->first"),(r"!(\w)", r"\1")):
        yield from sub( rx, to)
    s = code.strip()
    if re.match( r"^[\w.:\[\]>\-()*& ,]+\s*(\(.*\)|[-+|]?= .*|\+\+)?;$", s) and not re.match( r"^(return|typedef|using|const |static |int |std::|auto |bool |char|friend|break|throw|private|public|unsigned|double|float|Scope|case|else|enum|class|struct|mewa::)", s):
        yield line[:len(code)-len(code.lstrip())] + ";" + line[len(code.rstrip()):]

def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2]); files = sys.argv[3:]
    rnd = random.Random( seed)
    R, V, B = W + "/repo", W + "/verif", W + "/b"
    for d in (R,V): shutil.rmtree( d, ignore_errors=True)
    os.makedirs( R, exist_ok=True); os.makedirs( B, exist_ok=True)
    shutil.copytree( "/repo/src", R + "/src"); subprocess.run(["git","clone","-q","/verif",V], check=True)
    os.makedirs( V + "/evidence", exist_ok=True); os.makedirs( V + "/replays", exist_ok=True)
    env = dict( os.environ, LC_ALL="C.UTF-8")
    for k in ("LUA_PATH","LUA_CPATH","MAKEFLAGS"): env.pop( k, None)
    cand = []
    for f in sorted( os.listdir( "/repo/src")):
        if files and f not in files: continue
        if f in ("lua_5_1.hpp","lua_5_2.hpp","version.hpp","export.hpp"): continue
        blame = subprocess.run(["git","-C","/repo","blame","-s","HEAD","--","src/"+f],capture_output=True,text=True).stdout.splitlines()
        lines = open( "/repo/src/"+f).read().split("\n")
        incomment = False
        for i,l in enumerate( lines):
            if i < 12 or (i < len(blame) and not blame[i].startswith("^")): continue
            if "debug" in l.lower() or "dbg" in l.lower() or "throw" in l or "buffer" in l.lower() or "reserve" in l or "checkStack" in l or "%s" in l: continue
            ms = list( dict.fromkeys( m for m in mutations( l) if m != l))
            if ms: cand.append(( f, i, ms))
    # files with equal weight per square root of candidates
    byf = {}
    for c in cand: byf.setdefault( c[0], []).append( c)
    fl = sorted( byf); wt = [len( byf[f])**0.7 for f in fl]
    log = open( W + "/result.log", "a")
    def out(*a): print( *a, flush=True); print( *a, file=log, flush=True)
    for k in range( n):
        f = rnd.choices( fl, wt)[0]; _,i,ms = rnd.choice( byf[f]); m = rnd.choice( ms)
        src = open( "/repo/src/"+f).read().split("\n"); old = src[i]; src[i] = m
        open( R + "/src/" + f, "w").write( "\n".join( src))
        t0 = time.time(); res = None; props = FIRST.get( f, "").split(); first = set( props); props += [p for p in ALL if p not in props]
        made = set()
        for p in props:
            g = GROUP( p)
            if g not in made:
                r = subprocess.run(["make","-s","-j"+J,"-f","build.mk","REPO="+R,"B="+B,"check_"+g],cwd=V,env=env,capture_output=True,text=True)
                if r.returncode: res = "does not compile"; break
                made.add( g)
            try:
                r = subprocess.run([B + "/check_"+g,"--property",p,"--tier","quick","--seed",str(1),"--evidence","evidence/"+p+".json","--replay-dir",V+"/replays","--known","known_findings.txt","--scale","1" if p in first else "0.25"],cwd=V,env=env,capture_output=True,text=True,errors="replace",timeout=900)
                if r.returncode == 1:
                    sig = re.findall( r"failure \[(.*?)\]", r.stdout + r.stderr); res = "killed by " + p + " " + (sig[0] if sig else ""); break
                if r.returncode: res = "check %s exit %d" % (p, r.returncode); break
            except subprocess.TimeoutExpired: res = "timeout " + p; break
        out( "%s [%d] %s:%d %s (%.0fs)" % ("SURVIVED" if res is None else "ok", k, f, i+1, res or "", time.time()-t0))
        if res is None or not res.startswith( ("does","killed")): out( "   - " + old.strip() + "\n   + " + m.strip())
        src[i] = old
        open( R + "/src/" + f, "w").write( "\n".join( src))
if __name__ == "__main__": main()
