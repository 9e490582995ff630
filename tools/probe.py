#!/usr/bin/env python3
# probe.py LIST [FROM [TO]]: runs the checks on the changes of a list (python file defining P = [(file, old, new, "property ...")]), one at a time.
# Prints what detected each change and the changes that survived all checks. Works in $MUTDIR (default /tmp/probe.w) only.
import os, re, subprocess, sys, shutil, time
sys.path.insert( 0, os.path.dirname( __file__))
from mutate import ALL, FIRST, GROUP
W = os.environ.get("MUTDIR", "/tmp/probe.w"); J = os.environ.get("JOBS", "8")
P = {}; exec( open( sys.argv[1]).read(), P); P = P["P"]
a = int( sys.argv[2]) if len( sys.argv) > 2 else 0; b = int( sys.argv[3]) if len( sys.argv) > 3 else len( P)
R, V, B = W + "/repo", W + "/verif", W + "/b"
for d in (R,V): shutil.rmtree( d, ignore_errors=True)
os.makedirs( R, exist_ok=True); os.makedirs( B, exist_ok=True)
shutil.copytree( "/repo/src", R + "/src"); subprocess.run(["git","clone","-q","/verif",V], check=True)
os.makedirs( V + "/evidence", exist_ok=True); os.makedirs( V + "/replays", exist_ok=True)
env = dict( os.environ, LC_ALL="C.UTF-8", VERIF_JOBS=J)
for k in ("LUA_PATH","LUA_CPATH","MAKEFLAGS"): env.pop( k, None)
for k in range( a, b):
    f,old,new,props = P[k]
    src = open( "/repo/src/"+f).read()
    if src.count( old) < 1 or old == new: print( "skip [%d] %s: occurs %d times" % (k,f,src.count( old)), flush=True); continue
    open( R + "/src/" + f, "w").write( src.replace( old, new, 1))
    t0 = time.time(); res = None
    props = props.split() or FIRST[f].split(); more = [p for p in FIRST[f].split() + ALL if p not in props]; made = set()
    for p in list( dict.fromkeys( props + more)):
        g = GROUP( p)
        if g not in made:
            r = subprocess.run(["make","-s","-j"+J,"-f","build.mk","REPO="+R,"B="+B,"check_"+g],cwd=V,env=env,capture_output=True,text=True)
            if r.returncode: res = "does not compile " + r.stderr[-300:]; break
            made.add( g)
        try:
            r = subprocess.run([B + "/check_"+g,"--property",p,"--tier","quick","--seed","1","--evidence","evidence/"+p+".json","--replay-dir",V+"/replays","--known","known_findings.txt"] + ([] if p in props else ["--scale","0.25"]),cwd=V,env=env,capture_output=True,text=True,errors="replace",timeout=900)
            if r.returncode == 1:
                sig = re.findall( r"failure \[(.*?)\]", r.stdout + r.stderr); res = "killed by " + p + " " + (sig[0] if sig else ""); break
            if r.returncode: res = "check %s exit %d" % (p, r.returncode); break
        except subprocess.TimeoutExpired: res = "timeout " + p; break
    print( "%s [%d] %s %s (%.0fs)" % ("SURVIVED" if res is None else "ok", k, f, res or "", time.time()-t0), flush=True)
    if res is None: print( "   - " + old.strip()[-150:] + "\n   + " + new.strip()[-150:], flush=True)
    open( R + "/src/" + f, "w").write( src)
