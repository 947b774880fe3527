# usage: mkseed(id, prop, [(file, old, new)], demo_cpp, needs, breaks, flags)
import os, subprocess, json, sys
def mkseed(id, prop, edits, demo, needs, breaks, flags="-O1 -g", libs=True, run="", sh=None):
    d="/verif/seeded/"+id; os.makedirs(d, exist_ok=True)
    S="/tmp/ms"  # scratch clone
    if not os.path.isdir(S): subprocess.run(["git","clone","-q","/repo",S],check=True)
    subprocess.run("git checkout -q -- . && git fetch -q origin && git reset -q --hard origin/HEAD",shell=True,cwd=S,check=True)
    for f,o,n,*last in edits:
        p=S+"/"+f; t=open(p).read(); assert last or t.count(o)==1, (id,f,t.count(o)); i=t.rindex(o); open(p,"w").write(t[:i]+n+t[i+len(o):])
    df=subprocess.run(["git","-C",S,"diff"],capture_output=True,text=True).stdout; open(d+"/patch.diff","w").write(df)
    subprocess.run(["git","-C",S,"checkout","-q","--","."])
    if demo: open(d+"/demo.cpp","w").write(demo)
    open(d+"/demo.sh","w").write(sh or """#!/bin/bash
# exit 0: the property holds in this demonstration
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT; ulimit -c 0
g++ -std=c++20 -w %s -DLIBCOPP_API_COPP_NATIVE=1 -DLIBCOPP_API_COTASK_NATIVE=1 -I"$PWD/include" -I"$PWD/_build/_generated/include" "$D/demo.cpp" %s -lpthread -o "$W/demo" || exit 2
timeout 60 "$W/demo" %s
""" % (flags, '"$PWD/_build/libcotask.a" "$PWD/_build/libcopp.a"' if libs else "", run))
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(d+"/meta.json","w"), indent=1)
    print(id, len(df))
