#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines S=[dict(id,property,needs,breaks,edits=[(file,old,new)],demo=C++ source)].
Writes seeded/<id>/ (patch.diff, demo.sh, demo.cpp, meta.json) using a scratch copy of /repo's HEAD."""
import sys,os,json,subprocess,tempfile,shutil
ns={}; exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:]
w=tempfile.mkdtemp(); subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x"%(w,w),shell=True)
for s in ns["S"]:
    if only and s["id"] not in only: continue
    for f,o,n in s["edits"]:
        p=w+"/"+f; t=open(p).read()
        assert t.count(o)==1,(s["id"],f,t.count(o),o)
        open(p,"w").write(t.replace(o,n))
    d="/verif/seeded/"+s["id"]; os.makedirs(d,exist_ok=True)
    open(d+"/patch.diff","w").write(subprocess.check_output(["git","-C",w,"diff"],text=True)); subprocess.check_call(["git","-C",w,"checkout","-q","--","."])
    open(d+"/demo.cpp","w").write(s["demo"])
    open(d+"/demo.sh","w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2; trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -w -fopenmp -I/repo/include -I/repo/include/libcmaes -I/repo/_build/include -I/usr/include/eigen3 "$here/demo.cpp" -o "$t/demo" -L/repo/_build/src -lcmaes -Wl,-rpath,/repo/_build/src || exit 3
cd "$t" && timeout 200 ./demo
''')
    json.dump(dict(property=s["property"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
    print(d)
shutil.rmtree(w)
