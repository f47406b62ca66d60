#!/usr/bin/env python3
"""mkbug.py < SPEC ...: development aid that writes seeded/ID from one text. For each bug:
@@ ID PROP | needs | breaks | libs
file
<<<
old
===
new
>>>
--- demo.c
..."""
import sys,subprocess,json,os,re
W="/tmp/wt"
def git(*a): return subprocess.run(["git","-C",W]+list(a),check=True,capture_output=True,text=True).stdout
git("fetch","-q","/repo"); git("checkout","-qf","FETCH_HEAD")
for blk in re.split(r'^@@ ',sys.stdin.read(),flags=re.M)[1:]:
    head,rest=blk.split("\n",1); h=[x.strip() for x in head.split("|")]; i,prop=h[0].split(); libs=h[3] if len(h)>3 and h[3] else "-lmstdlib"
    edits,demo=rest.split("--- demo.c\n",1) if "--- demo.c\n" in rest else (rest,None)
    git("checkout","-q","--",".")
    bad=0
    for m in re.finditer(r'^(\S+)\n<<<\n(.*?)\n===\n(.*?)\n?>>>$',edits,re.M|re.S):
        f=W+"/"+m.group(1); s=open(f).read(); n=s.count(m.group(2))
        if n!=1: print("%s: %s: %d matches of %r"%(i,m.group(1),n,m.group(2))); bad=1; continue
        open(f,"w").write(s.replace(m.group(2),m.group(3)))
    d=git("diff")
    if bad or not d: print(i,"SKIPPED"); continue
    S="/verif/seeded/"+i; os.makedirs(S,exist_ok=True)
    open(S+"/patch.diff","w").write(d)
    json.dump(dict(property=prop,needs=h[1],what_it_breaks=h[2]),open(S+"/meta.json","w"),indent=1)
    if demo: open(S+"/demo.c","w").write(demo)
    open(S+"/demo.sh","w").write('''#!/bin/bash
# exit 0 when the property holds on the built tree
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -r -- "$t"' EXIT
gcc -w -rdynamic -o "$t/demo" "$here/demo.c" -I/repo/include -I/repo/_build/include -L/repo/_build/lib LIBS -lpthread || exit 99
cd "$t" && LD_LIBRARY_PATH=/repo/_build/lib timeout 120 ./demo
'''.replace("LIBS",libs))
    print(i,"ok")
git("checkout","-q","--",".")
