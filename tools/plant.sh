#!/bin/bash
# tools/plant.sh ID [notest]: confirm a planted change in a scratch copy (private mount namespace): it applies, builds, keeps the
# stable tests, its demo passes without and fails with it, and tells whether the property's check catches it.
id=$1; S=/verif/seeded/$id; W=/tmp/w_$id; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p $W && cp -a /repo/. $W/ || exit 1
mkdir -p /tmp/v_$id/build; cp -a /verif/{check.py,checks,engine,frozen,tools,known_findings.json} /tmp/v_$id/; cp -p /verif/build/mstana /tmp/v_$id/build/
D=/tmp/demo_$id; mkdir -p $D; cp -a $S/. $D/; rm -f $D/patch.diff $D/meta.json
unshare -Urm bash -c "mount --bind $W /repo; cd /repo
git apply --check $S/patch.diff || { echo '$id NOAPPLY'; exit 1; }
timeout 300 bash $D/demo.sh >/tmp/$id.d0 2>&1; a=\$?
git apply $S/patch.diff; bash /opt/vp/build.sh >/tmp/$id.bld 2>&1 || { echo '$id NOBUILD'; grep -n 'error' /tmp/$id.bld | head; exit 1; }
timeout 300 bash $D/demo.sh >/tmp/$id.d1 2>&1; b=\$?
cd /tmp/v_$id; timeout 900 python3 check.py $prop > /tmp/$id.chk 2>&1; k=\$?
t=skip
if [ '$2' != notest ]; then bash /opt/vp/test.sh /tmp/$id.json >/tmp/$id.tst 2>&1; t=\$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); b=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b.get('tests')
r=set(json.load(open('/tmp/$id.json'))['passed'])
m=[x for x in b if x not in r]
print('missing',len(m),m[:3])
P
); fi
echo \"$id prop=$prop demo_clean=\$a demo_bug=\$b check=\$k tests: \$t :: \$(grep -v '^  path' /tmp/$id.chk | head -2 | tr '\n' ' ')\""
rm -rf /tmp/w_$id /tmp/demo_$id /tmp/v_$id
