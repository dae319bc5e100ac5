#!/bin/bash
# seed.sh ID PROPERTY "needs" "what_it_breaks": take the uncommitted change in /tmp/mut (a copy of /repo)
# with demo /tmp/demo.rs, validate it, store it as seeded/ID
set -e
ID=$1; P=$2; M=/tmp/mut; S=/verif/seeded/$ID
mkdir -p $S
cd $M
git diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "empty"; exit 1; }
cp /verif/bin/seedtpl/demo.sh $S/demo.sh
python3 - "$S" <<'Q'
import sys
c=open('/verif/bin/seedtpl/common.rs').read()
d=open('/tmp/demo.rs').read()
open(sys.argv[1]+'/demo.rs','w').write(d.replace('include!("common.rs");',c))
Q
python3 - "$ID" "$P" "$3" "$4" > $S/meta.json <<'Q'
import sys,json
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1,ensure_ascii=False))
Q
# original lines?
python3 - <<'Q'
import re,subprocess
f=None;ok=False
for l in subprocess.run(['git','diff','-U0'],capture_output=True,text=True).stdout.splitlines():
    if l.startswith('--- a/'): f=l[6:]
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m:
        a=int(m[1]);n=int(m[2] or 1)
        if n==0: continue
        b=subprocess.run(['git','blame','-s','-L','%d,%d'%(a,a+n-1),'HEAD','--',f],capture_output=True,text=True).stdout
        o=subprocess.run(['git','rev-list','e014347'],capture_output=True,text=True).stdout.split()
        for x in b.splitlines():
            h=x.split()[0].lstrip('^')
            if any(y.startswith(h) for y in o): ok=True
print("touches original lines:",ok)
Q
# demo on the unchanged tree
(cd /repo && bash $S/demo.sh > /tmp/demo0.log 2>&1) && echo "demo clean: 0" || { echo "demo fails on clean tree"; tail -5 /tmp/demo0.log; }
. /opt/vp/env.sh
cargo test --workspace --no-run --offline > /tmp/mb.log 2>&1 || { tail -20 /tmp/mb.log; exit 1; }
(bash $S/demo.sh > /tmp/demo1.log 2>&1) && echo "DEMO DOES NOT FAIL" || { echo "demo mutant: nonzero"; grep -h "BROKEN\|demo exit" /tmp/demo1.log; }
sed "s#cd /repo#cd $M#" /opt/vp/test.sh > /tmp/mtest.sh
bash /tmp/mtest.sh /tmp/mout.json > /tmp/mt.log 2>&1 || true
tail -1 /tmp/mt.log
