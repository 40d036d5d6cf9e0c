#!/bin/bash
# Checks the engine itself: random lock/flag/counter programs explored with and
# without happens-before state caching must give the same set of outcomes.
# usage: tools/selftest/run.sh [number of programs] [tier]
D=$(cd "$(dirname "$0")" && pwd); V=$(dirname "$(dirname "$D")")
T=$(mktemp -d); cp -a "$V/engine" "$V/harness" "$V/stubs" "$V/run.py" "$T/"
cp "$D/self.cpp" "$D/prim.cpp" "$T/harness/"
# every primitive the engine stands in for: exclusion, hand-over, thread_local data
P=$(python3 "$T/run.py" bin prim) || { rm -rf "$T"; exit 2; }
for s in $("$P" --list | cut -d" " -f1); do
  "$P" --scenario "$s" --workers 4 --time 60 --tier quick --out "$T/p" >/dev/null 2>&1; r=$?
  [ "$s" = P.dead ] && r=$((1 - r))   # the one that must be found
  [ $r = 0 ] || { echo "primitive $s: FAILED"; rm -rf "$T"; exit 1; }
done
B=$(python3 "$T/run.py" bin self) || { rm -rf "$T"; exit 2; }
python3 - "$B" "${2:-quick}" "${1:-60}" "$T" <<'PY'
import subprocess,os,json,sys
from concurrent.futures import ThreadPoolExecutor
B,tier,n,T=sys.argv[1],sys.argv[2],int(sys.argv[3]),sys.argv[4]
def one(i):
    r=[]
    for c in '01':
        o='%s/o.%d.%s'%(T,i,c)
        subprocess.run([B,'--scenario','S.%d'%i,'--workers','2','--time','100','--tier',tier,'--out',o],env=dict(os.environ,VPMC_CACHE=c))
        j=json.load(open(o)); r.append((j['executions'],j['distinct_outcomes'],j['bound_completed'],j['points']))
    return i,r
bad=0;E=[0,0]
with ThreadPoolExecutor(4) as ex:
    for i,r in ex.map(one,range(n)):
        for k in 0,1: E[k]+=r[k][0]
        if r[0][1:3]!=r[1][1:3]: print('DIFFERENT',i,r); bad+=1
print('programs',n,'different',bad,'executions without/with caching',E)
sys.exit(bad!=0)
PY
rc=$?; rm -rf "$T"; exit $rc
