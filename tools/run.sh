# run.sh crate entry[:secs]...
N=$1; shift
LL=$(find /verif/build/sym-$N -name 'h.ll' -printf '%T@ %p\n' | sort -n | tail -1 | cut -d' ' -f2)
for e in "$@"; do
case $e in *:*) ;; *) e=$e:60;; esac
/verif/engine/target/release/rsym --ll $LL --entry $e --out /tmp/o.json $OPTS 2>/dev/null || echo FAIL
python3 - <<'P'
import json
for r in json.load(open('/tmp/o.json')):
    s=r['stats']
    print(r['entry'],'EXH' if r['exhaustive'] else 'INC',r['wall_s'],'paths',s['paths'],'assumed',s['assumed'],'steps',s['steps'],'maxsteps',s['max_steps'],'qz3',s['q_z3'],'qa',s['q_assert'],'dom',s['q_domain'],'z3ms',s['z3_ms'],'unexp',s['unexplored'],'crashed',r['crashed'],r['covers'])
    if r['incomplete']: print('   inc',r['incomplete'],r['incomplete_at'][:2])
    for v in r['violations'][:4]: print('   VIOL',v['kind'],v['msg'],v['inputs'][:14],'\n      ',v['bt'][:700])
    if r['fork_sites']:
        for k,n in sorted(r['fork_sites'].items(),key=lambda x:-x[1])[:8]: print('     fork',n,k)
P
done
