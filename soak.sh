#!/bin/bash
# soak.sh PID SEED SECONDS [WORKERS] [SRC]: runs only the oracle of one property (development aid)
cd /verif; s=$(mktemp -d); mkdir $s/w
src=${5:-/repo}
for w in $(seq 0 $((${4:-4}-1))); do
  mkdir $s/w$w; (cd $s/w$w; timeout $(( $3 + 100 )) bash /verif/jy/run.sh -B /verif/jy/oracle.py $src $1 - $s/o$w soak $2 $((w*1000000)) 1000000 $3 >$s/l$w 2>&1 ) &
done; wait
python3 - $s <<'P'
import json,sys,glob
n=0;d=set()
for f in sorted(glob.glob(sys.argv[1]+'/o?')):
    r=json.load(open(f)); n+=r['evaluations']; d|=set(r['nontrivial'])
    if r['error']: print(r['error'])
    for x in r['failures'][:1]: print('CASE',x['case'][:1200]); print('MSG',x['message'][:1500])
    if r['skipped']: print('skipped',r['skipped'])
print('runs',n,'distinct nontrivial',len(d))
P
cat $s/l0 | tail -3
rm -rf $s
