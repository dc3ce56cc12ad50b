#!/bin/bash
# dev helper: k.sh cNN [extra args]
cd /verif/kani; export CARGO_NET_OFFLINE=true; f=$1; shift
rm -f /tmp/$f.json; timeout 880 cargo kani --features $f -j 8 --output-format terse --target-dir /tmp/kt/$f -Z unstable-options -Z stubbing --export-json /tmp/$f.json "$@" > /tmp/$f.log 2>&1
grep -E "^error|^Manual|^Complete|warning: unused" -A6 /tmp/$f.log | head -60
python3 - $f <<'P'
import json,sys
try: d=json.load(open(f'/tmp/{sys.argv[1]}.json'))
except Exception as e: print('no json',e); sys.exit()
for r in sorted(d['verification_results']['results'],key=lambda r:r['duration_ms']):
    bad=[c for c in r['checks'] if c['status'] not in('Success','Unreachable','Satisfied')]
    if r['status']!='Success' or bad or r['duration_ms']>15000:
        print(r['harness_id'],r['status'],r['duration_ms'],[(c['status'],c['description'],c['location']['file'][-25:],c['location']['line']) for c in bad if c['status']!='Undetermined'][:5])
P
