#!/bin/bash
# development only: rebuild /verif/baseline.json from the committed tree
cd "$(dirname "$0")"
D=$(mktemp -d)
for p in "${@:-$(seq -f C%02g 1 20)}"; do for q in $p; do
  echo '{"contracts":{}}' >/dev/null
  /opt/venv/bin/python check.py --property $q --write-baseline $D/$q.json || echo "$q: exit $?"
done; done
/opt/venv/bin/python - $D <<'P'
import json,sys,glob,os
b=json.load(open('baseline.json')) if os.path.exists('baseline.json') else dict(source=None,contracts={})
for f in sorted(glob.glob(sys.argv[1]+'/*.json')):
    d=json.load(open(f)); p=os.path.basename(f)[:3]
    b['contracts']={k:v for k,v in b['contracts'].items() if not k.startswith(p+'/')}
    b['contracts'].update(d['contracts']); b['source']=d['source']
json.dump(b,open('baseline.json','w'),indent=0,sort_keys=True)
P
rm -rf "$D"
