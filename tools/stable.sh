#!/bin/bash
# stable.sh REPO: runs the tests of a copy of the repository and fails unless every stable test passes.
cd "$1" || exit 3
cargo test --offline --no-fail-fast 2>&1 > /tmp/stable.$$ 
python3 - /tmp/stable.$$ <<'P'
import json,re,sys
b=json.load(open('/opt/vp/BASELINE.json'))
names=b.get('stable') or b.get('tests') or b
ok=set(re.findall(r'^test (.+?) \.\.\. ok', open(sys.argv[1]).read(), re.M))
miss=[]
for n in names:
    t=n if isinstance(n,str) else n.get('name') or n.get('id')
    if t.startswith('doc:'):
        m=re.match(r'doc:\w+::(\S+) - (?:(\S+) )?#(\d+)',t)
        docs=[o for o in ok if o.startswith(m.group(1)+' - '+(m.group(2) or ''))]
        if len(docs)<int(m.group(3)): miss.append(t)
        continue
    if not any(t==o or t.endswith('::'+o) or t.endswith(o) or o.endswith(t) for o in ok): miss.append(t)
print(len(names),'stable,',len(ok),'ok; missing:',miss)
sys.exit(bool(miss))
P
rc=$?; rm -f /tmp/stable.$$; exit $rc
