#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from the definitions in tools/plant/*.py and tools/demo: plant.py [id ...]
Each is confirmed in a scratch copy of /repo: the patch applies, its removed lines are of the original commit, it
builds, the stable tests pass, demo.sh exits 0 without the patch and not 0 with it."""
import json, os, shutil, subprocess as sp, sys, glob, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'd7ab6e5'
bugs = []
def bug(name, prop, needs, breaks, edits, main, tests=None):
    bugs.append(dict(name=name, prop=prop, needs=needs, breaks=breaks, edits=edits, main=main))
for f in sorted(glob.glob(ROOT + '/tools/plant/*.py')):
    exec(open(f).read())
PRE = '''mod common;
#[allow(unused_imports)]
use cloud_storage_signature::{HtmlFormData, SigningKey};
#[allow(unused_imports)]
use common::*;
#[allow(unused_imports)]
use std::time::{Duration, SystemTime};
'''
def sh(cmd, cwd, **kw):
    return sp.run(cmd, cwd=cwd, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, **kw)
want = sys.argv[1:]
work = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
repo = work + '/repo'
sp.check_call(['cp', '-a', '/repo', repo])
sp.check_call(['git', 'checkout', '-q', '--', '.'], cwd=repo)
stable = json.load(open('/opt/vp/BASELINE.json'))
bad = 0
for b in bugs:
    if want and b['name'] not in want: continue
    d = f"{ROOT}/seeded/{b['name']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/demo/src')
    for f in ('Cargo.toml', 'Cargo.lock', 'src/common.rs', 'src/key.pem', 'src/other.pem'):
        shutil.copy(f'{ROOT}/tools/demo/{f}', f'{d}/demo/{f}')
    shutil.copytree(f'{ROOT}/tools/demo/fakereqwest', d + '/demo/fakereqwest')
    shutil.copy(f'{ROOT}/tools/demo/demo.sh', d + '/demo.sh')
    open(d + '/demo/src/main.rs', 'w').write(PRE + b['main'])
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    sp.check_call(['git', 'checkout', '-q', '--', '.'], cwd=repo)
    ok = True
    for f, old, new in b['edits']:
        p = f'{repo}/src/{f}'; s = open(p).read()
        if s.count(old) != 1: print(b['name'], 'edit matches', s.count(old), 'times:', repr(old[:70])); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    if not ok: bad += 1; continue
    diff = sp.check_output(['git', 'diff'], cwd=repo, text=True)
    open(d + '/patch.diff', 'w').write(diff)
    # how many removed lines are of the original commit?
    orig = total = 0
    for f in {e[0] for e in b['edits']}:
        bl = sp.check_output(['git', 'blame', '-s', '-l', 'HEAD', '--', 'src/' + f], cwd=repo, text=True).splitlines()
        base = sp.check_output(['git', 'rev-parse', BASE], cwd=repo, text=True).strip()
        for h in sp.check_output(['git', 'diff', '-U0', '--', 'src/' + f], cwd=repo, text=True).splitlines():
            if h.startswith('@@'):
                a = h.split()[1][1:].split(','); n = int(a[1]) if len(a) > 1 else 1
                for i in range(int(a[0]), int(a[0]) + n):
                    total += 1; orig += bl[i - 1].lstrip('^')[:39] == base[:39]
    st = [f'original lines {orig}/{total}']
    if orig == 0: ok = False
    r = sh(['bash', ROOT + '/tools/stable.sh', repo], work)
    st.append('tests ' + ('pass' if r.returncode == 0 else 'FAIL ' + r.stdout[-300:])); ok &= r.returncode == 0
    r = sh(['bash', d + '/demo.sh'], repo)
    st.append(f'demo patched rc={r.returncode} {r.stdout.strip().splitlines()[0][:110] if r.stdout.strip() else ""}'); ok &= r.returncode == 1
    if r.returncode != 1: st.append(r.stdout[-1200:])
    sp.check_call(['git', 'checkout', '-q', '--', '.'], cwd=repo)
    r = sh(['bash', d + '/demo.sh'], repo)
    st.append(f'demo unchanged rc={r.returncode}'); ok &= r.returncode == 0
    if r.returncode != 0: st.append(r.stdout[-2500:])
    bad += not ok
    print('OK ' if ok else 'BAD', b['name'], '|', ' | '.join(st), flush=True)
shutil.rmtree(work)
sys.exit(bad != 0)
