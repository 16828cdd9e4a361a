#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'what it breaks' DEMO.rs  < edits
edits: JSON list of [file, old, new] applied to a scratch copy of /repo (/tmp/wt).  Verifies that
the change builds, passes the stable tests, and that the demo separates the two trees."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/wt'
id_, prop, needs, what, demo = sys.argv[1:6]
edits = json.load(sys.stdin)


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


head = sh('git -C /repo rev-parse HEAD').stdout.strip()
assert sh(f'cd {WT} && git fetch -q /repo && git checkout -q -f {head} && git checkout -q -- .').returncode == 0
for f, o, n in edits:
    p = os.path.join(WT, f)
    s = open(p).read()
    assert s.count(o) == 1, (f, o, s.count(o))
    open(p, 'w').write(s.replace(o, n))
d = os.path.join(ROOT, 'seeded', id_)
os.makedirs(d, exist_ok=True)
patch = sh(f'git -C {WT} diff').stdout
open(d + '/patch.diff', 'w').write(patch)
shutil.copy(os.path.join(ROOT, 'tools/demo/demo.sh'), d + '/demo.sh')
src = open(demo).read()
open(d + '/demo.rs', 'w').write(src)
if 'mod forge' in src:
    shutil.copy(os.path.join(ROOT, 'tools/demo/forge.rs'), d + '/forge.rs')
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
r = sh(f'cd /repo && bash {d}/demo.sh')
print('demo clean:', r.returncode, r.stdout[-300:], r.stderr[-300:])
ok = r.returncode == 0
r = sh(f'cd {WT} && bash {d}/demo.sh')
print('demo bug:', r.returncode, r.stdout[-300:], r.stderr[-300:])
ok = ok and r.returncode not in (0, 2)
env = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
r = sh(f'cd {WT} && cargo test --workspace --offline --no-fail-fast 2>&1', env=env)
base = json.load(open('/opt/vp/BASELINE.json'))
names = base if isinstance(base, list) else base.get('stable') or base.get('passed') or base.get('tests')
if isinstance(names, dict):
    names = [k for k, v in names.items()]
res = {l.split()[1]: l.split()[-1] for l in r.stdout.splitlines() if l.startswith('test ') and l.split()[-1] in ('ok', 'FAILED')}
bad = [n for n in names if res.get(n.split('::',1)[1], res.get(n)) == 'FAILED']
miss = [n for n in names if n not in res and n.split('::',1)[1] not in res]
print('tests failing:', bad, 'missing:', miss[:3], len(miss))
ok = ok and not bad and not miss
print('KEEP' if ok else 'REJECT', id_)
sh(f'cd {WT} && git checkout -q -- .')
sys.exit(0 if ok else 1)
