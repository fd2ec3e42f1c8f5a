#!/usr/bin/env python3
"""mkseeds.py [ID ...]: (re)creates /verif/seeded/<id> from the definitions in tools/seeds/*.py and tries each in scratch
copies of /repo (/tmp/seedrepo, /tmp/seedbase): compiles, 39 tests pass, demonstration fails with and passes without."""
import importlib.util, json, os, shutil, subprocess, sys, glob
V = '/verif'; R = '/tmp/seedrepo'; B = '/tmp/seedbase'
SEEDS = {}
for f in sorted(glob.glob(f'{V}/tools/seeds/*.py')):
    sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    SEEDS.update(m.SEEDS)
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='1.98.1', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='')

def sh(c, cwd, t=600):
    p = subprocess.run(c, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr

def one(i):
    d = SEEDS[i]
    sh('git checkout -q -f . && git reset -q --hard $(git -C /repo rev-parse HEAD) || (git fetch -q /repo && git reset -q --hard FETCH_HEAD)', R)
    for (f, old, new, *k) in d['edits']:
        p = f'{R}/{f}'; t = open(p).read()
        n = t.count(old)
        k = k[0] if k else None
        if k is None:
            assert n == 1, (i, f, old, n)
            t = t.replace(old, new)
        else:
            parts = t.split(old); assert len(parts) > k + 1, (i, n)
            t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        open(p, 'w').write(t)
    o = f'{V}/seeded/{i}'; shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
    open(f'{o}/patch.diff', 'w').write(sh('git diff', R)[1])
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(f'{o}/meta.json', 'w'), indent=1)
    kit = f'{V}/tools/seedkit'
    if 'py' in d:
        shutil.copy(f'{kit}/demo_py.sh', f'{o}/demo.sh'); shutil.copy(f'{kit}/mq.py', o)
        open(f'{o}/demo.py', 'w').write('from mq import *\n' + d['py'])
    else:
        shutil.copy(f'{kit}/demo_rs.sh', f'{o}/demo.sh'); open(f'{o}/demo.rs', 'w').write(d['rs'])
    rc, out = sh('cargo build --workspace --offline', R)
    if rc: return f'{i}: does not build\n' + out[-1500:]
    rc, out = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', R)
    if rc: return f'{i}: tests fail\n' + '\n'.join(l for l in out.splitlines() if 'FAILED' in l or 'panicked' in l)
    rc, out = sh(f'cp -r {o} /tmp/seeddemo && bash /tmp/seeddemo/demo.sh; r=$?; rm -rf /tmp/seeddemo; exit $r', R, 300)
    if rc == 0: return f'{i}: demo passes with the patch'
    if rc == 3 or 'Traceback' in out and 'AssertionError' not in out: return f'{i}: demo broken {out[-1500:]}'
    msg = out.strip().splitlines()[-1:] 
    rc, out = sh(f'cp -r {o} /tmp/seeddemo && bash /tmp/seeddemo/demo.sh; r=$?; rm -rf /tmp/seeddemo; exit $r', B, 300)
    if rc: return f'{i}: demo fails without the patch\n' + out[-1500:]
    return f'{i}: ok  {msg}'

sh('git fetch -q /repo && git reset -q --hard FETCH_HEAD; cargo build --workspace --offline; cargo test --workspace --no-run --offline', B)
for i in (sys.argv[1:] or SEEDS):
    print(one(i), flush=True)
