#!/usr/bin/env python3
"""Development aid: is any contract vacuous? Adds `ensures false` to one function at a time; the
verifier must refuse each of them. Usage: smoke.py AREAS [MODULE-PREFIX]"""
import glob, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
areas, prefix = sys.argv[1], (sys.argv[2:] or [''])[0]
D = V + '/.build/target/debug/deps'

def functions():
    for f in sorted(glob.glob(V + '/contracts/*.vc')):
        area = mod = None
        for n, l in enumerate(open(f)):
            if l.startswith('@area '): area = l.split()[1]
            if l.startswith('@module '): mod = l.split()[1]
            if l.startswith('@fn ') and area in areas.split(',') and mod.startswith(prefix):
                yield f, n, mod, l[4:].split('(')[0].strip()

def run(job):
    f, n, mod, name = job
    d = tempfile.mkdtemp(prefix='smoke')
    files = []
    for g in sorted(glob.glob(V + '/contracts/*.vc')):
        if g.endswith(('passwd.vc', '/app.vc')) and os.path.basename(g)[:-3] not in areas.split(','): continue
        t = open(g).read().splitlines(True)
        if g == f:
            # the end of this function's specification
            k = n + 1
            spec = None
            while k < len(t) and (not t[k].startswith('@') or t[k].startswith('@props') or t[k].startswith('@attr')):
                k += 1
            body = ''.join(t[n + 1:k])
            t.insert(k, '        false,\n' if re.search(r'^\s*ensures', body, re.M) else '    ensures false,\n')
        p = os.path.join(d, os.path.basename(g))
        open(p, 'w').write(''.join(t))
        files.append(p)
    out = d + '/out'
    os.makedirs(out)
    subprocess.run([V + '/.build/vext/debug/vext', '--src', '/repo/src', '--out', out, *([] if 'app' in areas.split(',') else ['--skip', 'application,fn:run']), *(['--extra', 'passwd_tool=/repo/ratelmq-passwd/src/main.rs=ratelmq'] if 'passwd' in areas else []), '--areas', areas, '--contracts', ','.join(files)], check=True, stdout=subprocess.DEVNULL)
    ex = []
    for c in 'serde tokio bytes uuid chrono config argon2 log bitflags futures rand_core regex clap'.split():
        g = sorted(glob.glob(f'{D}/lib{c}-*.rlib'), key=os.path.getmtime)
        if g: ex += ['--extern', f'{c}={g[-1]}']
    g = sorted(glob.glob(f'{D}/libasync_trait-*.so'), key=os.path.getmtime)
    ex += ['--extern', f'async_trait={g[-1]}']
    env = dict(os.environ, RUSTUP_TOOLCHAIN='1.98.1', BUILD_GIT_HASH='x', CARGO_PKG_VERSION='1')
    sel = ['--verify-root'] if not mod or mod == 'crate' else ['--verify-only-module', mod]
    t0 = time.time()
    r = subprocess.run(['timeout', '280', 'verus', out + '/lib.rs', '-L', 'dependency=' + D, *ex, '--crate-type', 'lib', '--edition', '2021', '--triggers-mode', 'silent', *sel], capture_output=True, text=True, env=env)
    shutil.rmtree(d)
    m = re.search(r'verification results:: (\d+) verified, (\d+) errors', r.stdout + r.stderr)
    dt = time.time() - t0
    if dt > 45: print('SLOW', mod, name, f'{dt:.0f} s', flush=True)
    return mod, name, m.group(0) if m else (r.stdout + r.stderr)[-300:], bool(m) and m.group(2) != '0'

with ThreadPoolExecutor(6) as ex:
    for mod, name, res, ok in ex.map(run, list(functions())):
        if not ok:
            print('VACUOUS?', mod, name, res, flush=True)
print('done')
