#!/usr/bin/env python3
"""plant.py <seed-id>: (re)build and confirm a seeded bug in a scratch copy of /repo.
Reads /verif/seeded/<id>/edit.py-less state: patch.diff + demo.rs must exist (see mk())."""
import json, os, subprocess, sys, shutil
SC = '/tmp/seedcopy'

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def scratch():
    if not os.path.isdir(SC):
        sh(f'cp -a /repo {SC}')
    sh(f'git -C {SC} fetch -q /repo HEAD && git -C {SC} checkout -q -f FETCH_HEAD && git -C {SC} clean -fdq')

ENV = 'export HOME=/root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never; '

def build():
    r = sh(ENV + f'cd {SC} && find src -name "*.rs" -newer Cargo.lock >/dev/null; touch src/lib.rs; cargo test --workspace --no-run --offline --locked')
    return r.returncode == 0, r.stderr[-1500:]

def tests():
    rep = f'{SC}/target/nextest/vp/junit.xml'
    sh(ENV + f'cd {SC} && rm -f {rep}; cargo nextest run --workspace --offline --locked --no-fail-fast --test-threads 8 --user-config-file none --tool-config-file vp:/opt/vp/nextest.toml --profile vp')
    sh(f'python3 /opt/vp/results.py /tmp/seed_res.json junit:{rep}')
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']; r = json.load(open('/tmp/seed_res.json'))
    ok = set(r.get('passed') or r.get('pass') or [])
    return [t for t in b if t not in ok]

def demo(d):
    os.makedirs('/tmp/seeddemo', exist_ok=True)
    for f in os.listdir(d):
        if f not in ('patch.diff', 'meta.json'): shutil.copy(f'{d}/{f}', '/tmp/seeddemo/')
    r = sh(f'cd {SC} && timeout 300 bash /tmp/seeddemo/demo.sh')
    return r.returncode, (r.stdout + r.stderr)[-600:]

def edit(path, old, new, count=1):
    sys.path.insert(0, '/verif/tools')
    from ed import rep
    rep(f'{SC}/{path}', old, new, count)

def mk(id, prop, needs, breaks, edits, demo_rs):
    """edits: list of (path, old, new[, count]); demo_rs: program that exits 0 when fine."""
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    scratch()
    for e in edits: edit(*e)
    with open(f'{d}/patch.diff', 'wb') as f:
        f.write(subprocess.run(['git', '-C', SC, 'diff', '--binary'], capture_output=True).stdout)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    open(f'{d}/demo.rs', 'w').write(demo_rs)
    shutil.copy('/verif/tools/demo/demo.sh', f'{d}/demo.sh')
    return confirm(id)

def confirm(id, run_tests=True):
    d = f'/verif/seeded/{id}'
    scratch()
    ok, e = build()
    if not ok: print(id, 'BASE BUILD FAILS', e); return False
    rc0, o0 = demo(d)
    r = sh(f'git -C {SC} apply {d}/patch.diff')
    if r.returncode: print(id, 'PATCH FAILS', r.stderr); return False
    ok, e = build()
    if not ok: print(id, 'BUILD FAILS', e); return False
    rc1, o1 = demo(d)
    bad = tests() if run_tests else '?'
    good = rc0 == 0 and rc1 not in (0, 3) and not bad
    print(id, 'OK' if good else 'BAD', 'demo base', rc0, 'patched', rc1, 'tests', bad)
    if rc0: print('  base:', o0)
    print('  patched:', o1.strip().splitlines()[-1:] )
    return good

if __name__ == '__main__':
    for i in sys.argv[1:]:
        confirm(i)
