#!/usr/bin/env python3
"""Plant bugs: builds seeded/<id>/ from the definitions in tools/seeds/*.py and judges them.

  seedtool.py make ID...     write seeded/ID and confirm it in a scratch copy of /repo
                             (builds, stable tests pass, demo 0 without and nonzero with the patch)
  seedtool.py catch ID...    apply to /repo, run the property's check, undo; prints caught or missed
  seedtool.py list
"""
import sys, os, json, subprocess, shutil, glob, importlib.util, tempfile
V = '/verif'
LAB = V + '/tools/lab'
SCR = os.environ.get('SEED_SCRATCH', '/tmp/seedrepo')


def defs():
    out = {}
    for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
        s = importlib.util.spec_from_file_location('m', f)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        for b in m.BUGS:
            assert b['id'] not in out, b['id']
            out[b['id']] = b
    return out


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def scratch():
    if not os.path.isdir(SCR):
        sh(f'cp -a /repo {SCR}')
    sh('git checkout -q -- .', cwd=SCR)
    sh('git pull -q /repo HEAD --ff-only 2>/dev/null; git clean -qfd -e target', cwd=SCR)


def apply_edits(b):
    for f, old, new in b['edits']:
        p = f'{SCR}/src/{f}'
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            raise SystemExit(f"{b['id']}: {f}: old text found {n} times: {old[:60]!r}")
        open(p, 'w').write(s.replace(old, new))


def make(b):
    d = f"{V}/seeded/{b['id']}"
    scratch()
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d + '/demo/src')
    for f in ('chain.rs', 'wire.rs', 'parse.rs'):
        shutil.copy(f'{V}/sim/src/{f}', d + '/demo/src/' + f)
    shutil.copy(LAB + '/lab.rs', d + '/demo/src/lab.rs')
    for f in ('Cargo.toml', 'Cargo.lock'):
        shutil.copy(f'{LAB}/{f}', d + '/demo/' + f)
    shutil.copy(LAB + '/demo.sh', d + '/demo.sh')
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo/src/main.rs', 'w').write(
        '#![allow(unused_imports, dead_code)]\nmod chain;\nmod lab;\nmod parse;\nmod wire;\n'
        'use chain::*;\nuse lab::*;\nuse parse::*;\nuse wire::*;\nuse solana_program::pubkey::Pubkey;\nuse std::rc::Rc;\n\n'
        'fn scenario() {\n' + b['demo'].strip('\n') + '\n}\n\n'
        'fn main() { lab::run(scenario) }\n')
    json.dump({k: b[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
    # clean
    r = sh(f'bash {d}/demo.sh', cwd=SCR, timeout=600)
    if r.returncode != 0:
        return 'demo fails on clean: ' + r.stderr[-2500:]
    apply_edits(b)
    diff = sh('git diff', cwd=SCR).stdout
    open(d + '/patch.diff', 'w').write(diff)
    r = sh(f'bash {d}/demo.sh', cwd=SCR, timeout=600)
    if r.returncode == 0 or r.returncode == 3:
        return f'demo rc {r.returncode} with patch: ' + r.stderr[-2500:]
    why = r.stderr.strip().splitlines()[-3:]
    if os.environ.get('FAST'):
        return 'ok(fast) ' + ' | '.join(why)
    # tests run on the patched copy
    r = sh(f"source /opt/vp/env.sh; cd {SCR}; CARGO_TARGET_DIR={SCR}/target cargo test --offline --lib 2>&1 | tail -40",
           executable='/bin/bash', timeout=900)
    if 'test result: ok' not in r.stdout:
        return 'tests: ' + r.stdout[-1500:]
    scratch()
    return 'ok ' + ' | '.join(why)


def catch(b, tier='quick', prop=None):
    d = f"{V}/seeded/{b['id']}"
    if sh('git status --porcelain', cwd='/repo').stdout.strip():
        raise SystemExit('/repo not clean')
    r = sh(f'git apply {d}/patch.diff', cwd='/repo')
    if r.returncode:
        return 'patch does not apply ' + r.stderr
    try:
        p = prop or b['property']
        r = sh(f'VERIF_SEED=1 VERIF_TIER=quick ./check.sh {p} {tier}', cwd=V, timeout=1500)
        line = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        if r.returncode == 1 and any(f'property={p} ' in l for l in line):
            rp = line[0].split('replay=')[1]
            what = ''
            try:
                what = open(f'{V}/{rp}' if not rp.startswith('/') else rp).read(400)
            except OSError:
                pass
            return 'caught: ' + line[0] + ' || ' + '; '.join(r.stdout.splitlines()[-6:])[:600]
        return f'MISSED rc={r.returncode} ' + (r.stdout + r.stderr)[-500:]
    finally:
        sh('git checkout -q -- .', cwd='/repo')


if __name__ == '__main__':
    D = defs()
    # a planted bug that was written by hand has only its folder
    for m in glob.glob(f'{V}/seeded/*/meta.json'):
        i = m.split('/')[-2]
        if i not in D:
            D[i] = dict(json.load(open(m)), id=i)
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == 'list':
        for i, b in D.items():
            print(i, b['property'], b['what_it_breaks'][:100])
        sys.exit()
    bad = 0
    for i in ids or list(D):
        try:
            res = make(D[i]) if cmd == 'make' else catch(D[i])
        except subprocess.TimeoutExpired:
            res = 'TIMEOUT'
        ok = res.startswith('ok') or res.startswith('caught')
        bad += not ok
        print(f'{i} [{D[i]["property"]}] {res}', flush=True)
    sys.exit(bad > 0)
