#!/usr/bin/env python3
"""Mutation sweep: sweep.py WORKDIR MUTANTS.py [name-prefix ...]
Each mutant is (name, 'C01 C02', file, old, new[, nth]).  WORKDIR gets a scratch copy of /repo and of the
harness; every mutant is built there and the checks of its properties are run on it.  Nothing in /repo changes."""
import subprocess, sys, os, shutil, time
W, MF = sys.argv[1], sys.argv[2]
only = sys.argv[3:]
ns = {}
exec(open(MF).read(), ns)
def sh(c, t=900):
    try:
        r = subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
os.makedirs(W, exist_ok=True)
rc, out = sh(f"rsync -a --delete --exclude .git --exclude target /repo/ {W}/repo/ 2>/dev/null || (mkdir -p {W}/repo && cp -a /repo/. {W}/repo/)")
os.makedirs(f'{W}/h', exist_ok=True)
sh(f"cp -a /verif/harness/src /verif/harness/Cargo.toml /verif/harness/Cargo.lock {W}/h/ && sed -i 's#/repo/#{W}/repo/#g' {W}/h/Cargo.toml && mkdir -p {W}/root && cp /verif/KNOWN_FINDINGS.json {W}/root/")
ENV = f'. /opt/vp/env.sh; cd {W}/h; '
for m in ns['MUTANTS']:
    name, props, f, old, new = m[:5]
    nth = m[5] if len(m) > 5 else 0
    if only and not any(name.startswith(o) for o in only): continue
    p = f'{W}/repo/{f}'
    src = open(p).read()
    parts = src.split(old)
    if len(parts) < 2 or (len(m) < 6 and len(parts) != 2):
        print(f'{name}: SNIPPET found {len(parts)-1} times', flush=True); continue
    mut = old.join(parts[:nth+1]) + new + old.join(parts[nth+1:])
    open(p, 'w').write(mut)
    try:
        rc, out = sh(ENV + 'cargo build --offline')
        if rc:
            e = [l for l in out.splitlines() if l.startswith('error')]
            print(f'{name}: BUILD FAILS {e[:2]}', flush=True); continue
        for P in props.split():
            t = time.time()
            rc, out = sh(ENV + f'VERIF_TIER=quick timeout 880 ./target/debug/khcheck {P} --root {W}/root --seed 1')
            v = [l for l in out.splitlines() if 'VIOLATION' in l or '=>' in l]
            print(f"{name}: {P} {'CAUGHT' if rc==1 else 'SURVIVES' if rc==0 else f'rc {rc}'} {time.time()-t:.0f}s {v[-1][:200] if v else ''}", flush=True)
            if rc == 1 and os.environ.get('FIRST'): break
    finally:
        open(p, 'w').write(src)
