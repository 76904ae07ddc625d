#!/usr/bin/env python3
"""Creates seeded/<id>/ from a spec: mkseed.py SPEC.py  (SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, sources, demo, flags='')]).
Works in a scratch copy of /repo; runs the demonstration there on the clean and the changed tree."""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = set(sys.argv[2:])
def run(cmd, cwd): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True)
for s in spec['SEEDS']:
    if only and s['id'] not in only: continue
    d = f"{V}/seeded/{s['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree(f'{V}/shim', f'{d}/shim')
    open(f'{d}/demo.cc', 'w').write(s['demo'])
    sys.path.insert(0, V)
    import check
    srcs = ' '.join(sorted(os.path.relpath(x, '/repo') for x in check.Build('fast').sources(f'{d}/demo.cc') if x.startswith('/repo/')))
    open(f'{d}/demo.sh', 'w').write(f'''#!/bin/bash
# Compiles demo.cc with the sources of the tree in the current directory and runs it: exit 0 when the behaviour is right.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$out"' EXIT
g++ -std=c++20 -O1 -w {s.get('flags', '')} -include "$here/shim/prelude.h" -I "$here/shim" -I . "$here/demo.cc" {srcs} {' '.join(check.LIBS)} -o "$out/demo"
timeout 250 "$out/demo"
''')
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
    w = tempfile.mkdtemp(prefix='seedwt.', dir='/tmp')
    try:
        subprocess.check_call(f'git -C /repo archive HEAD | tar -x -C {w} && cd {w} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm b', shell=True)
        r0 = run(f'bash {d}/demo.sh', w)
        for f, old, new in s['edits']:
            t = open(f'{w}/{f}').read()
            assert t.count(old) == 1, (s['id'], f, t.count(old))
            open(f'{w}/{f}', 'w').write(t.replace(old, new))
        open(f'{d}/patch.diff', 'w').write(run('git diff', w).stdout)
        r1 = run(f'bash {d}/demo.sh', w)
        ok = r0.returncode == 0 and r1.returncode != 0 and 'error:' not in r1.stderr
        print(s['id'], s['property'], 'OK' if ok else 'BAD', 'clean rc', r0.returncode, 'patched rc', r1.returncode, (r0.stderr[-1500:] if r0.returncode else ''), r1.stdout[-200:].strip(), r1.stderr[-600:].strip() if not ok or 'error' in r1.stderr else '')
    finally:
        shutil.rmtree(w)
