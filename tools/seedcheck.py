#!/usr/bin/env python3
"""seedcheck.py [ids...]: for every planted change under /verif/seeded, in a scratch copy of /repo: demo passes on the
unchanged tree and fails with the patch, gf128_test still passes, and the property's check reports it."""
import json, os, shutil, subprocess, sys, tempfile, re
V = '/verif'


def sh(c, cwd, env=None, t=900):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(c, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)


def one(i, nocheck=False):
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='seed_')
    out = '%-10s %s ' % (i, meta['property'])
    try:
        r = tmp + '/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        shutil.copytree(d, tmp + '/demo')
        a = sh('bash %s/demo/demo.sh' % tmp, r, t=300)
        out += 'demo-clean=%d ' % a.returncode
        if a.returncode:
            out += a.stdout[-300:] + a.stderr[-300:]
        p = sh('git apply %s/patch.diff' % d, r)
        if p.returncode:
            return out + 'PATCH DOES NOT APPLY ' + p.stderr
        b = sh('bash %s/demo/demo.sh' % tmp, r, t=300)
        out += 'demo-bug=%d ' % b.returncode
        t = sh('g++ -std=c++17 -O2 -DUSE_ASM -I. -I/usr/include/android distributed_vector_ole/gf128.cpp distributed_vector_ole/gf128_test.cpp -o /%s/t -lgtest -lgtest_main /usr/lib/x86_64-linux-gnu/android/libcrypto.so -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android -labsl_int128 && /%s/t && g++ -std=c++17 -fopenmp -fsyntax-only -I. -I/usr/include/android -include distributed_vector_ole/internal/scalar_helpers.h distributed_vector_ole/internal/ntl_helpers.cpp' % (tmp, tmp), r)
        out += 'tests=%d ' % t.returncode
        if not nocheck:
            c = sh('./check ' + meta['property'], V, dict(VERIF_REPO=r))
            v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
            f = [l for l in c.stdout.split('\n') if l.startswith('FAILED-OBL')]
            out += 'check=%d obl=%d %s' % (c.returncode, len(f), v[0] if v else '*** MISSED ' + c.stdout[-300:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(1) as ex:
    for o in ex.map(one, ids):
        print(o, flush=True)
