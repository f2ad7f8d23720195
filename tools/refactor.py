#!/usr/bin/env python3
"""refactor.py [names...] [-c C01,C02]: behaviour-preserving rewrites of /repo in a scratch copy; the checks listed for each
must stay quiet (exit 0).  Prints per check: exit code, discharged/total obligations, undecided groups, time."""
import os, subprocess, sys, tempfile, shutil, re, time
V = '/verif'
D = 'distributed_vector_ole/'
R = {}


def ref(name, checks, *reps):
    R[name] = (checks.split(), reps)


GF, GC, SH, NH, AE, CH, CC, GG, OH, OC, SP, GI, MP, MC, VO, GN, OI, GGH = (D + x for x in (
    'gf128.cpp', 'gf128.h', 'internal/scalar_helpers.h', 'internal/ntl_helpers.cpp', 'aes_uniform_bit_generator.cpp',
    'cuckoo_hasher.h', 'cuckoo_hasher.cpp', 'ggm_tree.cpp', 'all_but_one_random_ot.h', 'all_but_one_random_ot.cpp',
    'spfss_known_index.h', 'scalar_vector_gilboa_product.h', 'mpfss_known_indices.h', 'mpfss_known_indices.cpp',
    'distributed_vector_ole.h', 'internal/gilboa_internal.h', 'internal/all_but_one_random_ot_internal.h', 'ggm_tree.h'))
exec(open(V + '/tools/refactors.txt').read())


def main():
    args = sys.argv[1:]
    only = None
    if '-c' in args:
        i = args.index('-c'); only = args[i + 1].split(','); del args[i:i + 2]
    for n in args or R:
        checks, reps = R[n]
        tmp = tempfile.mkdtemp(prefix='ref_')
        try:
            r = tmp + '/repo'
            subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
            for f, old, new in reps:
                s = open(r + '/' + f).read()
                if old not in s:
                    print(n, 'TEXT NOT FOUND', f, repr(old[:60])); break
                open(r + '/' + f, 'w').write(s.replace(old, new))
            for c in only or checks:
                t = time.time()
                p = subprocess.run('ulimit -S -v 24000000; ./check ' + c, shell=True, cwd=V, env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
                L = p.stdout.strip().split('\n')
                ok = 'ok   ' if p.returncode == 0 and 'UNDECIDED' not in p.stdout else 'QUIET' if p.returncode == 0 else 'ALARM'
                print('%-14s %s %s %d %.0fs %s' % (n, c, ok, p.returncode, time.time() - t, L[-1][:160]), flush=True)
                for l in L[:-1]:
                    if not l.startswith('KNOWN'):
                        print('      ', l[:230], flush=True)
                if p.returncode not in (0, 1):
                    print(p.stderr[-600:])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
