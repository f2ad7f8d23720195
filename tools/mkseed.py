#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<< python dict: build a seed directory from (old, new) replacements and a demo program."""
import json, os, subprocess, sys, tempfile, shutil


def mk(i, prop, edits, needs, breaks, demo, flags="-DUSE_ASM", srcs="distributed_vector_ole/gf128.cpp", libs="", extra=None, inc="", pre=""):
    d = '/verif/seeded/' + i
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    subprocess.run(['git', 'clone', '-q', '/repo', tmp + '/r'], check=True)
    for f, old, new in edits:
        p = tmp + '/r/distributed_vector_ole/' + f
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=tmp + '/r', capture_output=True, text=True).stdout
    shutil.rmtree(tmp)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.cpp', 'w').write(demo.strip() + '\n')
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = the repository: exit 0 when the property holds on the demonstrated input
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
A=/usr/lib/x86_64-linux-gnu
%sg++ -std=c++17 -O1 -w %s -I"$PWD" -I/usr/include/android %s "$here/demo.cpp" %s -o "$t/demo" %s \\
  $A/android/libcrypto.so -Wl,-rpath,$A/android -Wl,--start-group $(ls $A/libabsl_*.a | grep -v -e flags -e random_ -e status) -Wl,--end-group -lpthread || exit 2
timeout 120 "$t/demo"
''' % (pre, flags, inc, srcs, libs))
    for k, v in (extra or {}).items():
        os.makedirs(os.path.dirname(d + '/' + k), exist_ok=True)
        open(d + '/' + k, 'w').write(v)
