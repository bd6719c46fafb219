#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE OLD NEW needs breaks < demo.cpp   (development tool)"""
import sys, subprocess, os, json, tempfile, shutil
id, prop, f, old, new, needs, brk = sys.argv[1:8]
demo = sys.stdin.read()
d = '/verif/seeded/' + id
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix='mks')
subprocess.run('git -C /repo archive HEAD | tar x -C ' + w, shell=True, check=True)
subprocess.run('git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x', shell=True, cwd=w, check=True)
s = open(w + '/' + f).read()
edits = [(old, new)] if old != '@' else json.loads(new)
for o, n in edits:
    ff = f
    if isinstance(o, list):
        ff, o = o
        open(w + '/' + f, 'w').write(s); s = open(w + '/' + ff).read(); f = ff
    assert s.count(o) == 1, (id, s.count(o), o)
    s = s.replace(o, n)
open(w + '/' + f, 'w').write(s)
open(d + '/patch.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True).stdout)
shutil.rmtree(w)
if demo.strip():
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 -Iinclude "$here/demo.cpp" -o "$t/demo" -L_build -lsedaman -Wl,-rpath,"$PWD/_build" || exit 98
cd "$t" && timeout 60 ./demo
''')
json.dump(dict(property=prop, needs=needs, what_it_breaks=brk), open(d + '/meta.json', 'w'), indent=1)
