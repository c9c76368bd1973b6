"""Helpers for the planted bugs.

  seed.py make ID PROPERTY FILE OLD NEW NEEDS WHAT   write patch.diff and meta.json by replacing OLD (once) with NEW in /repo/FILE
  seed.py try ID...    apply each to /repo, build, run the stable tests and the demo, run the check of its property, and undo it"""

import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def make(pid, prop, edits, needs, what):
    """edits: [(file, old, new)]"""
    assert not sh(['git', '-C', '/repo', 'status', '--porcelain']).stdout.strip()
    d = os.path.join(SEEDED, pid)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = os.path.join('/repo', f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', '-C', '/repo', 'diff']).stdout
        assert diff
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally:
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
g++ -std=c++11 -w -O1 -pthread -DLIBDCP_LINUX -D_FILE_OFFSET_BITS=64 -I/repo/src $(pkg-config --cflags libxml++-2.6 fmt) "$here/demo.cc" -o "$work/demo" \\
	/repo/_build/src/libdcp-1.0.so -Wl,-rpath,/repo/_build/src -Wl,--unresolved-symbols=ignore-all -Wl,-z,lazy \\
	-lboost_filesystem -lboost_system -lboost_date_time -lboost_thread || exit 2
cd "$work" && timeout 120 ./demo
'''


def core(pid, prop, edits, needs, what, demo):
    """A bug in the part of the library that build.sh builds, shown by a program"""
    make(pid, prop, edits, needs, what)
    d = os.path.join(SEEDED, pid)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    open(os.path.join(d, 'demo.cc'), 'w').write(demo)


def build_and_test():
    out = '/tmp/seed-results.json'
    sh(['bash', '/opt/vp/test.sh', out])
    try:
        passed = set(json.load(open(out))['passed'])
    except (OSError, ValueError):
        return False
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return stable <= passed


def demo(pid):
    r = sh(['bash', os.path.join(SEEDED, pid, 'demo.sh')], cwd='/repo', timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def attempt(ids, check=True):
    assert not sh(['git', '-C', '/repo', 'status', '--porcelain']).stdout.strip()
    sh(['bash', '/opt/vp/build.sh'])
    clean = {i: demo(i) for i in ids}
    for i in ids:
        if clean[i][0]:
            print(f'{i}: demo FAILS on the unchanged tree: {clean[i][1]}')
    for i in ids:
        meta = json.load(open(os.path.join(SEEDED, i, 'meta.json')))
        try:
            a = sh(['git', '-C', '/repo', 'apply', os.path.join(SEEDED, i, 'patch.diff')])
            if a.returncode:
                print(f'{i}: does not apply: {a.stderr}')
                continue
            tests = build_and_test()
            d = demo(i)
            caught = '-'
            if check:
                r = sh([sys.executable, os.path.join(VERIF, 'mc/run.py'), meta['property']], cwd=VERIF)
                lines = [x for x in r.stdout.splitlines() if x.startswith(('case', 'VIOLATION'))]
                caught = f'{r.returncode} {lines[0][:200] if lines else r.stdout[-200:] + r.stderr[-300:]}'
            print(f'{i} ({meta["property"]}): tests {"pass" if tests else "FAIL"}; demo {d[0]}{" NOT SHOWN" if d[0] == 0 else ""}; check: {caught}', flush=True)
        finally:
            sh(['git', '-C', '/repo', 'checkout', '--', '.'])
    sh(['bash', '/opt/vp/build.sh'])


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2], sys.argv[3], [(sys.argv[4], sys.argv[5], sys.argv[6])], sys.argv[7], sys.argv[8])
    elif sys.argv[1] == 'try':
        attempt(sys.argv[2:] or sorted(os.listdir(SEEDED)))
