#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeddefs/<id>.py-like definitions and verifies them.
usage: seeds.py gen [id..]      writes patch.diff, demo.sh, meta.json
       seeds.py verify [id..]   demo on the clean tree, patch, build, tests, demo, checks (of the property), revert"""
import json, os, subprocess, sys, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeddefs import SEEDS
R = '/repo'
DEMO = '''#!/bin/bash
# exit 0: the property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
%s
cd "$T"
%s
'''
CXX = {
    # one file using headers only, no MPI, no NUMA
    'header': '%(cxx)s -std=c++11 -g -w %(san)s -DMAX_DIMENSIONS=4 -DTHREADSAFE -DUSE_PTHREAD -DASAGI_NOMPI -DASAGI_NONUMA %(defs)s -I/repo -I/repo/include -I"$D/stubs" "$D/demo.cpp" -o "$T/demo" %(libs)s -lpthread || exit 3',
    # the library without MPI and NUMA on a real netCDF file
    'lib': '''for f in asagi.cpp asagi_f90.cpp grid/grid.cpp io/netcdfreader.cpp types/structtype.cpp perf/counter.cpp numa/numa.cpp; do
  %(cxx)s -std=c++11 -g -w %(san)s -DMAX_DIMENSIONS=4 -DTHREADSAFE -DUSE_PTHREAD -DASAGI_NOMPI -DASAGI_NONUMA %(defs)s -I/repo -I/repo/include -I"$D/stubs" -c /repo/$f -o "$T/$(basename $f).o" &
done
wait
%(cxx)s -std=c++11 -g -w %(san)s -DMAX_DIMENSIONS=4 -DTHREADSAFE -DUSE_PTHREAD -DASAGI_NOMPI -DASAGI_NONUMA %(defs)s -I/repo -I/repo/include -I"$D/stubs" "$D/demo.cpp" "$T"/*.o -o "$T/demo" -lnetcdf -lpthread || exit 3''',
}
# a demonstration that does not need the whole library may compile the sources it needs itself (#include)


def sh(c, **kw):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def edit(s):
    for f, old, new in s['edits']:
        p = os.path.join(R, f)
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))


def gen(s):
    d = os.path.join(V, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    try:
        edit(s)
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    finally:
        sh('git -C /repo checkout -- .')
    x = dict(cxx=s.get('cxx', 'g++'), san=s.get('san', '' if s.get('mode') == 'lib' else '-fsanitize=address,undefined'), defs=s.get('defs', ''), libs=s.get('libs', ''))
    # ORIG: the changed lines are lines of the original repository
    for f in sorted({e[0] for e in s['edits']}):
        p = open(d + '/patch.diff').read()
        old = [l[1:].strip() for l in p.split('\n') if l.startswith('-') and not l.startswith('---')]
        orig = [l.strip() for l in sh('git -C /repo show 1cc1df7:' + f).stdout.split('\n')]
        if len(s['edits']) == 1 and any(o and o not in orig for o in old):
            print(s['id'], 'CHANGES A LINE OF A FIX')
    open(d + '/demo.sh', 'w').write(DEMO % (CXX[s.get('mode', 'header')] % x, s.get('run', 'ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo')))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(s['demo'])
    for n, t in s.get('files', {}).items():
        p = os.path.join(d, n); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(t)
    shutil.copytree(os.path.join(V, 'tools/seedstubs'), d + '/stubs', dirs_exist_ok=True)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)


def verify(s, checks=True):
    d = os.path.join(V, 'seeded', s['id'])
    r = sh('cd /repo && bash %s/demo.sh' % d, timeout=400)
    ok = r.returncode == 0
    msg = [s['id'], 'clean demo ' + ('ok' if ok else 'FAILS %d %s' % (r.returncode, r.stdout[-1500:]))]
    try:
        assert sh('git -C /repo apply %s/patch.diff' % d).returncode == 0
        b = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        t = json.load(open('/tmp/seedtest.json')) if os.path.exists('/tmp/seedtest.json') else {}
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        passed = t.get('passed', t)
        passed = set(passed if isinstance(passed, list) else [k for k, v in passed.items() if v in ('pass', 'passed', True)])
        lost = sorted(base - passed)
        msg.append('tests ' + ('ok' if not lost else 'LOST %s' % lost[:4]))
        r = sh('cd /repo && bash %s/demo.sh' % d, timeout=400)
        msg.append('patched demo %d %s' % (r.returncode, '' if r.returncode not in (0, 3) else 'NOT FAILING ' + r.stdout[-1500:]))
        if checks:
            r = sh('cd %s && ./check %s' % (V, s['property']), timeout=1000)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            msg.append('check %d %s' % (r.returncode, v[:1] or r.stdout[-600:]))
    finally:
        sh('git -C /repo checkout -- .')
    print('\n  '.join(msg), flush=True)


if __name__ == '__main__':
    todo = [s for s in SEEDS if len(sys.argv) < 3 or s['id'] in sys.argv[2:]]
    for s in todo:
        if sys.argv[1] == 'gen':
            gen(s)
        else:
            gen(s); verify(s, sys.argv[1] == 'verify')
