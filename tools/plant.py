#!/usr/bin/env python3
"""Helpers for planted bugs.
  plant.py make SPEC.py    SPEC defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ text)]
  plant.py try ID...       in /repo: apply, build, demo, run the check of its property, undo, rebuild
"""
import json, os, subprocess, sys, tempfile, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 if the behaviour is right, 1 if not; run in the repository after its build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
R=$PWD; B=$R/_build
g++ -std=c++17 -O1 -w -DLITTLE_ENDIAN_ARCHITECTURE -DGCC_COMPILER -DNDEBUG -I"$R/src/include" -I"$B/src/include" \\
  -isystem "$R/3rdparty/Cuba-4.2.2" -isystem "$R/3rdparty/einhard" -isystem "$R/3rdparty/yaml-cpp-0.8.0/include" \\
  -isystem /usr/include/eigen3 "$D/demo.cc" -o "$T/demo" "$B/src/libsmash.a" "$B/3rdparty/einhard/libeinhard.a" \\
  "$B/3rdparty/yaml-cpp-0.8.0/libyaml-cpp.a" "$B"/3rdparty/Cuba-4.2.2/src/*/lib*.a -lgsl -lgslcblas -ldl -lpthread || exit 2
cd "$T" && SMASH_SRC=$R ./demo
'''


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns['BUGS']:
        d = f'{VERIF}/seeded/{b["id"]}'
        os.makedirs(d, exist_ok=True)
        for f in sorted({e[0] for e in b['edits']}):
            t = open(f'/repo/{f}', encoding='utf-8').read()
            for g, old, new in b['edits']:
                if g == f:
                    assert t.count(old) == 1, (b['id'], f, t.count(old), old)
                    t = t.replace(old, new)
            open(f'/repo/{f}', 'w', encoding='utf-8').write(t)
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
        open(d + '/patch.diff', 'w', encoding='utf-8').write(diff)
        open(d + '/demo.sh', 'w').write(b.get('sh', DEMO))
        os.chmod(d + '/demo.sh', 0o755)
        if 'demo' in b:
            open(d + '/demo.cc', 'w', encoding='utf-8').write(b['demo'])
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)


def sh(cmd, timeout=900):
    r = subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout, cwd='/repo')
    return r.returncode, r.stdout + r.stderr


def attempt(ids, check=True):
    base = None
    for i in ids:
        d = f'{VERIF}/seeded/{i}'
        meta = json.load(open(d + '/meta.json'))
        if base is None:
            base, o = sh('bash /opt/vp/build.sh')
        r0, o0 = sh(f'bash {d}/demo.sh')
        rc, o = sh(f'git apply {d}/patch.diff')
        if rc:
            print(i, 'does not apply', o[:300]); continue
        try:
            rb, ob = sh('bash /opt/vp/build.sh')
            r1, o1 = sh(f'bash {d}/demo.sh') if rb == 0 else ('-', '')
            res = ''
            if check:
                rc, o = sh(f'cd {VERIF} && python3 checks/{meta["property"]}.py')
                lines = [l for l in o.split('\n') if l.startswith('  ') or 'VIOLATION' in l or 'ERROR' in l]
                res = f'check rc={rc} ' + ' | '.join(l.strip()[:160] for l in lines[:2])
            lint = ''
            fs = sh('git diff --name-only')[1].split()
            for f in fs:
                rl, ol = sh(f'/opt/vp/venv/bin/cpplint --filter=-build/include_subdir,-build/c++11 --linelength=80 {f} 2>&1 | grep ": .*80 char"')
                lint += ol[:200]
            print(f'{i}: build={rb} demo clean={r0} bug={r1} {res} {"LINT " + lint if lint else ""}', flush=True)
            if r0 != 0:
                print('   clean demo says:', o0[-400:])
            if rb:
                print(ob[-600:])
        finally:
            sh('git checkout -q -- .')
    sh('bash /opt/vp/build.sh')


if sys.argv[1] == 'make':
    make(sys.argv[2])
else:
    attempt([a for a in sys.argv[2:] if a != '-n'], '-n' not in sys.argv)
