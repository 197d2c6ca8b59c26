#!/usr/bin/env python3
"""Make and confirm a planted bug in a scratch copy.
usage: mkseed.py SPECFILE   (python: id, property, file, edits=[(old,new)], demo=str, needs, breaks)"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(spec):
    s = {}
    exec(open(spec).read(), s)
    seeds = s['SEEDS']
    only = sys.argv[2:]
    for sd in seeds:
        if only and sd['id'] not in only:
            continue
        tmp = tempfile.mkdtemp(prefix='seed_')
        r = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        for fn, old, new in sd['edits']:
            p = os.path.join(r, fn)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                print(sd['id'], 'EDIT MATCHES', n, repr(old[:60]))
                break
            open(p, 'w').write(t.replace(old, new))
        else:
            d = os.path.join(HERE, 'seeded', sd['id'])
            os.makedirs(d, exist_ok=True)
            diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.py'), 'w').write(sd['demo'])
            open(os.path.join(d, 'demo.sh'), 'w').write(
                '#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\n'
                'PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump({'property': sd['property'], 'needs': sd['needs'], 'what_it_breaks': sd['breaks']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            a = subprocess.run([os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True, text=True)
            b = subprocess.run([os.path.join(d, 'demo.sh')], cwd=r, capture_output=True, text=True)
            # the stable tests, from the scratch copy
            t = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'paragami'], cwd=r,
                               capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=r))
            env = dict(os.environ, PARAGAMI_SRC=r)
            c = subprocess.run(['python3', 'check.py', sd['property']], cwd=HERE, capture_output=True, text=True, env=env)
            print('%-28s clean=%d patched=%d tests=%s  check=%d' % (
                sd['id'], a.returncode, b.returncode, t.stdout.strip().split('\n')[-1][-40:], c.returncode))
            if a.returncode:
                print(a.stdout[-800:], a.stderr[-800:])
            if b.returncode == 0 or '-v' in os.environ.get('V', ''):
                print('PATCHED OK?', b.stdout[-300:])
            if c.returncode != 1:
                print('  MISSED', c.stdout[-500:], c.stderr[-500:])
        shutil.rmtree(tmp)


main(sys.argv[1])
