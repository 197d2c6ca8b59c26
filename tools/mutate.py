"""Try edits of the analysed package against the checks, in throwaway copies.
usage: tools/mutate.py SPEC.py [name ...]
An edit (old, new) changes the first occurrence, (old, new, 1) the last.
SPEC defines EDITS = [(name, file, [(old, new), ...], expected)], expected a set of
property ids that should raise an alarm, or the empty set for an edit that keeps
the behaviour. Reports edits whose alarms are not the expected ones."""
import concurrent.futures as cf
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.rules import TABLE


def one(job):
    name, file, subs, want, tests = job
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo/paragami', d + '/paragami', ignore=shutil.ignore_patterns('__pycache__'))
        p = '%s/paragami/%s' % (d, file)
        s = open(p).read()
        for old, new, *last in subs:
            ms = list(re.finditer(r'[\s\\]+'.join(re.escape(w) for w in re.split(r'\s+', old)), s))
            if not ms:
                return name, 'NOT APPLICABLE: %r' % old[:60], want
            m = ms[-1 if last else 0]
            if '\n' in m.group()[:len(m.group()) - len(m.group().lstrip())] and not new.startswith('\n'):
                new = '\n' + new
            s = s[:m.start()] + new + s[m.end():]
        try:
            compile(s, p, 'exec')
        except SyntaxError as e:
            return name, 'NOT APPLICABLE: %s' % e, want
        open(p, 'w').write(s)
        alarms, notes = {}, []
        env = dict(os.environ, PARAGAMI_SRC=d, PARAGAMI_EVIDENCE=d + '/ev')
        out = subprocess.run(['python3', 'check.py'] + (sorted(want) if tests == 'only' and want else sorted(TABLE)), cwd=HERE, env=env,
                             capture_output=True, text=True)
        und = {}
        last = ''
        for l in out.stdout.split('\n'):
            if l.startswith('VIOLATION'):
                pid = l.split('property=')[1].split()[0]
                alarms[pid] = last
            elif l.strip().startswith('['):
                last = l.strip()[:230]
            elif 'undecided;' in l:
                n = int(l.split(' undecided')[0].split()[-1])
                if n:
                    und[l.split(':')[0]] = n
            elif 'no obligation' in l or 'broken' in l.lower() or 'internal error' in l:
                notes.append(l[:200])
        if out.returncode not in (0, 1):
            notes.append('exit %d %s' % (out.returncode, out.stderr[-300:]))
        rules = set()
        for f in os.listdir(d + '/ev'):
            if f.endswith('.json'):
                for ob in json.load(open(d + '/ev/' + f))['coverage']['obligation_list']:
                    if ob['status'] == 'violated':
                        rules.add('%s %s' % (f[:3], ob['rule']))
        return name, (alarms, und, notes, rules), want
    finally:
        shutil.rmtree(d)


def main():
    spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    sel = set(sys.argv[2:])
    jobs = [(n, f, s, set(w), getattr(m, 'MODE', '')) for n, f, s, w in m.EDITS if not sel or n in sel]
    bad, fired = 0, set()
    with cf.ProcessPoolExecutor(8) as ex:
        for name, r, want in ex.map(one, jobs):
            if isinstance(r, str):
                print('%-40s %s' % (name, r))
                bad += 1
                continue
            alarms, und, notes, rules = r
            if want:
                fired |= rules
            got = set(alarms)
            ok = bool(got & want) if want else not got
            bad += not ok or bool(notes)
            print('%-40s %s alarms=%s want=%s undecided=%s %s' % (name, 'ok  ' if ok else 'BAD ', ','.join(sorted(got)) or '-', ','.join(sorted(want)) or '-',
                                                       und or '-', ' '.join(notes)))
            if not ok or sel:
                for k, v in alarms.items():
                    print('      ', k, v)
    print('rules fired: ' + '; '.join(sorted(fired)))
    print('%d edits, %d not as expected' % (len(jobs), bad))


if __name__ == '__main__':
    main()
