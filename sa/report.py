"""Obligations, findings, evidence."""
import json
import os
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Obligation:
    def __init__(self, rule, construct, status, detail, where, key):
        self.rule, self.construct, self.status = rule, construct, status
        self.detail, self.where, self.key = detail, where, key

    def as_dict(self):
        d = {'rule': self.rule, 'construct': self.construct, 'status': self.status}
        if self.detail:
            d['detail'] = self.detail[:1500]
        if self.where:
            d['where'] = self.where
        return d


class Report:
    """Collects the obligations of one property. Each is discharged, violated
    or undecided."""

    def __init__(self, prop):
        self.prop = prop
        self.obs = []
        self.t0 = time.time()
        self.analysed = set()
        self.rules = {}

    def rule(self, name, text):
        self.rules[name] = text

    def _add(self, rule, construct, status, detail, where, key=None):
        self.obs.append(Obligation(rule, construct, status, detail, where,
                                   key or '%s|%s' % (rule, construct)))

    def ok(self, rule, construct, detail='', where=None):
        self._add(rule, construct, 'discharged', detail, where)

    def bad(self, rule, construct, detail, where=None, key=None):
        self._add(rule, construct, 'violated', detail, where, key)

    def unsure(self, rule, construct, detail='', where=None):
        self._add(rule, construct, 'undecided', detail, where)

    def check(self, cond, rule, construct, detail='', where=None):
        """cond: True discharged, False violated, None undecided."""
        if cond is None:
            self.unsure(rule, construct, detail, where)
        elif cond:
            self.ok(rule, construct, '', where)
        else:
            self.bad(rule, construct, detail, where)

    def saw(self, model):
        self.analysed |= set(getattr(model.I, 'visited', ()))

    def count(self, status):
        return sum(1 for o in self.obs if o.status == status)


class Part:
    """A view of a report that keeps only some rules, under new names."""

    def __init__(self, rep, names):
        self.rep, self.names = rep, names

    def rule(self, name, text):
        if name in self.names:
            self.rep.rules.setdefault(self.names[name], text)

    def ok(self, rule, *a, **k):
        if rule in self.names:
            self.rep.ok(self.names[rule], *a, **k)

    def bad(self, rule, *a, **k):
        if rule in self.names:
            self.rep.bad(self.names[rule], *a, **k)

    def unsure(self, rule, *a, **k):
        if rule in self.names:
            self.rep.unsure(self.names[rule], *a, **k)

    def check(self, cond, rule, *a, **k):
        if rule in self.names:
            self.rep.check(cond, self.names[rule], *a, **k)

    def saw(self, model):
        self.rep.saw(model)


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def finish(rep, model, tier, seed):
    """Write evidence, print verdict lines, return the exit code."""
    known = [k for k in load_known() if k['property'] == rep.prop and k.get('status') == 'known']
    viol, kn = [], []
    for o in rep.obs:
        if o.status == 'violated':
            m = [k for k in known if k['key'] == o.key]
            (kn if m else viol).append(o)
    edir = os.environ.get('PARAGAMI_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(edir, exist_ok=True)
    done, total = rep.count('discharged'), len(rep.obs)
    fns = sorted(rep.analysed)
    ev = {
        'property': rep.prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current source: abstract interpretation of the package '
                           'to gated terms, then the rules listed decide each obligation. An undecided '
                           'obligation is one the analysis could not settle; it is not counted as shown.',
            'obligations': total, 'discharged': done,
            'violated': len(viol) + len(kn), 'undecided': rep.count('undecided'),
            'rules': rep.rules,
            'functions_analysed': fns, 'functions_analysed_count': len(fns),
            'modules': sorted(model.project.modules) if model else [],
            'source_digest': model.project.digest if model and hasattr(model.project, 'digest') else '',
            'obligation_list': [o.as_dict() for o in rep.obs],
        },
        'assumptions': ['numpy, scipy, autograd and json behave as modelled in sa/ops.py and sa/calls.py',
                        'a pattern held by a container honours the pattern interface (each concrete pattern '
                        'is checked against the same interface rules)'],
        'violations': [o.as_dict() for o in viol],
        'wall_s': round(time.time() - rep.t0, 3),
    }
    with open(os.path.join(edir, rep.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for o in kn:
        print('KNOWN-FINDING: property=%s %s: %s' % (rep.prop, o.construct, o.detail.split('\n')[0][:300]))
    if viol:
        rpath = os.path.join(edir, rep.prop + '.violations.txt')
        with open(rpath, 'w') as f:
            for o in viol:
                f.write('%s\nrule: %s: %s\nconstruct: %s\nwhere: %s\n%s\n\n' % (
                    rep.prop, o.rule, rep.rules.get(o.rule, ''), o.construct, o.where or '-', o.detail))
        for o in viol[:5]:
            print('  [%s] %s at %s: %s' % (o.rule, o.construct, o.where or '-', o.detail.replace('\n', ' ')[:400]))
        print('VIOLATION property=%s replay=%s' % (rep.prop, rpath))
        return 1
    if done == 0:
        print('%s: no obligation could be decided (%d undecided)' % (rep.prop, rep.count('undecided')))
        return 2
    print('%s: %d obligations, %d discharged, %d undecided; %d functions analysed' % (
        rep.prop, total, done, rep.count('undecided'), len(fns)))
    return 0
