#!/usr/bin/env python3
"""Decide one property: python3 check.py P01 [P02 ...]"""
import importlib
import ctypes
import os
import sys
import resource
import threading
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa.project import AnalysisBroken
from sa.report import Report, finish
from sa.rules import TABLE


LIMIT = {'quick': 400, 'thorough': 700}   # seconds for one property


class Deadline(Exception):
    pass


class Watch:
    """Interrupts the analysis of a program that makes it grow too long."""
    def __init__(self, seconds):
        self.ident, self.seconds, self.done = threading.get_ident(), seconds, threading.Event()

    def __enter__(self):
        threading.Thread(target=self.watch, daemon=True).start()

    def watch(self):
        wait = self.seconds
        while not self.done.wait(wait):
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(self.ident), ctypes.py_object(Deadline))
            wait = 5

    def __exit__(self, *a):
        self.done.set()


def run(prop, tier):
    from sa.model import Model
    from sa.suite import Suite
    rep = Report(prop)
    model = Model()
    modname, fname = TABLE[prop]
    fn = getattr(importlib.import_module('sa.rules.' + modname), fname)
    try:
        with Watch(float(os.environ.get('PARAGAMI_LIMIT') or LIMIT.get(tier, 400))):
            fn(Suite(model), rep, tier)
    except AnalysisBroken:
        raise
    except Exception as e:
        # a limit of the analyser: the remaining obligations stay undecided
        if os.environ.get('PARAGAMI_DEBUG'):
            traceback.print_exc()
        print('%s: internal error %s: %s' % (prop, type(e).__name__, str(e)[:200]))
        rep.unsure('internal', 'remaining obligations', traceback.format_exc()[-1000:])
    for t in model.internal:
        if os.environ.get('PARAGAMI_DEBUG'):
            print(t)
        print('%s: internal error %s' % (prop, t.strip().split(chr(10))[-1][:200]))
    rep.saw(model)
    return rep, model


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        argv = [a for a in argv if a != '--thorough']
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rc = 0
    for prop in argv or sorted(TABLE):
        try:
            rep, model = run(prop, tier)
            r = finish(rep, model, tier, seed)
        except AnalysisBroken as e:
            print('%s: ANALYSIS-BROKEN %s' % (prop, e))
            r = 2
        except Exception:
            traceback.print_exc()
            print('%s: ANALYSIS-BROKEN internal error' % prop)
            r = 2
        rc = max(rc, r) if r != 1 or rc != 2 else rc
    return rc


if __name__ == '__main__':
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, resource.RLIM_INFINITY))     # runaway terms end as undecided
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.exit(res[0] if res else 2)
