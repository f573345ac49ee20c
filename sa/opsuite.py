"""Runs the obligations of oprules over the summarised public operations, in parallel."""
import multiprocessing
import os

from .engine import Engine
from . import oprules
from . import spec as specmod
from .report import Report

_ENG = None


def engine():
    global _ENG
    if _ENG is None:
        _ENG = Engine()
        _ENG.init_flags()
    return _ENG


def _work(a):
    try:
        return oprules.run_op(engine(), *a)
    except Exception as e:                      # the summary has a form that is not understood: nothing is claimed
        return dict(op=a[0], checked=a[1], findings=[], obligations=1, decided=0, undecided={}, valuations=0, returns=0,
                    events=0, error='{}: {}'.format(type(e).__name__, str(e)[:120]), unknown=[])


def parallel(fn, jobs, procs=None):
    """Ordered results of fn over jobs in forked workers."""
    procs = procs or min(8, os.cpu_count() or 1, max(1, len(jobs)))
    if procs <= 1 or len(jobs) <= 2:
        return [fn(j) for j in jobs]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs) as p:
        return p.map(fn, jobs, chunksize=1)


RULES = {
    'ret:member': 'the summarised result equals the denotation of the operation at every tuple of member operands '
                  'in the witness domain and no exception is reachable',
    'ret:nonmember': 'the summarised result is undefined whenever an operand is not a member of the algebra',
    'ret:undef': 'the summarised result with undefined operands is the specified one',
    'flags': 'every recorded status equals the true status of the object at every feasible valuation',
    'undefelem': 'no constructor call receives the undefined value as an element or component',
    'pre': 'a call with checks switched off gets operands of the algebra at every feasible valuation',
    'mutate': 'no store or mutating method call reaches data owned by an operand',
    'level': 'undefined results are produced by the raise-level function, with the level of the error class',
}


def run(modes, sel, tier, unchecked=True):
    eng = engine()
    rep = Report()
    for md in modes:
        rep.rules[md] = RULES[md]
    jobs = []
    for q, s in eng.ops.items():
        if sel(s.name):
            for c in ((True, False) if s.has_checked and unchecked and not specmod.raw(s) else (True,)):
                jobs.append((q, c, modes, tier))
    for o in parallel(_work, jobs):
        merge(rep, o)
    for n in eng.missing:
        if sel(n):
            rep.undecided.append(n + ': no longer exists with the specified parameters')
    rep.count('operations', len({j[0] for j in jobs}))
    rep.count('summaries', len(jobs))
    return rep


def merge(rep, o):
    name = o['op'] + ('' if o['checked'] else ' [unchecked]')
    rep.constructs.add(o['op'])
    rep.obligations += o['obligations']
    rep.decided += o['decided']
    if o['error']:
        rep.undecided.append('{}: {}'.format(name, o['error']))
    for k, n in o['undecided'].items():
        rep.undecided.append('{}: {} ({} valuations)'.format(name, k, n))
    for f in o['findings']:
        rep.find(f['rule'], f['construct'], f['where'], f['text'] + ('' if f['checked'] else
                 ' (checks switched off)'), f['witness'], key=f['key'])
    rep.count('valuations', o['valuations'])
    rep.count('guarded_returns', o['returns'])
    rep.count('effect_events', o['events'])
    if o['obligations'] and len(rep.samples) < 3:
        rep.samples.append('{}: {} returns, {} events, {} valuations compared'.format(
            name, o['returns'], o['events'], o['valuations']))
