"""Obligations on the summarised public operations.

Modes
  ret:member     result on member operands = denotation of the operation, and it raises nothing
  ret:nonmember  result is undefined when an operand is not a member of the operation's algebra
  ret:undef      result is as specified when an operand is the undefined value
  flags          every property status the operation records is true of the object it is recorded on
  undefelem      the undefined value never becomes an element or component of a new object
  pre            operations called with operand checks switched off get operands that need no check
  mutate         no data that belongs to an operand is modified
  level          undefined results respect the configured raise level
"""
import time
import traceback

from . import dd, model as m, spec as specmod
from .decide import OpCheck, show, show_args, is_value, feasible, STATUS
from .engine import exists_violation, UNK
from .evalr import Ev, Unk, Need, NoData

U = m.U
LEVEL_EXEMPT = ('.defined_at', '.functional_add', 'algebras.properties.')


def arg_class(spec, args):
    """member / nonmember / undef / mixed"""
    bad = und = False
    for s, a in zip(spec.sorts, args):
        if s in ('X*',):
            und = und or U in a
        elif s in ('D', 'F', 'G', 'G1', 'F1'):
            continue
        elif a == U:
            und = True
        elif s in specmod.MEMBERS and not specmod.MEMBERS[s](a):
            bad = True
    return 'mixed' if und and bad else 'undef' if und else 'nonmember' if bad else 'member'


def rule_of(mode):
    return {'ret:member': 'result-differs', 'ret:nonmember': 'non-member-accepted',
            'ret:undef': 'undefined-operand', 'flags': 'false-flag', 'undefelem': 'undefined-element',
            'pre': 'unchecked-call', 'mutate': 'operand-modified', 'level': 'raise-level'}[mode]


def run_op(eng, qual, checked, modes, tier):
    """dict with findings and measured coverage for one operation in one checking mode."""
    spec = eng.ops[qual]
    out = dict(op=qual, checked=checked, findings=[], obligations=0, decided=0, undecided={},
               valuations=0, returns=0, events=0, error=None, unknown=[])
    t0 = time.time()
    try:
        ip, res = eng.summarise(spec, checked)
    except Exception as e:                      # outside the analysed language: nothing is claimed
        out['error'] = '{}: {}'.format(type(e).__name__, str(e)[:200])
        return out
    oc = OpCheck(spec, ip, res)
    out['returns'], out['events'] = len(res.returns), len(res.events)
    out['unknown'] = sorted({w for w, _ in ip.unknowns})[:5]
    vals = specmod.valuations(spec, checked, tier == 'thorough')
    classes = [(arg_class(spec, v), v) for v in vals]
    for mode in modes:
        f = MODES[mode.split(':')[0]]
        try:
            f(out, oc, mode, classes, tier)
        except Exception as e:
            out['error'] = '{} in {}: {}'.format(type(e).__name__, mode,
                                                 traceback.format_exc()[-300:])
    out['wall'] = round(time.time() - t0, 3)
    return out


def add(out, mode, oc, where, text, witness):
    key = '{}|{}|{}'.format(rule_of(mode), oc.spec.fi.qual, text.split(':')[0])
    if any(f['key'] == key for f in out['findings']):
        return
    out['findings'].append(dict(key=key, rule=rule_of(mode), construct=oc.spec.fi.qual, where=where,
                                text=text, witness=witness, checked=out['checked']))


def m_ret(out, oc, mode, classes, tier):
    want = mode.split(':')[1]
    spec = oc.spec
    if m.DEN.get(spec.name) is None and m.ANY.get(spec.name) is None:
        return
    if not any(c == want for c, v in classes):
        return
    out['obligations'] += 1
    before = dict(oc.stats)
    for cls, v in classes:
        if cls != want:
            continue
        out['valuations'] += 1
        for rev in (False, True):
            w = oc.returns(v, rev)
            if w:
                add(out, mode, oc, w['where'], '{} instead of {}'.format(
                    'raises ' + w['got'] if w['kind'] == 'raise' else 'returns ' + w['got'], w['want']),
                    show_args(spec, v))
                if len(out['findings']) > 3:
                    return
    if oc.stats['unk'] > before['unk']:
        for k, n in oc.stats.get('why', {}).items():
            out['undecided'][k] = out['undecided'].get(k, 0) + n
    if oc.stats['decided'] > before['decided']:
        out['decided'] += 1


def m_flags(out, oc, mode, classes, tier):
    for e in oc.flags:
        out['obligations'] += 1
        n0 = UNK[0]
        for cls, v in classes:
            if cls in ('nonmember', 'mixed'):
                continue
            out['valuations'] += 1
            w = oc.flag_at(e, v)
            if w is None and tier == 'thorough':
                w = oc.flag_at(e, v, True)
            if w:
                add(out, mode, oc, e.where, 'records {} {}: it is {} of {}'.format(
                    e.prop, w['recorded'], w['truth'], w['obj']), show_args(oc.spec, v))
                break
        settle(out, n0, 'status {} recorded at {}'.format(e.prop, e.where))


def settle(out, n0, what):
    if UNK[0] == n0:
        out['decided'] += 1
    else:
        k = '{}: {}'.format(what, UNK[1])
        out['undecided'][k] = out['undecided'].get(k, 0) + UNK[0] - n0


def event_witness(oc, e, v, rev, test):
    def check(assign, kd):
        ev = oc.ev(v, assign, kd, rev)
        try:
            bes = ev.assignments(list(e.binders), {})
        except NoData:                  # the loop isn't entered with these operands
            return None
        for be in bes:
            if not ev.cond(e.pc, be) or not ev.cond(e.data.get('cond', dd.TRUE), be):
                continue
            r = test(ev, be)
            if r is not None and feasible(assign, ev.env):
                return r
        return None
    return exists_violation(check)


def m_undefelem(out, oc, mode, classes, tier):
    evs = [e for e in oc.res.events if e.kind == 'undef_element']
    cons = [e for e in oc.res.events if e.kind == 'construct']
    out['obligations'] += len(cons)
    for e in evs:
        for cls, v in classes:
            out['valuations'] += 1
            w = event_witness(oc, e, v, False, lambda ev, be: 'undefined')
            if w:
                add(out, mode, oc, e.where, 'puts the undefined value into a {}: reachable'.format(e.what),
                    show_args(oc.spec, v))
                break
    # elements produced by an operation that may be undefined
    for e in cons:
        n0 = UNK[0]
        for cls, v in classes:
            if cls in ('nonmember', 'mixed'):
                continue

            def test(ev, be, e=e):
                for c, l in e.arg:
                    if l[0] == 'coll' and ev.cond(c, be):
                        xs = ev.coll(l[1], be)
                        if any(x == U for x in xs):
                            return 'undefined'
                return None
            w = event_witness(oc, e, v, False, test)
            if w:
                add(out, mode, oc, e.where, 'puts the undefined value into a {}: reachable'.format(e.cls),
                    show_args(oc.spec, v))
                break
        settle(out, n0, 'elements of the {} made at {}'.format(e.cls, e.where))


def m_pre(out, oc, mode, classes, tier):
    by_name = {s.name: s for s in oc.ip.ops.values()}
    seen = set()
    for e in oc.res.events:
        if e.kind != 'opcall' or e.checked is not False:
            continue
        target = by_name.get(e.op)
        if target is None or not any(s in specmod.MEMBERS for s in target.sorts):
            continue
        sig = (e.where, e.op, e.pc, e.args)
        if sig in seen:
            continue
        seen.add(sig)
        out['obligations'] += 1
        n0 = UNK[0]

        def test(ev, be, e=e, target=target):
            for s, l in zip(target.sorts, e.args):
                if s not in specmod.MEMBERS or l[0] not in ('mo', 'undef'):
                    continue
                x = ev.leaf(l, be)
                if is_value(x) and not specmod.MEMBERS[s](x):
                    return show(x)
            return None
        for cls, v in classes:
            if cls in ('nonmember', 'mixed') and not out['checked']:
                continue
            out['valuations'] += 1
            w = event_witness(oc, e, v, False, test)
            if w:
                add(out, mode, oc, e.where, 'calls {} unchecked with a non-member: {}'.format(
                    e.op, w), show_args(oc.spec, v))
                break
        settle(out, n0, 'call of {} at {}'.format(e.op, e.where))


def owned(ip, k):
    """The key denotes an object made by the operation itself."""
    return k[0] in ('new', 'fold', 'fixed', 'fl') or k[0] == 'op' and k[1].startswith('new:')


def m_mutate(out, oc, mode, classes, tier):
    for e in oc.res.events:
        if e.kind == 'mutate':
            s = e.struct
            out['obligations'] += 1
            out['decided'] += 1
            while s[0] in ('keys', 'items', 'values', 'rest'):
                s = s[1]
            if s[0] in ('data', 'elements') and not owned(oc.ip, s[1]):
                add(out, mode, oc, e.where, 'modifies the data of an operand: {}'.format(e.method), '')
            elif s[0] in ('param', 'rparam', 'pdict'):
                add(out, mode, oc, e.where, 'modifies a container of the caller: {}'.format(e.method), '')
        elif e.kind == 'setattr':
            out['obligations'] += 1
            out['decided'] += 1
            l = e.base
            if l[0] == 'mo' and not owned(oc.ip, l[1]) and \
                    e.attr in ('_data', '_left', '_right', '_value', 'data', 'left', 'right', 'value'):
                add(out, mode, oc, e.where, 'replaces the {} of an operand: assignment'.format(e.attr), '')


def m_level(out, oc, mode, classes, tier):
    spec = oc.spec
    f = m.DEN.get(spec.name)
    if f is None:
        return
    done, n0 = 0, UNK[0]
    exempt = any(x in spec.name for x in LEVEL_EXEMPT)
    for cls, v in classes:
        want = f(*v)
        if not (isinstance(want, str) and want == U):
            continue
        done += 1
        out['valuations'] += 1

        def check(assign, kd):
            ev = oc.ev(v, assign, kd, False)
            for c, gv, where, *_ in oc.res.returns:
                if ev.cond(c, {}):
                    l = ev.gv_leaf(gv, {})
                    if l[0] != 'undef':
                        return None
                    if l[1] == 'raw':
                        return where, 'returns the undefined value without consulting the raise level'
                    if l[1].startswith('mk') and l[1] not in ('mk', 'mk1', 'mk2'):
                        return where, 'uses a level that the configured raise level never reaches'
                    if not exempt and l[1] in ('mk1', 'mk2'):
                        if cls == 'nonmember' and l[1] == 'mk2':
                            return where, 'treats an operand of the wrong type as an expected undefined result'
                        if cls == 'undef' and l[1] == 'mk1':
                            return where, 'treats an undefined operand as an error'
                    return None
            return None
        w = exists_violation(check)
        if w:
            add(out, mode, oc, w[0], w[1] + ': ', show_args(spec, v))
    if done:
        out['obligations'] += 1
        settle(out, n0, 'level of the undefined result')


MODES = {'ret': m_ret, 'flags': m_flags, 'undefelem': m_undefelem, 'pre': m_pre, 'mutate': m_mutate,
         'level': m_level}
