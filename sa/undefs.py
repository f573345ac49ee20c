"""The undefined value and the raise level: definitions compared with what all other analyses assume about them."""
from . import dd
from .engine import find_fn
from .interp import Interp, one, cv, T, F


def fnd(rule, fi, text, witness, key):
    return dict(rule=rule, construct=fi.qual, where='{}:{}'.format(fi.module.path, fi.node.lineno), text=text,
                witness=witness, key=key)


def result(res):
    """'undef', 'raise EXC', 'const V' or 'unknown ...' of a run without operands; None: may differ."""
    outs = set()
    for r in res.raises:
        outs.add('raise ' + r[1])
    if any(r[0] != T for r in res.raises):
        return 'unknown condition'
    if res.raises:
        return outs.pop() if len(outs) == 1 else 'unknown exceptions'
    for c, gv, where, *_ in res.returns:
        if c == F:
            continue
        for c2, l in gv:
            if dd.conj(c, c2) == F:
                continue
            if dd.conj(c, c2) != T:
                return 'unknown condition'
            outs.add('undef' if l[0] == 'undef' else 'const {!r}'.format(l[2]) if l[0] == 'c' else
                     'object {}'.format(l[1]) if l[0] == 'obj' else 'unknown ' + str(l[:2]))
    return outs.pop() if len(outs) == 1 else 'unknown'


def work(eng, _=None):
    out = dict(findings=[], undecided={}, obligations=0, decided=0, valuations=0, name='undef')
    ip = Interp(eng.prog, eng.ops, contracts=False)
    ip.lib_contracts = False
    fn = {n: find_fn(eng.prog, 'undef.' + n) for n in (
        'RaiseOnUndef.set_level', 'RaiseOnUndef.reset', 'RaiseOnUndef.get_level', 'make_or_raise_undef',
        'make_or_raise_undef2', 'make_undef', 'Undef.__new__', 'Undef.__eq__', 'Undef.__ne__', 'Undef.__bool__')}
    undef, mo = one(('undef', 'raw')), one(('mo', ('fixed', 'Set')))

    def run(name, args, heap):
        fi = fn[name]
        if fi is None:
            raise LookupError('no function ' + name)
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(zip(names, args))
        for p, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if p not in env:
                env[p] = ip.eval_default(d, fi)
        if any(p not in env for p in names):
            raise LookupError('parameters of ' + name)
        return ip.run(fi, env, heap)

    def oblige(name, args, heap, want, text, witness):
        out['obligations'] += 1
        out['valuations'] += 1
        try:
            r = result(run(name, args, heap))
        except Exception as e:
            out['undecided']['{}: {}'.format(type(e).__name__, str(e)[:60])] = 1
            return
        if r.startswith('unknown'):
            out['undecided'][name + ': ' + r] = 1
            return
        out['decided'] += 1
        ok = r in want if isinstance(want, (tuple, set)) else r == want
        if not ok:
            key = 'undef|{}|{}'.format(name, text.split(':')[0])
            if all(f['key'] != key for f in out['findings']):
                out['findings'].append(fnd('undef', fn[name], '{}: gives {} instead of {}'.format(text, r, want),
                                           witness, key))

    def state(*steps):
        heap = {}
        for name, args in steps:
            heap = run(name, args, heap).heap
        return heap
    EXC = 'raise UndefException'
    histories = [((), 0, 'initially')]
    histories += [((('RaiseOnUndef.set_level', [cv(n)]),), n, 'after set_level({})'.format(n)) for n in range(4)]
    histories += [((('RaiseOnUndef.set_level', [cv(n)]), ('RaiseOnUndef.reset', [])), 0,
                   'after set_level({}), reset()'.format(n)) for n in (1, 2)]
    histories += [((('RaiseOnUndef.set_level', [cv(2)]), ('RaiseOnUndef.set_level', [cv(1)]), ('RaiseOnUndef.reset', [])),
                   0, 'after set_level(2), set_level(1), reset()'),
                  ((('RaiseOnUndef.set_level', [cv(2)]), ('RaiseOnUndef.set_level', [cv(1)])), 1,
                   'after set_level(2), set_level(1)')]
    for steps, n, w in histories:
        try:
            heap = state(*steps)
        except Exception as e:
            out['obligations'] += 1
            out['undecided']['{}: {}'.format(type(e).__name__, str(e)[:60])] = 1
            continue
        oblige('RaiseOnUndef.get_level', [], heap, 'const {}'.format(n), 'current level', w)
        for k in (1, 2, 3):
            oblige('make_or_raise_undef', [cv(k)], heap, EXC if k <= n else 'undef', 'undefined result', w)
        oblige('make_or_raise_undef', [], heap, EXC if 1 <= n else 'undef', 'undefined result with default level', w)
        oblige('make_or_raise_undef2', [undef], heap, EXC if 2 <= n else 'undef', 'result for an undefined operand', w)
        oblige('make_or_raise_undef2', [mo], heap, EXC if 1 <= n else 'undef', 'result for a wrong operand', w)
        oblige('make_undef', [], heap, 'undef', 'make_undef', w)
    try:                                        # there is one undefined value
        cls = one(('cls', ip.cls_by_kind['Undef'].cid))
        out['obligations'] += 1
        a = run('Undef.__new__', [cls], {})
        b = run('Undef.__new__', [cls], a.heap)
        ra, rb = result(a), result(b)
        if ra.startswith('object') and rb.startswith('object'):
            out['decided'] += 1
            if ra != rb:
                out['findings'].append(fnd('undef', fn['Undef.__new__'], 'two calls give two undefined values',
                                           'Undef() is Undef()', 'undef|singleton'))
        elif ra.startswith('const') or rb.startswith('const'):
            out['findings'].append(fnd('undef', fn['Undef.__new__'], 'gives {}, then {}'.format(ra, rb),
                                       'Undef()', 'undef|singleton'))
        else:
            out['undecided']['Undef.__new__: ' + ra] = 1
    except Exception as e:
        out['undecided']['{}: {}'.format(type(e).__name__, str(e)[:60])] = 1
    for n, args in (('__eq__', [undef, undef]), ('__eq__', [undef, mo]), ('__eq__', [undef, cv(1)]),
                    ('__ne__', [undef, undef]), ('__ne__', [undef, mo]), ('__ne__', [undef, cv(1)]), ('__bool__', [undef])):
        oblige('Undef.' + n, args, {}, 'raise TypeError', 'comparison or truth of the undefined value', n)
    return out
