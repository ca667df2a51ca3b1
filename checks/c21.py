"""C21: problem transformations compose like functions."""
import numpy as np

LEVEL = 'exploration'
RULE = ('random composition trees (up to 14 leaves, all four operators, nested powers including zero, shared and reused operands, '
        'identities, subclasses with data, functors given their transformation afterwards) applied to recording arguments; the order '
        'of the recorded steps is compared with an independent evaluation of the same tree, for the tree, for its operands afterwards, '
        'and for every regrouping of the same chain; refusals of negative, fractional and non-numeric powers; '
        'distinct = (operators used, leaves, depth)')
ASSUMPTIONS = ['a transformation is a function of the problem it is handed']


def cases(tier, seed):
    n = {'quick': 900, 'thorough': 20000}[tier]
    out = [{'group': 'tree', 'mode': 'nojit', 'seed': seed * 100003 + i, 'timeout': 20, 'cost': 0.05} for i in range(n)]
    out += [{'group': 'chain', 'mode': 'nojit', 'seed': seed * 100003 + 50000 + i, 'timeout': 20, 'cost': 0.05} for i in range(n // 2)]
    return out


def leafs(rng):
    from beluga.symbolic.data_classes.mapping_functions import GenericFunctor

    class Step(GenericFunctor):
        strrep = 'Step'

        def __init__(self, name, scale=1):
            super().__init__(name, scale=scale)
            self.name = name

        def transformation(self, prob):
            return prob + (self.name,)

    class Mutating(GenericFunctor):
        strrep = 'Mut'

        def __init__(self, name):
            super().__init__()
            self.calls = 0
            self.name = name

        def transformation(self, prob):
            self.calls += 1
            return prob + (self.name,)

    def later(name):
        f = GenericFunctor()
        f.set_transformation(lambda self, prob: prob + (name,))
        return f

    out = []
    for i in range(int(rng.integers(2, 7))):
        nm = 'abcdefg'[i]
        out.append((nm, [Step, Mutating, later][int(rng.integers(3))](nm)))
    out.append(('', GenericFunctor()))
    return out


def run(case, mon):
    from beluga.symbolic.data_classes.mapping_functions import GenericFunctor
    rng = np.random.default_rng(case['seed'])
    L = leafs(rng)
    pool = [(f, tuple(n), n or 'Id') for n, f in L]      # (functor, steps in order of application, text)

    def probe(entry, what, key):
        f, steps, text = entry
        got = mon.under(f, ('start',))
        mon.check(got == ('start',) + steps, what, lambda: '%s applied the steps %s, expected %s' % (text, got[1:], steps), key)

    if case['group'] == 'tree':
        for _ in range(int(rng.integers(2, 12))):
            a, b = (pool[int(rng.integers(len(pool)))] for _ in range(2))
            op = ['*', '<<', '>>', '**', '*='][int(rng.integers(5))]
            if len(a[1]) + len(b[1]) > 60:
                continue
            if op == '**':
                k = int(rng.integers(0, 4))
                if len(a[1]) * k > 80:
                    continue
                new = (mon.under(lambda: a[0] ** k), a[1] * k, '(%s)**%d' % (a[2], k))
            elif op == '>>':
                new = (mon.under(lambda: a[0] >> b[0]), a[1] + b[1], '(%s >> %s)' % (a[2], b[2]))
            elif op == '<<':
                new = (mon.under(lambda: a[0] << b[0]), b[1] + a[1], '(%s << %s)' % (a[2], b[2]))
            elif op == '*':
                new = (mon.under(lambda: a[0] * b[0]), b[1] + a[1], '(%s * %s)' % (a[2], b[2]))
            else:
                f = a[0]
                f *= b[0]
                new = (f, b[1] + a[1], '(%s *= %s)' % (a[2], b[2]))
            pool.append(new)
            probe(new, 'order', (op, min(len(new[1]), 8)))
            probe(a, 'operand-changed', (op, 'left'))
            probe(b, 'operand-changed', (op, 'right'))
        for e in pool:
            probe(e, 'later-change', ('all',))
            probe(e, 'repeat', ('again',))
        f = pool[int(rng.integers(len(pool)))][0]
        for bad, exc in ((-1, ValueError), (-int(rng.integers(1, 9)), ValueError), (1.5, TypeError), (2.0, TypeError), ('2', TypeError), (None, TypeError)):
            try:
                f ** bad
                mon.fail('accepted', 'power %r accepted' % (bad,))
            except exc:
                mon.seen(('refused', str(bad)))
            except Exception as e:
                mon.fail('wrong-refusal', 'power %r refused with %s' % (bad, type(e).__name__))
    else:
        n = int(rng.integers(3, 9))
        seq = [pool[int(rng.integers(len(pool)))] for _ in range(n)]
        want = ('start',) + sum((s[1] for s in seq), ())

        def group(lo, hi, right):
            if hi - lo == 1:
                return seq[lo][0]
            m = int(rng.integers(lo + 1, hi))
            a, b = group(lo, m, right), group(m, hi, right)
            return [lambda: b * a, lambda: b << a, lambda: a >> b][int(rng.integers(3))]()
        for g in range(4):
            got = mon.under(group(0, n, g), ('start',))
            mon.check(got == want, 'grouping', lambda: 'a chain applied %s, expected %s' % (got, want), ('chain', n))
        f = seq[0][0]
        e = GenericFunctor()
        for h, nm in ((f * e, 'f*Id'), (e * f, 'Id*f'), (f ** 1, 'f**1')):
            mon.check(mon.under(h, ('start',)) == ('start',) + seq[0][1], 'identity', '%s differs from f' % nm, ('id', nm))
        mon.check(mon.under(f ** 0, ('start',)) == ('start',), 'zero-power', 'f**0 is not the identity', ('pow0',))
        j, k = (int(v) for v in rng.integers(0, 4, 2))
        mon.check(mon.under((f ** j) * (f ** k), ('start',)) == mon.under(f ** (j + k), ('start',)), 'powers', 'f**j * f**k is not f**(j+k)', ('pow',))
