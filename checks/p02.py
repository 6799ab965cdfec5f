"""P02: every primitive type accepts exactly its documented domain.

Transition system per configuration: the state is the stored value, the
operations are assignments of every input of the alphabet; every (state, input)
pair within the bound is executed on the real code.
"""
import itertools
import random

import properties as P

from mc import core, types

PROPERTY = 'P02'
BOUNDS = ('configurations: all keyword combinations of mc/types.py; inputs: the '
          'full alphabet of each type (all strings up to length 3/4 over a '
          '3-letter alphabet, all colour triples over 10 components, all '
          'calendar field boundaries, ...); histories: every input from every '
          'one of K previous values (K=3 quick, 12 thorough); equality of all '
          'pairs of stored values, numbers around the tolerance at every scale')
ASSUMPTIONS = [
    'inputs whose treatment the documentation leaves open are excluded from '
    'the oracle (nan against bounds, size-1 arrays as scalars, unpadded dates)',
    'idempotence of String is only required when the regex also matches the '
    'coerced value',
]


def make_class(spec, **kwargs):
    return type('Host', (P.HasProperties,), {
        'attr': spec.make(required=False, **kwargs),
        'other': P.Integer('other', required=False),
    })


def put(ctx, spec, host, prev, val):
    """One transition: assign `val` while `prev` is stored."""
    want = spec.oracle(val)
    given = types.fresh(val)
    snapshot = core.canon(given)
    out = core.attempt(setattr, host, 'attr', given)
    ctx.step()
    what = '%s: assigning %s over %s' % (spec.name, core.show(val),
                                         core.show(prev))
    if want == types.NO:
        core.expect(ctx, out, ValueError, what)
        ctx.same(host.attr, prev, what + ' (rejected): stored value changed')
        now = prev
        ctx.outcome('rejected')
    elif want is None:
        if out[0] == core.ERR:
            core.expect(ctx, out, ValueError, what)
        now = host.attr
    else:
        core.expect_ok(ctx, out, what)
        ctx.same(host.attr, want[1], what + ': stored value')
        now = want[1]
        ctx.outcome('accepted')
    ctx.same(host.attr, now, what + ': second read')
    ctx.check(core.canon(given) == snapshot,
              lambda: what + ': the input object was modified to %s'
              % core.show(given))
    ctx.same(host.other, 7, what + ': unrelated attribute')
    return now


def one_spec(ctx, spec, nprev):
    cls = make_class(spec)
    prevs = [None]
    for val, coerced in spec.accepted():
        if len(prevs) > nprev:
            break
        if not any(core.same(coerced, p[1]) for p in prevs[1:]):
            prevs.append((val, coerced))

    def standalone(val):
        """validate() of the bare property, twice."""
        prop = spec.make()
        want = spec.oracle(val)
        given = types.fresh(val)
        out = core.attempt(prop.validate, None, given)
        ctx.step()
        what = '%s.validate(None, %s)' % (spec.name, core.show(val))
        if want == types.NO:
            core.expect(ctx, out, ValueError, what)
            return
        if want is None:
            return
        got = core.expect_ok(ctx, out, what)
        ctx.same(got, want[1], what)
        if spec.idempotent(got):
            again = core.expect_ok(ctx, core.attempt(prop.validate, None, got),
                                   what + ' again')
            ctx.same(again, got, what + ' again (must not modify)')

    def construct(val):
        want = spec.oracle(val)
        given = types.fresh(val)
        out = core.attempt(cls, attr=given)
        ctx.step()
        what = '%s: constructor argument %s' % (spec.name, core.show(val))
        if want == types.NO:
            core.expect(ctx, out, ValueError, what)
        elif want is not None:
            inst = core.expect_ok(ctx, out, what)
            ctx.same(inst.attr, want[1], what)
            if spec.idempotent(want[1]):
                core.expect_ok(ctx, core.attempt(inst.validate),
                               what + ': validate() of the instance')

    def default(val):
        want = spec.oracle(val)
        if val is None:
            return
        if callable(val):
            return
        given = types.fresh(val)
        out = core.attempt(spec.make, default=given)
        ctx.step()
        what = '%s: default=%s' % (spec.name, core.show(val))
        if want == types.NO:
            ctx.check(out[0] == core.ERR, what + ': invalid default accepted')
        elif want is not None:
            core.expect_ok(ctx, out, what)

    def transition(prev, val):
        host = cls(other=7)
        stored = None
        if prev is not None:
            host.attr = types.fresh(prev[0])
            stored = prev[1]
        now = put(ctx, spec, host, stored, val)
        ctx.state((spec.name, core.canon(now)))
        if now is not None and spec.idempotent(now):
            core.expect_ok(ctx, core.attempt(host.validate),
                           '%s: validate() with accepted value %s stored' % (
                               spec.name, core.show(now)))

    for val in spec.values:
        lab = '%s <- %s' % (spec.name, core.show(val))
        for func in (standalone, construct, default):
            if not core.case(ctx, lab + ' ' + func.__name__, func, val):
                return
        for prev in prevs:
            if not core.case(ctx, lab + ' over ' + core.show(prev),
                             transition, prev, val):
                return
    ctx.sample('%s: %d inputs x %d previous values, %d accepted, %d rejected' % (
        spec.name, len(spec.values), len(prevs), len(spec.accepted()),
        len(spec.rejected())))


def random_color(ctx):
    """'random' under every answer of the random source."""
    prop = P.Color('d')
    real = random.choice
    seen = set()

    def run(idx, word):
        box = {}

        def choice(seq):
            box['n'] = len(seq)
            return seq[idx % len(seq)]
        random.choice = choice
        try:
            got = prop.validate(None, word)
        finally:
            random.choice = real
        ctx.step()
        ctx.check(isinstance(got, tuple) and len(got) == 3 and
                  all(type(v) is int and 0 <= v <= 255 for v in got),
                  'Color.validate(%r) = %s' % (word, core.show(got)))
        seen.add(got)
        ctx.state(got)
        ctx.same(prop.validate(None, got), got, 'validate again')
    for word in ('random', 'RANDOM', 'Random'):
        for idx in range(40):
            if not core.case(ctx, '%s answer %d' % (word, idx), run, idx, word):
                return
    ctx.check(len(seen) > 1, 'Color random has a single outcome')


# -- equality ---------------------------------------------------------------------
def near(a, b):
    """Are two real numbers equal up to the tolerance (None: on the edge)?"""
    if a == b or (a != a and b != b):
        return True
    diff = abs(a - b)
    if 0.5 * types.TOL < diff < 2 * types.TOL:
        return None
    return diff <= types.TOL


OFFSETS = [0, 1e-10, -1e-10, 3e-9, -3e-9, 1e-8, 1e-6, 1e-3, 0.5, 1, -1]
BASES = [0.0, 1.0, -1.0, 0.25, 100.0, 12345.678, 1e6, -1e6]
HUGE = [1e9, 1e9 + 1, 1e12, 1e12 + 1, 1e15, 1e15 + 1, -1e15, 1e16, 1e300,
        -1e300, 2e300, types.INF, -types.INF, types.NAN, 5e-324, -0.0]


def equality_numbers(ctx):
    """Equality of all pairs of numbers of the alphabet."""
    floats = sorted(set(b + o for b in BASES for o in OFFSETS)) + HUGE
    for prop in (P.Float('d'), P.Float('d', cast=True),
                 P.Float('d', min=-1e400, max=1e400)):
        for a in floats:
            def row(prop=prop, a=a):
                for b in floats:
                    compare(ctx, prop, a, b, near(a, b))
            if not core.case(ctx, 'Float %r' % a, row):
                return
    whole = [0, 1, -1, 2, 3, 10 ** 9, 10 ** 9 + 1, 10 ** 15, 10 ** 15 + 1,
             2 ** 53, 2 ** 53 + 1, 10 ** 20, 10 ** 20 + 1, -10 ** 20]
    for prop in (P.Integer('d'), P.Integer('d', cast=True, min=-10 ** 30)):
        for a, b in itertools.product(whole, repeat=2):
            if not core.case(ctx, 'Integer %r %r' % (a, b), compare, ctx, prop,
                             a, b, a == b):
                return
    parts = [0.0, 1.0, -1.0, 1 + 1e-10, 1 + 1e-8, 2.5, -2.5, 1e9, 1e9 + 1,
             types.INF, -types.INF, types.NAN]
    values = [complex(r, i) for r in parts for i in parts]
    for a in values:
        def row(a=a):
            for b in values:
                one, two = near(a.real, b.real), near(a.imag, b.imag)
                want = None if None in (one, two) else one and two
                if one is False or two is False:
                    want = False
                compare(ctx, P.Complex('d'), a, b, want)
        if not core.case(ctx, 'Complex %r' % a, row):
            return


def compare(ctx, prop, a, b, want):
    out = core.attempt(prop.equal, a, b)
    ctx.step()
    what = '%s.equal(%r, %r)' % (type(prop).__name__, a, b)
    got = core.expect_ok(ctx, out, what)
    ctx.check(got in (True, False), what + ' is %r' % (got,))
    if want is not None:
        ctx.check(bool(got) == want, what + ' is %r' % (got,))
    ctx.state((what, bool(got)))


def equality_others(ctx):
    """Equality of all pairs of stored values of the other types."""
    seen = set()
    for gen in (types.boolean_specs(), types.string_specs(2),
                types.choice_specs(), types.color_specs(),
                types.datetime_specs(), types.url_specs()):
        for spec in gen:
            values = []
            for _, val in spec.accepted():
                if not any(core.same(val, v) for v in values):
                    values.append(val)
            values = values[:40] + values[40::max(1, len(values) // 40)]
            prop = spec.make()

            def pairs():
                for a in values:
                    for b in values:
                        try:
                            want = bool(a == b)
                        except TypeError:
                            want = False
                        compare(ctx, prop, a, types.fresh(b), want)
            if not core.case(ctx, 'equality ' + spec.name, pairs):
                return
            seen.add(spec.name)
    ctx.sample('equality of all pairs for %d configurations' % len(seen))


def group(specs, nprev):
    def scenario(ctx):
        for spec in specs():
            one_spec(ctx, spec, nprev)
            if ctx.full():
                return
    return scenario


def scenarios(tier):
    quick = tier != 'thorough'
    nprev = 3 if quick else 12
    yield 'boolean', group(types.boolean_specs, nprev)
    yield 'numbers', group(lambda: types.number_specs(quick), nprev)
    yield 'strings', group(lambda: types.string_specs(2 if quick else 3),
                           1 if quick else 4)
    yield 'choices', group(types.choice_specs, nprev)
    yield 'colors', group(types.color_specs, 1 if quick else 3)
    yield 'random color', random_color
    yield 'datetimes', group(types.datetime_specs, 1 if quick else 3)
    yield 'urls', group(types.url_specs, 1 if quick else 3)
    yield 'equality of numbers', equality_numbers
    yield 'equality of others', equality_others
    yield 'untyped', group(types.any_specs, nprev)
