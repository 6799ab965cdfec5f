"""P03: containers validate, coerce and copy every item."""
import collections
import itertools

import numpy as np

import properties as P

from mc import core, depths, sizes

PROPERTY = 'P03'
BOUNDS = ('tuple/list/set/dictionary (with and without coercion, mutation '
          'observation and length limits) over 9 item types and nested two '
          'deep; every item sequence up to length 3 over alphabets of valid, '
          'coercible and invalid items, every accepted container subclass, and '
          'every length 0..4 against every pair of limits 0..3')
ASSUMPTIONS = ['items of untyped containers are opaque: nested containers '
               'inside them are not copied',
               'coercing frozensets and dictionaries into sequences, and '
               'dictionary keys that collide after coercion, are not documented '
               'and not judged']


class Name(object):
    """An arbitrary hashable object."""

    def __repr__(self):
        return 'Name()'


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MySet(set):
    pass


class MyDict(dict):
    pass


class OtherList(list):
    pass


OBJ = Name()
NO = 'no'
SKIP = 'skip'


def make_inner():
    class Inner(P.HasProperties):
        n = P.Integer('n', min=0, max=5, default=0)
    return Inner


# A type is (label, make() -> Property, alphabet, oracle); an oracle returns NO,
# SKIP or a "want" tree, see match().
class Type(object):
    def __init__(self, label, make, alphabet, oracle):
        self.label = label
        self.make = make
        self.alphabet = alphabet
        self.oracle = oracle


def val(v):
    return ('val', v)


def leaf_types(inner_cls):
    def integer(v):
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v.item()
        if isinstance(v, (bool, int, float, np.integer)) and v == v and \
                abs(v) < 1e300 and v == int(v) and 0 <= v <= 3:
            return val(int(v))
        return NO

    def string(v):
        return val(v.strip(' ').upper()) if isinstance(v, str) else NO

    def flt(v):
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v.item()
        if isinstance(v, (int, float, np.integer)) and not v < 0:
            return val(float(v))
        return NO

    def boolean(v):
        return val(v) if isinstance(v, bool) else NO

    def choice(v):
        if isinstance(v, str) and v.lower() in ('ab', 'x'):
            return val('ab')
        return NO

    def color(v):
        if v == 'red' or v == '#f00' or v == (255, 0, 0):
            return val((255, 0, 0))
        if v == [1, 2, 3]:
            return val((1, 2, 3))
        return NO

    def anything(v):
        return ('is', v)

    good = inner_cls(n=1)

    def inst(v):
        if isinstance(v, inner_cls):
            return ('is', v)
        if isinstance(v, dict):
            if set(v) <= {'n'} and integer(v.get('n', 0)) != NO:
                return ('new', inner_cls, {'n': int(v.get('n', 0))})
            return NO
        return NO

    def union(v):
        got = integer(v)
        return got if got != NO else string(v)

    yield Type('Integer', lambda: P.Integer('', min=0, max=3),
               [1, 2.0, True, 0, 4, -1, 1.5, 'a', None], integer)
    yield Type('String', lambda: P.String('', strip=' ', change_case='upper'),
               ['a', ' b ', 'A', '', 5, None, b'a'], string)
    yield Type('Float', lambda: P.Float('', min=0),
               [0.5, 2, -1, 'x', None], flt)
    yield Type('Boolean', lambda: P.Boolean(''),
               [True, False, 0, 'x'], boolean)
    yield Type('StringChoice', lambda: P.StringChoice('', {'ab': ['x']}),
               ['ab', 'AB', 'x', 'y', 1], choice)
    yield Type('Color', lambda: P.Color(''),
               ['red', '#f00', [1, 2, 3], (255, 0, 0), 'zz', 7], color)
    yield Type('HasProperties', lambda: inner_cls,
               [good, {'n': 2}, {}, {'n': 9}, {'q': 1}, 'x'], inst)
    yield Type('Union', lambda: P.Union('', [P.Integer('', min=0, max=3),
                                            P.String('', strip=' ',
                                                     change_case='upper')]),
               [1, ' b ', 9, None, 2.0], union)
    yield Type('untyped', lambda: None, [1, 'a', OBJ, None, (1, 2)], anything)


KINDS = {
    'Tuple': (P.Tuple, tuple), 'List': (P.List, list), 'Set': (P.Set, set),
}


def seq_oracle(kind, item, coerce, observe):
    base = KINDS[kind][1]

    def oracle(v):
        cls = base
        if coerce and isinstance(v, (frozenset, dict)):
            return SKIP
        if isinstance(v, base):
            cls = type(v)
            items = list(v)
        elif not coerce:
            return NO
        elif isinstance(v, (list, tuple, set)):
            items = list(v)
        elif isinstance(v, np.ndarray) and v.ndim > 0:
            items = list(v)
        else:
            items = [v]
        wants = []
        for it in items:
            want = item.oracle(it)
            if want == SKIP:
                return SKIP
            if want == NO:
                return NO
            wants.append(want)
        if kind == 'Set':
            if not all(can_hash(w) for w in wants):
                return NO
            return ('set', cls, wants)
        return ('seq', cls, wants)
    return oracle


def can_hash(want):
    if want[0] in ('val', 'is'):
        return not unhashable(want[1])
    if want[0] == 'seq':
        return issubclass(want[1], tuple) and all(can_hash(w)
                                                  for w in want[2])
    return want[0] == 'new'


def unhashable(v):
    try:
        hash(v)
        return False
    except TypeError:
        return True


def seq_type(kind, item, coerce=False, observe=False, maxlen=3, alphabet=None,
             limits=None):
    base = KINDS[kind][1]

    def make():
        kwargs = {}
        if coerce:
            kwargs['coerce'] = True
        if observe:
            kwargs['observe_mutations'] = True
        if limits:
            kwargs.update(limits)
        inner = item.make()
        return KINDS[kind][0]('', **dict(kwargs, **(
            {} if inner is None else {'prop': inner})))
    values = []
    items = item.alphabet if alphabet is None else alphabet
    for size in range(maxlen + 1):
        for tup in itertools.product(items, repeat=size):
            if kind == 'Set' and any(unhashable(t) for t in tup):
                if coerce:
                    values.append(list(tup))
                continue
            values.append(base(tup))
    ok_items = [t for t in items if item.oracle(t) not in (NO, SKIP)][:2]
    others = [list, tuple]
    if not any(unhashable(t) for t in ok_items):
        others += [set, MySet]
    others += [MyList, MyTuple, OtherList]
    for cls in others:
        values.append(cls(ok_items))
    values += [None, 5, 'a', {}, collections.deque(ok_items)]
    if coerce:
        values += list(items)
        values.append(tuple(items[:1]))
        values.append([tuple(items[:1])])
        if alphabet is not None and 'Integer' in item.label and \
                'Dictionary' not in item.label:
            values += [np.array([[1, 2], [0, 3]]), np.array([[1]]),
                       np.array([[1, 9]]), np.zeros((0, 2), int),
                       np.zeros((2, 0), int), np.array([1, 2]),
                       np.array([[[1], [2]]])]
        if item.label in ('Integer', 'Float', 'untyped'):
            # arrays without a dimension are single values
            values += [np.array(1), np.array(2.0), np.array(9), np.array(-1),
                       np.array('x'), np.float64(2), np.int8(3)]
    label = '%s%s%s%s(%s)' % (kind, '+coerce' if coerce else '',
                              '+observe' if observe else '',
                              limits or '', item.label)
    return Type(label, make, values, seq_oracle(kind, item, coerce, observe))


def dict_type(key, value, coerce=False, observe=False, maxlen=2):
    def make():
        kwargs = {}
        if coerce:
            kwargs['coerce'] = True
        if observe:
            kwargs['observe_mutations'] = True
        kprop, vprop = key.make(), value.make()
        if kprop is not None:
            kwargs['key_prop'] = kprop
        if vprop is not None:
            kwargs['value_prop'] = vprop
        return P.Dictionary('', **kwargs)

    def oracle(v):
        cls = dict
        if isinstance(v, dict):
            cls = type(v) if not coerce else dict
            pairs = list(v.items())
        elif not coerce:
            return NO
        else:
            try:
                pairs = list(dict(v).items())
            except (TypeError, ValueError):
                return NO
        wants = []
        for k, x in pairs:
            wk, wv = key.oracle(k), value.oracle(x)
            if SKIP in (wk, wv):
                return SKIP
            if NO in (wk, wv) or not can_hash(wk):
                return NO
            wants.append((wk, wv))
        final = [repr(core.canon(w[0][1])) for w in wants]
        if len(set(final)) != len(final):
            return SKIP
        return ('dict', cls, wants)

    values = []
    keys = [k for k in key.alphabet if not unhashable(k)]
    for size in range(maxlen + 1):
        for ks in itertools.combinations(keys, size):
            for vs in itertools.product(value.alphabet[:6], repeat=size):
                values.append(dict(zip(ks, vs)))
    good_k = [k for k in keys if key.oracle(k) not in (NO, SKIP)][:1]
    good_v = [x for x in value.alphabet
              if value.oracle(x) not in (NO, SKIP)][:1]
    for cls in (MyDict, collections.OrderedDict):
        values.append(cls(zip(good_k, good_v)))
    pairs = list(zip(good_k, good_v))
    values += [pairs, tuple(pairs), None, 5, 'a', [1], [(1, 2, 3)]]
    label = 'Dictionary%s%s(%s,%s)' % ('+coerce' if coerce else '',
                                       '+observe' if observe else '',
                                       key.label, value.label)
    return Type(label, make, values, oracle)


# -- matching ------------------------------------------------------------------
def match(got, want, exact, path='value'):
    """None, or a description of the mismatch."""
    kind = want[0]
    if kind == 'val':
        if type(got) is not type(want[1]) or not core.same(got, want[1]):
            return '%s is %s, expected %s' % (path, core.show(got),
                                              core.show(want[1]))
        return None
    if kind == 'is':
        if got is not want[1]:
            return '%s is %s, expected the very object %s' % (
                path, core.show(got), core.show(want[1]))
        return None
    if kind == 'new':
        if type(got) is not want[1]:
            return '%s is %s, expected a new %s' % (
                path, core.show(got), want[1].__name__)
        for attr, v in want[2].items():
            if getattr(got, attr) != v:
                return '%s.%s is %s, expected %s' % (
                    path, attr, core.show(getattr(got, attr)), core.show(v))
        return None
    cls = want[1]
    if (type(got) is not cls) if exact else (not isinstance(got, cls)):
        return '%s has class %s, expected %s' % (path, type(got).__name__,
                                                 cls.__name__)
    if kind == 'seq':
        if len(got) != len(want[2]):
            return '%s is %s, expected %d items' % (path, core.show(got),
                                                    len(want[2]))
        for i, (g, w) in enumerate(zip(got, want[2])):
            bad = match(g, w, exact, '%s[%d]' % (path, i))
            if bad:
                return bad
        return None
    if kind == 'set':
        left = list(got)
        for w in want[2]:
            if not any(match(g, w, exact) is None for g in got):
                # equal values of different types merge in a set
                if plain(w) in got:
                    continue
                return '%s is %s, lacks %s' % (path, core.show(got),
                                               core.show(w[1:]))
        for g in left:
            if not any(match(g, w, exact) is None for w in want[2]):
                return '%s is %s, with unexpected %s' % (
                    path, core.show(got), core.show(g))
        return None
    if kind == 'dict':
        if len(got) != len(want[2]):
            return '%s is %s, expected %d entries' % (path, core.show(got),
                                                      len(want[2]))
        if not exact or isinstance(got, dict):
            for (gk, gv), (wk, wv) in zip(got.items(), want[2]):
                bad = match(gk, wk, exact, path + ' key') or match(
                    gv, wv, exact, '%s[%r]' % (path, gk))
                if bad:
                    return bad
        return None
    raise RuntimeError(kind)


def plain(want):
    """The value a want tree stands for, for comparison with ==."""
    if want[0] == 'seq':
        return want[1](plain(w) for w in want[2])
    return want[1] if want[0] in ('val', 'is') else object()


def containers(value, out=None):
    """Every mutable builtin container reachable in a value."""
    out = [] if out is None else out
    if isinstance(value, dict):
        out.append(value)
        for k, v in value.items():
            containers(v, out)
    elif isinstance(value, (list, set)):
        out.append(value)
        for v in value:
            containers(v, out)
    elif isinstance(value, tuple):
        for v in value:
            containers(v, out)
    return out


def private(value):
    """Deep copy of the containers only; items keep their identity."""
    if isinstance(value, dict):
        return type(value)((k, private(v)) for k, v in value.items())
    if isinstance(value, (list, tuple, set)):
        return type(value)(private(v) for v in value)
    return value


def tamper(value):
    for box in containers(value):
        if isinstance(box, list):
            box.append('tampered')
        elif isinstance(box, set):
            box.add('tampered')
        else:
            box['tampered'] = 'tampered'


def run_type(ctx, typ, opaque=False, exact=True):
    prop = typ.make()
    cls = type('Holder', (P.HasProperties,), {
        'x': prop, 'y': P.Integer('other', default=7)})
    for value in typ.alphabet:
        def one(value=value):
            given = private(value)
            want = typ.oracle(given)
            if want == SKIP:
                return
            inst, other = cls(), cls()
            out = core.attempt(setattr, inst, 'x', given)
            what = '%s <- %s' % (typ.label, core.show(value))
            ctx.step()
            if want == NO:
                core.expect(ctx, out, ValueError, what)
                ctx.check(inst.x is None and inst.y == 7,
                          lambda: what + ': rejected value was stored')
                ctx.same(private(given), private(value),
                         what + ': the rejected input was modified')
                ctx.outcome('reject')
                return
            core.expect_ok(ctx, out, what)
            bad = match(inst.x, want, exact)
            ctx.check(bad is None, lambda: '%s: %s' % (what, bad))
            ctx.outcome('accept')
            ctx.state(core.canon(inst.x))
            ctx.check(core.canon(given) == core.canon(value),
                      lambda: what + ': the input was modified to ' +
                      core.show(given))
            stored = inst.x
            # identity is fixed before anything is modified
            other.x = stored
            bad = match(other.x, want, exact)
            ctx.check(bad is None, lambda: '%s, assigned again from the '
                      'stored value: %s' % (what, bad))
            if not opaque:
                ids = [id(b) for b in containers(stored)]
                given_ids = [id(b) for b in containers(given)]
                ctx.check(not set(ids) & set(given_ids),
                          lambda: what + ': shares a container with its input')
                ctx.check(not set(ids) & set(id(b) for b in
                                             containers(other.x)),
                          lambda: what + ': two instances share a container')
                tamper(given)
                bad = match(inst.x, want, exact)
                ctx.check(bad is None, lambda: '%s, after changing the input: '
                          '%s' % (what, bad))
            again = prop.validate(None, inst.x)
            bad = match(again, want, exact)
            ctx.check(bad is None, lambda: '%s: validating again: %s' % (
                what, bad))
            ctx.check(prop.equal(inst.x, again),
                      lambda: what + ': not equal to itself revalidated')
            if not opaque:
                ctx.check(inst.validate() is True,
                          lambda: what + ': stored value does not validate')
        if not core.case(ctx, '%s <- %s' % (typ.label, core.show(value)), one):
            return


def flat(ctx, quick, kind):
    inner = make_inner()
    for item in leaf_types(inner):
        for coerce in (False, True):
            for observe in ((False, True) if kind != 'Tuple' else (False,)):
                if quick and coerce and observe and item.label not in (
                        'Integer', 'HasProperties', 'untyped'):
                    continue
                maxlen = 3 if not quick or not observe else 2
                typ = seq_type(kind, item, coerce, observe, maxlen)
                run_type(ctx, typ, opaque=item.label == 'untyped',
                         exact=not observe)
                if ctx.full():
                    return
        ctx.sample('%s of %s: %d values' % (kind, item.label,
                                            len(typ.alphabet)))


def dicts(ctx, quick):
    inner = make_inner()
    leaves = {t.label: t for t in leaf_types(inner)}
    keys = ['String', 'Integer', 'untyped', 'Color', 'StringChoice']
    vals = ['Integer', 'String', 'HasProperties', 'untyped', 'Boolean',
            'Union', 'Color', 'Float']
    for k in keys:
        for v in vals:
            for coerce, observe in itertools.product((False, True), repeat=2):
                if quick and coerce and observe and v != 'Integer':
                    continue
                typ = dict_type(leaves[k], leaves[v], coerce, observe,
                                maxlen=2)
                run_type(ctx, typ, opaque='untyped' in (k, v),
                         exact=not observe)
                if ctx.full():
                    return
        ctx.sample('Dictionary keyed by %s' % k)


def reduced(typ, count=3):
    good = [v for v in typ.alphabet if typ.oracle(v) not in (NO, SKIP)]
    bad = [v for v in typ.alphabet if typ.oracle(v) == NO]
    # an accepted pick of every size, then some rejected ones
    seen, pick = set(), []
    for v in good:
        size = len(v) if hasattr(v, '__len__') and \
            getattr(v, 'ndim', 1) else -1
        tag = (type(v), size)
        if tag not in seen:
            seen.add(tag)
            pick.append(v)
    return Type(typ.label, typ.make, pick[:count + 3] + bad[:count],
                typ.oracle)


def nested(ctx, quick, outer):
    inner = make_inner()
    leaves = {t.label: t for t in leaf_types(inner)}
    mids = []
    for leaf in ('Integer', 'String', 'HasProperties', 'Color'):
        for kind in ('Tuple', 'List', 'Set'):
            for coerce in (False, True):
                mids.append(reduced(seq_type(kind, leaves[leaf], coerce,
                                             maxlen=2)))
        mids.append(reduced(dict_type(leaves['String'], leaves[leaf])))
    # two deep
    for mid in list(mids):
        if mid.label in ('List(Integer)', 'Tuple(Integer)', 'Set(Integer)',
                         'Dictionary(String,Integer)'):
            mids.append(reduced(seq_type('List', mid, maxlen=1)))
            mids.append(reduced(dict_type(leaves['String'], mid, maxlen=1)))
            mids.append(reduced(seq_type('Tuple', mid, maxlen=1)))
    for mid in mids:
        if outer == 'Dictionary':
            typ = dict_type(leaves['String'], mid, maxlen=2)
            run_type(ctx, typ)
        else:
            for coerce in (False, True):
                typ = seq_type(outer, mid, coerce, maxlen=2,
                               alphabet=mid.alphabet)
                run_type(ctx, typ)
        if ctx.full():
            return
    ctx.sample('%s over %d nested item types' % (outer, len(mids)))


def limits(ctx, quick):
    inner = make_inner()
    item = next(t for t in leaf_types(inner) if t.label == 'Integer')
    bounds = [None, 0, 1, 2, 3]

    def fits(n, lo, hi):
        return not (lo is not None and n < lo) and not (
            hi is not None and n > hi)

    for kind in KINDS:
        base = KINDS[kind][1]
        for lo, hi in itertools.product(bounds, repeat=2):
            if lo is not None and hi is not None and lo > hi:
                continue
            kw = {}
            if lo is not None:
                kw['min_length'] = lo
            if hi is not None:
                kw['max_length'] = hi
            for coerce, observe, nest in itertools.product(
                    (False, True), (False, True), (None, 'List', 'Tuple',
                                                   'Dictionary', 'Union')):
                if kind == 'Tuple' and observe:
                    continue
                if nest == 'Union' and (observe or coerce):
                    continue
                kwargs = dict(kw)
                if coerce:
                    kwargs['coerce'] = True
                if observe:
                    kwargs['observe_mutations'] = True

                def build(kwargs=kwargs, kind=kind, nest=nest):
                    prop = KINDS[kind][0]('', prop=P.Integer(''), **kwargs)
                    if nest in ('List', 'Tuple'):
                        prop = KINDS[nest][0]('', prop=prop)
                    elif nest == 'Dictionary':
                        prop = P.Dictionary('', value_prop=prop)
                    elif nest == 'Union':
                        prop = P.Union('', [P.Boolean(''), prop])
                    return type('Holder', (P.HasProperties,), {'x': prop})
                holder = build()
                for size in range(5):
                    def one(size=size):
                        inst = holder()
                        data = base(range(size))
                        what = '%s(%s) in %s, %d items' % (kind, kwargs, nest,
                                                           size)
                        if nest in ('List', 'Tuple'):
                            data = KINDS[nest][1]([data])
                        elif nest == 'Dictionary':
                            data = {'k': data}
                        core.expect_ok(ctx, core.attempt(
                            setattr, inst, 'x', data), what)
                        ctx.step()
                        out = core.attempt(inst.validate)
                        if fits(size, lo, hi):
                            core.expect_ok(ctx, out, what + ': validate()')
                        else:
                            core.expect(ctx, out, ValueError,
                                        what + ': validate()')
                        # the same answer again
                        out = core.attempt(inst.validate)
                        ctx.check((out[0] == 'ok') == fits(size, lo, hi),
                                  lambda: what + ': second validate()')
                        ctx.state((kind, lo, hi, coerce, observe, nest, size))
                        ctx.outcome(fits(size, lo, hi))
                    if not core.case(ctx, 'limits', one):
                        return
    ctx.sample('limits x lengths 0..4')


def mutated(ctx, quick):
    """In-place changes of a stored plain container are found by validate()."""
    inner = make_inner()
    for item in leaf_types(inner):
        if item.label in ('untyped',):
            continue
        good = [v for v in item.alphabet if item.oracle(v) not in (NO, SKIP)]
        stable = [v for v in good if item.oracle(v)[0] == 'is' or (
            item.oracle(v)[0] == 'val' and core.same(item.oracle(v)[1], v))]
        bad = [v for v in item.alphabet if item.oracle(v) == NO]
        for kind in ('List', 'Set', 'Dictionary value', 'Dictionary key'):
            def build(kind=kind, item=item):
                if kind == 'Dictionary value':
                    return P.Dictionary('', value_prop=item.make())
                if kind == 'Dictionary key':
                    return P.Dictionary('', key_prop=item.make())
                return KINDS[kind][0]('', prop=item.make())
            holder = type('Holder', (P.HasProperties,), {'x': build()})
            for v, wrong in [(v, False) for v in stable] + [
                    (v, True) for v in bad]:
                if unhashable(v) and kind in ('Set', 'Dictionary key'):
                    continue

                def one(v=v, kind=kind, wrong=wrong):
                    inst = holder()
                    inst.x = {} if 'Dict' in kind else KINDS[kind][1]()
                    if kind == 'List':
                        inst.x.append(v)
                    elif kind == 'Set':
                        inst.x.add(v)
                    elif kind == 'Dictionary value':
                        inst.x['k'] = v
                    else:
                        inst.x[v] = 1
                    ctx.step()
                    out = core.attempt(inst.validate)
                    what = '%s of %s with %s put in place' % (
                        kind, item.label, core.show(v))
                    if wrong:
                        core.expect(ctx, out, ValueError, what)
                        ctx.outcome('found')
                    else:
                        core.expect_ok(ctx, out, what)
                        ctx.outcome('fine')
                    ctx.state((kind, item.label, core.show(v)))
                if not core.case(ctx, (kind, item.label, core.show(v)), one):
                    return
    ctx.sample('in-place tampering')


def scenarios(tier):
    yield ('sizes', lambda ctx: sizes.matrix(ctx, sizes.assign))
    yield ('nested containers', lambda ctx: depths.nested(ctx, depths.stored))
    quick = tier != 'thorough'
    for kind in KINDS:
        yield 'flat ' + kind, lambda ctx, kind=kind: flat(ctx, quick, kind)
    yield 'dictionaries', lambda ctx: dicts(ctx, quick)
    for outer in list(KINDS) + ['Dictionary']:
        yield 'nested in ' + outer, lambda ctx, outer=outer: nested(
            ctx, quick, outer)
    yield 'length limits', lambda ctx: limits(ctx, quick)
    yield 'in-place tampering', lambda ctx: mutated(ctx, quick)
