"""P25: declarations against an accept/refuse table."""
import itertools
import re
import uuid

import numpy as np

import properties as P
from properties.extras import URL, HasUID, Pointer

from mc import core, types

PROPERTY = 'P25'
BOUNDS = ('every type with every combination of its documented options (each '
          'absent or with one of up to 6 valid values) in both keyword orders '
          '(all orders of up to 3 options), each combination with every '
          'invalid value of every option in its place, with each common '
          'option, and followed by every assignment of an option; every value '
          'of the input alphabets as default, callable default and class '
          'default; every class over 3 names that are properties or renamed '
          'ones, and every subclass changing them; observers and validators '
          'of every kind of name, alone and together with a valid one; every '
          'kind of bad dynamic property and documentation order')
ASSUMPTIONS = ['explicit None for options whose documentation does not list '
               'it as a value is unspecified']

REFUSED = (TypeError, ValueError, AttributeError)
Junk = type('Junk', (), {})


class Thing(P.HasProperties):
    num = P.Integer('', required=False)


class Ident(HasUID):
    pass


def nothing(value):
    return value


class Opt(object):
    """Valid values (value, what it reads as), invalid values, default."""

    def __init__(self, valid, invalid, default):
        self.valid = [v if isinstance(v, tuple) and len(v) == 2 and
                      callable(v[1]) else (v, (lambda got, v=v: got == v))
                      for v in valid]
        self.invalid = invalid
        self.default = default


def flag(default):
    return Opt([True, False], [1, 0, 'yes', 'True', 1.0, [], Junk()],
               lambda got: got is default)


def none(got):
    return got is None


def limit(values, bad=()):
    return Opt(values, list(bad), none)


def as_pattern(text):
    return (text, lambda got: got.pattern == '^a' and got.search('ab'))


def callable_opt():
    return Opt([(nothing, lambda got: callable(got) and got(3) == 3)],
               [3, 'f', [], Junk()], none)


COMMON = {
    'required': flag(True),
    'serializer': callable_opt(),
    'deserializer': callable_opt(),
    'name': Opt(['x', ''], [3, b'x', [], Junk()], lambda got: got == ''),
}
UNKNOWN = [('nope', 1), ('requird', True), ('_private', 1), ('_name', 'x'),
           ('_meta', {}), ('_doc', 'x'), ('_class_default', 1), ('q', 1),
           ('__len__', 1), ('terms', {'args': (), 'kwargs': {}}),
           ('meta', {}), ('info', 'x')]

LENGTHS = [0, 1, 2]
BADLEN = [-1, 1.5, '1', [], Junk()]


def ordered(low, high):
    def conflict(kwargs):
        one, two = kwargs.get(low), kwargs.get(high)
        return one is not None and two is not None and one > two
    return conflict


def never(kwargs):
    return False


def no_choice(kwargs):
    """Choices clash, or the descriptions do not match them."""
    choices = kwargs['choices']
    if not isinstance(choices, dict):
        choices = {c: [] for c in choices}
    words = []
    for key, val in choices.items():
        words += [key] + ([val] if isinstance(val, str) else list(val))
    if not kwargs.get('case_sensitive', False):
        words = [w.upper() for w in words]
    if len(set(words)) < len(words):
        return True
    desc = kwargs.get('descriptions')
    return desc is not None and set(desc) != set(choices)


def same_choices(want):
    return lambda got: {k: sorted(v) for k, v in dict(got).items()} == want


def no_mode(kwargs):
    modes = kwargs.get('valid_modes')
    if modes is None:
        return False
    if isinstance(modes, str):
        modes = (modes,)
    return kwargs.get('mode', kwargs.get('_mode')) not in modes


ALL_MODES = {a + b + c for a in 'rwa' for b in ('', 'b') for c in ('', '+')}


def same_set(want):
    return lambda got: set(got) == want


def sized(cls, **more):
    opts = {
        'prop': Opt([(P.Integer(''), lambda g: type(g) is P.Integer),
                     (Thing, lambda g: type(g) is P.Instance and
                      g.instance_class is Thing)],
                    [3, 'x', int, P.Integer, P.Uuid(''), [P.Integer('')],
                     Junk()],
                    lambda got: type(got) is P.Property),
        'min_length': limit(LENGTHS, BADLEN),
        'max_length': limit(LENGTHS, BADLEN),
        'coerce': flag(False),
    }
    opts.update(more)
    return (cls.__name__, lambda **k: cls('d', **k), opts,
            ordered('min_length', 'max_length'))


def tables():
    for cls in (P.Property, P.Color, P.DateTime):
        yield (cls.__name__, lambda cls=cls, **k: cls('d', **k), {}, never)
    for cls in (P.Boolean, P.Bool, P.Complex):
        yield (cls.__name__, lambda cls=cls, **k: cls('d', **k),
               {'cast': flag(False)}, never)
    yield ('Integer', lambda **k: P.Integer('d', **k),
           {'min': limit([None, -1, 0, 2]), 'max': limit([None, -2, 0, 1, 2]),
            'cast': flag(False)}, ordered('min', 'max'))
    yield ('Float', lambda **k: P.Float('d', **k),
           {'min': limit([None, -1, 0.5, 2.0, float('-inf')]),
            'max': limit([None, 0.25, 0.5, 2, float('inf')]),
            'cast': flag(False)}, ordered('min', 'max'))
    text = {
        'strip': Opt(['', ' ', 'ab'], [5, b'a', ['a'], Junk()],
                     lambda got: got == ''),
        'change_case': Opt([None, 'upper', 'lower'],
                           ['mixed', 'UPPER', '', 3, True, Junk()], none),
        'unicode': flag(True),
        'regex': Opt([as_pattern('^a'), as_pattern(re.compile('^a'))],
                     [5, '(', '[a', [], Junk()], none),
    }
    yield ('String', lambda **k: P.String('d', **k), text, never)
    yield ('URL', lambda **k: URL('d', **k), dict(
        text, remove_parameters=Opt([True, False], [], lambda g: g is False),
        remove_fragment=Opt([True, False], [], lambda g: g is False)), never)
    yield ('StringChoice', lambda choices, **k: P.StringChoice(
        'd', choices, **k), {
            'choices!': Opt(
                [(['ab', 'Cd'], same_choices({'ab': [], 'Cd': []})),
                 (('ab', 'AB'), same_choices({'ab': [], 'AB': []})),
                 ({'ab', 'Cd'}, same_choices({'ab': [], 'Cd': []})),
                 ({'ab': ['x'], 'Cd': 'z'},
                  same_choices({'ab': ['x'], 'Cd': ['z']})),
                 ({'ab': ['x'], 'Cd': ('X', 'y')},
                  same_choices({'ab': ['x'], 'Cd': ['X', 'y']})),
                 ({'ab': ['Cd'], 'Cd': ()}, same_choices({})),
                 ({'ab': ['ab'], 'Cd': ()}, same_choices({})),
                 ({'ab': {'x'}, 'Cd': 'AB'},
                  same_choices({'ab': ['x'], 'Cd': ['AB']}))],
                ['one', 5, None, ['a', 'a'], [5], {5: '5'}, {'5': 5},
                 {'a': ['b', 3]}, {'a': ['b', 'b']}, Junk()], None),
            'case_sensitive': flag(False),
            'descriptions': Opt(
                [{'ab': 'one', 'Cd': 'two'}, {'ab': 'one', 'AB': 'two'}],
                [5, 'x', {'ab': 'one'}, {}, {'ab': 'one', 'Cd': 2},
                 {'ab': 'one', 'Cd': 'two', 'e': 'three'},
                 {'ab': 'one', 'e': 'two'}, ['ab', 'Cd'], Junk()], none),
        }, no_choice)
    yield ('File', lambda mode=None, **k: P.File('d', mode, **k), {
        'mode': Opt([None, 'r', 'rb', 'wb+', 'a+'],
                    ['q', '', 'rw', 5, 'rt', b'r', Junk()], none),
        'valid_modes': Opt(
            [('r', same_set({'r'})), (('r', 'rb'), same_set({'r', 'rb'})),
             (['wb+', 'rb'], same_set({'wb+', 'rb'})),
             ({'a+', 'r'}, same_set({'a+', 'r'})),
             (P.File.file_modes, same_set(ALL_MODES))],
            ['q', (), ('r', 'k'), ('k', 'r'), ['k', 'r', 'rb', 'wb+', 'a+'],
             (3,), 5, Junk()], None),
    }, no_mode)
    yield ('ImagePNG', lambda **k: P.ImagePNG('d', **k), {
        'mode': Opt(['rb', 'rb+', 'wb+', 'ab+'],
                    ['r', 'w', 'wb', 'q', 5, '', Junk()],
                    lambda got: got == 'rb'),
        'valid_modes': Opt(
            [('rb', same_set({'rb'})),
             (('rb', 'rb+'), same_set({'rb', 'rb+'})),
             (['wb+', 'ab+'], same_set({'wb+', 'ab+'}))],
            ['r', (), ('rb', 'k'), ('k', 'rb'), 5, Junk()], None),
        'filename': Opt(['a.png', ''], [False, 5, [], b'a', Junk()],
                        lambda got: got == 'texture.png'),
    }, lambda kwargs: no_mode(dict({'_mode': 'rb'}, **kwargs)))
    classes = [(Thing, lambda g: g is Thing), (int, lambda g: g is int),
               (Ident, lambda g: g is Ident)]
    notcls = [3, 'Thing', Thing(), [Thing], (Thing,), P.Integer(''), None]
    yield ('Instance', lambda instance_class, **k: P.Instance(
        'd', instance_class, **k), {
            'instance_class!': Opt(classes, notcls, None),
            'auto_create': flag(False)}, never)
    yield ('Pointer', lambda instance_class, **k: Pointer(
        'd', instance_class, **k), {
            'instance_class!': Opt(classes, notcls, None),
            'load': Opt([True, False], [], lambda g: g is False),
            'uid_prop': Opt(['uid', 'num'], [], lambda g: g == 'uid')}, never)

    def member(*kinds):
        return lambda got: tuple(type(p) for p in got) == kinds
    yield ('Union', lambda props, **k: P.Union('d', props, **k), {
        'props!': Opt(
            [([P.Integer('')], member(P.Integer)),
             ((P.Integer(''), Thing), member(P.Integer, P.Instance)),
             ([Thing, P.String('')], member(P.Instance, P.String))],
            [3, P.Integer, P.Integer(''), 'x', None, [3], [int],
             {Thing}, frozenset([Thing]), {Thing: Thing},
             [P.Integer('').__class__], [P.Integer(''), P.Uuid('')],
             [P.Integer(''), 'x'], {'a': P.Integer('')}, Junk()], None),
        'strict_instances': flag(False)}, never)
    yield sized(P.Tuple)
    yield sized(P.List, observe_mutations=flag(False))
    yield sized(P.Set, observe_mutations=flag(False))
    inner = [(P.Integer(''), lambda g: type(g) is P.Integer),
             (Thing, lambda g: type(g) is P.Instance)]
    notprop = [3, int, P.Integer, P.Uuid(''), 'x', Junk()]
    anything = lambda g: type(g) is P.Property
    yield ('Dictionary', lambda **k: P.Dictionary('d', **k), {
        'key_prop': Opt(inner, notprop, anything),
        'value_prop': Opt(inner, notprop, anything),
        'coerce': flag(False),
        'observe_mutations': flag(False)}, never)

    def shapes(*want):
        return lambda got: set(got) == set(want)
    yield ('Array', lambda **k: P.Array('d', **k), {
        'shape': Opt(
            [None, (('*', 3), shapes(('*', 3))), ((2,), shapes((2,))),
             (('*',), shapes(('*',))), ((), shapes(())),
             ({('*', 3), (3,)}, shapes(('*', 3), (3,)))],
            [['*'], 5, '*', (5, 'any'), {5, 3}, {('*',), None}, (None,),
             {('*',), (None,)}, {('*',), 5}, ('*', 1.5), [(3,)], Junk()],
            shapes(('*',))),
        'dtype': Opt(
            [(float, lambda g: tuple(g) == (float,)),
             ((int,), lambda g: tuple(g) == (int,)),
             ([float, int], lambda g: tuple(g) == (float, int)),
             ((bool, complex, int), lambda g: tuple(g) == (bool, complex, int))],
            [str, (float, 'x'), (), [], None, 5, 'float', (float, str),
             np.float64, Junk()],
            lambda g: set(g) == {float, int}),
        'coerce': flag(True)}, never)
    badlen = [0, -1, 0.0, -0.5, 'ten', '5', '2.5', b'1', [], 1j, Junk()]
    for cls, shape in ((P.Vector3, (3,)), (P.Vector2, (2,))):
        yield (cls.__name__, lambda cls=cls, **k: cls('d', **k), {
            'length': limit([1, 2.5], badlen), 'coerce': flag(True),
            'shape': Opt([], [shape, (4,), None, 5], shapes(shape)),
            'dtype': Opt([], [float, int], lambda g: tuple(g) == (float,)),
        }, never)
    for cls, num in ((P.Vector3Array, 3), (P.Vector2Array, 2)):
        yield (cls.__name__, lambda cls=cls, **k: cls('d', **k), {
            'length': limit([1, 2.5], badlen), 'coerce': flag(True),
            'shape': Opt([(('*', num), shapes(('*', num))),
                          ((5, num), shapes((5, num))),
                          ({(1, num), (4, num)}, shapes((1, num), (4, num)))],
                         [(num,), ('*', '*'), ('*', 5 - num), (1, num, num),
                          (num, '*'), 5, {('*', num), ('*', 4)}, Junk(),
                          {(1, num), (1, 4)}, {(2, num), (3, num), (1, 4)},
                          {(1, num), (2, num), (3,)}, {(7, 5), (1, num)},
                          {(1, num), (9, num), (2, 7), (5, num)}],
                         shapes(('*', num))),
            'dtype': Opt([], [float, int], lambda g: tuple(g) == (float,)),
        }, never)


def immutable_tables():
    yield ('GettableProperty', lambda **k: P.GettableProperty('d', **k), {},
           never)
    yield ('Uuid', lambda **k: P.Uuid('d', **k), {}, never)
    yield ('Renamed', lambda new_name, **k: P.Renamed(new_name, **k), {
        'new_name!': Opt(['a', 'b'], [3, None, [], b'a', P.Integer('')], None),
        'warn': flag(True)}, never)


def orders(items):
    if len(items) <= 3:
        return list(itertools.permutations(items))
    return [tuple(items), tuple(reversed(items))]


def combinations(opts):
    """Every choice of options: list of (option, index of the value)."""
    spans = []
    for name, opt in opts.items():
        must = name.endswith('!')
        spans.append([(name, i) for i in range(len(opt.valid))] +
                     ([] if must else [None]))
    for choice in itertools.product(*spans):
        yield [c for c in choice if c is not None]


def fresh(value):
    """Options that are containers or properties are not shared."""
    if isinstance(value, (P.Property, P.Uuid)):
        return type(value)('')
    if type(value) in (list, tuple):
        return type(value)(fresh(v) for v in value)
    if type(value) in (set, dict):
        return value.copy()
    return value


def key(name):
    return name.rstrip('!')


def build(opts, items, extra=()):
    kwargs = {key(n): fresh(opts[n].valid[i][0]) for n, i in items}
    for name, value in extra:
        kwargs[name] = fresh(value)
    return kwargs


def reads(ctx, prop, opts, items, label):
    chosen = dict(items)
    for name, opt in opts.items():
        got = getattr(prop, key(name))
        if name in chosen:
            good = opt.valid[chosen[name]][1](got)
        elif opt.default is None:
            continue
        else:
            good = opt.default(got)
        ctx.check(good, lambda: '%s: option %s reads %s' % (
            label, key(name), core.show(got)))


def options(name, make, opts, conflict, base):
    """Every combination of documented options, valid and invalid."""
    def run(ctx):
        for items in combinations(opts):
            plain = build(opts, items)
            bad = conflict(plain)
            for order in orders(items):
                label = '%s(%s)' % (name, ', '.join(
                    '%s=%s' % (key(n), core.show(opts[n].valid[i][0]))
                    for n, i in order))

                def accept():
                    kwargs = build(opts, order)
                    given = {opt: core.canon(val)
                             for opt, val in kwargs.items()
                             if isinstance(val, (dict, list, set))}
                    out = core.attempt(lambda: make(**kwargs))
                    ctx.step()
                    for opt in given:
                        ctx.check(core.canon(kwargs[opt]) == given[opt], lambda:
                                  '%s: the given %s was changed to %s' % (
                                      label, opt, core.show(kwargs[opt])))
                    if bad:
                        core.expect(ctx, out, REFUSED, label)
                        return
                    prop = core.expect_ok(ctx, out, label)
                    reads(ctx, prop, opts, order, label)
                    ctx.same(prop.meta, {}, label + ': tags')
                    if name != 'Renamed':
                        ctx.same(prop.doc, 'd', label + ': doc')
                ctx.state((name, tuple(order)))
                core.case(ctx, label, accept)
                if ctx.full():
                    return
            if bad:
                continue
            label = '%s(%s)' % (name, core.show(plain))
            for opt in opts:
                for num, value in enumerate(opts[opt].invalid):
                    def refuse(front):
                        rest = [it for it in items if it[0] != opt]
                        kwargs = {}
                        if front:
                            kwargs[key(opt)] = fresh(value)
                        kwargs.update(build(opts, rest))
                        kwargs.setdefault(key(opt), fresh(value))
                        core.expect(ctx, core.attempt(
                            lambda: make(**kwargs)), REFUSED,
                            '%s with %s=%s' % (label, key(opt),
                                               core.show(value)))
                        ctx.step()
                    for front in (False, True):
                        core.case(ctx, '%s, %s invalid %s' % (
                            label, key(opt), core.show(value)), refuse, front)
                    if ctx.full():
                        return
            # options that every type has, and names that are none
            few = len(items) <= 1 + sum(n.endswith('!') for n in opts)

            def common():
                for opt, what in base.items():
                    for idx, (value, check) in enumerate(what.valid):
                        for kwargs in (
                                build(opts, items, [(opt, value)]),
                                dict([(opt, value)], **build(opts, items))):
                            prop = core.expect_ok(
                                ctx, core.attempt(lambda: make(**kwargs)),
                                '%s with %s=%r' % (label, opt, value))
                            ctx.step()
                            ctx.check(check(getattr(prop, opt)), lambda:
                                      '%s: %s' % (label, opt))
                            reads(ctx, prop, opts, items, label)
                    for value in what.invalid:
                        kwargs = build(opts, items, [(opt, value)])
                        core.expect(ctx, core.attempt(lambda: make(**kwargs)),
                                    REFUSED, '%s with %s=%r' % (label, opt,
                                                                value))
                        ctx.step()
                for opt, value in UNKNOWN:
                    for kwargs in (build(opts, items, [(opt, value)]),
                                   dict([(opt, value)], **build(opts, items))):
                        core.expect(ctx, core.attempt(lambda: make(**kwargs)),
                                    REFUSED, '%s with %s' % (label, opt))
                        ctx.step()
            if few or not ctx.quick:
                core.case(ctx, label + ' and common options', common)
            if ctx.full():
                return
        ctx.sample('%s with every combination of %s' % (
            name, [key(n) for n in opts]))
    return run


def later(name, make, opts, conflict, base):
    """Options assigned afterwards follow the same rules."""
    def run(ctx):
        free = [n for n in opts if not n.endswith('!')]
        if name in ('StringChoice', 'File', 'ImagePNG'):
            free = ['case_sensitive' if name == 'StringChoice' else
                    'filename']
            free = [f for f in free if f in opts]
        for items in combinations(opts):
            plain = build(opts, items)
            if conflict(plain):
                continue
            label = '%s(%s)' % (name, core.show(plain))

            def go():
                for opt in free:
                    for idx, (value, check) in enumerate(opts[opt].valid):
                        prop = make(**build(opts, items))
                        rest = [it for it in items if it[0] != opt]
                        bad = conflict(build(opts, rest + [(opt, idx)]))
                        out = core.attempt(setattr, prop, opt, fresh(value))
                        ctx.step()
                        what = '%s, then %s=%r' % (label, opt, value)
                        if name == 'StringChoice':
                            continue
                        if bad:
                            core.expect(ctx, out, REFUSED, what)
                            reads(ctx, prop, opts, items, what)
                        else:
                            core.expect_ok(ctx, out, what)
                            reads(ctx, prop, opts, rest + [(opt, idx)], what)
                    for value in opts[opt].invalid:
                        prop = make(**build(opts, items))
                        out = core.attempt(setattr, prop, opt, fresh(value))
                        what = '%s, then %s=%s' % (label, opt, core.show(value))
                        core.expect(ctx, out, REFUSED, what)
                        reads(ctx, prop, opts, items, what)
                        ctx.step()
                for opt, what in base.items():
                    prop = make(**build(opts, items))
                    for value in what.invalid:
                        core.expect(ctx, core.attempt(
                            setattr, prop, opt, value), REFUSED,
                            '%s, then %s=%r' % (label, opt, value))
                        ctx.check(what.default(getattr(prop, opt)), lambda:
                                  '%s: %s after a refused value' % (label, opt))
                        ctx.step()
                    for value, check in what.valid:
                        setattr(prop, opt, value)
                        ctx.check(check(getattr(prop, opt)), lambda:
                                  '%s, then %s=%r' % (label, opt, value))
                        ctx.step()
            core.case(ctx, label + ', then assignments', go)
            if ctx.full():
                return
    return run


def defaults(part, parts):
    """A default is accepted exactly if assigning it is."""
    def run(ctx):
        for num, spec in enumerate(types.primitive_specs(ctx.quick)):
            if num % parts != part:
                continue
            plain = type('Plain', (P.HasProperties,), {'p': spec.make()})
            if ctx.quick:
                kinds = [num % 3]
            else:
                kinds = [0, 1, 2]
            for value in spec.values:
                want = spec.oracle(value)
                if want is None or value is None or callable(value):
                    continue
                label = '%s default %s' % (spec.name, core.show(value))

                def go(kind):
                    val = types.fresh(value)
                    if kind == 0:
                        out = core.attempt(lambda: spec.make(default=val))
                    elif kind == 1:
                        out = core.attempt(lambda: spec.make(
                            default=lambda: val))
                    else:
                        out = core.attempt(lambda: type(
                            'Own', (P.HasProperties,),
                            {'p': spec.make(), '_defaults': {'p': val}}))
                    ctx.step()
                    if want == types.NO:
                        core.expect(ctx, out, REFUSED, label)
                        core.expect(ctx, core.attempt(
                            setattr, plain(), 'p', types.fresh(value)),
                            ValueError, label + ' by assignment')
                        return
                    res = core.expect_ok(ctx, out, label)
                    if kind == 2:
                        ctx.same(res().p, want[1], label)
                    elif kind == 0:
                        ctx.same(res.default, value, label + ' reads')
                    else:
                        ctx.same(res.default(), value, label + ' reads')
                for kind in kinds:
                    core.case(ctx, '%s, way %d' % (label, kind), go, kind)
                if ctx.full():
                    return
            ctx.state(spec.name)
    return run


def other_defaults(ctx):
    """Defaults of containers, unions, instances, arrays; odd callables."""
    good, bad = 'good', 'bad'
    cases = [
        (lambda **k: P.List('', P.Integer(''), **k),
         [[], [1], list, lambda: [2]], [(1,), ['x'], 3, lambda: ['x'], tuple,
                                        {}, 'x']),
        (lambda **k: P.Tuple('', P.Integer(''), **k),
         [(), (1,), tuple], [[1], ('x',), list]),
        (lambda **k: P.Set('', P.Integer(''), **k),
         [set(), {1}, set], [[1], {'x'}, {}, dict]),
        (lambda **k: P.List('', Thing, coerce=True, **k),
         [[], [{'num': 1}], (Thing(),), Thing()], [['x'], 3, [{'num': 'x'}]]),
        (lambda **k: P.Dictionary('', key_prop=P.String(''),
                                  value_prop=P.Integer(''), **k),
         [{}, {'a': 1}, dict], [[], {1: 1}, {'a': 'x'}, list]),
        (lambda **k: P.Union('', [P.Integer(''), P.String('')], **k),
         [1, 'x', lambda: 1, str, int], [1.5, [], list, None.__class__]),
        (lambda **k: P.Union('', [Thing, P.Color('')], **k),
         [Thing, {'num': 1}, 'red', Thing()], [3, 'nocolor', {'num': 'x'},
                                               list]),
        (lambda **k: P.Instance('', Thing, **k),
         [Thing, Thing(), {'num': 1}, lambda: Thing(num=1)],
         [3, 'x', {'num': 'x'}, {'nope': 1}, int, Ident]),
        (lambda **k: P.Instance('', int, **k), [3, int, '4'], ['x', [], list]),
        (lambda **k: P.Array('', shape=('*', 2), dtype=int, **k),
         [[[1, 2]], np.array([[1, 2]])], [[1, 2], [[1., 2.]], 3, 'x', list,
                                          [['a', 'b']]]),
        (lambda **k: P.Vector3('', **k), ['x', [1., 2., 3.], lambda: 'up'],
         [[1, 2], 'q', 3, [[1., 2., 3.]]]),
        (lambda **k: P.Vector3('', length=1, **k), ['x', [0., 0., 2.]],
         ['zero', [0., 0., 0.]]),
        (lambda **k: P.Vector2Array('', **k), [['x', 'y'], [[1., 2.]]],
         [['z'], [[1., 2., 3.]], [1., 2., 3.], 'x']),
        (lambda **k: Pointer('', Ident, **k), [Ident, 'some uid', Ident()],
         [3, Thing, []]),
        (lambda **k: P.File('', **k), [], ['x', 3, list]),
        (lambda **k: P.GettableProperty('', **k), [1, 'x', list], []),
        (lambda **k: P.Integer('', min=2, **k), [2, lambda: 3],
         [1, lambda: 1, 'x', int]),
        (lambda **k: P.Integer('', **dict(k, min=2)), [2], [1]),
        (lambda **k: P.String('', **dict(k, regex='^a')), ['ab'], ['b', '']),
        (lambda **k: P.StringChoice('', ['a', 'b'], **k), ['a', 'B'],
         ['c', 1, '']),
    ]
    for num, (make, goods, bads) in enumerate(cases):
        for value, verdict in [(v, good) for v in goods] + [
                (v, bad) for v in bads]:
            label = 'case %d, default %s' % (num, core.show(value))

            def go():
                out = core.attempt(lambda: make(default=value))
                over = core.attempt(lambda: type(
                    'Own', (P.HasProperties,), {
                        'p': make(), '_defaults': {'p': value}}))
                base = type('Base', (P.HasProperties,), {'p': make()})
                sub = core.attempt(lambda: type(
                    'Sub', (base,), {'_defaults': {'p': value}}))
                ctx.step(3)
                for which, res in (('option', out), ('class', over),
                                   ('subclass', sub)):
                    if verdict is bad:
                        core.expect(ctx, res, REFUSED, label + ', ' + which)
                    else:
                        core.expect_ok(ctx, res, label + ', ' + which)
                if verdict is good:
                    ctx.check(out[1].default is value, label + ' reads')
                    for cls in (over[1], sub[1]):
                        ctx.check(cls().p is not None, label)
                ctx.state((num, core.show(value)))
            core.case(ctx, label, go)
            if ctx.full():
                return

    # inherited class defaults must suit the property that is redefined
    for old, (make, goods, _) in enumerate(cases):
        for value in goods:
            for new, (other, _, _) in enumerate(cases):
                def inherited():
                    label = 'case %d with class default %s, redefined as case '\
                        '%d' % (old, core.show(value), new)
                    given = value() if callable(value) else value
                    valid = core.attempt(other().validate, None, given)
                    base = type('Base', (P.HasProperties,), {
                        'p': make(), '_defaults': {'p': value}})
                    mid = type('Mid', (base,), {'q': P.Integer('')})
                    plain = type('Plain', (object,), {'_defaults': {'p': value}})
                    ways = {
                        'child': lambda: type('Sub', (base,), {'p': other()}),
                        'grandchild': lambda: type('Sub', (mid,), {
                            'p': other()}),
                        'second base': lambda: type('Sub', (
                            type('New', (P.HasProperties,), {'p': other()}),
                            base), {}),
                        'mixin': lambda: type('Sub', (
                            plain, type('New', (P.HasProperties,), {
                                'p': other()})), {}),
                        'own default': lambda: type('Sub', (base,), {
                            'p': other(), '_defaults': {'p': P.undefined}}),
                    }
                    for way, make_class in ways.items():
                        out = core.attempt(make_class)
                        ctx.step()
                        if valid[0] == core.ERR and way != 'own default':
                            core.expect(ctx, out, REFUSED, label + ', ' + way)
                        else:
                            core.expect_ok(ctx, out, label + ', ' + way)
                    ctx.state(label)
                if not core.case(ctx, 'redefined %d %s %d' % (
                        old, core.show(value), new), inherited):
                    return

    def neutral():
        for make, _, _ in cases:
            for value in (P.undefined, None):
                prop = core.expect_ok(ctx, core.attempt(
                    lambda: make(default=value)), 'no default')
                ctx.check(prop.default is P.undefined, 'no default reads')
                ctx.step()
    core.case(ctx, 'no default', neutral)

    def unknown():
        for names in (('q',), ('p', 'q'), ('q', 'p'), ('note',), ('',)):
            body = {'p': P.Integer(''), 'note': 3,
                    '_defaults': {n: 1 for n in names}}
            core.expect(ctx, core.attempt(
                lambda: type('Own', (P.HasProperties,), body)), REFUSED,
                'class defaults of %s' % (names,))
            ctx.step()
        base = type('Base', (P.HasProperties,), {'p': P.Integer('')})
        for body in ({'_defaults': {'q': 1}}, {'_defaults': {'p': 'x'}},
                     {'_defaults': {'p': 1, 'q': 1}},
                     {'q': P.String(''), '_defaults': {'q': 1}},
                     {'p': P.String(''), '_defaults': {'p': 1}}):
            core.expect(ctx, core.attempt(
                lambda: type('Own', (base,), body)), REFUSED,
                'subclass with %s' % core.show(body))
            ctx.step()
        ctx.same(base(p=3).p, 3, 'base after refused subclasses')
    core.case(ctx, 'unknown defaults', unknown)


def renamed(two_levels, part=0, parts=1):
    """All classes over 3 names that are properties or renamed ones."""
    names = ('a', 'b', 'c')
    kinds = ['prop'] + ['to ' + n for n in names + ('zip', 'note')]
    subs = ['keep'] + kinds[:4] if two_levels else []

    def make(kinds_of, skip=()):
        body = {}
        for name, kind in zip(names, kinds_of):
            if kind == 'prop':
                body[name] = P.Integer('', required=False)
            elif kind != 'keep':
                body[name] = P.Renamed(kind[3:], warn=False)
        return body

    def resolve(now, name):
        """The property behind the name, or None."""
        seen = set()
        while name in now and now[name] != 'prop':
            if name in seen:
                return None
            seen.add(name)
            name = now[name][3:]
        return name if name in now else None

    def judge(ctx, cls, now):
        for name in names:
            obj = cls()
            target = resolve(now, name)
            setattr(obj, name, 3)
            ctx.same(getattr(obj, target), 3, 'value set by %s' % name)
            for other in names:
                ctx.same(getattr(obj, other), 3 if resolve(now, other) ==
                         target else None, 'value of %s' % other)
            ctx.same(cls.deserialize(obj.serialize()).serialize(),
                     obj.serialize(), 'round trip')
            core.expect(ctx, core.attempt(setattr, obj, name, 'x'),
                        P.ValidationError, 'invalid by %s' % name)
            ctx.step(4)

    def run(ctx):
        for num, first in enumerate(itertools.product(kinds, repeat=3)):
            if num % parts != part:
                continue
            now = dict(zip(names, first))
            good = all(resolve(now, n) for n in names)
            label = 'class %s' % (now,)
            box = {}

            def one():
                body = dict(make(first), note=1)
                out = core.attempt(lambda: type('Own', (P.HasProperties,),
                                                body))
                ctx.step()
                if not good:
                    core.expect(ctx, out, REFUSED, label)
                    return
                box['cls'] = core.expect_ok(ctx, out, label)
                judge(ctx, box['cls'], now)
                ctx.state(first)
            core.case(ctx, label, one)
            if ctx.full():
                return
            if 'cls' not in box or not two_levels:
                continue
            for second in itertools.product(subs, repeat=3):
                then = dict(now)
                for name, kind in zip(names, second):
                    if kind != 'keep':
                        then[name] = kind
                fine = all(resolve(then, n) for n in names)
                what = label + ', subclass %s' % (second,)

                def two():
                    out = core.attempt(lambda: type(
                        'Sub', (box['cls'],), make(second)))
                    ctx.step()
                    if fine:
                        judge(ctx, core.expect_ok(ctx, out, what), then)
                    else:
                        core.expect(ctx, out, REFUSED, what)
                    judge(ctx, box['cls'], now)
                    ctx.state((first, second))
                core.case(ctx, what, two)
                if ctx.full():
                    return
    return run


def kinds_of_names():
    """name -> (how to declare it, observable?)"""
    def dynamic():
        @P.Integer('')
        def dyn(self):
            return 1
        return dyn
    return {
        'int': (lambda: P.Integer(''), True),
        'lst': (lambda: P.List('', P.Integer('')), True),
        'uni': (lambda: P.Union('', [P.Integer('')]), True),
        '_private': (lambda: P.String(''), True),
        'gets': (lambda: P.GettableProperty('', default=1), False),
        'uid': (lambda: P.Uuid(''), False),
        'old': (lambda: P.Renamed('int', warn=False), False),
        'dyn': (dynamic, False),
        'plain': (lambda: 3, False),
        'meth': (lambda: (lambda self: 1), False),
        'pythonic': (lambda: property(lambda self: 1), False),
        'gone': (lambda: None, False),
        'missing': (None, False),
        '': (None, False),
    }


def observers(ctx):
    table = kinds_of_names()

    def handler(self, change):
        pass

    for kind, wrap, where, mate in itertools.product(
            table, ('str', 'list', 'tuple', 'set'), ('same', 'base', 'over'),
            (None, 'int', 'first')):
        if mate and wrap == 'str':
            continue
        for decorate in (P.observer, P.validator,
                         lambda n: P.observer(n, change_only=True)):
            make, good = table[kind]
            if where == 'over' and (make is None or kind == 'int'):
                continue
            names = {None: [kind], 'int': [kind, 'int'],
                     'first': ['int', kind]}[mate]
            given = names[0] if wrap == 'str' else {
                'list': list, 'tuple': tuple, 'set': set}[wrap](names)
            label = 'observing %s of kind %s (%s)' % (given, kind, where)

            def go():
                body = {'int': P.Integer('')}
                if make:
                    body[kind] = make()
                watch = {'watch': decorate(given)(handler)}
                if where == 'same':
                    out = core.attempt(lambda: type(
                        'Own', (P.HasProperties,), dict(body, **watch)))
                elif where == 'base':
                    base = type('Base', (P.HasProperties,), body)
                    out = core.attempt(lambda: type('Own', (base,), watch))
                else:
                    base = type('Base', (P.HasProperties,), {
                        'int': P.Integer(''), kind: P.Integer('')})
                    out = core.attempt(lambda: type('Own', (base,), dict(
                        {kind: make()}, **watch)))
                ctx.step()
                if good:
                    cls = core.expect_ok(ctx, out, label)
                    core.expect_ok(ctx, core.attempt(cls), label)
                else:
                    core.expect(ctx, out, REFUSED, label)
                ctx.state((kind, wrap, where, mate))
            core.case(ctx, label, go)
            if ctx.full():
                return

    def bad_names():
        for names in (3, None, 1.5, [3], ('int', 3), {'int', None}, {},
                      b'int', ['int', ['int']], Junk()):
            for decorate in (P.observer, P.validator):
                if decorate is P.validator and callable(names):
                    continue
                core.expect(ctx, core.attempt(lambda: type(
                    'Own', (P.HasProperties,), {
                        'int': P.Integer(''), 'watch': decorate(names)(
                            handler)})), REFUSED, 'observing %r' % (names,))
                obj = Thing()
                core.expect(ctx, core.attempt(
                    lambda: decorate(obj, names, handler) if names is not None
                    else P.observer(obj, 3, handler)), REFUSED,
                    'observing %r of an instance' % (names,))
                obj.num = 3
                ctx.step(2)

    def everything():
        for kind, (make, _) in table.items():
            if make is None:
                continue
            cls = type('Own', (P.HasProperties,), {
                'int': P.Integer(''), kind: make(),
                'watch': P.observer(P.everything)(handler),
                'judge': P.validator(P.everything)(handler)})
            cls(int=3)
            ctx.step()

    def modes():
        for mode in ('observe_set', 'observe_change', 'validate'):
            with P.listeners_disabled(mode):
                pass
            with P.listeners_disabled([mode]):
                pass
        for mode in ('set', 'observe', '', 3, 1.5, ['validate', 'x'], [3],
                     ('observe_set', ''), {'x'}, Junk(), b'validate'):
            core.expect(ctx, core.attempt(lambda: P.listeners_disabled(mode)),
                        REFUSED, 'disabling %r' % (mode,))
            ctx.step()
    def several():
        """One wrong observer or validator among any number of good ones"""
        def decorator(kind, names):
            return (P.observer if kind == 'o' else P.validator)(names)(handler)
        base = type('Base', (P.HasProperties,), {'kept': P.Integer('')})
        fix = {'o': P.observer('kept')(handler),
               'v': P.validator(['kept'])(handler)}
        for size in (1, 2, 3):
            for kinds in itertools.product('ov', repeat=size):
                for wrong in [None] + list(range(size)):
                    for names in (('nope', 'int') if wrong is not None
                                  else ('int',)):
                        for start in ({}, fix):
                            body = {'int': P.Integer('')}
                            body.update(start)
                            for num, kind in enumerate(kinds):
                                body['h%d' % num] = decorator(
                                    kind, ['int', 'nope'] if num == wrong and
                                    names == 'int' else 'nope'
                                    if num == wrong else 'int')
                            out = core.attempt(lambda: type(
                                'Own', (base,), body))
                            label = 'handlers %s, wrong %s' % (
                                ''.join(kinds), wrong)
                            if wrong is None:
                                core.expect_ok(ctx, out, label)
                            else:
                                core.expect(ctx, out, REFUSED, label)
                            ctx.step()
                            ctx.state((kinds, wrong, names, bool(start)))

    for func in (bad_names, everything, modes, several):
        core.case(ctx, func.__name__, func)


def dynamic(ctx):
    """Dynamic properties: getter, setter and deleter."""
    def zero():
        return 1

    def one(self):
        return 1

    def two(self, value):
        pass

    def three(self, value, more):
        pass

    class Call(object):
        __name__ = 'call'

        def __call__(self, obj):
            return 1
    def name():
        dyn = P.Integer('')(one)
        for bad in (3, None, b'x', [], Junk()):
            core.expect(ctx, core.attempt(setattr, dyn, 'name', bad), REFUSED,
                        'name %r' % (bad,))
            ctx.same(dyn.name, 'one', 'name')
            ctx.step()
    core.case(ctx, 'name of a dynamic property', name)
    for func, good in ((zero, False), (one, True), (two, False),
                       (three, False), (3, False), ('x', False),
                       (None, False), (Call(), True), (len, True)):
        for prop in (P.Integer(''), P.List('', P.Integer('')), P.Color(''),
                     P.GettableProperty('')):
            def go():
                out = core.attempt(lambda: prop(func))
                ctx.step()
                if good:
                    core.expect_ok(ctx, out, 'getter')
                else:
                    core.expect(ctx, out, REFUSED, 'getter %r' % (func,))
            core.case(ctx, 'getter %r' % (func,), go)
    for prop, good in ((P.Integer('', default=1), False),
                       (P.Integer('', default=lambda: 1), False),
                       (P.Integer('', default=0), False),
                       (P.List('', P.Integer(''), default=list), False),
                       (P.Uuid(''), False),
                       (P.Integer('', default=P.undefined), True),
                       (P.Integer('', required=False), True)):
        def default():
            out = core.attempt(lambda: prop(one))
            ctx.step()
            if good:
                core.expect_ok(ctx, out, 'dynamic')
            else:
                core.expect(ctx, out, REFUSED, 'dynamic with default')
        core.case(ctx, 'dynamic default %r' % (prop.default,), default)

    def named(func, name):
        def copied(*args):
            return func(*args)
        out = {0: lambda: 1, 1: lambda self: 1, 2: lambda self, v: None,
               3: lambda self, v, w: None}[func]
        out.__name__ = name
        return out
    for argc, name in itertools.product(range(4), ('one', 'other')):
        def rest():
            for what, want in (('setter', 2), ('deleter', 1)):
                dyn = P.Integer('')(one)
                out = core.attempt(lambda: getattr(dyn, what)(
                    named(argc, name)))
                ctx.step()
                if argc == want and name == 'one':
                    core.expect_ok(ctx, out, what)
                else:
                    core.expect(ctx, out, REFUSED, '%s with %d arguments '
                                'called %s' % (what, argc, name))
                    cls = type('Own', (P.HasProperties,), {'one': dyn})
                    core.expect(ctx, core.attempt(
                        setattr, cls(), 'one', 1), AttributeError,
                        'assignment after a refused ' + what)
        core.case(ctx, 'setter %d %s' % (argc, name), rest)

    def others():
        for bad in (3, 'x', None, []):
            for what in ('setter', 'deleter'):
                dyn = P.Integer('')(one)
                core.expect(ctx, core.attempt(lambda: getattr(dyn, what)(bad)),
                            REFUSED, what)
                ctx.step()
    core.case(ctx, 'not callable', others)


def documents(ctx):
    """Documentation order and privacy."""
    names = ('a', 'b', '_c')
    pools = [None] + [list(p) for size in range(5) for p in itertools.product(
        ('a', 'b', '_c', 'zip'), repeat=size)]
    if ctx.quick:
        pools = [p for p in pools if p is None or len(p) < 4]
    for order, private, where in itertools.product(
            pools, (None, True, False), ('same', 'base')):
        label = 'order %s, private %s, %s' % (order, private, where)

        def go():
            props = {n: P.Integer('doc of %s' % n) for n in names}
            extra = {}
            if order is not None:
                extra['_doc_order'] = list(order)
            if private is not None:
                extra['_doc_private'] = private
            if where == 'same':
                out = core.attempt(lambda: type('Own', (P.HasProperties,),
                                                dict(props, **extra)))
            else:
                base = type('Base', (P.HasProperties,), props)
                out = core.attempt(lambda: type('Own', (base,), extra))
            ctx.step()
            want = sorted(names if private else names[:2])
            if order is None or sorted(order) == want:
                core.expect_ok(ctx, out, label)
            else:
                core.expect(ctx, out, REFUSED, label)
            ctx.state((tuple(order or ()), private, where))
        core.case(ctx, label, go)
        if ctx.full():
            return

    def wrong():
        for bad in ('ab', 'a', 3, {'a', 'b'}, {'a': 1, 'b': 2}, True, Junk()):
            core.expect(ctx, core.attempt(lambda: type(
                'Own', (P.HasProperties,), {
                    'a': P.Integer(''), 'b': P.Integer(''),
                    '_doc_order': bad})), REFUSED, 'order %r' % (bad,))
            ctx.step()
        for bad in (1, 0, 'yes', None, [], Junk()):
            core.expect(ctx, core.attempt(lambda: type(
                'Own', (P.HasProperties,), {'_doc_private': bad})), REFUSED,
                'private %r' % (bad,))
            ctx.step()
    core.case(ctx, 'wrong types', wrong)


def residue(ctx):
    """A refused class leaves nothing behind."""
    def handler(self, change):
        pass
    bodies = {
        'defaults': lambda: {'_defaults': {'num': 'x'}},
        'unknown default': lambda: {'_defaults': {'zip': 1}},
        'observer': lambda: {'watch': P.observer('zip')(handler)},
        'validator': lambda: {'watch': P.validator('zip')(handler)},
        'renamed': lambda: {'old': P.Renamed('zip')},
        'order': lambda: {'_doc_order': ['zip']},
        'private': lambda: {'_doc_private': 3},
        'property': lambda: {'num': P.Integer('', default='x')},
    }
    for name, good in itertools.product(bodies, (None,) + tuple(bodies)):
        def go():
            class Base(P.HasProperties):
                num = P.Integer('', default=2)
                txt = P.String('', required=False)

                @P.observer('num')
                def _seen(self, change):
                    self.txt = 'seen'

            class Name(Base):
                txt = P.String('', default='first')
            before = Base().serialize(), Name().serialize()
            for which in (name, good):
                if which is None:
                    continue
                out = core.attempt(lambda: type('Name', (Base,), dict(
                    {'extra': P.Integer('', default=5)}, **bodies[which]())))
                core.expect(ctx, out, REFUSED, 'class with wrong ' + which)
                ctx.step()
            ctx.same((Base().serialize(), Name().serialize()), before,
                     'the classes after a refused one')
            back = core.expect_ok(ctx, core.attempt(
                lambda: Base.deserialize({'__class__': 'Name'},
                                         trusted=True)), 'registered class')
            ctx.check(type(back) is Name, 'the refused class is registered')
            ctx.same(Base(num=4).txt, 'seen', 'observer of the base')
            ctx.state((name, good))
        core.case(ctx, 'refused for %s, then %s' % (name, good), go)
        if ctx.full():
            return

    def tags():
        for args in (('x',), (3,), ({}, {}), ({'a': 1}, 'x'), ([],), (None,)):
            prop = P.Integer('').tag({'keep': 1})
            core.expect(ctx, core.attempt(lambda: prop.tag(*args)), REFUSED,
                        'tag%r' % (args,))
            ctx.same(dict(prop.meta), {'keep': 1}, 'tags')
            ctx.step()

    def docs():
        for make in (P.Integer, P.Property, P.GettableProperty, P.String,
                     P.Uuid, P.Color, P.DateTime, P.Array, P.Vector3,
                     lambda d: P.List(d, P.Integer('')),
                     lambda d: P.Union(d, [P.Integer('')]),
                     lambda d: P.Instance(d, Thing),
                     lambda d: P.StringChoice(d, ['a'])):
            for bad in (3, None, b'x', [], Junk(), int):
                core.expect(ctx, core.attempt(lambda: make(bad)), REFUSED,
                            'documentation %r' % (bad,))
                ctx.step()
    def terms():
        good = {'args': ('d',), 'kwargs': {}}
        for bad in (3, None, [], {}, {'args': ()}, {'kwargs': {}}, 'ak',
                    ('args', 'kwargs'), {'args': (), 'kwargs': {}, 'c': 1},
                    {'args': [], 'kwargs': {}}, {'args': 'x', 'kwargs': {}},
                    {'args': None, 'kwargs': {}}, {'args': (), 'kwargs': ()},
                    {'args': (), 'kwargs': None}, {'args': (), 'kw': {}},
                    {'arg': (), 'kwargs': {}}, {'args': {}, 'kwargs': ()},
                    {'args': 3, 'kwargs': []}):
            prop = P.Integer('d', min=2)
            core.expect(ctx, core.attempt(setattr, prop, 'terms', bad),
                        REFUSED, 'terms %r' % (bad,))
            ctx.same((prop.terms.args, prop.terms.kwargs),
                     (('d',), {'min': 2}), 'terms')
            core.expect_ok(ctx, core.attempt(setattr, prop, 'terms', good),
                           'terms')
            ctx.same((prop.terms.args, prop.terms.kwargs), (('d',), {}),
                     'terms')
            ctx.step(2)
    for func in (tags, docs, terms):
        core.case(ctx, func.__name__, func)


def scenarios(tier):
    quick = tier == 'quick'
    for name, make, opts, conflict in tables():
        yield ('options of ' + name, options(name, make, opts, conflict,
                                             COMMON))
        yield ('later ' + name, later(name, make, opts, conflict, COMMON))
    fewer = {k: v for k, v in COMMON.items() if k != 'required'}
    for name, make, opts, conflict in immutable_tables():
        yield ('options of ' + name, options(name, make, opts, conflict,
                                             fewer))
        yield ('later ' + name, later(name, make, opts, conflict, fewer))
    parts = 4 if quick else 16
    for part in range(parts):
        yield ('defaults %d' % part, defaults(part, parts))
    yield ('other defaults', other_defaults)
    yield ('renamed', renamed(False))
    parts = 4 if quick else 8
    for part in range(parts):
        yield ('renamed twice %d' % part, renamed(True, part, parts))
    for func in (observers, dynamic, documents, residue):
        yield (func.__name__, func)
