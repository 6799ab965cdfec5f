"""P08: serialize -> JSON text -> deserialize round trips."""
import copy
import datetime
import itertools
import json
import math
import uuid

import numpy as np
import vectormath as vmath

import properties as P

from mc import core, depths, names, sizes, types

PROPERTY = 'P08'
BOUNDS = ('every property configuration of the catalogue (over 200) with every '
          'accepted alphabet value, bare; at most 4 (quick) / 8 (thorough) values '
          'of every family inside every one of 11 holders and every pair of '
          'holders (tuple, list, observed list, set, dictionary value, '
          'dictionary key, union, instance, list of instances, coercing list); '
          'with and without class names; every placement of registered '
          'serializers and deserializers over 9 property types and 5 holders; '
          'static conversion of all of these, and of every pair of 7 instances '
          'or values in 9 containers with every combination of 3 keywords')
ASSUMPTIONS = ['unions whose members share a serialized form are excluded: '
               'their text does not determine the member',
               'a Property without a type holds JSON values only']

NAN, INF = float('nan'), float('inf')


def array_families():
    arr = np.array
    floats = [[], [0.], [1.5, -2.], [NAN, 1., INF, -INF], [1e300, 5e-324]]
    yield ('Array float', lambda **k: P.Array('', dtype=float, **k),
           [arr(v, dtype=float) for v in floats])
    yield ('Array int', lambda **k: P.Array('', dtype=int, **k),
           [arr(v, dtype=int) for v in ([], [1], [0, -3], [2 ** 40])])
    yield ('Array bool', lambda **k: P.Array('', dtype=bool, **k),
           [arr(v, dtype=bool) for v in ([], [True], [False, True])])
    yield ('Array default', lambda **k: P.Array('', **k),
           [arr(v, dtype=float) for v in floats] +
           [arr([1, 2]), arr([0]), [3, 4], [1, 2.5]])
    yield ('Array int, float', lambda **k: P.Array('', dtype=(int, float), **k),
           [arr([1, 2]), arr([1.5, 2.]), arr([1., 2.]), [0], [0.25]])
    yield ('Array bool, int', lambda **k: P.Array('', dtype=[bool, int], **k),
           [arr([True]), arr([2, 0]), arr([1])])
    yield ('Array 2d', lambda **k: P.Array('', shape=('*', 2), dtype=float,
                                           **k),
           [arr([[1., 2.]]), arr([[1., NAN], [INF, 0.]])])
    yield ('Array any shape', lambda **k: P.Array('', shape=None, dtype=float,
                                                  **k),
           [arr([1.]), arr([[1.], [2.]]), arr([[[1., NAN]]])])
    yield ('Array 2d list input', lambda **k: P.Array(
        '', shape=('*', '*'), dtype=(int,), **k), [[[1, 2], [3, 4]], [[5]]])
    yield ('Vector3', lambda **k: P.Vector3('', **k),
           [[1., 2., 3.], (0, 0, 0), 'X', '-z', 'up', [NAN, INF, -INF],
            vmath.Vector3(1, 2, 3)])
    yield ('Vector3 length', lambda **k: P.Vector3('', length=2, **k),
           [[1., 2., 2.], 'east', [3., 0., 4.]])
    yield ('Vector2', lambda **k: P.Vector2('', **k),
           [[1., 2.], 'x', (0, -1), [NAN, 1.]])
    yield ('Vector3Array', lambda **k: P.Vector3Array('', **k),
           [[[1., 2., 3.]], ['x', 'up', [1, 2, 3]], [[NAN, 0, INF]],
            np.zeros((2, 3))])
    yield ('Vector3Array length', lambda **k: P.Vector3Array('', length=1, **k),
           [[[1., 2., 2.], [0., 3., 4.]]])
    yield ('Vector2Array', lambda **k: P.Vector2Array('', **k),
           [[[1., 2.]], ['x', (3., 4.)], [[NAN, 1.], [INF, -INF]]])


ARRAY_FINDING = [
    ('Array 2d', lambda **k: P.Array('', shape=('*', 2), dtype=float, **k),
     [np.zeros((0, 2))]),
    ('Vector3Array', lambda **k: P.Vector3Array('', **k), [np.zeros((0, 3))]),
]


def json_values():
    yield ('Property', lambda **k: P.Property('', **k),
           [True, 0, 1.5, 'a', '', [1, [2]], {'a': {'b': None}}, []])
    items = [[], [None], [None, 1], [0, '', False], ['a', [None]], [{}]]
    yield ('untyped List', lambda **k: P.List('', **k), items)
    yield ('untyped Tuple', lambda **k: P.Tuple('', **k),
           [tuple(v) for v in items])
    yield ('untyped List of lists', lambda **k: P.List('', P.List(''), **k),
           [[v] for v in items])
    yield ('untyped Set', lambda **k: P.Set('', **k), [set(), {None}, {1, 'a'}])
    yield ('untyped Dictionary', lambda **k: P.Dictionary('', **k),
           [{}] + [{'k': v} for v in (None, 0, '', False, [], {}, [None])] +
           [{'': None, 'a': 1}])
    yield ('untyped Union', lambda **k: P.Union(
        '', [P.Integer(''), P.Property('')], **k), ['', False, 'a', [None], {}])


def serial(ctx, inst, **kwargs):
    """Serialize, checking purity; returns the parsed JSON text."""
    before = core.canon(inst)
    data = inst.serialize(**kwargs)
    ctx.step()
    ctx.check(core.canon(inst) == before, 'serializing changed the instance')
    text = json.dumps(data, allow_nan=False)
    return json.loads(text)


def walk(ctx, value, data, flag):
    """Structure: undefined omitted, class names exactly when requested."""
    if isinstance(value, P.HasProperties):
        keys = {k for k in value._props if getattr(value, k) is not None}
        got = set(data)
        ctx.check(('__class__' in got) == flag, lambda: 'class name in %s, '
                  'requested: %s' % (data, flag))
        if flag:
            ctx.check(data['__class__'] == type(value).__name__,
                      'wrong class name')
        ctx.check(got - {'__class__'} == keys, lambda: 'serialized keys %s, '
                  'defined properties %s' % (sorted(got), sorted(keys)))
        for key in keys:
            walk(ctx, getattr(value, key), data[key], flag)
    elif isinstance(value, dict):
        ctx.check(len(value) == len(data), 'dictionary lost items')
        for val, out in zip(value.values(), data.values()):
            walk(ctx, val, out, flag)
    elif isinstance(value, (list, tuple, set)):
        ctx.check(len(value) == len(data), 'container lost items')
        for val, out in zip(value, data):
            walk(ctx, val, out, flag)


def trip(ctx, inst, what, key=None):
    """The whole property, for one instance."""
    cls = type(inst)
    for flag in (True, False):
        data = serial(ctx, inst, include_class=flag)
        walk(ctx, inst, data, flag)
        spare = copy.deepcopy(data)
        back = core.expect_ok(ctx, core.attempt(
            cls.deserialize, data, trusted=flag), what, key=key)
        ctx.step()
        ctx.check(data == spare, '%s: deserializing changed its input' % what)
        ctx.check(type(back) is cls, '%s: class of the result' % what)
        ctx.check(core.canon(back) == core.canon(inst), lambda: '%s: came back '
                  'as %s, was %s' % (what, core.canon(back), core.canon(inst)),
                  key=key)
        ctx.check(P.equal(inst, back) and P.equal(back, inst),
                  '%s: not equal after the round trip' % what, key=key)
        again = serial(ctx, back, include_class=flag)
        ctx.check(json.dumps(again) == json.dumps(data) or again == data or
                  loose(again) == loose(data) and ' set' in what,
                  lambda: '%s: serializes as %s, then as %s' % (
                      what, data, again), key=key)
    ctx.outcome(core.canon(inst))


def loose(data):
    """Order-insensitive form, for the items of sets."""
    if isinstance(data, dict):
        return {k: loose(v) for k, v in data.items()}
    if isinstance(data, list):
        return sorted((loose(v) for v in data), key=json.dumps)
    return data


def holder_class(make):
    return type('Holder', (P.HasProperties,), {'p': make()})


def build(ctx, cls, value, what):
    out = core.attempt(cls)
    inst = core.expect_ok(ctx, out, 'construction')
    core.expect_ok(ctx, core.attempt(setattr, inst, 'p', value),
                   'assigning ' + what)
    return inst


def datetime_key(value):
    if isinstance(value, datetime.datetime):
        if value.microsecond:
            return 'datetime-microseconds'
        if value.tzinfo is not None:
            return 'datetime-timezone'
        if value.year < 1000:
            return 'datetime-year'
    return None


def own_string(value):
    """Strings come back as plain strings, whatever class they had."""
    return isinstance(value, str) and type(value) is not str


def bare(ctx, quick):
    for spec in types.primitive_specs(quick):
        if spec.name == 'Property':
            continue
        cls = holder_class(spec.make)
        for value, want in spec.accepted():
            if not spec.idempotent(want) or own_string(want):
                continue
            label = '%s %s' % (spec.name, core.show(value))

            def one():
                inst = build(ctx, cls, value, label)
                trip(ctx, inst, label, key=datetime_key(inst.p))
                ctx.state(label)
            if not core.case(ctx, label, one):
                return
        one_undefined(ctx, cls)
    ctx.sample('every accepted value of every primitive configuration')


def one_undefined(ctx, cls):
    def one():
        trip(ctx, cls(), 'undefined')
    core.case(ctx, 'undefined', one)


def more_bare(ctx):
    for name, make, values in itertools.chain(array_families(), json_values()):
        cls = holder_class(make)
        for value in values:
            label = '%s %s' % (name, core.show(value))

            def one():
                inst = build(ctx, cls, value, label)
                trip(ctx, inst, label)
                ctx.state(label)
            core.case(ctx, label, one)
    for name, make, values in ARRAY_FINDING:
        cls = holder_class(make)
        for value in values:
            def one():
                inst = build(ctx, cls, value, name)
                trip(ctx, inst, 'empty ' + name, key='empty-array')
                ctx.state(('empty', name))
            core.case(ctx, ('empty', name), one)
    dates = [datetime.datetime(2000, 1, 2, 3, 4, 5, 6),
             datetime.datetime(2000, 1, 2, 3, 4, 5, 999999),
             datetime.datetime(999, 1, 2),
             datetime.datetime(2000, 1, 2, tzinfo=datetime.timezone.utc),
             datetime.datetime(2000, 1, 2, tzinfo=datetime.timezone(
                 datetime.timedelta(hours=5)))]
    cls = holder_class(lambda: P.DateTime(''))
    for date in dates:
        def one():
            inst = build(ctx, cls, date, repr(date))
            trip(ctx, inst, repr(date), key=datetime_key(date))
            ctx.state(repr(date))
        core.case(ctx, repr(date), one)

    class Ident(P.HasProperties):
        uid = P.Uuid('id')
        fixed = P.GettableProperty('fixed', default=5)
        text = P.String('text', required=False)

    def ident():
        for inst in (Ident(), Ident(text='a')):
            trip(ctx, inst, 'immutable values')
        ctx.state('ident')
    core.case(ctx, 'ident', ident)


def families(limit):
    """Representative configurations: (name, make, values, key?, hashable)."""
    pick = {}
    for spec in types.primitive_specs(True):
        base = spec.name.split('(')[0]
        if base in ('Property', 'Bool'):
            continue
        vals = []
        seen = set()
        for value, want in spec.accepted():
            if not spec.idempotent(want) or datetime_key(want) or \
                    own_string(want):
                continue
            code = core.canon(want)
            if code in seen:
                continue
            seen.add(code)
            vals.append(value)
        if vals:
            pick.setdefault(base, []).append((spec.name, spec.make, vals))
    for base, specs in pick.items():
        # the plainest, the most accepting and the last configuration
        specs.sort(key=lambda s: (len(s[0]), s[0]))
        chosen = {s[0]: s for s in (specs[0], max(specs, key=lambda s: len(
            s[2])), specs[-1])}
        for name, make, vals in chosen.values():
            step = max(1, len(vals) // limit)
            yield (name, make, vals[::step][:limit], base in (
                'Integer', 'Float', 'String', 'StringChoice', 'DateTime',
                'URL', 'Boolean', 'Complex'), True)
    for name, make, vals in array_families():
        yield name, make, vals[:limit], False, False


def holders(env):
    """name -> (property factory, wrap values, usable(keyable, hashable))."""
    yes = lambda k, h: True
    return {
        'tuple': (lambda m: P.Tuple('', m()), lambda vs: tuple(vs), yes),
        'list': (lambda m: P.List('', m()), lambda vs: list(vs), yes),
        'watched list': (lambda m: P.List('', m(), observe_mutations=True),
                         lambda vs: list(vs), yes),
        'coercing list': (lambda m: P.List('', m(), coerce=True),
                          lambda vs: tuple(vs), yes),
        'set': (lambda m: P.Set('', m(), coerce=True), lambda vs: tuple(vs),
                lambda k, h: h),
        'dict value': (lambda m: P.Dictionary('', key_prop=P.String(''),
                                              value_prop=m()),
                       lambda vs: {'k%d' % i: v for i, v in enumerate(vs)},
                       yes),
        'dict key': (lambda m: P.Dictionary('', key_prop=m(),
                                            value_prop=P.Integer('')),
                     lambda vs: {v: i for i, v in enumerate(vs)},
                     lambda k, h: k),
        'watched dict': (lambda m: P.Dictionary('', value_prop=m(),
                                                observe_mutations=True),
                         lambda vs: {'k%d' % i: v for i, v in enumerate(vs)},
                         yes),
        'union': (lambda m: P.Union('', [m(), P.Instance('', env)]),
                  lambda vs: vs[0], yes),
    }


def held(ctx, limit, outer_name):
    """Every family in a holder, and in every pair of holders."""
    class Env(P.HasProperties):
        other = P.Integer('')
    table = holders(Env)
    for name, make, vals, keyable, hashable in families(limit):
        for inner_name, inner in table.items():
            if not inner[2](keyable, hashable):
                continue
            if outer_name is None:
                makes = lambda: inner[0](make)
                groups = [[v] for v in vals] + [list(vals), []]
                wraps = [inner[1]]
            else:
                outer = table[outer_name]
                # containers are not hashable and no dictionary keys
                if outer_name in ('set', 'dict key') and not (
                        inner_name == 'tuple' and outer_name == 'set' and
                        hashable) and inner_name != 'union':
                    continue
                if inner_name == 'union' and not outer[2](keyable, hashable):
                    continue
                if inner_name == 'union' and outer_name == 'union':
                    continue
                makes = lambda: outer[0](lambda: inner[0](make))
                groups = [[v] for v in vals[:3]] + [list(vals)]
                wraps = [inner[1], outer[1]]
            cls = holder_class(makes)
            for group in groups:
                if not group and inner_name == 'union':
                    continue
                label = '%s in %s in %s: %s' % (name, inner_name, outer_name,
                                                core.show(group))

                def one():
                    value = wraps[0](group)
                    if len(wraps) == 2:
                        if inner_name == 'union':
                            value = wraps[1]([v for v in group])
                        elif outer_name == 'union':
                            value = value
                        else:
                            value = wraps[1]([value, copy.deepcopy(value)]
                                             if outer_name != 'set'
                                             else [value])
                    inst = build(ctx, cls, value, label)
                    trip(ctx, inst, label)
                    ctx.state(label)
                if not core.case(ctx, label, one):
                    return
    ctx.sample('every family in every holder inside %s' % outer_name)


def instances(ctx, deep):
    """Instances in instances, through every kind of holder."""
    class Leaf(P.HasProperties):
        num = P.Integer('', required=False)
        name = P.String('', required=False)
        when = P.DateTime('', required=False)
        vec = P.Vector3('', required=False)

    class SubLeaf(Leaf):
        more = P.Color('', required=False)

    class Hollow(Leaf):
        def __len__(self):
            return 0

    class Inner(P.HasProperties):
        one = P.Instance('', Leaf, required=False)
        many = P.List('', Leaf, required=False)
        named = P.Dictionary('', value_prop=P.Instance('', Leaf),
                             required=False)
        either = P.Union('', [P.Integer('', max=5), Leaf], required=False)
        tup = P.Tuple('', P.Union('', [Leaf, P.String('')]), required=False)

    class Outer(P.HasProperties):
        inner = P.Instance('', Inner, required=False)
        inners = P.List('', P.List('', Inner), required=False)

    def leaf(i):
        return [lambda: Leaf(), lambda: Leaf(num=1), lambda: Leaf(
            name='a', when=datetime.datetime(2000, 1, 2)),
            lambda: Leaf(vec='x', num=0, name=''),
            lambda: SubLeaf(more='red', num=3), lambda: Hollow(num=4)][i]()
    slots = {
        'one': lambda a, b: a,
        'many': lambda a, b: [a, b],
        'named': lambda a, b: {'x': a, '': b},
        'either': lambda a, b: a,
        'tup': lambda a, b: (a, 'text', b),
    }

    def one(chosen, a, b, where):
        values = {}
        for slot in chosen:
            values[slot] = slots[slot](leaf(a), leaf(b))
        inner = Inner(**values)
        if where == 'inner':
            top = inner
        elif where == 'outer':
            top = Outer(inner=inner)
        else:
            top = Outer(inners=[[inner], [], [Inner(), Inner(one=leaf(a))]])
        sub = 4 in (a, b) or 5 in (a, b)
        before = core.canon(top)
        data = serial(ctx, top)
        walk(ctx, top, data, True)
        back = type(top).deserialize(copy.deepcopy(data), trusted=True)
        ctx.check(core.canon(back) == before, lambda: 'came back as %s, was %s'
                  % (core.canon(back), before))
        ctx.check(P.equal(top, back), 'not equal')
        ctx.step(2)
        if not sub:
            trip(ctx, top, 'nested instances')
        ctx.state((chosen, a, b, where))
    names = list(slots)
    sets = [(n,) for n in names] + list(itertools.combinations(names, 2)) + [
        tuple(names), ()]
    for chosen in sets:
        for a, b in itertools.product(range(6), repeat=2):
            for where in ('inner', 'outer', 'outer list'):
                if not core.case(ctx, (chosen, a, b, where), one, chosen, a, b,
                                 where):
                    return
    ctx.sample('leaf pairs in every set of slots at three depths')


UNIONS = [
    ('int|leaf', lambda L: [P.Integer(''), L], [5, 0, 'leaf', 'leaf false']),
    ('leaf|int', lambda L: [L, P.Integer('')], ['leaf', 'leaf false', 3]),
    ('bool|list', lambda L: [P.Boolean(''), P.List('', P.Integer(''))],
     [True, False, [1], []]),
    ('list|int|str', lambda L: [P.List('', P.Integer('')), P.Integer(''),
                                P.String('', regex='^[a-z]')],
     [[1, 2], [], 4, 'abc']),
    ('int|float', lambda L: [P.Integer(''), P.Float('')], [1, 1.5, 0, -2.5]),
    ('date|leaf', lambda L: [P.DateTime(''), L],
     [datetime.datetime(2000, 1, 1), 'leaf']),
    ('color|str', lambda L: [P.Color(''), P.String('')], ['red', 'zzz', '']),
    ('dict|list', lambda L: [P.Dictionary('', value_prop=P.Integer('')),
                             P.List('', P.String(''))],
     [{'a': 1}, {}, ['x'], []]),
    ('nested', lambda L: [P.Union('', [P.Integer('', max=3), L]),
                          P.Union('', [P.Integer('', min=9), P.List(
                              '', P.Integer(''))])], [1, 'leaf', 12, [5]]),
    ('vec|str', lambda L: [P.Vector3(''), P.String('')],
     [[1., 2., 3.], 'hello']),
]


def unions(ctx):
    class Leaf(P.HasProperties):
        num = P.Integer('', required=False)
        sub = P.String('', required=False)

        def __bool__(self):
            return self.sub is None
    for name, members, values in UNIONS:
        shapes = {
            'bare': (lambda: P.Union('', members(Leaf)), lambda v: v),
            'list': (lambda: P.List('', P.Union('', members(Leaf))),
                     lambda v: [v, v]),
            'dict': (lambda: P.Dictionary('', value_prop=P.Union(
                '', members(Leaf))), lambda v: {'k': v}),
        }
        for shape, (make, wrap) in shapes.items():
            cls = holder_class(make)
            for value in values:
                def one():
                    val = value
                    if isinstance(value, str) and value[:4] == 'leaf':
                        val = Leaf(num=2) if value == 'leaf' else \
                            Leaf(sub='false')
                    inst = build(ctx, cls, wrap(val), name)
                    trip(ctx, inst, 'union %s %s %r' % (name, shape, value))
                    ctx.state((name, shape, repr(value)))
                core.case(ctx, (name, shape, value), one)
    ctx.sample('unambiguous unions, bare, in lists and dictionaries')
    lenient = [
        (lambda: P.Union('', [P.Boolean(''), P.String('')]), 'yes'),
        (lambda: P.Union('', [P.Integer(''), P.String('')]), '5'),
        (lambda: P.Union('', [P.Float(''), P.String('')]), 'nan'),
    ]
    for make, value in lenient:
        def one():
            inst = build(ctx, holder_class(make), value, value)
            trip(ctx, inst, 'text %r in a union' % value, key='union-text')
            ctx.state(('lenient', value))
        core.case(ctx, ('lenient', value), one)


def registered(ctx):
    """Registered functions are used, once per value, with the keywords."""
    class Leaf(P.HasProperties):
        num = P.Integer('', required=False)
    made = {
        'Integer': (P.Integer, (), 5), 'Float': (P.Float, (), 1.5),
        'String': (P.String, (), 'a'), 'Boolean': (P.Boolean, (), True),
        'Color': (P.Color, (), 'red'), 'Array': (P.Array, (), [1, 2]),
        'Vector3': (P.Vector3, (), [1, 2, 3]),
        'DateTime': (P.DateTime, (), datetime.datetime(2000, 1, 1)),
        'List': (P.List, (P.Integer(''),), [1, 2]),
        'Dictionary': (P.Dictionary, (), {'a': 1}),
        'Instance': (P.Instance, (Leaf,), 'leaf'),
        'Union': (P.Union, ([P.Integer(''), P.String('')],), 'a'),
        'Set': (P.Set, (P.Integer(''),), {1}),
        'Tuple': (P.Tuple, (P.Integer(''),), (1,)),
        'StringChoice': (P.StringChoice, (['a', 'b'],), 'a'),
        'Property': (P.Property, (), 3),
    }
    wraps = {
        'bare': (lambda p: p, lambda v: v, 1),
        'list': (lambda p: P.List('', p), lambda v: [v, v], 2),
        'tuple': (lambda p: P.Tuple('', p), lambda v: (v,), 1),
        'dict': (lambda p: P.Dictionary('', value_prop=p),
                 lambda v: {'x': v, 'y': v}, 2),
        'union': (lambda p: P.Union('', [p, P.Boolean('')]), lambda v: v, 1),
        'list of lists': (lambda p: P.List('', P.List('', p)),
                          lambda v: [[v], [v]], 2),
        'instance': (lambda p: P.Instance('', type(
            'Mid', (P.HasProperties,), {'q': p})), None, 1),
    }

    def one(tname, wname, with_kw, which, include):
        cls, args, value = made[tname]
        if value == 'leaf':
            value = Leaf(num=1)
        log = []

        def ser(val, **kw):
            log.append(('ser', val, kw))
            return 'SERIAL'

        def ser_plain(val):
            log.append(('ser', val, None))
            return 'SERIAL'
        holder = {}

        def des(val, **kw):
            log.append(('des', val, kw))
            return holder['value']

        def des_plain(val):
            log.append(('des', val, None))
            return holder['value']
        kwargs = {}
        if which in ('serializer', 'both'):
            kwargs['serializer'] = ser if with_kw else ser_plain
        if which in ('deserializer', 'both'):
            kwargs['deserializer'] = des if with_kw else des_plain
        prop = cls('', *args, **kwargs)
        wrap_prop, wrap_val, count = wraps[wname]
        if cls in (P.Instance,) and wname == 'union' and which != 'both':
            return
        Top = type('Top', (P.HasProperties,), {'p': wrap_prop(prop)})
        top = Top()
        if wname == 'instance':
            mid = Top._props['p'].instance_class()
            mid.q = value
            top.p = mid
            stored = top.p.q
        else:
            top.p = wrap_val(value)
            stored = top.p
            while wname != 'bare' and wname != 'union' and stored is not None \
                    and len(log) == 0 and wname in (
                        'list', 'tuple', 'dict', 'list of lists'):
                stored = stored['x'] if wname == 'dict' else stored[0]
                if wname == 'list of lists':
                    stored = stored[0]
                break
        holder['value'] = stored
        data = top.serialize(include_class=include, tag=7)
        ctx.step()
        if 'serializer' in kwargs:
            sers = [e for e in log if e[0] == 'ser']
            ctx.check(len(sers) == count, lambda: 'serializer of %s in %s was '
                      'called %d times' % (tname, wname, len(sers)))
            for _, val, kw in sers:
                ctx.check(core.same(val, stored), lambda: 'serializer got %s' %
                          core.show(val))
                if with_kw:
                    ctx.check(kw.get('tag') == 7 and kw.get('include_class') is
                              include, lambda: 'serializer of %s in %s got '
                              'keywords %s' % (tname, wname, kw))
            leafs = flatten(data, wname)
            ctx.check(leafs == ['SERIAL'] * count, lambda: 'serialized as %s'
                      % data)
            json.dumps(data)
        del log[:]
        if 'deserializer' in kwargs:
            back = core.expect_ok(ctx, core.attempt(
                Top.deserialize, data, trusted=True, tag=8),
                'deserialize with a registered function')
            ctx.step()
            dess = [e for e in log if e[0] == 'des']
            ctx.check(len(dess) == count, lambda: 'deserializer of %s in %s '
                      'was called %d times' % (tname, wname, len(dess)))
            for _, val, kw in dess:
                if 'serializer' in kwargs:
                    ctx.check(val == 'SERIAL', lambda: 'deserializer got %r' %
                              (val,))
                if with_kw:
                    ctx.check(kw.get('tag') == 8 and kw.get('trusted') is True,
                              lambda: 'deserializer of %s in %s got keywords '
                              '%s' % (tname, wname, kw))
            ctx.check(core.canon(back) == core.canon(top), lambda: 'came back '
                      'as %s, was %s' % (core.canon(back), core.canon(top)))
        ctx.state((tname, wname, with_kw, which, include))
    for tname, wname in itertools.product(made, wraps):
        for with_kw in (True, False):
            for which in ('serializer', 'deserializer', 'both'):
                for include in (True, False):
                    if not core.case(ctx, (tname, wname, with_kw, which),
                                     one, tname, wname, with_kw, which,
                                     include):
                        return


def static(ctx, quick):
    """The static converters give what serializing an instance gives."""
    def one(make, value, label):
        cls = holder_class(make)
        inst = build(ctx, cls, value, label)
        prop, stored = cls._props['p'], inst.p
        if stored is None or datetime_key(stored):
            return
        before = core.canon(stored)
        data = serial(ctx, inst)['p']
        for owner in (type(prop), prop):
            got = core.expect_ok(ctx, core.attempt(owner.to_json, stored),
                                 label + ' to_json')
            ctx.step()
            ctx.same(json.loads(json.dumps(got, allow_nan=False)), data,
                     label + ' to_json')
            if isinstance(stored, np.ndarray) and 'inf' in str(data) + \
                    str(data).replace('nan', 'inf'):
                continue        # only deserialize knows these
            back = core.expect_ok(ctx, core.attempt(
                owner.from_json, data), label + ' from_json')
            # an Array does not know its type statically: numbers will do
            ctx.check(np.array_equal(back, stored, equal_nan=back.dtype.kind
                                     == 'f') if isinstance(back, np.ndarray)
                      else prop.equal(prop.validate(None, back), stored),
                      lambda: '%s from_json gave %s' % (
                          label, core.show(back)))
        ctx.check(core.canon(stored) == before, label + ': value changed')
        ctx.state(label)
    for spec in types.primitive_specs(quick):
        for value, want in spec.accepted():
            if spec.name == 'Property' or not spec.idempotent(want) or \
                    own_string(want):
                continue
            label = '%s %s' % (spec.name, core.show(value))
            if not core.case(ctx, label, one, spec.make, value, label):
                return
    for name, make, values in array_families():
        for value in values:
            if len(value) == 0:
                continue            # see the known finding
            label = '%s %s' % (name, core.show(value))
            if not core.case(ctx, label, one, make, value, label):
                return

    class Kid(P.HasProperties):
        _REGISTRY = dict()
        num = P.Integer('', required=False)
        many = P.List('', P.Integer(''), required=False)

        @P.Integer('')
        def twice(self):
            return None if self.num is None else 2 * self.num

        def __len__(self):
            return 0

        def __hash__(self):
            return 5

    class Parent(Kid):
        kid = P.Instance('', Kid, required=False)
    nodes = [lambda: Kid(), lambda: Kid(num=0), lambda: Kid(num=1, many=[]),
             lambda: Parent(num=2, kid=Kid(num=3, many=[4])),
             lambda: 5, lambda: '', lambda: None]
    shapes = [
        ('instance', P.Instance, 1, lambda a: a, lambda a: a),
        ('union', P.Union, 1, lambda a: a, lambda a: a),
        ('pointer', P.extras.Pointer, 1, lambda a: a, lambda a: a),
        ('tuple', P.Tuple, 2, lambda a, b: (a, b), lambda a, b: [a, b]),
        ('list', P.List, 2, lambda a, b: [a, b], lambda a, b: [a, b]),
        ('set', P.Set, 1, lambda a: {a}, lambda a: [a]),
        ('dictionary', P.Dictionary, 2, lambda a, b: {'k': a, 'l': b},
         lambda a, b: {'k': a, 'l': b}),
        ('empty tuple', P.Tuple, 0, lambda: (), lambda: []),
        ('empty dictionary', P.Dictionary, 0, lambda: {}, lambda: {}),
    ]
    flags = [{}] + [dict(zip(names, vals)) for names in (
        ('include_class',), ('save_dynamic',),
        ('include_class', 'save_dynamic', 'extra')) for vals in
            itertools.product((False, True), repeat=len(names))]

    def expected(node, include_class=True, save_dynamic=False, extra=None):
        if not isinstance(node, Kid):
            return node
        out = {'__class__': type(node).__name__} if include_class else {}
        if node.num is not None:
            out['num'] = node.num
            if save_dynamic:
                out['twice'] = 2 * node.num
        if node.many is not None:
            out['many'] = list(node.many)
        if getattr(node, 'kid', None) is not None:
            out['kid'] = expected(node.kid, include_class, save_dynamic)
        return out

    def group(name, typ, wrap, form, picks, kwargs):
        items = [nodes[n]() for n in picks]
        given = wrap(*items)
        before = core.canon(given)
        out = core.expect_ok(ctx, core.attempt(
            typ.to_json, given, **kwargs), name)
        ctx.step()
        want = form(*[expected(item, **kwargs) for item in items])
        ctx.check(type(out) is type(want) and out == want, lambda:
                  '%s.to_json(%s, %s) gave %s, expected %s' % (
                      typ.__name__, core.show(given), kwargs, core.show(out),
                      core.show(want)))
        ctx.check(out is not given, name + ': not a copy')\
            if isinstance(want, (list, dict)) else None
        ctx.check(core.canon(given) == before, name + ': value changed')
        ctx.state((name, picks, str(kwargs)))
    for name, typ, size, wrap, form in shapes:
        for picks in itertools.product(range(len(nodes)), repeat=size):
            for kwargs in flags:
                if not core.case(ctx, (name, picks, kwargs), group, name, typ,
                                 wrap, form, picks, kwargs):
                    return


def foreign_rows():
    """(type, JSON data, what it means); NO: refused."""
    def day(*args):
        return datetime.datetime(*args)
    yes = ('true', 'True', 'TRUE', 'y', 'Y', 'yes', 'Yes', 'on', 'ON')
    nope = ('false', 'False', 'FALSE', 'n', 'N', 'no', 'No', 'off', 'OFF')
    boolean = lambda **k: P.Boolean('', **k)
    for text in yes + nope:
        yield boolean, text, text in yes
    for data in (True, False):
        yield boolean, data, data
    for data in ('maybe', '', 'tru', 'truee', '1', 1, 0, 1.5, [], [True], {}):
        yield boolean, data, types.NO
    for data in (0, 1, 5, -1):
        yield lambda **k: P.Boolean('', cast=True, **k), data, bool(data)
    integer = lambda **k: P.Integer('', **k)
    for data in (0, 3, -3, 10 ** 20, 3.0, -0.0, '3', '-3', ' 4 ', 1e15):
        yield integer, data, int(data)
    for data in (2.5, -0.5, 'x', '2.5', '', [], [1], {}, 0.999):
        yield integer, data, types.NO
    limited = lambda **k: P.Integer('', min=2, max=4, **k)
    for data in range(7):
        for form in (data, float(data), str(data)):
            yield limited, form, data if 2 <= data <= 4 else types.NO
    cast = lambda **k: P.Integer('', cast=True, **k)
    for data in (2.5, 3, '4', -2.5):
        yield cast, data, int(data)
    number = lambda **k: P.Float('', **k)
    for data in (0, 3, -3, 1.5, '1.5', '3', 'inf', '-inf', '1e3', 10 ** 20):
        yield number, data, float(data)
    for data in ('x', '', [], [1.5], {}, '1j', 10 ** 400):
        yield number, data, types.NO
    comp = lambda **k: P.Complex('', **k)
    for data in (0, 3, 1.5, '1+2j', '(1+2j)', '3', '-1j', '1e3j'):
        yield comp, data, complex(data)
    for data in ('x', '', '1 + 2j', [], [1, 2], {}):
        yield comp, data, types.NO
    for first in (P.Float, P.Complex):
        either = lambda first=first, **k: P.Union('', [
            first(''), P.Integer('')], **k)
        yield either, 10 ** 400, 10 ** 400
        yield either, -10 ** 400, -10 ** 400
        yield either, 3, first('').validate(None, 3)
    color = lambda **k: P.Color('', **k)
    for data in ([0, 0, 0], [255, 255, 255], [1, 2, 3]):
        yield color, data, tuple(data)
    for data in ([], [1, 2], [1, 2, 3, 4], [1, 2, 256], [-1, 0, 0], 5, {},
                 [1, 2, 'x'], [None, 1, 2]):
        yield color, data, types.NO
    date = lambda **k: P.DateTime('', **k)
    for data, want in (('2020/02/03', day(2020, 2, 3)),
                       ('2020-02-03', day(2020, 2, 3)),
                       ('1999-12-31T23:59:58Z', day(1999, 12, 31, 23, 59, 58)),
                       ('2020-02-29T00:00:00Z', day(2020, 2, 29))):
        yield date, data, want
    for data in ('', 'x', '2020/02/30', '2021-02-29T00:00:00Z', '2020/2/303',
                 '2020-02-03T04:05:61Z', '2020-02-03 04:05:06', 5, [], {},
                 '02/03/2020'):
        yield date, data, types.NO
    upper = lambda **k: P.String('', strip=' ', change_case='upper', **k)
    for data in ('ab', ' aB ', '', 'AB'):
        yield upper, data, data.strip().upper()
    for data in (5, 1.5, [], ['a'], {}, True):
        yield upper, data, types.NO
    choice = lambda **k: P.StringChoice('', {'One': ['uno', 'eins'],
                                             'Two': ['due']}, **k)
    for data in ('One', 'one', 'UNO', 'Eins'):
        yield choice, data, 'One'
    for data in ('Three', '', 'unos', 5, [], ['One'], {}):
        yield choice, data, types.NO
    mixed = lambda **k: P.List('', P.Integer(''), **k)
    for data in ([], [1], [1, 2.0, '3']):
        yield mixed, data, [int(d) for d in data]
    for data in ([2.5], ['x'], [1, 'x'], [[1]], [{}]):
        yield mixed, data, types.NO
    group = lambda **k: P.Set('', P.Integer(''), **k)
    for data in ([], [1], [1, 2.0, 2, '1']):
        yield group, data, {int(d) for d in data}
    row = lambda **k: P.Tuple('', P.Float(''), min_length=2, **k)
    for data in ([1, 2], [1.5, '2', 'inf']):
        yield row, data, tuple(float(d) for d in data)
    table = lambda **k: P.Dictionary(
        '', key_prop=P.Integer(''), value_prop=P.Boolean(''), **k)
    for data in ({}, {'1': 'yes', '2': False}, {'10': True}):
        yield table, data, {int(d): v in (True, 'yes')
                            for d, v in data.items()}
    for data in ({'x': True}, {'1': 'x'}, {'1.5': True}):
        yield table, data, types.NO


def foreign(ctx):
    """Data that other programs wrote: every spelling of a value."""
    def one(make, data, want, wrap):
        cls = holder_class(make)
        if wrap == 'bare':
            form, inner, outer = cls, (lambda o: o.p), {'p': data}
        else:
            prop = {'instance': lambda: P.Instance('', cls),
                    'list': lambda: P.List('', make()),
                    'tuple': lambda: P.Tuple('', make()),
                    'dict': lambda: P.Dictionary('', value_prop=make()),
                    'union': lambda: P.Union('', [make()])}[wrap]
            form = type('Form', (P.HasProperties,), {'q': prop()})
            inner, outer = {
                'instance': (lambda o: o.q.p, {'p': data}),
                'dict': (lambda o: o.q['k'], {'k': data}),
                'union': (lambda o: o.q, data)}.get(
                    wrap, (lambda o: o.q[0], [data]))
            outer = {'q': outer}
        text = json.dumps(outer)
        parsed = json.loads(text)
        out = core.attempt(form.deserialize, parsed)
        ctx.step()
        label = '%s of %s' % (wrap, text[:80])
        if want == types.NO:
            core.expect(ctx, out, (ValueError, TypeError), label)
        else:
            obj = core.expect_ok(ctx, out, label)
            ctx.same(inner(obj), want, label)
            again = core.expect_ok(ctx, core.attempt(
                form.deserialize, json.loads(json.dumps(obj.serialize()))),
                                   label)
            ctx.same(inner(again), want, label + ' again')
        ctx.check(json.dumps(parsed) == text, label + ': input changed')
        ctx.state(label)
    for make, data, want in foreign_rows():
        for wrap in ('bare', 'instance', 'list', 'tuple', 'dict', 'union'):
            if wrap == 'union' and isinstance(data, (list, dict)) and \
                    want == types.NO:
                continue
            if not core.case(ctx, (wrap, core.show(data)), one, make, data,
                             want, wrap):
                return


def flatten(data, wname):
    val = data['p']
    if wname in ('bare', 'union'):
        return [val]
    if wname == 'dict':
        return [val[k] for k in ('x', 'y')]
    if wname == 'list of lists':
        return [v for sub in val for v in sub]
    if wname == 'instance':
        return [val['q']]
    return list(val)


def scenarios(tier):
    yield ('names', lambda ctx: names.named(ctx, names.trip))
    yield ('sizes', lambda ctx: sizes.matrix(ctx, sizes.trip))
    yield ('depths', lambda ctx: depths.matrix(ctx, depths.trip))
    yield ('nested containers', lambda ctx: depths.nested(ctx, depths.saved))
    quick = tier != 'thorough'
    limit = 4 if quick else 8
    yield 'bare values', lambda ctx: bare(ctx, quick)
    yield 'arrays and others', more_bare
    yield 'one holder', lambda ctx: held(ctx, limit, None)
    for outer in ('tuple', 'list', 'watched list', 'coercing list', 'set',
                  'dict value', 'dict key', 'watched dict', 'union'):
        yield 'inside ' + outer, lambda ctx, outer=outer: held(
            ctx, limit, outer)
    yield 'instances', lambda ctx: instances(ctx, not quick)
    yield 'unions', unions
    yield 'registered functions', registered
    yield 'data of others', foreign
    yield 'static conversion', lambda ctx: static(ctx, quick)
