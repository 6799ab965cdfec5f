"""P27: registered serializers and deserializers."""
import functools
import itertools
import json

import properties as P
from properties.extras import HasUID, Pointer

from mc import core

PROPERTY = 'P27'
BOUNDS = ('4 leaf types x 17 holders (bare, tuple, list, set, dictionary values '
          'and keys, unions, instances and two-level combinations) x converters '
          'registered on the leaf, on the holder or on both x 8 kinds of '
          'callables (function of the value, of the value and keywords, method, '
          'callable object, partial, class, builtin, lambda) x every combination '
          'of 3 flags and extra keywords; values: unset, falsy, usual, several; '
          'converters of one direction only, failing ones, ones that return '
          'None or invalid values; dynamic and renamed properties, identified '
          'instances, copies')
ASSUMPTIONS = ['a function that takes keywords and raises TypeError may be '
               'called again without keywords, as accept_kwargs documents']

LOG = []


class Box(object):
    """A value that only an own serializer knows."""

    def __init__(self, load):
        self.load = load

    def __eq__(self, other):
        return type(other) is Box and other.load == self.load

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(('Box', self.load))

    def __repr__(self):
        return 'Box(%r)' % (self.load,)


class Inner(P.HasProperties):
    num = P.Integer('')


# leaf name -> (property, values, to serialized, from serialized, is bad)
LEAVES = {
    'int': (lambda **k: P.Integer('', **k), [0, 5, -3],
            lambda v: 'n%d' % v, lambda s: int(s[1:])),
    'str': (lambda **k: P.String('', **k), ['', 'a', 'b'],
            lambda v: 's' + v, lambda s: s[1:]),
    'box': (lambda **k: P.Property('', **k), [Box(''), Box('x'), Box('y')],
            lambda v: 'b' + v.load, lambda s: Box(s[1:])),
    'inst': (lambda **k: P.Instance('', Inner, **k),
             [Inner(num=0), Inner(num=4), Inner(num=5)],
             lambda v: 'i%d' % v.num, lambda s: Inner(num=int(s[1:]))),
}


def key_of(value):
    return ('inner', value.num) if isinstance(value, Inner) else value


def same_value(one, two):
    if isinstance(one, Inner) and isinstance(two, Inner):
        return one.num == two.num
    if type(one) is not type(two):
        return False
    if isinstance(one, (list, tuple)):
        return (len(one) == len(two) and
                all(same_value(a, b) for a, b in zip(one, two)))
    if isinstance(one, set):
        return sorted(map(repr, map(key_of, one))) == sorted(
            map(repr, map(key_of, two)))
    if isinstance(one, dict):
        return (list(map(key_of, one)) == list(map(key_of, two)) and
                same_value(list(one.values()), list(two.values())))
    return one == two


# holder -> (property from leaf property, values from leaf values, mapping of
# serialized leaves to the serialized holder, leaf values in order)
class Holder(object):
    def __init__(self, make, values, mapped, inside=None, hashed=False,
                 unordered=False):
        self.make, self.values, self.mapped = make, values, mapped
        self.hashed, self.unordered = hashed, unordered
        self.leaves = inside


def flat(value):
    """Leaf values of a holder value, in order."""
    if isinstance(value, (list, tuple, set)):
        return [w for v in value for w in flat(v)]
    return [value]


def holders():
    yield 'bare', Holder(lambda leaf, **k: leaf, lambda v: v,
                         lambda v, f: f(v), flat)
    yield 'list', Holder(
        lambda leaf, **k: P.List('', leaf, **k),
        lambda v: [[v[0]], [v[1], v[0]], [], v],
        lambda v, f: [f(w) for w in v], flat)
    yield 'seen list', Holder(
        lambda leaf, **k: P.List('', leaf, observe_mutations=True, **k),
        lambda v: [[v[0]], [v[1], v[0]]],
        lambda v, f: [f(w) for w in v], flat)
    yield 'tuple', Holder(
        lambda leaf, **k: P.Tuple('', leaf, **k),
        lambda v: [(v[0],), (v[1], v[0]), (), tuple(v)],
        lambda v, f: [f(w) for w in v], flat)
    yield 'set', Holder(
        lambda leaf, **k: P.Set('', leaf, **k),
        lambda v: [{v[0]}, {v[1], v[0]}, set()],
        lambda v, f: [f(w) for w in v], flat, hashed=True)
    yield 'values', Holder(
        lambda leaf, **k: P.Dictionary('', value_prop=leaf, **k),
        lambda v: [{'k': v[0]}, {'j': v[1], 'k': v[0]}, {}],
        lambda v, f: {k: f(w) for k, w in v.items()},
        lambda v: list(v.values()))
    yield 'keys', Holder(
        lambda leaf, **k: P.Dictionary('', key_prop=leaf, **k),
        lambda v: [{v[0]: 1}, {v[1]: 1, v[0]: 2}, {}],
        lambda v, f: {f(w): k for w, k in v.items()}, list, hashed=True)
    yield 'union first', Holder(
        lambda leaf, **k: P.Union('', [leaf, P.DateTime('')], **k),
        lambda v: v, lambda v, f: f(v), flat)
    yield 'union last', Holder(
        lambda leaf, **k: P.Union('', [P.DateTime(''), leaf], **k),
        lambda v: v, lambda v, f: f(v), flat)
    yield 'list of list', Holder(
        lambda leaf, **k: P.List('', P.List('', leaf), **k),
        lambda v: [[[v[0]]], [[v[1], v[0]], []], [[v[0]], [v[1]]]],
        lambda v, f: [[f(w) for w in u] for u in v], flat)
    yield 'values of tuple', Holder(
        lambda leaf, **k: P.Dictionary('', value_prop=P.Tuple('', leaf), **k),
        lambda v: [{'k': (v[0],)}, {'j': (), 'k': (v[1], v[0])}],
        lambda v, f: {k: [f(w) for w in u] for k, u in v.items()},
        lambda v: [w for u in v.values() for w in u])
    yield 'list of union', Holder(
        lambda leaf, **k: P.List('', P.Union('', [P.DateTime(''), leaf]), **k),
        lambda v: [[v[0]], [v[1], v[0]]],
        lambda v, f: [f(w) for w in v], flat)
    yield 'union of list', Holder(
        lambda leaf, **k: P.Union('', [P.DateTime(''), P.List('', leaf)], **k),
        lambda v: [[v[0]], [v[1], v[0]]],
        lambda v, f: [f(w) for w in v], flat)


HOLDERS = dict(holders())
FLAGS = [dict(), {'extra': 1}, {'extra': None, 'value2': [1]}]


def logged(name, func):
    """The kinds of callables; all but the first two see the keywords."""
    def plain(value):
        LOG.append((name, value, None))
        return func(value)

    def keyed(value, **kwargs):
        LOG.append((name, value, kwargs))
        return func(value)

    def named(value, include_class=None, trusted=None, **kwargs):
        if include_class is not None:
            kwargs['include_class'] = include_class
        if trusted is not None:
            kwargs['trusted'] = trusted
        LOG.append((name, value, kwargs))
        return func(value)

    class Thing(object):
        def method(self, value, **kwargs):
            return keyed(value, **kwargs)

        def __call__(self, value, **kwargs):
            return keyed(value, **kwargs)

        @staticmethod
        def static(value):
            return plain(value)

    def two(first, value, **kwargs):
        return keyed(value, **kwargs)
    return {'plain': plain, 'keyed': keyed, 'named': named,
            'method': Thing().method, 'object': Thing(),
            'static': Thing.static, 'partial': functools.partial(two, 1),
            'lambda': lambda value: plain(value)}


STYLES = list(logged('', None))


def expected_calls(ctx, label, name, values, must, style, unordered=False):
    """LOG holds one call per value, in order, with the keywords."""
    calls = [c for c in LOG if c[0] == name]
    got = [c[1] for c in calls]
    ctx.same(len(got), len(values), '%s: calls of %s' % (label, name))
    pairs = zip(got, values)
    ctx.check(all(same_value(a, b) for a, b in pairs), lambda:
              '%s: %s got %s instead of %s' % (label, name, core.show(got),
                                               core.show(values)))
    for _, _, kwargs in calls:
        if style in ('plain', 'static', 'lambda'):
            continue
        for key in must:
            ctx.check(key in kwargs and kwargs[key] == must[key], lambda:
                      '%s: %s got the keywords %s, expected %s' % (
                          label, name, kwargs, must))
        more = set(kwargs) - set(must) - {'registry', 'assert_valid', 'strict',
                                          'trusted', 'save_dynamic',
                                          'include_class'}
        ctx.check(not more, lambda: '%s: %s got the unknown keywords %s' % (
            label, name, more))


def convert(part, parts):
    def run(ctx):
        combos = [c for c in itertools.product(LEAVES, HOLDERS)
                  if not (HOLDERS[c[1]].hashed and c[0] == 'inst' and
                          ctx.quick)]
        for num, (leaf, holder) in enumerate(combos):
            if num % parts != part:
                continue
            for style in STYLES:
                for where in ('leaf', 'holder', 'both'):
                    if where != 'leaf' and holder == 'bare':
                        continue
                    label = '%s in %s, %s on %s' % (leaf, holder, style, where)
                    core.case(ctx, label, one, ctx, leaf, holder, style, where,
                              label)
                    if ctx.full():
                        return
    return run


def one(ctx, leaf, holder, style, where, label):
    make, values, there, back = LEAVES[leaf]
    hold = HOLDERS[holder]
    originals = hold.values(values)
    table = {}

    def pack(value):
        return {'wrapped': core.show(value)}

    def outer(value):
        res = pack(value)
        table[res['wrapped']] = value
        return res

    def unpack(data):
        return table[data['wrapped']]
    on_leaf = where in ('leaf', 'both')
    on_holder = where in ('holder', 'both')
    inner = make(**(dict(serializer=logged('leaf out', there)[style],
                         deserializer=logged('leaf in', back)[style])
                    if on_leaf else {}))
    more = (dict(serializer=logged('holder out', outer)[style],
                 deserializer=logged('holder in', unpack)[style])
            if on_holder else {})
    prop = hold.make(inner, **more)

    class Sample(P.HasProperties):
        data = prop
        other = P.Integer('', default=1)

        @P.Property('', **more if on_holder else (
            dict(serializer=inner.serializer, deserializer=inner.deserializer)
            if holder == 'bare' else {}))
        def moving(self):
            return self.data

    class Outer(P.HasProperties):
        sample = P.Instance('', Sample)
        many = P.List('', Sample, required=False)
        either = P.Union('', [P.DateTime(''), Sample], required=False)

    for value in originals:
        for include, flags, nest in itertools.product(
                (True, False, None), FLAGS, range(4)):
            if style != 'keyed' and (flags is not FLAGS[1] or
                                     include is None):
                continue
            if ctx.quick and nest and flags is not FLAGS[1]:
                continue
            obj = Sample(data=value)
            stored = obj.data
            if nest == 0:
                root, path = obj, lambda r: r
            elif nest == 1:
                root, path = Outer(sample=obj), lambda r: r['sample']
            elif nest == 2:
                root, path = Outer(many=[obj]), lambda r: r['many'][0]
            else:
                root, path = Outer(either=obj), lambda r: r['either']
            kwargs = dict(flags)
            if include is not None:
                kwargs['include_class'] = include
            where_now = '%s, %s, nested %d, %s' % (label, core.show(value),
                                                   nest, kwargs)
            ctx.trace = [where_now]
            del LOG[:]
            out = core.expect_ok(ctx, core.attempt(
                lambda: root.serialize(**kwargs)), where_now)
            ctx.step()
            want = dict(flags, include_class=include is not False,
                        save_dynamic=False)
            if on_holder:
                expected_calls(ctx, where_now, 'holder out', [stored], want,
                               style)
                expected_calls(ctx, where_now, 'leaf out', [], want, style)
                data = outer(stored)
            else:
                expected_calls(ctx, where_now, 'leaf out',
                               hold.leaves(stored), want, style)
                data = hold.mapped(stored, there)
            ctx.check(not [c for c in LOG if c[0].endswith('in')],
                      where_now + ': a deserializer was called')
            got = path(out)
            ctx.check(got.get('data') == data, lambda: '%s: serialized to %s, '
                      'expected %s' % (where_now, core.show(got),
                                       core.show(data)))
            ctx.same(got.get('other'), 1, where_now + ': other property')
            ctx.same('__class__' in got, include is not False,
                     where_now + ': class name')
            ctx.check(obj.data is stored and same_value(
                type(value)(stored) if isinstance(value, (list, set, dict))
                else stored, value), where_now + ': the value changed')
            # and back
            for trusted, strict in itertools.product((False, True), repeat=2):
                if style != 'keyed' and trusted is not strict:
                    continue
                text = out
                given = dict(flags, trusted=trusted, strict=strict)
                del LOG[:]
                new = core.expect_ok(ctx, core.attempt(
                    lambda: type(root).deserialize(text, **given)),
                    where_now + ' back')
                ctx.step()
                leaf_new = (new if nest == 0 else new.sample if nest == 1 else
                            new.many[0] if nest == 2 else new.either)
                want = dict(given)
                if on_holder:
                    expected_calls(ctx, where_now + ' back', 'holder in',
                                   [data], want, style)
                    expected_calls(ctx, where_now + ' back', 'leaf in', [],
                                   want, style)
                else:
                    expected_calls(ctx, where_now + ' back', 'leaf in',
                                   [there(v) for v in hold.leaves(stored)],
                                   want, style)
                ctx.check(not [c for c in LOG if c[0].endswith('out')],
                          where_now + ': a serializer was called')
                ctx.check(same_value(unseen(leaf_new.data), unseen(stored)),
                          lambda: '%s: came back as %s' % (
                              where_now, core.show(leaf_new.data)))
    # unset values
    for nest in (False, True):
        obj = Sample()
        root = Outer(sample=obj) if nest else obj
        del LOG[:]
        out = core.expect_ok(ctx, core.attempt(root.serialize), label)
        ctx.step()
        got = out['sample'] if nest else out
        ctx.check('data' not in got and not LOG, label + ': unset value')
        del LOG[:]
        new = core.expect_ok(ctx, core.attempt(
            lambda: type(root).deserialize(out)), label)
        ctx.check((new.sample if nest else new).data is None and not LOG,
                  label + ': unset value back')
    ctx.state(label)


def unseen(value):
    """The builtin behind an observable container."""
    for kind in (list, set, dict):
        if isinstance(value, kind):
            return kind(value)
    return value


def directions(ctx):
    """Converters of one direction only, and what they may return."""
    def back(value):
        return value

    results = {
        'text': 'abc', 'zero': 0, 'false': False, 'empty': '', 'list': [],
        'dict': {'__class__': 'Nope', 'a': 1}, 'object': Box('q'),
        'instance': Inner(num=3), 'tuple': (1, 2), 'None': None,
        'undefined': P.undefined,
    }
    for name, res in results.items():
        for make in (lambda **k: P.Integer('', **k),
                     lambda **k: P.Property('', **k),
                     lambda **k: P.List('', P.Integer(''), **k),
                     lambda **k: P.Tuple('', P.Integer(''), **k),
                     lambda **k: P.Dictionary('', **k),
                     lambda **k: P.Union('', [P.Integer(''), P.List(
                         '', P.Integer('')), P.Dictionary('')], **k),
                     lambda **k: P.Instance('', Inner, **k),
                     lambda **k: P.Array('', **k),
                     lambda **k: P.Vector3('', **k),
                     lambda **k: P.Color('', **k),
                     lambda **k: Pointer('', Ident, **k),
                     lambda **k: P.DateTime('', **k)):
            def go():
                cls = type('Sample', (P.HasProperties,), {
                    'data': make(serializer=lambda v: res)})
                kind = type(cls._props['data'])
                value = SAMPLES[kind]()
                obj = cls(data=value)
                out = core.expect_ok(ctx, core.attempt(obj.serialize),
                                     'serialize')
                ctx.step()
                if res is None:
                    ctx.check('data' not in out, 'None is not left out')
                else:
                    ctx.check(out['data'] is res, lambda: '%s serialized to %s '
                              'instead of %s' % (kind.__name__,
                                                 core.show(out['data']),
                                                 core.show(res)))
                bare = core.expect_ok(ctx, core.attempt(
                    lambda: cls._props['data'].serialize(obj.data)), 'bare')
                ctx.check(bare is res, 'serialize of the property')
                # the other direction alone
                cls = type('Sample', (P.HasProperties,), {
                    'data': make(deserializer=lambda v: res)})
                usual = core.attempt(cls, data=res)
                for trusted in (False, True):
                    got = core.attempt(lambda: cls.deserialize(
                        {'data': 'whatever'}, trusted=trusted))
                    ctx.step()
                    if usual[0] == 'ok':
                        new = core.expect_ok(ctx, got, 'deserialize')
                        ctx.check(core.canon(new.data) ==
                                  core.canon(usual[1].data), lambda:
                                  'deserialized to %s, assignment gives %s' % (
                                      core.show(new.data),
                                      core.show(usual[1].data)))
                    else:
                        core.expect(ctx, got, type(usual[1]), 'deserialize')
                bare = core.expect_ok(ctx, core.attempt(
                    lambda: cls._props['data'].deserialize('whatever')),
                    'bare')
                ctx.check(bare is res, 'deserialize of the property')
                ctx.state((name, kind.__name__))
            core.case(ctx, '%s by %s' % (name, make().__class__.__name__), go)
            if ctx.full():
                return


class Ident(HasUID):
    num = P.Integer('', required=False)


SAMPLES = {
    P.Integer: lambda: 3, P.Property: lambda: 'x', P.List: lambda: [1],
    P.Tuple: lambda: (1,), P.Dictionary: lambda: {'a': 1},
    P.Union: lambda: 3, P.Instance: lambda: Inner(num=1),
    P.Array: lambda: [1.], P.Vector3: lambda: [1, 2, 3],
    P.Color: lambda: 'red', Pointer: Ident, P.DateTime: lambda: '2020/02/03',
}


def failures(ctx):
    """A converter that fails: its error comes out, nothing is left behind."""
    class Own(Exception):
        pass
    errors = [Own('x'), ValueError('x'), KeyError('x'), AttributeError('x'),
              TypeError('x'), RuntimeError('x')]

    def build_classes(err, armed):
        def ser(value):
            if armed[0]:
                raise err
            return value

        class Sample(P.HasProperties):
            data = P.Integer('', serializer=ser, deserializer=ser)
            after = P.Integer('', default=2)

        class Outer(P.HasProperties):
            first = P.Integer('', default=3)
            sample = P.Instance('', Sample, required=False)
            many = P.List('', Sample, required=False)
            table = P.Dictionary('', value_prop=P.Instance('', Sample),
                                 required=False)
            loop = P.Instance('', P.HasProperties, required=False)
        return Sample, Outer
    for err in errors:
        for shape in range(4):
            def go():
                armed = [False]
                Sample, Outer = build_classes(err, armed)
                one = Sample(data=1)
                root = [lambda: one, lambda: Outer(sample=one),
                        lambda: Outer(many=[Sample(data=4), one]),
                        lambda: Outer(table={'k': one})][shape]()
                fine = root.serialize()
                before = core.canon(root)
                for _ in range(2):
                    armed[0] = True
                    got = core.expect(ctx, core.attempt(root.serialize),
                                      type(err), 'serialize')
                    ctx.check(got is err, 'another error')
                    ctx.step()
                    got = core.expect(ctx, core.attempt(
                        lambda: type(root).deserialize(fine)), type(err),
                        'deserialize')
                    ctx.check(got is err, 'another error')
                    ctx.step()
                    core.expect(ctx, core.attempt(lambda: P.copy(root)),
                                type(err), 'copy')
                    ctx.check(core.canon(root) == before, 'it changed')
                    armed[0] = False
                    again = core.expect_ok(ctx, core.attempt(root.serialize),
                                           'serialize again')
                    ctx.check(again == fine, 'serialized differently')
                    new = core.expect_ok(ctx, core.attempt(
                        lambda: type(root).deserialize(fine)), 'again')
                    ctx.check(P.equal(new, root), 'deserialized differently')
                    ctx.check(P.equal(P.copy(root), root), 'copied')
                    core.expect_ok(ctx, core.attempt(root.validate), 'valid')
                # listeners work after a failing deserialization
                seen = []
                P.observer(root, 'data' if shape == 0 else 'first',
                           lambda obj, change: seen.append(change))
                setattr(root, 'data' if shape == 0 else 'first', 9)
                ctx.same(len(seen), 1, 'listeners')
                ctx.state((type(err).__name__, shape))
            core.case(ctx, '%s, shape %d' % (type(err).__name__, shape), go)


def views(ctx):
    """Dynamic and renamed properties, identified instances, subclasses."""
    def out(value, **kwargs):
        LOG.append(('out', value, kwargs))
        return None if value is None else ['o', value]

    def back(value, **kwargs):
        LOG.append(('in', value, kwargs))
        return value[1]

    class Sample(P.HasProperties):
        data = P.Integer('', serializer=out, deserializer=back)
        old = P.Renamed('data', warn=False)
        own = P.Renamed('data', warn=False)

        @P.Integer('', serializer=out)
        def twice(self):
            return None if self.data is None else 2 * self.data

        @P.Integer('', serializer=lambda v: 'const')
        def const(self):
            return 7

    class Child(Sample):
        extra = P.Integer('', required=False)

    class Override(Sample):
        data = P.Integer('', required=False)

    class Node(HasUID):
        data = P.Integer('', serializer=out, deserializer=back,
                         required=False)
        mate = P.Instance('', HasUID, required=False)
        point = Pointer('', HasUID, required=False)

    def dynamic():
        for cls, value, save, flags in itertools.product(
                (Sample, Child), (None, 0, 4), (False, True),
                ({}, {'extra': 2})):
            ctx.trace = [str((cls.__name__, value, save, flags))]
            obj = cls()
            if value is not None:
                obj.data = value
            del LOG[:]
            res = obj.serialize(save_dynamic=save, **flags)
            ctx.step()
            if value is None:
                ctx.check('data' not in res and 'twice' not in res, 'unset')
            else:
                ctx.same(res.get('data'), ['o', value], 'data')
                ctx.same('twice' in res, save, 'dynamic value')
                if save:
                    ctx.same(res['twice'], ['o', 2 * value], 'dynamic value')
            ctx.same(res.get('const'), 'const' if save else None, 'constant')
            for _, val, kwargs in LOG:
                if val is not None:
                    ctx.same(kwargs, dict(flags, include_class=True,
                                          save_dynamic=save), 'keywords')
            for name in ('data', 'old', 'own'):
                for trusted in (False, True):
                    del LOG[:]
                    new = cls.deserialize({name: ['o', 5], 'twice': ['o', 8]},
                                          trusted=trusted, **flags)
                    ctx.step()
                    ctx.same(new.data, 5, 'by ' + name)
                    ctx.same(new.twice, 10, 'dynamic value')
                    for _, val, kwargs in LOG:
                        ctx.same({k: kwargs[k] for k in kwargs
                                  if k != '_instance'},
                                 dict(flags, trusted=trusted, strict=False),
                                 'keywords')
                    ctx.check([c[1] for c in LOG if c[1] == ['o', 5]] ==
                              [['o', 5]], 'calls')
            ctx.state((cls.__name__, value, save, tuple(flags)))
        obj = Override(data=3)
        del LOG[:]
        ctx.same(obj.serialize(include_class=False), {'data': 3}, 'overridden')
        ctx.same(Override.deserialize({'data': 4}).data, 4, 'overridden')
        ctx.check(not LOG, 'the overridden serializer was called')

    def identified():
        for shape, include, flags in itertools.product(
                range(3), (True, False), ({}, {'extra': 2})):
            ctx.trace = [str((shape, include, flags))]
            one, two = Node(uid='one', data=1), Node(uid='two', data=2)
            if shape:
                one.mate = two
                one.point = two if shape == 2 else 'two'
                two.mate = one
            del LOG[:]
            res = one.serialize(include_class=include, **flags)
            ctx.step()
            names = ['one'] + (['two'] if shape else [])
            for num, name in enumerate(names):
                ctx.same(res[name]['data'], ['o', num + 1], 'data of ' + name)
            ctx.same([c[1] for c in LOG], sorted([c[1] for c in LOG]), 'order')
            ctx.same(len(LOG), len(names), 'calls')
            for _, _, kwargs in LOG:
                kwargs.pop('registry', None)
                ctx.same(kwargs, dict(flags, include_class=include,
                                      save_dynamic=False), 'keywords')
            HasUID._INSTANCES.clear()
            del LOG[:]
            new = Node.deserialize(res, trusted=True, **flags)
            ctx.step()
            ctx.same(new.data, 1, 'back')
            if shape and include:
                ctx.same(new.mate.data, 2, 'mate')
                ctx.check(new.mate.mate is new, 'loop')
                ctx.same(len(LOG), 2, 'calls back')
            for _, _, kwargs in LOG:
                ctx.check(kwargs.get('trusted') is True and
                          kwargs.get('strict') is False and
                          all(kwargs.get(k) == v for k, v in flags.items()),
                          'keywords')
            HasUID._INSTANCES.clear()
            ctx.state((shape, include, tuple(flags)))

    def copies():
        class Own(P.HasProperties):
            data = P.Property('', serializer=out, deserializer=back)
            many = P.List('', P.Property('', serializer=out,
                                         deserializer=back), required=False)
        for value, many, flags in itertools.product(
                (None, 0, Box('x'), 'text', [1]),
                (None, [], [Box('y'), 3]), ({}, {'extra': 4})):
            ctx.trace = [str((value, many, flags))]
            obj = Own()
            if value is not None:
                obj.data = value
            if many is not None:
                obj.many = many
            del LOG[:]
            new = core.expect_ok(ctx, core.attempt(
                lambda: P.copy(obj, **flags)), 'copy')
            ctx.step()
            ctx.check(new.data == value and new.many == many, lambda:
                      'copied to %s and %s' % (new.data, new.many))
            ctx.check(P.equal(new, obj), 'copy is not equal')
            count = (value is not None) + len(many or [])
            for kind in ('out', 'in'):
                ctx.same(len([c for c in LOG if c[0] == kind]), count,
                         'calls of ' + kind)
            for _, _, kwargs in LOG:
                ctx.check(all(kwargs.get(k) == v for k, v in flags.items()),
                          'keywords')
            ctx.state((repr(value), repr(many), tuple(flags)))

    def builtins():
        cases = [(P.Integer(''), str, int, 5, '5'),
                 (P.Property(''), json.dumps, json.loads, {'a': [1]},
                  '{"a": [1]}'),
                 (P.Float(''), repr, float, 1.5, '1.5'),
                 (P.Integer(''), hex, functools.partial(int, base=16), 255,
                  '0xff'),
                 (P.Property(''), list, tuple, (1, 2), [1, 2]),
                 (P.String(''), str.upper, str.lower, 'abc', 'ABC')]
        for prop, ser, des, value, data in cases:
            ctx.trace = [repr((ser, des))]
            cls = type('Own', (P.HasProperties,), {'data': type(prop)(
                '', serializer=ser, deserializer=des)})
            obj = cls(data=value)
            res = core.expect_ok(ctx, core.attempt(obj.serialize), 'out')
            ctx.same(res['data'], data, 'serialized')
            new = core.expect_ok(ctx, core.attempt(
                lambda: cls.deserialize(res)), 'in')
            ctx.same(new.data, value, 'deserialized')
            ctx.step(2)
            ctx.state(repr(ser))
    def renames():
        """A renamed property with converters of its own."""
        def own_out(value, **kwargs):
            LOG.append(('own', value, kwargs))
            return None if value is None else {'own': value}

        def own_back(value, **kwargs):
            LOG.append(('ownin', value, kwargs))
            return value['own']
        for ser, des, typed, value in itertools.product(
                (False, True), (False, True), (False, True), (None, 0, 4)):
            data = dict(serializer=out, deserializer=back) if typed else {}
            mine = dict([('serializer', own_out)] * ser +
                        [('deserializer', own_back)] * des)
            cls = type('Own', (P.HasProperties,), {
                'data': P.Integer('', **data),
                'alias': P.Renamed('data', warn=False, **mine),
                'twice': P.Renamed('alias', warn=False)})
            obj = cls()
            if value is not None:
                obj.data = value
            ctx.trace = [str((ser, des, typed, value))]
            for save in (False, True):
                del LOG[:]
                res = core.expect_ok(ctx, core.attempt(
                    lambda: obj.serialize(save_dynamic=save, extra=1)), 'out')
                ctx.step()
                plain = None if value is None else (
                    ['o', value] if typed else value)
                ctx.same(res.get('data'), plain, 'data')
                if ser or not des:
                    want = None if not save or value is None else (
                        {'own': value} if ser else plain)
                    ctx.same(res.get('alias'), want, 'alias')
                ctx.check(all(c[2] == {
                    'include_class': True, 'save_dynamic': save, 'extra': 1}
                    for c in LOG if c[1] is not None), 'keywords')
            if value is None:
                continue
            for name, given in (('data', ['o', value] if typed else value),
                                ('alias', {'own': value} if des else
                                 ['o', value] if typed else value)):
                if name == 'alias' and ser and not des:
                    continue
                del LOG[:]
                new = core.expect_ok(ctx, core.attempt(
                    lambda: cls.deserialize({name: given}, extra=1)), 'in')
                ctx.step()
                ctx.same(new.data, value, 'by ' + name)
                ctx.same([c[0] for c in LOG], [
                    'ownin' if name == 'alias' and des else 'in'] if
                    typed or (name == 'alias' and des) else [], 'calls')
            ctx.state((ser, des, typed, value))

    def bare():
        """Converting with a property, without any keywords."""
        def alike(got, want, what):
            ctx.check(got == want, lambda: '%s: got %s, expected %s' % (
                what, got, want))

        class Leaf(P.HasProperties):
            num = P.Integer('', required=False)

        class Sub(Leaf):
            pass
        conv = dict(serializer=out, deserializer=back)
        makers = {
            'any': lambda **k: P.Property('', **k),
            'int': lambda **k: P.Integer('', **k),
            'tuple': lambda **k: P.Tuple('', P.Property('', **conv), **k),
            'list': lambda **k: P.List('', P.Property('', **conv), **k),
            'set': lambda **k: P.Set('', P.Property('', **conv), **k),
            'keys': lambda **k: P.Dictionary(
                '', key_prop=P.String('', serializer=log_out,
                                      deserializer=log_back), **k),
            'values': lambda **k: P.Dictionary(
                '', value_prop=P.Property('', **conv), **k),
            'union': lambda **k: P.Union('', [P.Integer('', **conv)], **k),
            'instance': lambda **k: P.Instance('', Holder1, **k),
            'pointer': lambda **k: Pointer('', Ident, **k),
        }

        def log_out(value, **kwargs):
            LOG.append(('out', value, kwargs))
            return value

        def log_back(value, **kwargs):
            LOG.append(('in', value, kwargs))
            return value

        class Holder1(P.HasProperties):
            data = P.Integer('', serializer=out, deserializer=back)
        samples = {
            'any': (5, ['o', 5]), 'int': (5, ['o', 5]),
            'tuple': ((5, 6), [['o', 5], ['o', 6]]),
            'list': ([5, 6], [['o', 5], ['o', 6]]),
            'set': ({5}, [['o', 5]]),
            'keys': ({'k': 1}, {'k': 1}), 'values': ({'k': 1},
                                                     {'k': ['o', 1]}),
            'union': (5, ['o', 5]), 'instance': (
                Holder1(data=5), {'__class__': 'Holder1', 'data': ['o', 5]}),
            'pointer': ('some', 'some'),
        }
        for name, make in makers.items():
            own = name in ('any', 'int')
            prop = make(**(conv if own else {}))
            value, data = samples[name]
            for flags in ({}, {'extra': 1}, {'include_class': False},
                          {'include_class': True, 'save_dynamic': True}):
                del LOG[:]
                res = core.expect_ok(ctx, core.attempt(
                    lambda: prop.serialize(value, **flags)), 'serialize')
                ctx.step()
                want = dict(data) if isinstance(data, dict) else data
                if flags.get('include_class') is False and name == 'instance':
                    want.pop('__class__')
                alike(res, want, 'serialized ' + name)
                ctx.check(LOG or name == 'pointer', 'no call')
                for call in LOG:
                    ctx.check({k: v for k, v in call[2].items()
                               if k != 'save_dynamic' or 'save_dynamic' in
                               flags} == dict({'include_class': True},
                                              **flags), lambda:
                              'serializer of %s got keywords %s for %s' % (
                                  name, call[2], flags))
            for flags in ({}, {'extra': 1}, {'trusted': True},
                          {'trusted': False, 'strict': True}):
                del LOG[:]
                res = core.expect_ok(ctx, core.attempt(
                    lambda: prop.deserialize(data, **flags)), 'deserialize')
                ctx.step()
                ctx.check(P.equal(res, value), lambda: 'deserialized %s to %s'
                          % (name, core.show(res)))
                for call in LOG:
                    ctx.check({k: v for k, v in call[2].items()
                               if k in flags or k not in (
                                   'strict', 'assert_valid')} ==
                              dict({'trusted': False}, **flags), lambda:
                              'deserializer of %s got keywords %s for %s' % (
                                  name, call[2], flags))
            if not own:
                ctx.same(prop.serialize(None), None, 'None of ' + name)
                ctx.same(prop.deserialize(None), None, 'None of ' + name)
            ctx.state(name)
        # classes of nested instances are named at every level by default
        leaf = {'__class__': 'Sub', 'num': 2}
        nests = [
            (P.Instance('', Leaf), Sub(num=2), leaf),
            (P.List('', Leaf), [Sub(num=2)], [leaf]),
            (P.Tuple('', Leaf), (Sub(num=2),), [leaf]),
            (P.Set('', Leaf), {Sub(num=2)}, [leaf]),
            (P.Dictionary('', value_prop=P.Instance('', Leaf)),
             {'k': Sub(num=2)}, {'k': leaf}),
            (P.Union('', [P.Integer(''), Leaf]), Sub(num=2), leaf),
            (P.List('', P.List('', P.Union('', [Leaf]))), [[Sub(num=2)]],
             [[leaf]]),
            (P.Dictionary('', value_prop=P.Tuple('', Leaf)),
             {'k': (Sub(num=2),)}, {'k': [leaf]}),
        ]

        def strip(data):
            if isinstance(data, dict):
                return {k: strip(v) for k, v in data.items()
                        if k != '__class__'}
            return [strip(d) for d in data] if isinstance(data, list) else data

        def kinds(value):
            if isinstance(value, P.HasProperties):
                return [type(value), value.num]
            if isinstance(value, dict):
                return [kinds(v) for v in value.values()]
            if isinstance(value, (list, tuple, set)):
                return [kinds(v) for v in value]
            return []

        def swap(want, cls):
            return [swap(w, cls) if isinstance(w, list) else
                    cls if isinstance(w, type) else w for w in want]
        for num, (prop, value, data) in enumerate(nests):
            ctx.trace = ['nested %d' % num]
            alike(prop.serialize(value), data, 'default')
            alike(prop.serialize(value, include_class=True), data, 'asked')
            alike(prop.serialize(value, include_class=False), strip(data),
                     'without')
            want = kinds(value)
            ctx.same(kinds(prop.deserialize(data, trusted=True)), want,
                     'trusted')
            ctx.same(kinds(prop.deserialize(data)), swap(want, Leaf),
                     'untrusted by default')
            ctx.same(kinds(prop.deserialize(data, trusted=False)),
                     swap(want, Leaf), 'untrusted')
            if num not in (5, 6):
                # a union keeps the data that none of its members accepts
                core.expect(ctx, core.attempt(
                    lambda: prop.deserialize(data, strict=True)), ValueError,
                    'strict')
            ctx.step(7)
            ctx.state(('nested', num))

    def copy_flags():
        class Leaf(P.HasProperties):
            num = P.Integer('', serializer=out, deserializer=back)

        class Sub(Leaf):
            pass

        class Top(P.HasProperties):
            leaf = P.Instance('', Leaf)
            old = P.Renamed('leaf', warn=False)
        for trusted, include, save, strict, extra in itertools.product(
                (None, False, True), (None, False, True),
                (None, False, True), (None, False, True), (False, True)):
            flags = {k: v for k, v in (
                ('trusted', trusted), ('include_class', include),
                ('save_dynamic', save), ('strict', strict))
                if v is not None}
            if extra:
                flags['extra'] = 3
            if save and strict:
                continue
            obj = Top(leaf=Sub(num=3))
            ctx.trace = [str(flags)]
            del LOG[:]
            got = core.attempt(lambda: P.copy(obj, **flags))
            ctx.step()
            if strict and trusted is False and include is not False:
                core.expect(ctx, got, ValueError, 'strict copy')
                continue
            new = core.expect_ok(ctx, got, 'copy')
            named = include is not False and trusted is not False
            ctx.same([type(new), type(new.leaf), new.leaf.num],
                     [Top, Sub if named else Leaf, 3], 'copy')
            for what, _, kwargs in LOG:
                kwargs = {k: v for k, v in kwargs.items()
                          if k != '_instance'}
                ctx.same(kwargs.get('extra'), 3 if extra else None, 'extra')
                if what == 'out':
                    ctx.same((kwargs['include_class'],
                              kwargs['save_dynamic']),
                             (include is not False, bool(save)), 'keywords')
                else:
                    ctx.same((kwargs['trusted'], kwargs['strict']),
                             (trusted is not False, bool(strict)), 'keywords')
            ctx.check({c[0] for c in LOG} == {'out', 'in'}, 'calls')
            ctx.state(tuple(sorted(flags.items())))
    for func in (dynamic, identified, copies, builtins, renames, bare,
                 copy_flags):
        core.case(ctx, func.__name__, func)


def scenarios(tier):
    for part in range(8):
        yield ('convert %d' % part, convert(part, 8))
    for func in (directions, failures, views):
        yield (func.__name__, func)
