"""P28: pickled and deep-copied instances against isomorphism and models."""
import copy
import datetime
import itertools
import pickle
import uuid

import numpy as np

import properties as P
from properties import extras as X

from mc import core, depths, types

PROPERTY = 'P28'
BOUNDS = ('every pickle protocol and copy.deepcopy: every accepted value of '
          'every primitive, container, union, array, vector, identifier and '
          'instance type; every graph over 1, 2 (instance, list, tuple, set, '
          'dictionary, union, plain property and shared plain values) and 3 '
          '(instance, list) nodes; every program of 4 / 5 actions on an '
          'original and its copies, with its listeners; every program of '
          '4 / 5 actions on linked instances and their copies')
ASSUMPTIONS = ['user values (listeners, transforms, factories) are picklable '
               'themselves; copy.copy and singletons are not covered']


def pickled(proto):
    return lambda val: pickle.loads(pickle.dumps(val, proto))


METHODS = {'pickle %d' % i: pickled(i)
           for i in range(pickle.HIGHEST_PROTOCOL + 1)}
METHODS['deepcopy'] = copy.deepcopy
TWO = ('pickle 2', 'deepcopy')


def export(cls):
    """Make a class importable by name, as pickle needs it."""
    cls.__module__ = __name__
    cls.__qualname__ = cls.__name__
    globals()[cls.__name__] = cls
    return cls


# -- values -------------------------------------------------------------------
class Part(P.HasProperties):
    num = P.Integer('', required=False)
    tags = P.List('', P.String(''), default=list)

    def __repr__(self):
        return 'Part(%r, %r)' % (self.num, self.tags)


def more():
    """(name, property, accepted values) beyond the primitives."""
    ints = [1, 0, -5]
    yield 'list', P.List('', P.Integer('')), [[], [1], [0, 2, 2]]
    yield 'list2', P.List('', P.List('', P.Integer(''))), [[], [[]], [[1], []]]
    yield 'tuple', P.Tuple('', P.String('')), [(), ('',), ('a', 'b')]
    yield 'set', P.Set('', P.Integer('')), [set(), {0}, {1, 2}]
    yield 'dict', P.Dictionary('', key_prop=P.String(''),
                               value_prop=P.Integer('')), [
        {}, {'': 0}, {'b': 1, 'a': 2}]
    yield 'plain', P.Property(''), ints + [
        None, [], {}, [[1], {'a': (1, {2})}], (), '', 1j, b'x']
    yield 'array', P.Array('', shape=('*',), dtype=(float, int)), [
        np.array([1.5, 2.5]), np.array([1, 2]), [0., 1.]]
    yield 'array2', P.Array('', shape=('*', '*')), [
        np.array([[1.5, 2.5]]), np.zeros((2, 2))]
    yield 'vector2', P.Vector2(''), [[1, 2], 'x', 'Y']
    yield 'vector3', P.Vector3('', length=2), [[1, 2, 3], 'x', 'up']
    yield 'vectors', P.Vector3Array(''), [
        [[1., 2., 3.]], ['x', 'y'], [[0, 0, 1], [1, 1, 1]]]
    yield 'union', P.Union('', [P.Integer(''), P.String(''),
                                P.List('', P.Integer(''))]), [
        1, 0, '', 'a', [], [1]]
    yield 'moments', P.List('', P.DateTime('')), [
        [datetime.datetime(2000, 1, 2, 3, 4, 5, 6)], ['2001-02-03']]
    yield 'parts', P.List('', Part), [[Part()], [Part(num=1), Part(num=0)]]
    yield 'part', P.Instance('', Part), [Part(num=5, tags=['a'])]
    yield 'loose', P.Instance('', dict), [{}, {'a': [1]}]


class Quiet(P.HasProperties):
    """Base of the holders: counts what it hears."""
    heard = []

    @P.observer(P.everything)
    def _hear(self, change):
        Quiet.heard.append(change['name'])


def values(part, parts):
    def run(ctx):
        count = 0
        catalog = []
        for i, spec in enumerate(types.primitive_specs(True)):
            catalog.append((spec.name, spec.make, [
                v for v, _ in spec.accepted()], spec.rejected()))
        for name, _, vals in more():
            catalog.append((name, lambda name=name: next(
                p for n, p, _ in more() if n == name), vals, []))
        for i, (name, make, vals, bad) in enumerate(catalog):
            if i % parts != part:
                continue
            holder = export(type(Quiet)('Holder%d' % i, (Quiet,), {
                'p': make(), 'other': P.Integer('', default=3),
                'never': P.String('', required=False)}))
            seen = set()
            for val in vals:
                try:
                    pickle.dumps(val)
                except Exception:
                    continue
                key = repr(val)
                if key in seen:
                    continue
                seen.add(key)
                for method in METHODS if len(seen) < 4 else TWO:
                    def go(val=val, method=method):
                        one(ctx, holder, val, method, bad[:3])
                    if not core.case(ctx, '%s = %r by %s' % (
                            name, val, method), go):
                        return
                    count += 1
        ctx.sample('%d copies' % count)
    return run


def stored(inst):
    return {k: inst._backend[k] for k in inst._backend} if hasattr(
        inst, '_backend') else {k: getattr(inst, k) for k in inst._props}


def reads(inst):
    return {name: getattr(inst, name) for name in inst._props}


def mutable(val):
    return isinstance(val, (list, dict, set, np.ndarray, P.HasProperties))


def one(ctx, holder, val, method, bad):
    orig = holder()
    orig.p = types.fresh(val)
    before = reads(orig)
    del Quiet.heard[:]
    dup = METHODS[method](orig)
    ctx.step()
    ctx.check(Quiet.heard == [], 'copying notified %s' % Quiet.heard)
    ctx.check(type(dup) is holder and dup is not orig,
              'the copy is %r' % (dup,))
    ctx.check(list(dup._props) == list(orig._props), 'properties differ')
    got, now = reads(dup), reads(orig)
    for name in before:
        ctx.check(alike(got[name], before[name]), lambda: 'the copy reads %s '
                  '= %s, the original %s' % (
                      name, core.show(got[name]), core.show(before[name])))
        ctx.check(now[name] is before[name], 'the original changed %s' % name)
        ctx.check(not mutable(got[name]) or got[name] is not before[name],
                  'the copy shares the value of %s' % name)
    ctx.check(type(got['p']) is type(before['p']), lambda:
              'the copy has a %s' % type(got['p']).__name__)
    # the copy works, and alone
    dup.other = 4
    ctx.check(Quiet.heard == ['other'], 'the copy notifies %s' % Quiet.heard)
    ctx.check(orig.other == 3, 'the copy writes to the original')
    for wrong in bad:
        ctx.check(core.attempt(setattr, dup, 'p', wrong)[0] == core.ERR,
                  'the copy accepts %r' % (wrong,))
    dup.never = 'x'
    ctx.check(orig.never is None, 'the copy writes to the original')
    orig.other = 5
    ctx.check(dup.other == 4, 'the original writes to the copy')
    del dup.p
    ctx.check(dup.p is None and orig.p is before['p'],
              'deleting from the copy')
    ctx.state((holder.__name__, repr(val), method))


def alike(one_, two):
    """Same value and type; instances by their properties."""
    if type(one_) is not type(two):
        return False
    if isinstance(one_, P.HasProperties):
        a, b = reads(one_), reads(two)
        return list(a) == list(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(one_, (list, tuple)):
        return len(one_) == len(two) and all(
            alike(a, b) for a, b in zip(one_, two))
    if isinstance(one_, dict):
        return list(one_) == list(two) and all(
            alike(one_[k], two[k]) for k in one_)
    if isinstance(one_, np.ndarray):
        return one_.dtype == two.dtype and one_.shape == two.shape and \
            bool((one_ == two).all())
    if one_ != one_:
        return two != two
    if type(one_) is object or type(one_).__eq__ is object.__eq__:
        return one_.__dict__ == two.__dict__ if hasattr(
            one_, '__dict__') else True
    return bool(one_ == two)


# -- graphs -------------------------------------------------------------------
class GNode(P.HasProperties):
    num = P.Integer('', default=1)
    ref = P.Instance('', P.HasProperties, required=False)


class GList(GNode):
    many = P.List('', P.Instance('', P.HasProperties), required=False)


class GTuple(GNode):
    many = P.Tuple('', P.Instance('', P.HasProperties), required=False)


class GDict(GNode):
    many = P.Dictionary('', key_prop=P.String(''),
                        value_prop=P.Instance('', P.HasProperties),
                        required=False)


class GUnion(GNode):
    many = P.Union('', [P.Integer(''),
                        P.List('', P.Instance('', P.HasProperties))],
                   required=False)


class GSet(GNode):
    many = P.Set('', P.Instance('', P.HasProperties), required=False)


class GPlain(GNode):
    many = P.Property('', required=False)


class GUid(X.HasUID):
    num = P.Integer('', default=1)
    ref = X.Pointer('', X.HasUID, required=False)
    many = P.List('', X.Pointer('', X.HasUID), required=False)


class GSeen(GNode):
    many = P.List('', P.Instance('', P.HasProperties), required=False,
                  observe_mutations=True)


class GSeenSet(GNode):
    many = P.Set('', P.Instance('', P.HasProperties), required=False,
                 observe_mutations=True)


class GSeenDict(GNode):
    many = P.Dictionary('', key_prop=P.String(''),
                        value_prop=P.Instance('', P.HasProperties),
                        required=False, observe_mutations=True)


SHAPES = {
    'list': (GList, list), 'tuple': (GTuple, tuple),
    'dict': (GDict, lambda seq: {'k%d' % i: v for i, v in enumerate(seq)}),
    'union': (GUnion, list), 'set': (GSet, set),
    'plain': (GPlain, lambda seq: [tuple(seq), {'in': list(seq)}]),
    'uid': (GUid, list),
}
SEEN = {'list': (GSeen, list), 'set': (GSeenSet, set),
        'dict': (GSeenDict, lambda seq: {
            'k%d' % i: v for i, v in enumerate(seq)})}


def flat(val):
    if isinstance(val, P.HasProperties):
        return [val]
    if isinstance(val, dict):
        return [x for v in val.values() for x in flat(v)]
    if isinstance(val, (list, tuple)):
        return [x for v in val for x in flat(v)]
    if isinstance(val, (set, frozenset)):
        return sorted((x for v in val for x in flat(v)),
                      key=lambda n: n.num)
    return []


def graphs(kind, size, methods, part, parts, shapes=SHAPES, known=None):
    cls, wrap = shapes[kind]
    targets = [None] + list(range(size))
    subsets = [c for n in range(3) for c in itertools.product(
        range(size), repeat=n)]
    if kind in ('set',) or size == 3:
        subsets = [c for c in subsets if list(c) == sorted(set(c))]
    wires = list(itertools.product(targets, [None] + subsets))

    def one_graph(ctx, spec, method):
        nodes = [cls(num=10 + i) for i in range(size)]
        for node, (ref, many) in zip(nodes, spec):
            if ref is not None:
                node.ref = nodes[ref]
            if many is not None:
                node.many = wrap([nodes[i] for i in many])
        for copied, pick in ((nodes[0], None), (nodes, 'all')):
            out = core.attempt(METHODS[method], copied)
            if out[0] == core.ERR and known and not isinstance(
                    out[1], (AttributeError, pickle.PicklingError)):
                known_now = None
            else:
                known_now = known
            out = core.expect_ok(ctx, out, 'copying', key=known_now)
            ctx.step()
            twin, todo = {}, []

            def meet(old, new):
                ctx.check(type(new) is type(old) and new is not old and
                          all(new is not n for n in nodes),
                          'a copy shares an instance with its original')
                if id(old) in twin:
                    ctx.check(twin[id(old)] is new,
                              'a shared reference came back as two')
                else:
                    ctx.check(all(new is not t for t in twin.values()),
                              'two instances came back as one')
                    twin[id(old)] = new
                    todo.append((old, new))
            if pick is None:
                meet(copied, out)
            else:
                ctx.check(len(out) == size, 'length')
                for old, new in zip(copied, out):
                    meet(old, new)
            while todo:
                old, new = todo.pop()
                ctx.same(new.num, old.num, 'num')
                if kind == 'uid':
                    ctx.same(new.uid, old.uid, 'uid')
                for name in ('ref', 'many'):
                    have, want = getattr(new, name), getattr(old, name)
                    ctx.check(type(have) is type(want),
                              '%s is a %s' % (name, type(have).__name__))
                    if isinstance(want, dict):
                        ctx.same(list(have), list(want), 'keys')
                    have, want = flat(have), flat(want)
                    ctx.same(len(have), len(want), 'references')
                    for pair in zip(want, have):
                        meet(*pair)
            for new in twin.values():
                new.num += 10
                new.ref = P.undefined
            for i, (node, (ref, many)) in enumerate(zip(nodes, spec)):
                ctx.same(node.num, 10 + i, 'num of the original')
                ctx.check(node.ref is (None if ref is None else nodes[ref]),
                          'the original lost its reference')
                got = node.many
                want = None if many is None else [nodes[j] for j in many]
                have = flat(got)
                if kind == 'plain':
                    want = want and want * 2
                ctx.check(many is None and got is None or
                          len(have) == len(want or ()) and
                          all(a is b for a, b in zip(have, want or ())),
                          'the original changed')
        ctx.state((kind, spec, method))

    def run(ctx):
        for count, spec in enumerate(itertools.product(wires, repeat=size)):
            if count % parts != part:
                continue
            for method in methods:
                if not core.case(ctx, '%s %s by %s' % (kind, spec, method),
                                 one_graph, ctx, spec, method):
                    return
    return run


# -- programs -----------------------------------------------------------------
HEARD = []


def loud(self, change):
    HEARD.append(('loud', id(self), change['name'], change['value']))


class Live(P.HasProperties):
    num = P.Integer('', default=0)
    tags = P.List('', P.Integer(''), default=list)
    part = P.Instance('', Part, required=False)
    name = P.String('', required=False)
    alias = P.Renamed('num')

    @P.Integer('')
    def twice(self):
        return 2 * self.num

    @P.observer('num')
    def _seen(self, change):
        HEARD.append(('class', id(self), 'num', change['value']))

    @P.validator('num')
    def _veto(self, change):
        if change['value'] == 13:
            raise ValueError('unlucky')

    @P.validator
    def _whole(self):
        if self.num == 7:
            raise ValueError('seven')


class SubLive(Live):
    extra = P.Integer('', default=1)


class Model(object):
    """What one instance holds."""

    def __init__(self):
        self.num = 0
        self.tags = []
        self.part = None
        self.listeners = 0

    def clone(self):
        new = Model()
        new.num, new.tags = self.num, list(self.tags)
        new.part = self.part and [self.part[0]]
        new.listeners = self.listeners
        return new


class Programs(core.System):
    """An original and a copy that can be replaced by newer copies."""

    METHODS = TWO
    CLS = SubLive

    def __init__(self, ctx):
        core.System.__init__(self, ctx)
        self.real = [self.CLS(), None]
        self.model = [Model(), None]
        self.note = 0

    def ops(self):
        out = []
        for way in self.METHODS:
            for src in (0, 1):
                out.append(('copy %d by %s' % (src, way),
                            lambda s, way=way, src=src: s.dup(way, src)))
        for i in (0, 1):
            for val in (4, 13, 7):
                out.append(('%d.num = %d' % (i, val),
                            lambda s, i=i, val=val: s.put(i, val)))
            out.append(('%d.tags.append' % i, lambda s, i=i: s.append(i)))
            out.append(('%d.part' % i, lambda s, i=i: s.fit(i)))
            out.append(('listen %d' % i, lambda s, i=i: s.listen(i)))
        return out

    def dup(self, way, src):
        if self.real[src] is None:
            return
        del HEARD[:]
        self.real[1] = METHODS[way](self.real[src])
        self.ctx.check(HEARD == [], 'copying notified')
        self.model[1] = self.model[src].clone()

    def put(self, i, val):
        inst, model = self.real[i], self.model[i]
        if inst is None:
            return
        del HEARD[:]
        name = 'num' if val != 4 else 'alias'
        out = core.attempt(setattr, inst, name, val)
        if val == 13:
            core.expect(self.ctx, out, ValueError, 'vetoed value')
            self.ctx.check(HEARD == [], 'a vetoed value notified')
            return
        core.expect_ok(self.ctx, out, 'assignment')
        model.num = val
        want = [('class', id(inst), 'num', val)] + [
            ('loud', id(inst), 'num', val)] * model.listeners
        self.ctx.same(HEARD, want, 'notifications')

    def append(self, i):
        if self.real[i] is not None:
            self.note += 1
            self.real[i].tags.append(self.note)
            self.model[i].tags.append(self.note)

    def fit(self, i):
        inst, model = self.real[i], self.model[i]
        if inst is None:
            return
        self.note += 1
        if model.part is None:
            inst.part = Part(num=self.note)
            model.part = [self.note]
        else:
            inst.part.num = self.note
            model.part = [self.note]

    def listen(self, i):
        if self.real[i] is not None:
            P.observer(self.real[i], 'num', loud)
            self.model[i].listeners += 1

    def check(self):
        for inst, model in zip(self.real, self.model):
            if inst is None:
                continue
            self.ctx.check(type(inst) is self.CLS, 'class of the copy')
            self.ctx.same((inst.num, inst.alias, inst.twice, inst.tags,
                           inst.part and [inst.part.num], inst.name),
                          (model.num, model.num, 2 * model.num, model.tags,
                           model.part, None), 'instance')
            out = core.attempt(inst.validate)
            if model.num == 7:
                core.expect(self.ctx, out, ValueError, 'validate')
            else:
                self.ctx.check(core.expect_ok(
                    self.ctx, out, 'validate') is True, 'validate')
        if self.real[1] is not None:
            same = all(getattr(self.model[0], n) == getattr(self.model[1], n)
                       for n in ('num', 'tags', 'part'))
            self.ctx.check(P.equal(*self.real) is same, 'equality')

    def key(self):
        return tuple(m and (m.num, len(m.tags), m.part is None, m.listeners)
                     for m in self.model)


# -- links --------------------------------------------------------------------
class End(P.HasProperties):
    val = P.Integer('', default=0)


def double(val):
    return 2 * val


class Links(core.System):
    """Linked instances: two sets, the second a copy of the first."""

    FLAVOR = 'link'
    METHODS = TWO

    def __init__(self, ctx):
        core.System.__init__(self, ctx)
        ends = (End(), End())
        if self.FLAVOR == 'link':
            tie = P.link((ends[0], 'val'), (ends[1], 'val'))
        else:
            tie = P.directional_link((ends[0], 'val'), (ends[1], 'val'),
                                     transform=double)
        self.real = [ends + (tie,), None]
        self.model = [[0, 0, True], None]

    def ops(self):
        out = []
        for way in self.METHODS:
            for src in (0, 1):
                out.append(('copy %d by %s' % (src, way),
                            lambda s, way=way, src=src: s.dup(way, src)))
        for i in (0, 1):
            for end, val in itertools.product((0, 1), (1, 2)):
                out.append(('%d.%d = %d' % (i, end, val),
                            lambda s, i=i, end=end, val=val:
                            s.put(i, end, val)))
            for on in (False, True):
                out.append(('%slink %d' % ('re' if on else 'un', i),
                            lambda s, i=i, on=on: s.tie(i, on)))
        return out

    def dup(self, way, src):
        if self.real[src] is not None:
            self.real[1] = METHODS[way](self.real[src])
            self.model[1] = list(self.model[src])

    def put(self, i, end, val):
        if self.real[i] is None:
            return
        self.real[i][end].val = val
        model = self.model[i]
        changed = model[end] != val
        model[end] = val
        if model[2] and changed:
            if self.FLAVOR == 'link':
                model[1 - end] = val
            elif end == 0:
                model[1] = 2 * val

    def tie(self, i, on):
        if self.real[i] is not None:
            (self.real[i][2].relink if on else self.real[i][2].unlink)()
            self.model[i][2] = on

    def check(self):
        for real, model in zip(self.real, self.model):
            if real is not None:
                self.ctx.same([real[0].val, real[1].val], model[:2],
                              'linked values')

    def key(self):
        return repr(self.model)


class OneWay(Links):
    FLAVOR = 'directional'


# -- scenarios ----------------------------------------------------------------
def progs(factory, depth, part, parts):
    def run(ctx):
        core.explore(ctx, factory, depth, part=(part, parts))
    return run


def scenarios(tier):
    quick = tier == 'quick'
    yield ('depths', lambda ctx: depths.matrix(ctx, depths.clones))
    for part in range(4):
        yield 'values %d' % part, values(part, 4)
    for kind in SHAPES:
        yield 'one node %s' % kind, graphs(kind, 1, METHODS, 0, 1)
        parts = 1 if quick else 4
        for part in range(parts):
            yield 'two nodes %s %d' % (kind, part), graphs(
                kind, 2, TWO if quick else METHODS, part, parts)
    parts = 4 if quick else 16
    for part in range(parts):
        yield 'three nodes list %d' % part, graphs(
            'list', 3, TWO, part, parts)
    for kind in SEEN:
        yield 'observed %s' % kind, graphs(
            kind, 1, METHODS, 0, 1, SEEN, 'observable-container')
    depth = 4 if quick else 5
    for part in range(4):
        yield 'programs %d' % part, progs(Programs, depth, part, 4)
    for cls in (Links, OneWay):
        for part in range(4):
            yield '%s programs %d' % (cls.FLAVOR, part), progs(
                cls, depth, part, 4)
