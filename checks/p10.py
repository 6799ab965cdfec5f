"""P10: equality as a relation, and independence of copies."""
import copy as pycopy
import datetime
import itertools

import numpy as np

import properties as P

from mc import core, depths, names, sizes

PROPERTY = 'P10'
BOUNDS = ('33 property types with 3 to 14 values each (undefined, equal after '
          'coercion, within tolerance, beyond it, nested differences): every '
          'pair of values of every type, every pair of instances of a class of '
          'every 2 types (thorough: 3, with up to 6 values of each), across three classes; copies: every '
          'one and every two mutations out of 43 after copying, on either side')
ASSUMPTIONS = ['tolerance is tested well inside and well outside 1e-9, since '
               'closeness is not transitive']

NAN, INF = float('nan'), float('inf')
UND = 'undefined'


class Cells(object):
    """Values that compare cell by cell, to a list."""

    def __init__(self, *cells):
        self.cells = cells

    def __eq__(self, other):
        if not isinstance(other, Cells) or len(other.cells) != len(self.cells):
            return False
        return [a == b for a, b in zip(self.cells, other.cells)]

    def __repr__(self):
        return 'Cells%r' % (self.cells,)


class Zoo(object):
    """Classes and, per type, (equivalence label, value maker) pairs."""

    def __init__(self):
        class Leaf(P.HasProperties):
            num = P.Integer('', required=False)
            txt = P.String('', required=False)

        class SubLeaf(Leaf):
            pass

        class Twin(P.HasProperties):
            num = P.Integer('', required=False)
            txt = P.String('', required=False)

        class Deep(P.HasProperties):
            leaf = P.Instance('', Leaf, required=False)
            many = P.List('', Leaf, required=False)
        self.Leaf, self.SubLeaf, self.Twin, self.Deep = \
            Leaf, SubLeaf, Twin, Deep
        arr = np.array
        date = datetime.datetime
        self.types = {
            'bool': (lambda: P.Boolean(''), [('t', lambda: True),
                                             ('f', lambda: False),
                                             ('t', lambda: np.bool_(True))]),
            'int': (lambda: P.Integer(''), [
                (0, lambda: 0), (1, lambda: 1), (1, lambda: 1.0),
                (-1, lambda: -1), (10 ** 20, lambda: 10 ** 20)]),
            'float': (lambda: P.Float(''), [
                (0, lambda: 0), (0, lambda: -0.0), (0, lambda: 1e-12),
                (1, lambda: 1.0), (1, lambda: 1 + 1e-12),
                ('1+', lambda: 1.001), ('nan', lambda: NAN),
                ('inf', lambda: INF), ('-inf', lambda: -INF),
                ('nan', lambda: np.float64('nan'))]),
            'complex': (lambda: P.Complex(''), [
                (0, lambda: 0), (1, lambda: 1 + 1e-12j), (1, lambda: 1 + 0j),
                ('i', lambda: 1j), ('1i', lambda: 1 + 1j)]),
            'str': (lambda: P.String(''), [
                ('', lambda: ''), ('a', lambda: 'a'), ('A', lambda: 'A')]),
            'upper': (lambda: P.String('', change_case='upper'), [
                ('A', lambda: 'a'), ('A', lambda: 'A'), ('B', lambda: 'b')]),
            'choice': (lambda: P.StringChoice('', {'x': ['y'], 'z': []}), [
                ('x', lambda: 'x'), ('x', lambda: 'Y'), ('z', lambda: 'z')]),
            'color': (lambda: P.Color(''), [
                ('r', lambda: 'red'), ('r', lambda: (255, 0, 0)),
                ('r', lambda: '#F00'), ('b', lambda: 'blue')]),
            'date': (lambda: P.DateTime(''), [
                ('1', lambda: '2000-01-01'), ('1', lambda: date(2000, 1, 1)),
                ('2', lambda: date(2000, 1, 2))]),
            'any': (lambda: P.Property(''), [
                (0, lambda: 0), (1, lambda: 1), ('1', lambda: '1'),
                ('l', lambda: [1, [2]]), ('l2', lambda: [1, [3]]),
                ('c12', lambda: Cells(1, 2)), ('c13', lambda: Cells(1, 3)),
                ('d', lambda: {'a': 1}), ('a1', lambda: arr([2])),
                ('a1', lambda: arr([2.])), ('a11', lambda: arr([2, 2])),
                ('ar', lambda: arr([[2, 2]])), (2, lambda: np.float64(2)),
                (1, lambda: np.int64(1))]),
            'tuple': (lambda: P.Tuple('', P.Float('')), [
                ((), lambda: ()), ((1,), lambda: (1,)),
                ((1,), lambda: (1 + 1e-12,)), ((1, 2), lambda: (1, 2)),
                ((2, 1), lambda: (2, 1))]),
            'list': (lambda: P.List('', P.Integer('')), [
                ('', lambda: []), ('1', lambda: [1]), ('12', lambda: [1, 2]),
                ('21', lambda: [2, 1]), ('12', lambda: [1.0, 2])]),
            'watched': (lambda: P.List('', P.Integer(''),
                                       observe_mutations=True), [
                ('', lambda: []), ('1', lambda: [1]), ('12', lambda: [1, 2])]),
            'set': (lambda: P.Set('', P.Float('')), [
                ('', lambda: set()), ('1', lambda: {1}),
                ('1', lambda: {1 + 1e-12}), ('12', lambda: {1, 2}),
                ('13', lambda: {1, 3}), ('2', lambda: {2})]),
            'dict': (lambda: P.Dictionary('', key_prop=P.String(''),
                                          value_prop=P.Float('')), [
                ('', lambda: {}), ('a1', lambda: {'a': 1}),
                ('a1', lambda: {'a': 1 + 1e-12}), ('a2', lambda: {'a': 2}),
                ('b1', lambda: {'b': 1}), ('ab', lambda: {'a': 1, 'b': 1}),
                ('ab', lambda: {'b': 1, 'a': 1})]),
            'nest': (lambda: P.List('', P.List('', P.Float(''))), [
                ('', lambda: []), ('e', lambda: [[]]),
                ('1', lambda: [[1], [2]]), ('1', lambda: [[1 + 1e-12], [2]]),
                ('2', lambda: [[1], [3]]), ('3', lambda: [[1, 2]])]),
            'arr': (lambda: P.Array('', dtype=float), [
                ('', lambda: []), ('1', lambda: arr([1., 2.])),
                ('1', lambda: arr([1. + 1e-12, 2.])),
                ('2', lambda: arr([1., 2.5])), ('n', lambda: arr([NAN, 2.])),
                ('3', lambda: arr([1., 2., 3.])),
                ('2e', lambda: arr([1. + 1e-4, 2.])),
                ('n2', lambda: arr([1., NAN])),
                ('nn', lambda: arr([NAN, NAN])), ('nn', lambda: [NAN, NAN]),
                ('i', lambda: arr([INF, 2.])), ('-i', lambda: arr([-INF, 2.])),
                ('z', lambda: arr([0., 0.])), ('z', lambda: arr([1e-12, 0.])),
                ('zs', lambda: arr([8e-9, 0.])), ('z1', lambda: arr([1e-4, 0.])),
                ('big', lambda: arr([1e6, 2.])),
                ('big', lambda: arr([1e6 + 1e-12, 2.])),
                ('big+', lambda: arr([1e6 + 100, 2.]))]),
            'shapes': (lambda: P.Array('', shape={('*',), ('*', '*')}), [
                ('12', lambda: [1, 2]), ('r', lambda: [[1, 2]]),
                ('c', lambda: [[1], [2]]), ('12', lambda: [1., 2.]),
                ('s', lambda: [[1, 2], [1, 2]]), ('1', lambda: [1]),
                ('11', lambda: [1, 1]), ('1r', lambda: [[1]]),
                ('', lambda: []), ('er', lambda: [[]]),
                ('n', lambda: [NAN, 1, 2]), ('m', lambda: [[NAN, 1, 2]]),
                ('12n', lambda: [1, 2, NAN])]),
            'flags': (lambda: P.Array('', dtype=bool), [
                ('t', lambda: [True]), ('f', lambda: [False]),
                ('tf', lambda: [True, False]), ('t', lambda: arr([True]))]),
            'arrs': (lambda: P.List('', P.Array('')), [
                ('', lambda: []), ('12', lambda: [[1, 2]]),
                ('12', lambda: [[1., 2. + 1e-12]]), ('13', lambda: [[1, 3]]),
                ('12,3', lambda: [[1, 2], [3]]),
                ('12,3', lambda: [arr([1, 2]), arr([3.])]),
                ('12,4', lambda: [[1, 2], [4]]),
                ('e', lambda: [[]])]),
            'vectup': (lambda: P.Tuple('', P.Vector2('')), [
                ((), lambda: ()), ('x', lambda: ('x',)),
                ('x', lambda: ([1, 0],)), ('xy', lambda: ('x', 'y')),
                ('yx', lambda: ('y', 'x'))]),
            'arrdict': (lambda: P.Dictionary('', value_prop=P.Array('')), [
                ('', lambda: {}), ('a12', lambda: {'a': [1, 2]}),
                ('a12', lambda: {'a': arr([1., 2. + 1e-12])}),
                ('a13', lambda: {'a': [1, 3]}), ('b12', lambda: {'b': [1, 2]}),
                ('a1', lambda: {'a': [1]})]),
            'exact': (lambda: P.List('', P.Boolean('')), [
                ('t', lambda: [True]), ('f', lambda: [False]),
                ('tf', lambda: [True, False])]),
            'mixed': (lambda: P.List('', P.Property('')), [
                ('1', lambda: [1]), ('1', lambda: [1.0]),
                ('a', lambda: [arr([1, 2])]), ('a', lambda: [arr([1, 2])]),
                ('b', lambda: [arr([1, 3])]),
                ('c', lambda: [arr([1, 2, 3])])]),
            'unions': (lambda: P.List('', P.Union('', [
                P.Array(''), P.String('')])), [
                    ('a', lambda: ['a']), ('12', lambda: [[1, 2]]),
                    ('12', lambda: [arr([1., 2.])]), ('b', lambda: ['b']),
                    ('13', lambda: [[1, 3]])]),
            'vec': (lambda: P.Vector3(''), [
                ('x', lambda: 'x'), ('x', lambda: [1, 0, 0]),
                ('y', lambda: 'north'), ('-x', lambda: '-X')]),
            'vecs': (lambda: P.Vector2Array(''), [
                ('x', lambda: ['x']), ('xy', lambda: ['x', 'y']),
                ('yx', lambda: ['y', 'x'])]),
            'leaf': (lambda: P.Instance('', Leaf), [
                ('0', lambda: Leaf()), ('1', lambda: Leaf(num=1)),
                ('1', lambda: {'num': 1.0}), ('2', lambda: Leaf(num=2)),
                ('1a', lambda: Leaf(num=1, txt='a')),
                ('s1', lambda: SubLeaf(num=1))]),
            'leaves': (lambda: P.List('', Leaf), [
                ('', lambda: []), ('1', lambda: [Leaf(num=1)]),
                ('1', lambda: [{'num': 1}]), ('2', lambda: [Leaf(num=2)]),
                ('11', lambda: [Leaf(num=1), Leaf(num=1)]),
                ('s', lambda: [SubLeaf(num=1)])]),
            'leafdict': (lambda: P.Dictionary('', value_prop=P.Instance(
                '', Leaf)), [
                    ('1', lambda: {'a': Leaf(num=1)}),
                    ('1', lambda: {'a': {'num': 1}}),
                    ('2', lambda: {'a': Leaf(num=2)}),
                    ('b', lambda: {'b': Leaf(num=1)})]),
            'leafset': (lambda: P.Set('', P.Instance('', Leaf)), [
                ('1', lambda: {Leaf(num=1)}), ('1', lambda: {Leaf(num=1)}),
                ('2', lambda: {Leaf(num=2)}),
                ('12', lambda: {Leaf(num=1), Leaf(num=2)}),
                ('11', lambda: {Leaf(num=1), Leaf(num=1)})]),
            'deep': (lambda: P.Instance('', Deep), [
                ('', lambda: Deep()), ('1', lambda: Deep(leaf=Leaf(num=1))),
                ('1', lambda: Deep(leaf={'num': 1})),
                ('2', lambda: Deep(leaf=Leaf(num=2))),
                ('m', lambda: Deep(many=[Leaf(num=1)])),
                ('m2', lambda: Deep(many=[Leaf(num=2)]))]),
            'union': (lambda: P.Union('', [P.Integer(''), Leaf, P.String('')]), [
                ('1', lambda: 1), ('1', lambda: 1.0), ('s', lambda: 'a'),
                ('l', lambda: Leaf(num=1)), ('l', lambda: {'num': 1}),
                ('l2', lambda: Leaf(num=2))]),
        }


def make_class(zoo, names, log, mirror=None):
    body = {n: zoo.types[n][0]() for n in names}
    for name in names:      # other ways to reach the same value
        if mirror in ('renamed', 'renamed twice'):
            body['old_' + name] = P.Renamed(name, warn=False)
        if mirror == 'renamed twice':
            body['aged_' + name] = P.Renamed('old_' + name, warn=False)
        if mirror == 'dynamic':
            body['dyn_' + name] = dynamic(zoo.types[name][0](), name)

    @P.observer(P.everything)
    def watch(self, change):
        log.append(change['name'])
    body['watch'] = watch
    return type('Case', (P.HasProperties,), body)


def dynamic(prop, name):
    def func(self):
        return getattr(self, name)
    func.__name__ = str('dyn_' + name)
    return prop(func)


def variants(zoo, name):
    return [(UND, None)] + zoo.types[name][1]


def make(cls, names, picks, zoo):
    inst = cls()
    labels = []
    for name, idx in zip(names, picks):
        label, value = variants(zoo, name)[idx]
        if value is not None:
            setattr(inst, name, value())
        labels.append((name, label))
    return inst, tuple(labels)


def compare(ctx, a, b, want, what, log):
    del log[:]
    before = (core.canon(a), core.canon(b))
    for x, y, side in ((a, b, ''), (b, a, ' (swapped)')):
        got = core.expect_ok(ctx, core.attempt(P.equal, x, y), what + side)
        ctx.step()
        ctx.check(got is want or (got == want and isinstance(
            got, (bool, np.bool_))), lambda: '%s%s: equal gives %r, expected '
                  '%r' % (what, side, got, want))
    ctx.check((core.canon(a), core.canon(b)) == before, '%s: comparing changed '
              'an operand' % what)
    ctx.check(not log, '%s: comparing fired listeners' % what)
    ctx.outcome(want)


def pairs(ctx, names, limit=None, mirror=None):
    zoo = Zoo()
    log = []
    cls = make_class(zoo, names, log, mirror)
    spread = [range(len(variants(zoo, n)))[:limit] for n in names]
    pool = [make(cls, names, picks, zoo) for picks in
            itertools.product(*spread)]
    # second, separately built copy of every instance
    pool2 = [make(cls, names, picks, zoo) for picks in
             itertools.product(*spread)]
    for i, (a, la) in enumerate(pool):
        for j, (b, lb) in enumerate(pool2):
            want = la == lb
            ctx.state((names, la, lb))
            if not core.case(ctx, ('equal', la, lb), compare, ctx, a, b, want,
                             'equal of %s and %s' % (la, lb), log):
                return
        core.case(ctx, ('reflexive', la), compare, ctx, a, a, True,
                  '%s with itself' % (la,), log)


def all_pairs(ctx, size, part, parts):
    names = sorted(Zoo().types)
    for idx, combo in enumerate(itertools.combinations(names, size)):
        if idx % parts == part:
            pairs(ctx, combo)
            if ctx.full():
                return
    ctx.sample('every pair of instances over every %d of %s' % (size, names))


def classes(ctx):
    """Different classes are never equal, whatever their values."""
    zoo = Zoo()
    log = []
    for num, txt in itertools.product((None, 0, 1), (None, 'a')):
        kwargs = {}
        if num is not None:
            kwargs['num'] = num
        if txt is not None:
            kwargs['txt'] = txt
        pool = [zoo.Leaf(**kwargs), zoo.SubLeaf(**kwargs), zoo.Twin(**kwargs)]
        for (i, a), (j, b) in itertools.product(enumerate(pool), repeat=2):
            core.case(ctx, (kwargs, i, j), compare, ctx, a, b, i == j,
                      'classes %s, %s' % (type(a).__name__, type(b).__name__),
                      log)
            ctx.state((num, txt, i, j))
        for other in (None, 5, 'x', [], {}, object(), P.undefined, zoo.Leaf):
            def one():
                for a in pool:
                    ctx.step()
                    ctx.check(not P.equal(a, other) and not P.equal(other, a),
                              'equal to %r' % (other,))
            core.case(ctx, ('other', repr(other)), one)
    for a, b in itertools.product((1, 1.0, 'a', None, (1,), True), repeat=2):
        def one():
            ctx.check(P.equal(a, b) == (a == b), 'plain values')
            ctx.step()
        core.case(ctx, ('plain', a, b), one)

    def method():
        a, b, c = zoo.Leaf(num=1), zoo.Leaf(num=1), zoo.Leaf(num=2)
        ctx.check(a.equal(b) and not a.equal(c) and not a.equal(5),
                  'the deprecated method')
    core.case(ctx, 'method', method)


def operators(ctx):
    """Equality is decided by the properties: not by the operators of the
    class, and including the properties that are not stored."""
    def compares(result):
        class Case(P.HasProperties):
            num = P.Integer('', required=False)

            def __eq__(self, other):
                if result is None:
                    raise RuntimeError('compared')
                return result

            def __ne__(self, other):
                return not self == other

            def __hash__(self):
                return 1 if result is None else id(self)
        return Case

    class Length(P.HasProperties):
        num = P.Integer('', required=False)

        def __len__(self):
            return self.num or 0

    class Computed(P.HasProperties):
        num = P.Integer('', required=False)
        plain = None

        @P.Integer('from a plain attribute')
        def seen(self):
            return self.plain

        @P.List('none or a list', P.Float(''))
        def half(self):
            return None if self.plain is None else [self.plain / 2]

    class Old(P.HasProperties):
        num = P.Integer('', required=False)
        was = P.Renamed('num', warn=False)

    class Fixed(P.HasProperties):
        num = P.Integer('', required=False)
        fixed = P.GettableProperty('', default=3)

    class Ident(P.HasProperties):
        num = P.Integer('', required=False)
        ident = P.Uuid('')

    worlds = [('always equal', compares(True)), ('never equal', compares(False)),
              ('cannot compare', compares(None)), ('length', Length),
              ('computed', Computed), ('renamed', Old), ('fixed', Fixed),
              ('ident', Ident)]
    nums = (None, 0, 1, 2)
    for name, cls in worlds:
        class Holder(P.HasProperties):
            one = P.Instance('', cls, required=False)
            many = P.List('', cls, required=False)
            named = P.Dictionary('', value_prop=P.Instance('', cls),
                                 required=False)
            pair = P.Tuple('', P.Union('', [P.Integer(''), cls]),
                           required=False)
        wraps = {
            'itself': lambda v: v,
            'instance': lambda v: Holder(one=v),
            'list': lambda v: Holder(many=[v, v]),
            'dictionary': lambda v: Holder(named={'k': v}),
            'union': lambda v: Holder(pair=(v, 1)),
        }
        plains = (None, 0, 4) if cls is Computed else (None,)

        def build(num, plain):
            inst = cls()
            if num is not None:
                inst.num = num
            if plain is not None:
                inst.plain = plain
            return inst
        for where in wraps:
            for a, b in itertools.product(itertools.product(nums, plains),
                                          repeat=2):
                def one():
                    x, y = build(*a), build(*b)
                    what = '%s, %s: %s and %s' % (name, where, a, b)
                    compare(ctx, wraps[where](x), wraps[where](y),
                            a == b and cls is not Ident, what, [])
                    if where == 'list':
                        # two references to one object stay equal
                        compare(ctx, wraps[where](x), wraps[where](x), True,
                                what + ' (same object)', [])
                    ctx.state((name, where, a, b))
                if not core.case(ctx, (name, where, a, b), one):
                    return
    ctx.sample('equality of instances whose classes define operators, lengths, '
               'dynamic, renamed and immutable properties')


# -- copies -------------------------------------------------------------------
def copy_world():
    class Leaf(P.HasProperties):
        num = P.Integer('', required=False)
        items = P.List('', P.Integer(''), required=False)

    class SubLeaf(Leaf):
        more = P.String('', required=False)

    class Whole(P.HasProperties):
        ident = P.Uuid('')
        num = P.Integer('', default=4)
        txt = P.String('', required=False)
        items = P.List('', P.Integer(''), required=False)
        nest = P.List('', P.List('', P.Integer('')), required=False)
        seen = P.List('', P.Integer(''), required=False,
                      observe_mutations=True)
        bag = P.Set('', P.Integer(''), required=False)
        table = P.Dictionary('', key_prop=P.String(''), value_prop=P.List(
            '', P.Integer('')), required=False)
        arr = P.Array('', dtype=float, required=False)
        vec = P.Vector3('', required=False)
        leaf = P.Instance('', Leaf, required=False)
        leaves = P.List('', Leaf, required=False)
        named = P.Dictionary('', value_prop=P.Instance('', Leaf),
                             required=False)
        either = P.Union('', [P.Integer(''), Leaf], required=False)
        tup = P.Tuple('', P.Instance('', Leaf), required=False)

    class SubWhole(Whole):
        extra = P.Integer('', required=False)
    return Leaf, SubLeaf, Whole, SubWhole


def populate(world, kind):
    Leaf, SubLeaf, Whole, SubWhole = world
    cls = SubWhole if kind == 'sub' else Whole
    inst = cls()
    if kind == 'empty':
        return inst
    leaf = SubLeaf if kind == 'sub' else Leaf
    inst.num = 5
    inst.txt = 'a'
    inst.items = [1, 2]
    inst.nest = [[1], [2, 3]]
    inst.seen = [4, 5]
    inst.bag = {1, 2}
    inst.table = {'a': [1], 'b': []}
    inst.arr = [1., 2.]
    inst.vec = 'x'
    inst.leaf = leaf(num=1, items=[1])
    inst.leaves = [leaf(num=2), leaf(items=[3])]
    inst.named = {'k': leaf(num=3, items=[])}
    inst.either = leaf(num=4, items=[9])
    inst.tup = (leaf(num=5), leaf())
    return inst


def setitem(cont, key, val):
    cont[key] = val


MUTATIONS = [
    ('num', lambda o: setattr(o, 'num', 9)),
    ('del num', lambda o: delattr(o, 'num')),
    ('txt', lambda o: setattr(o, 'txt', 'z')),
    ('items append', lambda o: o.items.append(7)),
    ('items[0]', lambda o: setitem(o.items, 0, 8)),
    ('items clear', lambda o: o.items.clear()),
    ('items assign', lambda o: setattr(o, 'items', [0])),
    ('nest inner', lambda o: o.nest[1].append(6)),
    ('nest outer', lambda o: o.nest.append([])),
    ('nest inner[0]', lambda o: setitem(o.nest[0], 0, 44)),
    ('seen append', lambda o: o.seen.append(6)),
    ('seen sort', lambda o: o.seen.reverse()),
    ('seen +=', lambda o: setattr(o, 'seen', o.seen + [1])),
    ('bag add', lambda o: o.bag.add(9)),
    ('bag clear', lambda o: o.bag.clear()),
    ('table inner', lambda o: o.table['a'].append(3)),
    ('table key', lambda o: setitem(o.table, 'c', [1])),
    ('table pop', lambda o: o.table.pop('b')),
    ('arr poke', lambda o: setitem(o.arr, 0, 5.)),
    ('arr all', lambda o: setitem(o.arr, slice(None), 0.)),
    ('vec poke', lambda o: setitem(o.vec, 1, 5.)),
    ('vec assign', lambda o: setattr(o, 'vec', 'y')),
    ('leaf num', lambda o: setattr(o.leaf, 'num', 9)),
    ('leaf del', lambda o: delattr(o.leaf, 'num')),
    ('leaf items', lambda o: o.leaf.items.append(9)),
    ('leaf gone', lambda o: delattr(o, 'leaf')),
    ('leaves[0] num', lambda o: setattr(o.leaves[0], 'num', 9)),
    ('leaves[1] items', lambda o: o.leaves[1].items.append(9)),
    ('leaves pop', lambda o: o.leaves.pop()),
    ('leaves swap', lambda o: o.leaves.reverse()),
    ('named num', lambda o: setattr(o.named['k'], 'num', 9)),
    ('named items', lambda o: o.named['k'].items.append(9)),
    ('named clear', lambda o: o.named.clear()),
    ('either num', lambda o: setattr(o.either, 'num', 9)),
    ('either items', lambda o: o.either.items.append(1)),
    ('either assign', lambda o: setattr(o, 'either', 3)),
    ('tup[0]', lambda o: setattr(o.tup[0], 'num', 9)),
    ('tup[1]', lambda o: setattr(o.tup[1], 'items', [5])),
    ('bad num', lambda o: core.attempt(setattr, o, 'num', 'bad')),
    ('bad items', lambda o: core.attempt(setattr, o, 'items', [1, 'bad'])),
    ('reset', lambda o: o._reset('num')),
    ('validate', lambda o: core.attempt(o.validate)),
    ('serialize', lambda o: o.serialize()),
]


def copies(ctx, kind, size, part=0, parts=1):
    world = copy_world()

    def one(seq, side):
        orig = populate(world, kind)
        before = core.canon(orig)
        dup = P.copy(orig)
        ctx.step()
        ctx.check(dup is not orig and type(dup) is type(orig), 'a copy is not '
                  'a new instance of the same class')
        ctx.check(core.canon(orig) == before, 'copying changed the original')
        ctx.check(core.canon(dup) == before, lambda: 'the copy is %s, the '
                  'original %s' % (core.canon(dup), before))
        ctx.check(P.equal(orig, dup) and P.equal(dup, orig),
                  'the copy is not equal')
        pair = [orig, dup]
        done = [[], []]
        for idx in seq:
            label, func = MUTATIONS[idx]
            one, two = pair[side], pair[1 - side]
            mine, other = core.canon(one), core.canon(two)
            func(one)
            ctx.step()
            ctx.check(core.canon(two) == other, lambda: '%s of the %s changed '
                      'the other one' % (label, ('original', 'copy')[side]))
            done[side].append(label)
            if size > 1:
                side = 1 - side
        ctx.state((kind, seq, side))
        third = P.copy(pair[0])
        if 'del num' not in done[0]:
            ctx.check(core.canon(third) == core.canon(pair[0]), 'copying after '
                      'mutations')
    total = range(len(MUTATIONS))
    for pos, seq in enumerate(itertools.product(total, repeat=size)):
        if pos % parts != part:
            continue
        for side in (0, 1):
            if not core.case(ctx, [MUTATIONS[i][0] for i in seq] + [side], one,
                             seq, side):
                return
    ctx.sample('every %d mutations after copying (%s)' % (size, kind))


def chains(ctx):
    """Copies of copies are all equal and pairwise independent."""
    world = copy_world()

    def one(idx, which):
        orig = populate(world, 'full')
        group = [orig]
        for _ in range(3):
            group.append(P.copy(group[-1]))
        for a, b in itertools.product(group, repeat=2):
            ctx.check(P.equal(a, b), 'copies of copies differ')
        rest = [core.canon(g) for g in group]
        MUTATIONS[idx][1](group[which])
        ctx.step()
        for i, inst in enumerate(group):
            if i != which:
                ctx.check(core.canon(inst) == rest[i], 'copies share state '
                          'through %s' % MUTATIONS[idx][0])
        ctx.state((idx, which))
    for idx in range(len(MUTATIONS)):
        for which in range(4):
            core.case(ctx, (MUTATIONS[idx][0], which), one, idx, which)


def mirrored(ctx, mirror):
    for name in sorted(Zoo().types):
        pairs(ctx, (name,), mirror=mirror)
        if ctx.full():
            return
    copy_zoo(ctx, mirror)


def copy_zoo(ctx, mirror=None):
    """The copy of every instance of the comparison family is equal to it."""
    zoo = Zoo()
    log = []

    def one(cls, names, picks):
        inst, labels = make(cls, names, picks, zoo)
        dup = core.expect_ok(ctx, core.attempt(P.copy, inst), 'copy of %s' % (
            labels,))
        ctx.step()
        ctx.check(type(dup) is cls and dup is not inst, 'class of the copy')
        ctx.check(core.canon(dup) == core.canon(inst), lambda: 'copy of %s is '
                  '%s' % (labels, core.canon(dup)))
        compare(ctx, inst, dup, True, 'copy of %s' % (labels,), log)
        ctx.state((names, labels))
    for name in zoo.types:
        cls = make_class(zoo, (name,), log, mirror)
        for idx in range(len(variants(zoo, name))):
            core.case(ctx, (name, idx), one, cls, (name,), (idx,))


def unset(ctx):
    """However lenient a type compares, a missing value equals no value."""
    class Lenient(P.Property):
        def equal(self, value_a, value_b):
            return True

    class Stern(P.Property):
        def equal(self, value_a, value_b):
            return False

    class Breaking(P.Property):
        def equal(self, value_a, value_b):
            assert value_a is not None and value_b is not None
            assert P.undefined not in (value_a, value_b)
            return value_a == value_b
    values = (None, P.undefined, 0, '', [], 5, 'x')
    verdicts = {Lenient: lambda a, b: True, Stern: lambda a, b: False,
                Breaking: lambda a, b: a == b}

    def one(kind, first, second, deleted):
        cls = type('Own', (P.HasProperties,), {
            'p': kind('', required=False), 'q': P.Integer('', default=1)})
        a, b = cls(), cls()
        for obj, value in ((a, first), (b, second)):
            if value is not None:
                obj.p = value
                if deleted and value is P.undefined:
                    obj.p = 3
                    del obj.p
        gone = [v is None or v is P.undefined for v in (first, second)]
        want = all(gone) or not any(gone) and verdicts[kind](first, second)
        for left, right in ((a, b), (b, a)):
            got = core.expect_ok(ctx, core.attempt(P.equal, left, right),
                                 'equal')
            ctx.same(bool(got), want, '%s of %s and %s' % (
                kind.__name__, core.show(first), core.show(second)))
            ctx.step()
        ctx.check(P.equal(a, a), 'reflexive')
        ctx.state((kind.__name__, core.show(first), core.show(second)))
    for kind, first, second, deleted in itertools.product(
            verdicts, values, values, (False, True)):
        core.case(ctx, (kind.__name__, core.show(first), core.show(second)),
                  one, kind, first, second, deleted)


def bad_copies(ctx):
    def one(value):
        core.expect(ctx, core.attempt(P.copy, value), ValueError,
                    'copy(%r)' % (value,))
        ctx.step()
        ctx.state(repr(value)[:30])
    for value in (None, 5, 'a', [], {}, P.HasProperties, object()):
        core.case(ctx, repr(value), one, value)

    def deleted_default():
        world = copy_world()
        inst = populate(world, 'full')
        del inst.num
        dup = P.copy(inst)
        ctx.check(P.equal(inst, dup), 'the copy of an instance whose property '
                  'with a default was deleted is not equal: %s came back'
                  % dup.num, key='deleted-default')
    core.case(ctx, 'deleted default', deleted_default)


def copy_keywords(ctx):
    """Keywords of copy reach both conversions; flags mean the same."""
    calls = []

    def save(value, **kwargs):
        calls.append(('save', kwargs))
        return value

    def load(value, **kwargs):
        calls.append(('load', kwargs))
        return value

    class Leaf(P.HasProperties):
        num = P.Integer('', serializer=save, deserializer=load)

    class SubLeaf(Leaf):
        more = P.Integer('', default=1)

    class Top(P.HasProperties):
        one = P.Instance('', Leaf)
        many = P.List('', P.Instance('', Leaf), default=list)

        @P.Integer('')
        def dyn(self):
            return 5

        @dyn.setter
        def dyn(self, value):
            calls.append(('dyn', value))

    flags = {'trusted': (None, False, True), 'strict': (None, False, True),
             'include_class': (None, False, True), 'save_dynamic': (
                 None, False, True), 'assert_valid': (None, False, True),
             'color': (None, 0, 'red')}

    def one(choice):
        kwargs = {k: v for k, v in zip(flags, choice) if v is not None}
        leaves = (SubLeaf, Leaf) if kwargs.get('trusted', True) and kwargs.get(
            'include_class', True) else (Leaf, Leaf)
        top = Top(one=leaves[0](num=1), many=[leaves[1](num=2)])
        before = core.canon(top)
        del calls[:]
        given = dict(kwargs)
        dup = P.copy(top, **kwargs)
        ctx.step()
        ctx.check(kwargs == given, 'copy changes its keywords')
        ctx.check(core.canon(top) == before, 'the original changed')
        ctx.check(type(dup) is Top and P.equal(dup, top) is True and
                  P.equal(top, dup) is True, 'the copy is not equal')
        ctx.check(dup.one is not top.one and dup.many[0] is not top.many[0],
                  'shared')
        ctx.check(sorted(c[0] for c in calls if c[0] != 'dyn') ==
                  ['load', 'load', 'save', 'save'], 'calls %s' % calls)
        for call, seen in calls:
            if call == 'dyn':
                continue
            want = {'include_class': True, 'save_dynamic': False} \
                if call == 'save' else {'trusted': True, 'strict': False}
            want.update({k: v for k, v in kwargs.items()
                         if k in want or k == 'color'})
            got = {k: v for k, v in seen.items() if k in want}
            ctx.check(got == want, lambda: '%s with %s, expected %s' % (
                call, got, want))
        ctx.state(choice)
    for choice in itertools.product(*flags.values()):
        if not core.case(ctx, 'copy with %s' % dict(zip(flags, choice)), one,
                         choice):
            return
    # the class of nested instances comes from the data only if trusted
    top = Top(one=SubLeaf(num=1))
    for kwargs, cls in (({}, SubLeaf), ({'trusted': True}, SubLeaf),
                        ({'trusted': False}, Leaf),
                        ({'include_class': False}, Leaf)):
        dup = P.copy(top, **kwargs)
        ctx.check(type(dup.one) is cls, 'copy with %s gives a %s' % (
            kwargs, type(dup.one).__name__))
    core.expect(ctx, core.attempt(P.copy, top, trusted=False, strict=True),
                ValueError, 'strict copy of a subclass')
    core.expect(ctx, core.attempt(P.copy, Top(), assert_valid=True),
                ValueError, 'asserted copy of an invalid instance')
    ctx.check(P.copy(Top(), assert_valid=False).one is None, 'invalid copy')


def scenarios(tier):
    yield 'copy keywords', copy_keywords
    yield ('names', lambda ctx: names.named(ctx, names.compared))
    yield ('sizes', lambda ctx: sizes.matrix(ctx, sizes.equality, 'differ'))
    yield ('depths', lambda ctx: depths.matrix(ctx, depths.copies, ('set',)))
    yield ('nested containers', lambda ctx: depths.nested(
        ctx, depths.compared))
    quick = tier != 'thorough'
    yield 'one type', lambda ctx: all_pairs(ctx, 1, 0, 1)
    for part in range(8):
        yield 'two types %d/8' % part, lambda ctx, part=part: all_pairs(
            ctx, 2, part, 8)
    for mirror in ('renamed', 'renamed twice', 'dynamic'):
        yield 'one type, %s' % mirror, lambda ctx, m=mirror: mirrored(ctx, m)
    yield 'classes', classes
    yield 'operators', operators
    for kind in ('empty', 'full', 'sub'):
        if kind != 'empty':
            yield 'copies %s' % kind, lambda ctx, k=kind: copies(ctx, k, 1)
    for part in range(4):
        yield 'two mutations %d/4' % part, lambda ctx, part=part: copies(
            ctx, 'full', 2, part, 4)
    yield 'copy chains', chains
    yield 'copies of the family', copy_zoo
    yield 'not copies', bad_copies
    yield 'missing values', unset
    if not quick:
        for part in range(16):
            yield 'three types %d/16' % part, lambda ctx, part=part: \
                triples(ctx, part, 16)
        for part in range(8):
            yield 'three mutations %d/8' % part, lambda ctx, part=part: copies(
                ctx, 'sub', 2, part, 8)


def triples(ctx, part, parts):
    names = ['float', 'list', 'set', 'dict', 'leaf', 'leaves', 'union', 'arr',
             'any', 'shapes', 'mixed']
    for idx, combo in enumerate(itertools.combinations(names, 3)):
        if idx % parts == part:
            pairs(ctx, combo, 7)
            if ctx.full():
                return
