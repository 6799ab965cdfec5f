"""Values of every size up to a bound, and beyond it around round numbers."""
import json

import numpy as np

import properties as P

from . import core

SMALL = 24
ROUND = [31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255,
         256, 257, 500, 512, 513]
LARGE = [999, 1000, 1001, 1023, 1024, 1025, 2048, 4097, 10001]


class Item(P.HasProperties):
    need = P.Integer('')


def sizes(quick):
    return list(range(SMALL + 1)) + (ROUND[:-4] if quick else ROUND + LARGE)


def spots(size):
    if size <= SMALL:
        return list(range(size))
    return sorted({0, 1, 9, 10, 16, size // 2, size - 2, size - 1})


class Kind(object):
    """A property, its values of a size, and how to spoil one item."""

    json = True         # has bad items
    top = 10001

    def __init__(self, name, prop, make, spoil=None, differ=None):
        self.name, self.prop, self.make = name, prop, make
        self.spoil, self.differ = spoil, differ


def at(value, spot, new):
    value[spot] = new
    return value


def rekey(value, spot, new):
    return {(new if i == spot else k): v
            for i, (k, v) in enumerate(value.items())}


def swap(value, spot, new):
    out = list(value)
    out[spot] = new
    return type(value)(out)


def ints(size):
    return list(range(1, size + 1))


def in_set(value, spot, new):
    return {new if v == spot + 1 else v for v in value}


def kinds():
    num = lambda: P.Integer('', min=0)
    yield Kind('list', lambda: P.List('', num(), default=list), ints,
               lambda v, i: at(v, i, 'x'), lambda v, i: at(v, i, 0))
    yield Kind('tuple', lambda: P.Tuple('', num(), default=tuple),
               lambda n: tuple(ints(n)),
               lambda v, i: swap(v, i, -1), lambda v, i: swap(v, i, 0))
    yield Kind('set', lambda: P.Set('', num(), default=set),
               lambda n: set(ints(n)),
               lambda v, i: in_set(v, i, -1), lambda v, i: in_set(v, i, 0))
    yield Kind('dict values', lambda: P.Dictionary(
        '', key_prop=P.String(''), value_prop=num(), default=dict),
        lambda n: {'k%d' % i: i for i in range(n)},
        lambda v, i: at(v, 'k%d' % i, -1), lambda v, i: at(v, 'k%d' % i, i + 1))
    yield Kind('dict keys', lambda: P.Dictionary(
        '', key_prop=P.String(''), value_prop=num(), default=dict),
        lambda n: {'k%d' % i: i for i in range(n)},
        lambda v, i: rekey(v, i, 5), lambda v, i: rekey(v, i, 'other'))
    yield Kind('nested', lambda: P.List('', P.List('', num()), default=list),
               lambda n: [[k] * (k % 3) + [k] for k in range(n)],
               lambda v, i: at(v, i, [1, -1]), lambda v, i: at(v, i, [0] * 9))
    yield Kind('inner', lambda: P.List('', P.List('', num()), default=list),
               lambda n: [[], ints(n)],
               lambda v, i: (at(v[1], i, None), v)[1],
               lambda v, i: (at(v[1], i, 0), v)[1])
    yield Kind('union', lambda: P.List('', P.Union('', [
        num(), P.List('', num())]), default=list),
        lambda n: [k if k % 2 else [k] for k in range(n)],
        lambda v, i: at(v, i, -1), lambda v, i: at(v, i, [7, 7]))
    yield Kind('instances', lambda: P.List('', Item, default=list),
               lambda n: [Item(need=k) for k in range(n)],
               None, lambda v, i: at(v, i, Item(need=-5)))
    yield Kind('array', lambda: P.Array('', shape=('*',), dtype=float),
               lambda n: np.arange(float(n)), None,
               lambda v, i: at(v, i, v[i] + 1))
    yield Kind('vectors', lambda: P.Vector3Array(''),
               lambda n: [[k, 1., 2.] for k in range(n)],
               lambda v, i: at(v, i, [1., 2.]),
               lambda v, i: at(v, i, [5., 5., 5.5]))
    yield Kind('text', lambda: P.String(''), lambda n: 'a' * n, None,
               lambda v, i: v[:i] + 'b' + v[i + 1:])


def matrix(ctx, judge, need=None):
    """judge(ctx, kind, holder, size) for every kind and size."""
    for kind in kinds():
        if need and not getattr(kind, need):
            continue
        holder = type('Holder', (P.HasProperties,), {'p': kind.prop(), 'q':
                                                     P.Integer('', default=1)})
        for size in sizes(ctx.quick):
            if kind.name in ('array', 'vectors') and size == 0:
                continue
            if not core.case(ctx, '%s of size %d' % (kind.name, size), judge,
                             ctx, kind, holder, size):
                return
            ctx.step()
            ctx.state((kind.name, size))


def plain(value):
    """As nested builtin values, for comparing."""
    if isinstance(value, np.ndarray):
        return value.tolist()
    if isinstance(value, P.HasProperties):
        return ('Item', value.need)
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if isinstance(value, dict):
        return list(value.items())
    return value


def assign(ctx, kind, holder, size):
    """P03: accepted as a whole, refused for any single item."""
    inst = holder()
    value = kind.make(size)
    inst.p = value
    ctx.check(plain(inst.p) == plain(kind.make(size)), 'stored another value')
    ctx.check(not isinstance(value, (list, dict, set)) or
              inst.p is not value, 'the container is not copied')
    kept = inst.p
    if not kind.spoil:
        return
    for spot in spots(size):
        bad = kind.spoil(kind.make(size), spot)
        core.expect(ctx, core.attempt(setattr, inst, 'p', bad), ValueError,
                    'bad item %d' % spot)
        ctx.check(inst.p is kept, 'a refused value changed the instance')
        core.expect(ctx, core.attempt(holder, p=bad), ValueError,
                    'constructed with bad item %d' % spot)
        ctx.step(2)


def validity(ctx, kind, holder, size):
    """P07: one problem anywhere is found."""
    inst = holder(p=kind.make(size))
    ctx.check(inst.validate() is True, 'validate')
    for spot in spots(size):
        if kind.name == 'instances':
            spoiled = inst.p[spot]
            good = spoiled.need
            spoiled.need = P.undefined
        elif isinstance(inst.p, list):
            good = inst.p[:] if kind.name != 'inner' else inst.p[1][:]
            if kind.name == 'inner':
                inst.p[1][spot] = None
            else:
                inst.p[:] = kind.spoil(list(good), spot)
        elif isinstance(inst.p, (set, dict)):
            good = kind.make(size)
            bad = kind.spoil(kind.make(size), spot)
            inst.p.clear()
            inst.p.update(bad)
        else:
            return
        core.expect(ctx, core.attempt(inst.validate), P.ValidationError,
                    'item %d is invalid' % spot)
        if kind.name == 'instances':
            spoiled.need = good
        elif kind.name == 'inner':
            inst.p[1][:] = good
        elif isinstance(inst.p, list):
            inst.p[:] = good
        else:
            inst.p.clear()
            inst.p.update(good)
        ctx.check(inst.validate() is True, 'validate after the repair')
        ctx.step(2)


def trip(ctx, kind, holder, size):
    """P08: all items survive."""
    inst = holder(p=kind.make(size))
    text = json.dumps(inst.serialize())
    back = holder.deserialize(json.loads(text))
    ctx.check(plain(back.p) == plain(inst.p) and type(back.p) is type(inst.p),
              lambda: 'came back as %s' % core.show(plain(back.p)))
    dup = P.copy(inst)
    ctx.check(plain(dup.p) == plain(inst.p), 'the copy differs')
    ctx.check(json.dumps(back.serialize()) == text, 'serializes differently')


def equality(ctx, kind, holder, size):
    """P10: a difference anywhere counts."""
    inst = holder(p=kind.make(size))
    twin = holder(p=kind.make(size))
    ctx.check(P.equal(inst, twin) is True and P.equal(twin, inst) is True,
              'equal values')
    ctx.check(P.equal(inst, P.copy(inst)) is True, 'copy')
    for spot in spots(size):
        twin.p = kind.differ(kind.make(size), spot)
        ctx.check(P.equal(inst, twin) is False and
                  P.equal(twin, inst) is False, 'item %d differs' % spot)
        ctx.step()
    if size:
        twin.p = kind.make(size - 1) if size > 1 or kind.name not in (
            'array', 'vectors') else kind.make(2)
        ctx.check(P.equal(inst, twin) is False and
                  P.equal(twin, inst) is False, 'lengths differ')


# -- many of everything -------------------------------------------------------
COUNTS = list(range(1, 13)) + [16, 17, 20, 32, 33, 50, 64, 65, 100]


def counted(ctx, judge, counts=COUNTS):
    for num in counts:
        if not core.case(ctx, 'with %d' % num, judge, ctx, num):
            return
        ctx.step()
        ctx.state(num)


def listeners(ctx, num):
    """P05: every one of many listeners hears every change once, in order."""
    log = []
    body = {'p': P.Integer('', default=0), 'q': P.Integer('', default=0)}
    for idx in range(num):
        body['on_%03d' % idx] = P.observer('p')(
            lambda self, change, idx=idx: log.append(('class', idx)))
        body['check_%03d' % idx] = P.validator('p')(
            lambda self, change, idx=idx: log.append(('valid', idx)))
    cls = type('Many', (P.HasProperties,), body)
    inst, other = cls(), cls()
    for idx in range(num):
        P.observer(inst, ['p', 'q'], lambda self, change, idx=idx:
                   log.append(('own', idx, self is inst, change['value'])))
    for value in (1, 2):
        del log[:]
        inst.p = value
        ctx.check(log == [('valid', i) for i in range(num)] +
                  [('class', i) for i in range(num)] +
                  [('own', i, True, value) for i in range(num)],
                  lambda: 'p = %s told %s' % (value, core.show(log)))
        del log[:]
        inst.q = value
        ctx.check(log == [('own', i, True, value) for i in range(num)],
                  lambda: 'q = %s told %s' % (value, core.show(log)))
    del log[:]
    other.p = 5
    ctx.check(log == [('valid', i) for i in range(num)] +
              [('class', i) for i in range(num)],
              lambda: 'the other instance told %s' % core.show(log))


class End(P.HasProperties):
    a = P.Integer('', default=0)


def links(ctx, num):
    """P14: values travel down long chains and to every target."""
    ends = [End() for _ in range(num + 1)]
    chain = [P.directional_link((ends[i], 'a'), (ends[i + 1], 'a'))
             for i in range(num)]
    ends[0].a = 1
    ctx.check(all(e.a == 1 for e in ends), 'chain')
    for cut in {0, num // 2, num - 1}:
        chain[cut].unlink()
        ends[0].a += 1
        ctx.check([e.a for e in ends] == [ends[0].a] * (cut + 1) + [
            ends[0].a - 1] * (num - cut), 'chain cut at %d' % cut)
        chain[cut].relink()
        ends[0].a += 1
        ctx.check(all(e.a == ends[0].a for e in ends), 'chain again')
    src, tgts = End(), [End() for _ in range(num)]
    star = [P.directional_link((src, 'a'), (t, 'a')) for t in tgts]
    src.a = 4
    ctx.check(all(t.a == 4 for t in tgts), 'star')
    star[num // 2].unlink()
    src.a = 5
    ctx.check([t.a for t in tgts] == [
        4 if i == num // 2 else 5 for i in range(num)], 'star with one cut')
    if 2 <= num <= 20:
        ring = [End() for _ in range(num)]
        tie = P.link(*[(e, 'a') for e in ring])
        for i, end in enumerate(ring):
            end.a = 10 + i
            ctx.check(all(e.a == 10 + i for e in ring), 'link of %d' % num)
        tie.unlink()
        ring[0].a = 99
        ctx.check([e.a for e in ring[1:]] == [9 + num] * (num - 1),
                  'unlinked')


def keywords(ctx, num):
    """P23: many keywords, one of them bad."""
    names = ['p%03d' % i for i in range(num)]
    cls = type('Wide', (P.HasProperties,), {
        n: P.Integer('', default=-1) for n in names})
    inst = cls(**{n: i for i, n in enumerate(names)})
    ctx.check([getattr(inst, n) for n in names] == list(range(num)),
              'constructed')
    for spot in range(num):
        kwargs = {n: i for i, n in enumerate(names)}
        kwargs[names[spot]] = 'x'
        err = core.expect(ctx, core.attempt(cls, **kwargs), P.ValidationError,
                          'bad keyword %d' % spot)
        ctx.check([t.prop for t in err.error_tuples] == [names[spot]],
                  'blames %s' % [t.prop for t in err.error_tuples])
        inst = cls(**{names[spot]: 7})
        ctx.check([getattr(inst, n) for n in names] == [
            7 if i == spot else -1 for i in range(num)], 'one keyword')
        kwargs = {n: i for i, n in enumerate(names)}
        kwargs['p%03dx' % spot] = 1
        core.expect(ctx, core.attempt(cls, **kwargs), AttributeError,
                    'unknown keyword')
        ctx.step(3)
    err = core.expect(ctx, core.attempt(cls, **{n: 'x' for n in names}),
                      P.ValidationError, 'all bad')
    ctx.check([t.prop for t in err.error_tuples] == names, 'all are blamed')


def lineage(ctx, num):
    """P12: members travel down deep hierarchies."""
    log = []
    for spot in {0, num // 2, num - 1}:
        for again in (None, spot, (spot + num) // 2, num - 1):
            cls = P.HasProperties
            for depth in range(num):
                body = {'own%d' % depth: P.Integer('', default=depth)}
                if depth == spot:
                    body['p'] = P.Integer('', default=1, min=0)
                    body['watch'] = P.observer('p')(
                        lambda self, change: log.append('first'))
                if again is not None and depth == again and again > spot:
                    body['p'] = P.String('', default='s')
                    body['watch'] = P.observer('p')(
                        lambda self, change: log.append('again'))
                cls = type('Level', (cls,), body)
            redone = again is not None and again > spot
            inst = cls()
            want = {'own%d' % d: d for d in range(num)}
            want['p'] = 's' if redone else 1
            ctx.check({n: getattr(inst, n) for n in cls._props} == want,
                      'properties of the last class')
            del log[:]
            inst.p = 't' if redone else 2
            ctx.check(log == ['again' if redone else 'first'],
                      'observers %s' % log)
            core.expect(ctx, core.attempt(setattr, inst, 'p', -1 if not redone
                                          else 5), ValueError, 'bad value')
            ctx.step()


def renames(ctx, num):
    """P17: long chains of old names."""
    body = {'n0': P.Integer('', default=5, required=False)}
    for i in range(1, num + 1):
        body['n%d' % i] = P.Renamed('n%d' % (i - 1), warn=False)
    cls = type('Old', (P.HasProperties,), body)
    inst = cls()
    names = ['n%d' % i for i in range(num + 1)]
    for i, name in enumerate(names):
        setattr(inst, name, i)
        ctx.check([getattr(inst, n) for n in names] == [i] * (num + 1),
                  'set by %s' % name)
        ctx.check(inst.serialize() == {'__class__': 'Old', 'n0': i},
                  'serialized %s' % inst.serialize())
        ctx.check(cls.deserialize({name: 3}).n0 == 3, 'loaded by %s' % name)
        ctx.check(cls(**{name: 4}).n0 == 4, 'constructed by %s' % name)
        delattr(inst, name)
        ctx.check([getattr(inst, n) for n in names] == [None] * (num + 1),
                  'deleted by %s' % name)
        ctx.step()


def members(ctx, num):
    """P13: the only member that accepts may be any of many."""
    prop = lambda: P.Union('', [P.Integer('', min=10 * i, max=10 * i + 5)
                                for i in range(num)])
    cls = type('Choice', (P.HasProperties,), {'p': prop(), 'l': P.List(
        '', prop(), default=list)})
    inst = cls()
    for i in range(num):
        inst.p = 10 * i + 3
        inst.l = [10 * i + 5]
        ctx.check(inst.p == 10 * i + 3 and inst.validate(), 'member %d' % i)
        ctx.check(cls.deserialize(inst.serialize()).p == 10 * i + 3, 'JSON')
        core.expect(ctx, core.attempt(setattr, inst, 'p', 10 * i + 7),
                    ValueError, 'no member')
        ctx.check(inst.p == 10 * i + 3, 'kept')
        ctx.step()


def observed(ctx, num):
    """P04: mutations of long containers at every place."""
    log = []
    cls = type('Seen', (P.HasProperties,), {
        'l': P.List('', P.Integer(''), observe_mutations=True),
        's': P.Set('', P.Integer(''), observe_mutations=True),
        'd': P.Dictionary('', key_prop=P.Integer(''), value_prop=P.Integer(''),
                          observe_mutations=True),
        'on': P.observer(P.everything)(
            lambda self, change: log.append(change['name']))})
    inst = cls(l=list(range(num)), s=set(range(num)),
               d={i: i for i in range(num)})
    plain_l, plain_s = list(range(num)), set(range(num))
    plain_d = {i: i for i in range(num)}
    for spot in range(num):
        del log[:]
        inst.l[spot] = plain_l[spot] = spot + 1000
        inst.l.insert(spot, 5)
        plain_l.insert(spot, 5)
        inst.s.remove(spot)
        plain_s.remove(spot)
        inst.s.add(spot + 1000)
        plain_s.add(spot + 1000)
        inst.d[spot] = plain_d[spot] = spot + 1000
        ctx.check(inst.l == plain_l and inst.s == plain_s and
                  inst.d == plain_d, 'contents after changing %d' % spot)
        ctx.check(log == ['l', 'l', 's', 's', 'd'], 'told %s' % log)
        del log[:]
        for func in (lambda: inst.l.__setitem__(spot, 'x'),
                     lambda: inst.s.add('x'),
                     lambda: inst.d.__setitem__(spot, 'x')):
            core.expect(ctx, core.attempt(func), ValueError, 'bad item')
        ctx.check(inst.l == plain_l and inst.s == plain_s and
                  inst.d == plain_d and log == [], 'a refused change')
        ctx.step(8)


def many(ctx, num):
    """P01: many properties on many instances do not touch each other."""
    names = ['p%03d' % i for i in range(num)]
    cls = type('Wide', (P.HasProperties,), {
        n: P.Integer('', default=0) for n in names})
    insts = [cls() for _ in range(num)]
    want = [{n: 0 for n in names} for _ in insts]
    for i, name in enumerate(names):
        for k in {i, 0, num - 1, (i * 7) % num}:
            setattr(insts[k], name, i + k + 1)
            want[k][name] = i + k + 1
    for inst, vals in zip(insts, want):
        ctx.check({n: getattr(inst, n) for n in names} == vals, 'values')
        ctx.check(inst.serialize(include_class=False) == vals, 'serialized')
    for i, name in enumerate(names):
        delattr(insts[i], name)
        want[i][name] = None
        core.expect(ctx, core.attempt(setattr, insts[-1 - i], name, 'x'),
                    ValueError, 'bad value')
    for inst, vals in zip(insts, want):
        ctx.check({n: getattr(inst, n) for n in names} == vals, 'values')
        inst._reset()
        ctx.check({n: getattr(inst, n) for n in names} == {
            n: 0 for n in names}, 'reset')


def identified(ctx, num):
    """P16: long chains and wide stars of identified instances."""
    from properties import extras as X

    class Base(X.HasUID):
        _REGISTRY = {}
        _INSTANCES = {}

    class Node(Base):
        num = P.Integer('', default=0)
        nxt = P.Instance('', Base, required=False)
        all = P.List('', P.Instance('', Base), default=list)

    nodes = [Node(uid='n%d' % i, num=i) for i in range(num)]
    for one, two in zip(nodes, nodes[1:] + nodes[:1]):
        one.nxt = two
    nodes[num // 2].all = list(reversed(nodes))
    want = {'n%d' % i: {
        '__class__': 'Node', 'uid': 'n%d' % i, 'num': i,
        'nxt': 'n%d' % ((i + 1) % num), 'all': [
            'n%d' % k for k in reversed(range(num))] if i == num // 2 else []}
            for i in range(num)}
    for spot in {0, num // 2, num - 1}:
        flat = nodes[spot].serialize()
        ctx.check(flat == dict(want, __root__='n%d' % spot),
                  lambda: 'serialized %s' % core.show(flat))
        Base._INSTANCES.clear()
        back = Base.deserialize(json.loads(json.dumps(flat)), trusted=True)
        ctx.check(set(Base._INSTANCES) >= {'n%d' % i for i in range(num)},
                  'registered')
        got = [back]
        while len(got) < num:
            got.append(got[-1].nxt)
        ctx.check(got[-1].nxt is back and
                  [n.num for n in got] == [(spot + i) % num
                                           for i in range(num)] and
                  all(n.uid == 'n%d' % n.num and Base.load(n.uid) is n
                      for n in got), 'the ring')
        hub = [n for n in got if n.num == num // 2][0]
        ctx.check([n.num for n in hub.all] == list(reversed(range(num))) and
                  all(any(n is g for g in got) for n in hub.all), 'the star')
        ctx.step(2)
