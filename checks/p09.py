"""P09: deserialization options, against a written-down decision procedure."""
import collections
import copy
import itertools
import json
import uuid

import properties as P

from mc import core

PROPERTY = 'P09'
BOUNDS = ('every combination of called class (base, subclass), trusted, strict, '
          'validation flag, 7 class names in the input at each of two levels, 6 '
          'holders of the inner object, unused keys (none, outer, inner, both), '
          'missing keys, invalid values and immutable values; 14 kinds of '
          'non-dictionaries at both levels; every key subset for filtering, '
          'with every keyword flag and four classes')
ASSUMPTIONS = ['the name in the input is a string, None or missing']

UUID = '12345678-1234-5678-1234-567812345678'
NAMES = ['absent', None, 'same', 'Sub', 'Stranger', 'Unknown', 'Foreign', 'Root']


class World(object):
    def __init__(self, holder):
        log = self.log = []

        class Root(P.HasProperties):
            _REGISTRY = dict()

        class Base(Root):
            num = P.Integer('', required=False, default=4)
            need = P.String('')

            @P.observer(P.everything)
            def watch(self, change):
                log.append(change['name'])

            @P.validator(P.everything)
            def guard(self, change):
                if not self.checking:
                    log.append('v ' + change['name'])
            checking = False

        class Sub(Base):
            more = P.Integer('', required=False)

        class Stranger(Root):
            num = P.Integer('', required=False)

        class ForeignRoot(P.HasProperties):
            _REGISTRY = dict()

        class Foreign(ForeignRoot):
            num = P.Integer('', required=False)
        self.Base, self.Sub, self.Stranger = Base, Sub, Stranger
        self.registry = {'Base': Base, 'Sub': Sub, 'Stranger': Stranger,
                         'Root': Root}
        make = {
            'instance': lambda: P.Instance('', Base, required=False),
            'list': lambda: P.List('', Base, required=False),
            'tuple': lambda: P.Tuple('', P.Instance('', Base), required=False),
            'dict': lambda: P.Dictionary('', value_prop=P.Instance('', Base),
                                         required=False),
            'nested': lambda: P.List('', P.List('', Base), required=False),
            'watched': lambda: P.List('', Base, required=False,
                                      observe_mutations=True),
        }[holder]
        self.wrap, self.unwrap = {
            'instance': (lambda v: v, lambda v: v),
            'list': (lambda v: [v], lambda v: v[0]),
            'tuple': (lambda v: [v], lambda v: v[0]),
            'dict': (lambda v: {'k': v}, lambda v: v['k']),
            'nested': (lambda v: [[v]], lambda v: v[0][0]),
            'watched': (lambda v: [v], lambda v: v[0]),
        }[holder]

        class Outer(Root):
            inner = make()
            need = P.String('')
            ident = P.Uuid('')
            fixed = P.GettableProperty('', default=3)

            @P.observer(P.everything)
            def watch(self, change):
                log.append(change['name'])

        class OuterSub(Outer):
            extra = P.Integer('', required=False)
        self.Outer, self.OuterSub = Outer, OuterSub
        self.registry.update({'Outer': Outer, 'OuterSub': OuterSub})
        self.names = {'Outer': Outer, 'OuterSub': OuterSub}


def choose(world, cls, name, trusted, strict):
    if name in ('absent', None) or name == cls.__name__:
        return cls
    if trusted and name in world.registry:
        return world.registry[name]
    if strict:
        return None
    return cls


def put_name(data, name, cls, sub):
    if name == 'absent':
        return name
    if name == 'same':
        name = cls.__name__
    elif name == 'Sub':
        name = sub
    data['__class__'] = name
    return name


def expected(world, cls, trusted, strict, valid, outer_name, inner_name, extra,
             missing, bad):
    """None for rejection, else (outer class, inner class or None)."""
    out = choose(world, cls, outer_name, trusted, strict)
    if out is None:
        return None
    used = {'need', 'ident', 'fixed', 'inner'}
    known = set(out._props)
    given = set() if 'outer' in missing else {'need'}
    if 'immutable' not in missing:
        given |= {'ident', 'fixed'}
    if 'outer' in extra:
        given.add('bogus')
    inner_cls = None
    if 'whole' not in missing:
        given.add('inner')
    if strict and given - known:
        return None
    if 'outer' in bad and 'need' in known:
        return None
    if 'inner' in given and 'inner' in known:
        inner_cls = choose(world, world.Base, inner_name, trusted, strict)
        if inner_cls is None:
            return None
        inner_given = {'num'} | (set() if 'inner' in missing else {'need'})
        if 'inner' in extra:
            inner_given.add('bogus')
        if strict and inner_given - set(inner_cls._props):
            return None
        if 'inner' in bad and 'num' in inner_cls._props:
            return None
        if not issubclass(inner_cls, world.Base):
            return None         # the holder refuses the object
    if valid:
        if 'need' in known and 'outer' in missing:
            return None
        if inner_cls is not None and 'inner' in missing:
            return None
    return out, inner_cls


def options(ctx, holder, trusted, strict):
    world = World(holder)
    flags = [(), ('outer',), ('inner',), ('outer', 'inner')]
    miss = [(), ('outer',), ('inner',), ('whole',), ('immutable',)]
    bads = [(), ('outer',), ('inner',)]

    def one(called, valid, oname, iname, extra, missing, bad):
        cls = world.names[called]
        data = {}
        oname = put_name(data, oname, cls, 'OuterSub')
        inner = {}
        iname = put_name(inner, iname, world.Base, 'Sub')
        inner['num'] = 'bad' if 'inner' in bad else 7
        if 'inner' not in missing:
            inner['need'] = 'i'
        if 'inner' in extra:
            inner['bogus'] = [1]
        if 'outer' not in missing:
            data['need'] = ['bad'] if 'outer' in bad else 'o'
        if 'outer' in extra:
            data['bogus'] = {'x': None}
        if 'immutable' not in missing:
            data['ident'] = UUID
            data['fixed'] = 9
        if 'whole' not in missing:
            data['inner'] = world.wrap(inner)
        # a rejected value that is not there cannot reject
        bad = tuple(b for b in bad if {'outer': 'outer', 'inner': 'whole'}[b]
                    not in missing)
        want = expected(world, cls, trusted, strict, valid, oname, iname,
                        extra, missing, bad)
        spare = copy.deepcopy(data)
        del world.log[:]
        real = core.attempt(cls.deserialize, data, trusted=trusted,
                            strict=strict, assert_valid=valid)
        ctx.step()
        label = '%s.deserialize(%s, trusted=%s, strict=%s, assert_valid=%s)' % (
            called, json.dumps(spare), trusted, strict, valid)
        ctx.check(data == spare and list(data) == list(spare), lambda:
                  '%s changed its input to %s' % (label, data))
        fired = [e for e in world.log if not (valid and e.startswith('v '))]
        ctx.check(not fired, lambda: '%s fired listeners for %s' % (label,
                                                                    fired))
        ctx.outcome((want is None, oname, iname, extra))
        ctx.state(label)
        if want is None:
            core.expect(ctx, real, ValueError, label)
            return
        inst = core.expect_ok(ctx, real, label)
        ctx.check(type(inst) is want[0], lambda: '%s built a %s, expected a %s'
                  % (label, type(inst).__name__, want[0].__name__))
        if 'need' in want[0]._props:
            ctx.same(inst.need, None if 'outer' in missing else 'o', label)
        if 'ident' in want[0]._props and 'immutable' not in missing:
            ctx.check(inst.ident == uuid.UUID(UUID), 'immutable uuid not '
                      'restored')
            ctx.same(inst.fixed, 9, 'immutable value')
        elif 'ident' in want[0]._props:
            ctx.check(inst.fixed == 3 and inst.ident != uuid.UUID(UUID),
                      'immutable default')
        if 'inner' in want[0]._props:
            if want[1] is None:
                ctx.check(inst.inner is None, 'inner appears from nowhere')
            else:
                child = world.unwrap(inst.inner)
                ctx.check(type(child) is want[1], lambda: '%s: inner object is '
                          'a %s, expected a %s' % (
                              label, type(child).__name__, want[1].__name__))
                ctx.same(child.num, 7, label)
                ctx.same(child.need, None if 'inner' in missing else 'i',
                         label)
        # afterwards everything is as usual
        del world.log[:]
        if 'need' in want[0]._props and 'inner' in want[0]._props:
            inst.need = 'later'
            ctx.check('need' in world.log, 'listeners stay silent after '
                      'deserializing')

    for called, valid, oname, iname in itertools.product(
            ('Outer', 'OuterSub'), (False, True), NAMES, NAMES):
        for extra, missing, bad in itertools.product(flags, miss, bads):
            if not core.case(ctx, (called, valid, oname, iname, extra, missing,
                                   bad), one, called, valid, oname, iname,
                             extra, missing, bad):
                return
    ctx.sample('all option combinations with the inner object in a %s' % holder)


def not_dicts(ctx):
    world = World('instance')
    for bad in (None, [], [1], 'text', 5, 1.5, True, (), set(), b'x',
                [('need', 'o')], object(), iter(()), {'a'}):
        for trusted, strict in itertools.product((False, True), repeat=2):
            def one():
                ctx.step()
                core.expect(ctx, core.attempt(
                    world.Outer.deserialize, bad, trusted=trusted,
                    strict=strict), ValueError, 'deserialize(%r)' % (bad,))
                if bad is not None:
                    core.expect(ctx, core.attempt(
                        world.Outer.deserialize, {'inner': bad},
                        trusted=trusted, strict=strict), ValueError,
                        'nested %r' % (bad,))
                ctx.state((repr(bad)[:30], trusted, strict))
            core.case(ctx, repr(bad), one)
    for make in (dict, collections.OrderedDict):
        def good():
            inst = world.Outer.deserialize(make([('need', 'o')]))
            ctx.check(inst.need == 'o', 'dictionary subclass')
            ctx.state(make.__name__)
        core.case(ctx, make.__name__, good)


def deeper(ctx, depth):
    """Class choice and strictness at every level of a chain."""
    class Root(P.HasProperties):
        _REGISTRY = dict()

    class Link(Root):
        val = P.Integer('', required=False)

    class Longer(Link):
        own = P.Integer('', required=False)
    Link.__doc__ = ''
    Chain = type('Chain', (Root,), {
        'val': P.Integer('', required=False),
        'nxt': P.Instance('', Link, required=False)})
    levels = [Link, Longer]
    classes = [Link]
    for i in range(depth):
        cls = type('Level%d' % i, (Root,), {
            'val': P.Integer('', required=False),
            'nxt': P.Instance('', classes[-1], required=False)})
        sub = type('Deep%d' % i, (cls,), {'own': P.Integer(
            '', required=False)})
        classes.append(cls)
        levels.append(sub)
    subs = {Link: Longer}
    for i, cls in enumerate(classes[1:]):
        subs[cls] = Root._REGISTRY['Deep%d' % i]

    def one(plan, trusted, strict):
        data = None
        want = []
        ok = True
        for cls, mark in zip(classes, plan):
            node = {'val': 1}
            if data is not None:
                node['nxt'] = data
            got = cls
            if mark == 'base':
                node['__class__'] = cls.__name__
            elif mark == 'sub':
                node['__class__'] = subs[cls].__name__
                if trusted:
                    got = subs[cls]
                elif strict:
                    ok = False
            elif mark == 'extra':
                node['what'] = 1
                if strict:
                    ok = False
            elif mark == 'own':
                node['own'] = 5
                if strict:
                    ok = False
            elif mark == 'sub own':
                node['__class__'] = subs[cls].__name__
                node['own'] = 5
                if trusted:
                    got = subs[cls]
                elif strict:
                    ok = False
            want.append(got)
            data = node
        spare = copy.deepcopy(data)
        real = core.attempt(classes[-1].deserialize, data, trusted=trusted,
                            strict=strict)
        ctx.step()
        ctx.check(data == spare, 'input changed')
        label = '%s trusted=%s strict=%s' % (plan, trusted, strict)
        ctx.state(label)
        if not ok:
            core.expect(ctx, real, ValueError, label)
            return
        inst = core.expect_ok(ctx, real, label)
        for got, mark in zip(reversed(want), reversed(plan)):
            ctx.check(type(inst) is got, lambda: '%s: %s, expected %s' % (
                label, type(inst).__name__, got.__name__))
            if got in subs.values():
                ctx.same(inst.own, 5 if mark == 'sub own' else None, label)
            inst = getattr(inst, 'nxt', None)
    marks = ('none', 'base', 'sub', 'extra', 'own', 'sub own')
    for plan in itertools.product(marks, repeat=depth + 1):
        for trusted, strict in itertools.product((False, True), repeat=2):
            if not core.case(ctx, (plan, trusted, strict), one, plan, trusted,
                             strict):
                return
    ctx.sample('every plan of %d levels' % (depth + 1))


def filters(ctx):
    class Plain(P.HasProperties):
        one = P.Integer('')
        two = P.List('', P.Integer(''), required=False)
        fixed = P.GettableProperty('', default=1)
        ident = P.Uuid('')

        @P.Integer('dyn')
        def dyn(self):
            return 1
        _hid = P.Integer('')

    class Child(Plain):
        three = P.String('')
        two = None                  # removed

    class Empty(P.HasProperties):
        pass
    keys = ['one', 'two', 'three', 'fixed', 'ident', 'dyn', '_hid', 'other',
            '__class__', 'validate']
    known = {
        Plain: ({'one', 'two', '_hid'}, {'fixed', 'ident', 'dyn'}),
        Child: ({'one', 'three', '_hid'}, {'fixed', 'ident', 'dyn'}),
        Empty: (set(), set()),
    }

    def one(cls, target, subset, how):
        data = {k: [k] for k in subset}
        spare = dict(data)
        args = {'default': (), True: (True,), False: (False,)}[how]
        props, others = P.filter_props(target, data, *args)
        ctx.step()
        ctx.check(data == spare, 'filtering changed its input')
        ctx.check(type(props) is dict and type(others) is dict, 'types')
        mutable, immutable = known[cls]
        want = mutable | (immutable if how is not False else set())
        ctx.check(set(props) == want & set(subset), lambda:
                  'known keys of %s in %s: %s' % (cls.__name__, subset,
                                                  sorted(props)))
        ctx.check(set(others) == set(subset) - want, lambda:
                  'other keys of %s in %s: %s' % (cls.__name__, subset,
                                                  sorted(others)))
        for part in (props, others):
            for key, val in part.items():
                ctx.check(val is data[key], 'value of %r was replaced' % key)
        ctx.state((cls.__name__, subset, how, target is cls))
    for cls in known:
        for target in (cls, cls()):
            for size in range(len(keys) + 1):
                for subset in itertools.combinations(keys, size):
                    for how in ('default', True, False):
                        if not core.case(ctx, (cls.__name__, subset, how), one,
                                         cls, target, subset, how):
                            return
    ctx.sample('every key subset of %s' % keys)


def scenarios(tier):
    quick = tier != 'thorough'
    kinds = ('instance', 'list', 'tuple', 'dict', 'nested', 'watched')
    for holder in kinds:
        for trusted, strict in itertools.product((False, True), repeat=2):
            yield 'options %s trusted=%s strict=%s' % (
                holder, trusted, strict), lambda ctx, h=holder, t=trusted, \
                s=strict: options(ctx, h, t, s)
    yield 'not dictionaries', not_dicts
    yield 'deeper', lambda ctx: deeper(ctx, 3 if quick else 5)
    yield 'filter', filters
