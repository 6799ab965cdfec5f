"""P15: singleton registries against a dictionary of identities."""
import copy
import itertools

import properties as P
from properties.extras import Singleton

from mc import core

PROPERTY = 'P15'
BOUNDS = ('every sequence of 2 (quick) / 3 (thorough) operations over about 60 '
          'operations, then breadth-first over distinct joint states: '
          'construct, failing construct, rename, set, serialize, deserialize '
          '(trusted, strict, asserting validity), copy, assignment to an '
          'instance property; classes that coerce, replace or drop their '
          'name; 3 names, 4 classes (subclass, class without a '
          'name property, class with its own registry), 2 registries, '
          'empty or populated')
ASSUMPTIONS = ['keyword arguments given for a name that is taken are ignored',
               'identifying names are hashable and JSON-compatible']

NAMES = ('a', 'b', 'z')


class World(object):
    """Fresh classes and registries for every history."""

    def __init__(self):
        log = self.log = []

        class Base(Singleton):
            _REGISTRY = dict()
            _SINGLETONS = dict()
            num = P.Integer('', required=False, max=9)

            @P.observer('num')
            def watch(self, change):
                log.append(change['value'])

            @P.validator
            def small(self):
                if self.num == 7:
                    raise P.ValidationError('seven')

        class Plain(Base):
            """no name property"""

            def __len__(self):
                return 0

            @P.Integer('')
            def double(self):
                return None if self.num is None else 2 * self.num

        class Named(Base):
            name = P.String('', required=False)

        class Sub(Named):
            extra = P.Integer('', default=3, required=False)

            def __bool__(self):
                return False        # identity has nothing to do with truth

        class Apart(Named):
            _SINGLETONS = dict()

        class Holder(P.HasProperties):
            _REGISTRY = Base._REGISTRY
            one = P.Instance('', Named, required=False)
            many = P.List('', Named, required=False)
        self.classes = dict(Plain=Plain, Named=Named, Sub=Sub, Apart=Apart)
        self.Holder = Holder
        self.group = dict(Plain='main', Named='main', Sub='main', Apart='own')


class Histories(core.System):

    def __init__(self, ctx):
        super().__init__(ctx)
        self.world = World()
        # registry -> identifier -> (object, class name, expected state)
        self.reg = {'main': {}, 'own': {}}
        self.saved = []

    # -- model ------------------------------------------------------------
    def entry(self, cls, ident):
        return self.reg[self.world.group[cls]].get(ident)

    def add(self, cls, ident, obj, **state):
        full = dict(name=ident, num=None)
        if cls == 'Sub':
            full['extra'] = 3
        full.update(state)
        for group in self.reg.values():
            for other, _, _ in group.values():
                self.ctx.check(obj is not other, 'an object that exists under '
                               'another name or registry was returned')
        self.ctx.check(type(obj) is self.world.classes[cls],
                       'class of the new singleton: %s' % type(obj).__name__)
        self.reg[self.world.group[cls]][ident] = (obj, cls, full)

    def construct(self, cls, ident, by_name=False, **kwargs):
        klass = self.world.classes[cls]
        known = self.entry(cls, ident)
        if by_name:
            obj = klass(name=ident, **kwargs)
        else:
            obj = klass(ident, **kwargs)
        if known:
            self.ctx.check(obj is known[0], 'constructing %s(%r) gave another '
                           'object' % (cls, ident))
        else:
            self.add(cls, ident, obj, **kwargs)

    def fails(self, cls, ident, kinds, **kwargs):
        if self.entry(cls, ident):
            return
        out = core.attempt(self.world.classes[cls], ident, **kwargs)
        core.expect(self.ctx, out, kinds, '%s(%r, **%r)' % (
            cls, ident, kwargs))

    def put(self, cls, ident, attr, value):
        known = self.entry(cls, ident)
        if not known:
            return
        setattr(known[0], attr, value)
        known[2][attr] = value

    def remove(self, cls, ident):
        known = self.entry(cls, ident)
        if not known or known[1] == 'Plain':
            return
        del known[0].name
        known[2]['name'] = None

    def image(self, ident, cls, state):
        out = {'__class__': cls, '_singleton_id': ident}
        for key, val in state.items():
            if key == 'name' and cls == 'Plain':
                continue
            if val is not None:
                out[key] = val
        return out

    def save(self, cls, ident):
        known = self.entry(cls, ident)
        if not known:
            return
        data = known[0].serialize()
        want = self.image(ident, known[1], known[2])
        if dict(data) != want:
            self.ctx.fail('serialize: got %s, expected %s' % (
                core.show(dict(data)), core.show(want)))
        data = known[0].serialize(save_dynamic=True)
        full = dict(want)
        if known[1] == 'Plain' and want.get('num') is not None:
            full['double'] = 2 * want['num']
        if dict(data) != full:
            self.ctx.fail('serialize with dynamic values: got %s, expected '
                          '%s' % (core.show(dict(data)), core.show(full)))
        data = known[0].serialize(include_class=False)
        bare = dict(want)
        bare.pop('__class__')
        if dict(data) != bare:
            self.ctx.fail('serialize without class: got %s, expected %s' % (
                core.show(dict(data)), core.show(bare)))
        if want not in self.saved and len(self.saved) < 2:
            self.saved.append(want)

    def load(self, cls, data, fails=False, **kwargs):
        klass = self.world.classes[cls]
        given = copy.deepcopy(data)
        ident = data.get('_singleton_id', data.get('name'))
        known = self.entry(cls, ident) if ident is not None else None
        told = data.get('__class__', cls)
        into = told if kwargs.get('trusted') else cls
        if not known:
            known = self.entry(into, ident)
        out = core.attempt(klass.deserialize, given, **kwargs)
        self.ctx.same(given, data, 'the input of deserialize')
        what = '%s.deserialize(%s, %s)' % (cls, core.show(data), kwargs)
        if ident is None:
            core.expect(self.ctx, out, ValueError, what)
            return
        if known:
            obj = core.expect_ok(self.ctx, out, what)
            self.ctx.check(obj is known[0], '%s gave another object' % what)
            return
        extra = set(data) - {'__class__', '_singleton_id', 'name', 'num'}
        if into == 'Sub':
            extra -= {'extra'}
        if into == 'Plain' and '_singleton_id' in data:
            plain_name = 'name' in data
        else:
            plain_name = False
        if kwargs.get('strict'):
            if told != into or extra:
                fails = True
            elif plain_name:
                # nobody can tell; whatever happens, the registry follows
                if out[0] == core.ERR:
                    core.expect(self.ctx, out, ValueError, what)
                    return
        if kwargs.get('assert_valid') and data.get('num') == 7:
            fails = True
        if isinstance(data.get('num'), str):
            fails = True
        if into != 'Plain' and not isinstance(data.get('name', ''), str):
            fails = True
        if fails:
            core.expect(self.ctx, out, ValueError, what)
            return
        obj = core.expect_ok(self.ctx, out, what)
        state = {}
        for key in ('name', 'num', 'extra'):
            if key in data and data[key] is not None:
                if key == 'extra' and into != 'Sub':
                    continue
                if key == 'name' and into == 'Plain':
                    continue
                state[key] = data[key]
        self.add(into, ident, obj, **state)

    def load_saved(self, cls, idx, **kwargs):
        if idx < len(self.saved):
            self.load(cls, self.saved[idx], **kwargs)

    def duplicate(self, cls, ident):
        known = self.entry(cls, ident)
        if known:
            self.ctx.check(P.copy(known[0]) is known[0],
                           'a copy of a singleton is another object')
            self.ctx.check(P.equal(known[0], known[0]), 'equal to itself')

    def holder(self, ident):
        """Instance properties find or make the singleton."""
        known = self.entry('Named', ident)
        if known and known[1] == 'Plain':
            return
        hold = self.world.Holder()
        hold.one = ident
        if known:
            self.ctx.check(hold.one is known[0], 'assigning the name')
        else:
            self.add('Named', ident, hold.one)
        obj = hold.one
        hold.many = [obj, {'name': ident}, ident]
        self.ctx.check(all(item is obj for item in hold.many),
                       'instance properties made another singleton')
        data = hold.serialize()
        back = self.world.Holder.deserialize(data, trusted=True)
        twin = P.copy(hold)
        for other in (back, twin):
            self.ctx.check(other is not hold and other.one is obj and
                           all(item is obj for item in other.many),
                           'a copied holder holds another singleton')

    # -- exploration ------------------------------------------------------
    def ops(self):
        out = []

        def op(label, func):
            out.append((label, func))
        for cls in ('Plain', 'Named', 'Sub', 'Apart'):
            for ident in ('a', 'b') if cls != 'Sub' else ('a',):
                op('%s(%r)' % (cls, ident),
                   lambda s, c=cls, i=ident: s.construct(c, i))
        op("Named(name='z', num=2)",
           lambda s: s.construct('Named', 'z', by_name=True, num=2))
        op("Sub('z', num=5, extra=1)",
           lambda s: s.construct('Sub', 'z', num=5, extra=1)
           if not s.entry('Sub', 'z') else s.construct('Sub', 'z'))
        op("Named('')", lambda s: s.construct('Named', ''))
        for cls in ('Plain', 'Sub', 'Apart'):
            op("%s('a', num='bad')" % cls, lambda s, c=cls: s.fails(
                c, 'a', ValueError, num='bad'))
            op("%s('b', nope=1)" % cls, lambda s, c=cls: s.fails(
                c, 'b', AttributeError, nope=1))
        op('Named(5)', lambda s: s.fails('Named', 5, ValueError))
        op('Sub(5)', lambda s: s.fails('Sub', 5, ValueError))
        for cls in ('Named', 'Apart'):
            for ident, new in (('a', 'z'), ('b', 'a'), ('a', '')):
                op('%s %r renamed to %r' % (cls, ident, new),
                   lambda s, c=cls, i=ident, n=new: s.put(c, i, 'name', n))
            op('%s a num = 4' % cls, lambda s, c=cls: s.put(c, 'a', 'num', 4))
        op('del name of a', lambda s: s.remove('Named', 'a'))
        for cls, ident in (('Named', 'a'), ('Named', 'z'), ('Apart', 'a')):
            op('serialize %s %r' % (cls, ident),
               lambda s, c=cls, i=ident: s.save(c, i))
            op('copy %s %r' % (cls, ident),
               lambda s, c=cls, i=ident: s.duplicate(c, i))
        for cls in ('Plain', 'Named', 'Sub', 'Apart'):
            op('%s.deserialize(saved)' % cls,
               lambda s, c=cls: s.load_saved(c, 0))
        op('Named.deserialize(saved, trusted)',
           lambda s: s.load_saved('Named', 0, trusted=True))
        op('Apart.deserialize(saved, strict)',
           lambda s: s.load_saved('Apart', 0, strict=True))
        for data in ({'name': 'a', 'num': 1},
                     {'_singleton_id': 'a', 'name': 'z', 'num': 8},
                     {'_singleton_id': 'b', 'num': 7},
                     {'name': 'b', 'num': 'bad'},
                     {'_singleton_id': 'b', 'name': 5},
                     {'_singleton_id': 'b', 'name': ''},
                     {'__class__': 'Sub', '_singleton_id': 'b', 'extra': 6}):
            op('Named.deserialize(%r)' % (data,),
               lambda s, d=data: s.load('Named', d))
        for cls in ('Plain', 'Sub', 'Apart'):
            op('%s.deserialize(id a, name z)' % cls, lambda s, c=cls: s.load(
                c, {'_singleton_id': 'a', 'name': 'z', 'num': 8}))
        op('Sub.deserialize(seven, assert_valid)', lambda s: s.load(
            'Sub', {'_singleton_id': 'a', 'num': 7}, assert_valid=True))
        op('Plain.deserialize(seven, assert_valid)', lambda s: s.load(
            'Plain', {'_singleton_id': 'a', 'num': 7}, assert_valid=True))
        op('Plain.deserialize(id z, bad)', lambda s: s.load(
            'Plain', {'_singleton_id': 'z', 'num': 'bad'}))
        op('Sub.deserialize(unused, strict)', lambda s: s.load(
            'Sub', {'_singleton_id': 'b', 'zip': 7}, strict=True))
        op('Named.deserialize(Sub b, trusted)', lambda s: s.load(
            'Named', {'__class__': 'Sub', '_singleton_id': 'b', 'extra': 6},
            trusted=True))
        op('Named.deserialize(Apart b, trusted)', lambda s: s.load(
            'Named', {'__class__': 'Apart', '_singleton_id': 'b'},
            trusted=True))
        op('Named.deserialize(Plain b, trusted)', lambda s: s.load(
            'Named', {'__class__': 'Plain', '_singleton_id': 'b', 'num': 1},
            trusted=True))
        for cls in ('Plain', 'Sub', 'Apart'):
            op('Named.deserialize(%s b, bad, trusted)' % cls,
               lambda s, c=cls: s.load('Named', {
                   '__class__': c, '_singleton_id': 'b', 'num': 'bad'},
                                       trusted=True))
        op('Named.deserialize(nameless)', lambda s: s.load(
            'Named', {'num': 1}))
        op('holder of a', lambda s: s.holder('a'))
        op('holder of b', lambda s: s.holder('b'))
        return out

    def check(self):
        """The registries hold exactly what the model says."""
        world = self.world
        for group, cls in (('main', 'Named'), ('own', 'Apart')):
            real = world.classes[cls]._SINGLETONS
            model = self.reg[group]
            if set(real) != set(model):
                self.ctx.fail('%s registry: %s, expected %s' % (
                    group, sorted(map(repr, real)), sorted(map(repr, model))))
            for ident, (obj, name, state) in model.items():
                if real[ident] is not obj:
                    self.ctx.fail('%r is registered to another object' % ident)
                got = {key: getattr(obj, key) for key in state}
                if got != state:
                    self.ctx.fail('state of %s %r: %s, expected %s' % (
                        name, ident, got, state))

    def key(self):
        return (tuple((group, tuple(sorted(
            (ident, cls, core.canon(state))
            for ident, (_, cls, state) in entries.items())))
            for group, entries in sorted(self.reg.items())),
            core.canon(self.saved))


def histories(part, parts):
    def run(ctx):
        core.explore(ctx, Histories, 2 if ctx.quick else 3, part=(part, parts))
    return run


def frontier(ctx):
    core.explore(ctx, Histories, 1, extend=2 if ctx.quick else 4,
                 max_states=400 if ctx.quick else 4000)


class Twice(Histories):
    """The same, from a world where both names are taken in every registry."""

    def __init__(self, ctx):
        super().__init__(ctx)
        for cls, ident in (('Named', 'a'), ('Named', 'b'), ('Sub', 'z'),
                           ('Apart', 'a'), ('Apart', 'b')):
            self.construct(cls, ident)
        self.save('Named', 'a')
        self.save('Sub', 'z')


def populated(part, parts):
    def run(ctx):
        core.explore(ctx, Twice, 2 if ctx.quick else 3, part=(part, parts))
    return run


def existing(ctx):
    """Finding an existing singleton never touches it."""
    for cls, other in itertools.product(('Plain', 'Named', 'Sub'), repeat=2):
        for route in range(7):
            def go():
                world = World()
                one = world.classes[cls]('a', num=1)
                del world.log[:]
                two = world.classes[other]
                if route == 0:
                    got = two('a', num=2)
                elif route == 1:
                    got = two.deserialize({'name': 'a', 'num': 2})
                elif route == 2:
                    got = two.deserialize({'_singleton_id': 'a', 'num': 'x'})
                elif route == 3:
                    got = two.deserialize({'_singleton_id': 'a', 'name': 'b',
                                           'num': 2, 'odd': 3}, strict=True)
                elif route == 4:
                    got = two.deserialize({'_singleton_id': 'a', 'num': 7,
                                           '__class__': 'Sub'}, trusted=True,
                                          assert_valid=True)
                elif route == 5:
                    got = P.Instance('', two).validate(None, {
                        'name': 'a', 'num': 2}) if issubclass(
                            world.classes[cls], two) else one
                else:
                    got = P.List('', P.Instance('', two)).deserialize(
                        [{'_singleton_id': 'a', 'num': 2}])[0]
                ctx.check(got is one, 'route %d gave another object' % route)
                ctx.same((one.num, one.name, world.log), (1, 'a', []),
                         'existing singleton after route %d' % route)
                ctx.step()
                ctx.state((cls, other, route))
            core.case(ctx, 'existing %s via %s route %d' % (
                cls, other, route), go)


def identity(ctx):
    """Names of any hashable kind identify."""
    idents = ['', 'a', u'\xe9', 0, 1, 1.5, True, ('t', 1), None, b'a',
              frozenset([1])]
    for first, second in itertools.product(idents, repeat=2):
        def go():
            cls = World().classes['Plain']
            one, two = cls(first), cls(second)
            ctx.check((one is two) == (first == second),
                      'identity of %r and %r' % (first, second))
            ctx.check(cls(first) is one and cls(second) is two, 'lookup')
            ctx.step(4)
            ctx.state((repr(first), repr(second)))
        core.case(ctx, 'names %r, %r' % (first, second), go)
    for bad in (None, [], 'text', 5, [('name', 'a')]):
        for cls in ('Plain', 'Named', 'Sub', 'Apart'):
            core.case(ctx, 'deserialize %r' % (bad,), lambda: core.expect(
                ctx, core.attempt(World().classes[cls].deserialize, bad),
                ValueError, '%s.deserialize(%r)' % (cls, bad)))


class Coerced(core.System):
    """Names that the class coerces or replaces still identify as given."""

    IDENTS = ('a', 'A', ' a', 'b')

    def __init__(self, ctx):
        super().__init__(ctx)

        class Folded(Singleton):
            _REGISTRY = dict()
            _SINGLETONS = dict()
            name = P.String('', change_case='upper', strip=' ')
            num = P.Integer('', required=False)

        class Retitled(Folded):
            def __init__(self, name, **kwargs):
                super(Retitled, self).__init__(name, **kwargs)
                self.name = 'title'

        class Anonymous(Folded):
            name = P.String('', required=False)

            def __init__(self, name, **kwargs):
                super(Anonymous, self).__init__(name, **kwargs)
                del self.name

        class Listening(Folded):
            @P.observer('name')
            def _rename(self, change):
                self.num = len(change['value'])

            @P.validator('name')
            def _swap(self, change):
                change['value'] = change['value'] + '!'

        self.classes = [Folded, Retitled, Anonymous, Listening]
        self.saved = {}
        self.model = {}

    def state(self, which, ident):
        name = ident.strip(' ').upper()
        return [dict(name=name, num=None), dict(name='TITLE', num=None),
                dict(name=None, num=None),
                dict(name=name + '!', num=len(name) + 1)][which]

    def construct(self, which, ident):
        obj = self.classes[which](ident)
        if ident in self.model:
            self.ctx.check(obj is self.model[ident][0], 'constructing %r again '
                           'gave another object' % ident)
            return
        for other, _ in self.model.values():
            self.ctx.check(obj is not other, '%r gave the object of another '
                           'name' % ident)
        self.model[ident] = (obj, self.state(which, ident))

    def rename(self, ident):
        if ident in self.model:
            obj, state = self.model[ident]
            obj.name = 'b'
            kind = self.classes.index(type(obj))
            state['name'] = {2: 'b', 3: 'B!'}.get(kind, 'B')
            if kind == 3:
                state['num'] = 2

    def roundtrip(self, ident):
        if ident not in self.model:
            return
        obj, state = self.model[ident]
        data = obj.serialize()
        want = {k: v for k, v in state.items() if v is not None}
        want.update(__class__=type(obj).__name__, _singleton_id=ident)
        self.ctx.same(dict(data), want, 'serialized %r' % ident)
        for cls in self.classes:
            self.ctx.check(cls.deserialize(dict(data)) is obj,
                           'deserializing %r gave another object' % ident)
        self.ctx.check(P.copy(obj) is obj, 'copy')

    def load(self, which, key, ident):
        obj = self.classes[which].deserialize({key: ident})
        if ident in self.model:
            self.ctx.check(obj is self.model[ident][0], 'deserializing %r '
                           'gave another object' % ident)
        else:
            # classes that rename themselves may or may not do it again
            self.model[ident] = (obj, self.state(0, ident) if which == 0 else
                                 dict(name=obj.name, num=obj.num))

    def forget(self):
        self.classes[0]._SINGLETONS.clear()
        self.model.clear()

    def ops(self):
        out = [('%s(%r)' % (cls.__name__, ident),
                lambda s, w=which, i=ident: s.construct(w, i))
               for which, cls in enumerate(self.classes)
               for ident in self.IDENTS]
        for ident in self.IDENTS:
            out += [('round trip of %r' % ident,
                     lambda s, i=ident: s.roundtrip(i)),
                    ('rename %r' % ident, lambda s, i=ident: s.rename(i))]
        for which in (0, 1, 3):
            for key in ('name', '_singleton_id'):
                out += [('%s.deserialize(%s=%r)' % (
                    self.classes[which].__name__, key, ident),
                         lambda s, w=which, k=key, i=ident: s.load(w, k, i))
                        for ident in (' a', 'A')]
        out.append(('forget all', lambda s: s.forget()))
        return out

    def check(self):
        real = self.classes[0]._SINGLETONS
        self.ctx.check(set(real) == set(self.model), lambda: 'registry: %s, '
                       'expected %s' % (sorted(real), sorted(self.model)))
        for ident, (obj, state) in self.model.items():
            self.ctx.check(real[ident] is obj, 'registered object')
            got = {key: getattr(obj, key) for key in state}
            self.ctx.check(got == state, lambda: 'state of %r: %s, expected '
                           '%s' % (ident, got, state))

    def key(self):
        return core.canon(sorted(
            (i, type(o).__name__, sorted(s.items(), key=str))
            for i, (o, s) in self.model.items()))


def coerced(part):
    def run(ctx):
        core.explore(ctx, Coerced, 2 if ctx.quick else 3, part=(part, 4))
    return run


def scenarios(tier):
    for part in range(4):
        yield ('coerced names %d' % part, coerced(part))
    parts = 4 if tier == 'quick' else 16
    for part in range(parts):
        yield ('histories %d' % part, histories(part, parts))
    for part in range(parts):
        yield ('populated %d' % part, populated(part, parts))
    yield ('frontier', frontier)
    yield ('existing', existing)
    yield ('identity', identity)
