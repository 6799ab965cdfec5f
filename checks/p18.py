"""P18: immutable properties keep the value they got at construction."""
import copy
import itertools
import json
import uuid

import numpy as np
import traitlets

import properties as P

from mc import core, types

PROPERTY = 'P18'
BOUNDS = ('every sequence of 2 (quick) / 3 (thorough) operations, then '
          'breadth-first over distinct states, over 3 classes with 8 immutable '
          'properties each (constant, callable, validated, generated, '
          'class-level, inherited, undefined): creations and every attempt to '
          'change one (assignment of 5 values, deletion, reset, constructor, '
          'links, deserialization, copies, changed declarations); every '
          'default over the value alphabet; every pair of generated '
          'identifiers of hundreds')
ASSUMPTIONS = ['mutable objects held by an immutable property are not '
               'protected from changes inside them']


class Even(P.GettableProperty):
    """Immutable even integer; texts are converted"""

    class_info = 'an even integer'

    def validate(self, instance, value):
        try:
            number = int(value)
        except (TypeError, ValueError):
            self.error(instance, value)
        if number % 2:
            self.error(instance, value)
        return number

    @staticmethod
    def to_json(value, **kwargs):
        return 'even %d' % value

    @staticmethod
    def from_json(value, **kwargs):
        return int(value.split()[1])


class World(object):

    def __init__(self):
        count = itertools.count(1)
        even = itertools.count(0)
        self.seen = seen = []

        class A(P.HasProperties):
            _REGISTRY = dict()
            num = P.Integer('', required=False)
            const = P.GettableProperty('', default=5)
            fresh = P.GettableProperty('', default=lambda: [next(count)])
            even = Even('', default='4')
            call = Even('', default=lambda: str(2 * next(even)))
            ident = P.Uuid('')
            nothing = P.GettableProperty('')
            level = P.GettableProperty('', default=1)
            empty = P.GettableProperty('', default=lambda: P.undefined)
            _defaults = {'level': 'A', 'num': 3}

            def __init__(self, **kwargs):
                seen.append((self.const, self.even, self.level))
                super().__init__(**kwargs)

        class B(A):
            _defaults = {'level': lambda: {'b': next(count)}, 'even': '8',
                         'const': P.undefined}

        class C(B):
            const = Even('', default=2)
            _defaults = {'const': 10}
            extra = P.Uuid('')

        class Holder(P.HasProperties):
            _REGISTRY = A._REGISTRY
            one = P.Instance('', A, required=False)
        self.A, self.B, self.C, self.Holder = A, B, C, Holder


NAMES = ('const', 'fresh', 'even', 'call', 'ident', 'nothing', 'level',
         'empty')
FIXED = {
    'A': dict(const=5, even=4, nothing=None, level='A', empty=None),
    'B': dict(const=None, even=8, nothing=None, empty=None),
    'C': dict(const=10, even=8, nothing=None, empty=None),
}
UUID = '12345678-1234-5678-1234-567812345678'


class Attempts(core.System):

    def __init__(self, ctx):
        super().__init__(ctx)
        self.wld = World()
        self.objs = []          # (object, class name, values)
        self.saved = None
        self.keep = []

    def add(self, obj, cls, **want):
        """Record a new instance after checking its initial values."""
        ctx = self.ctx
        ctx.check(type(obj) is getattr(self.wld, cls), 'class')
        fixed = dict(FIXED[cls])
        fixed.update(want)
        values = {}
        for name in NAMES + (('extra',) if cls == 'C' else ()):
            value = getattr(obj, name)
            values[name] = value
            if name in fixed:
                ctx.same(value, fixed[name], 'initial %s of %s' % (name, cls))
        for name in ('ident', 'extra'):
            if name in values:
                ctx.check(isinstance(values[name], uuid.UUID),
                          'identifier is %r' % (values[name],))
        ctx.check(isinstance(values['fresh'], list) and
                  isinstance(values['call'], int) and
                  values['call'] % 2 == 0, 'values of callables')
        if cls != 'A' and 'level' not in want:
            ctx.check(isinstance(values['level'], dict), 'level')
        for other, _, vals in self.objs:
            ctx.check(other is not obj, 'a new instance')
            for name in ('fresh', 'level'):
                if name not in want and isinstance(values[name],
                                                   (list, dict)):
                    ctx.check(vals[name] is not values[name],
                              '%s is shared' % name)
            for name, make in (('fresh', list), ('call', int),
                               ('ident', uuid.UUID)):
                if name not in want:
                    ctx.check(vals[name] != values[name],
                              '%s repeats the value %s' % (name,
                                                           values[name]))
        if 'extra' in values and 'extra' not in want:
            ctx.check(values['extra'] != values['ident'],
                      'two identifiers are the same')
        self.objs.append((obj, cls, values))

    def make(self, cls):
        if len(self.objs) < 3:
            del self.wld.seen[:]
            obj = getattr(self.wld, cls)()
            self.add(obj, cls)
            values = self.objs[-1][2]
            self.ctx.same(self.wld.seen, [tuple(
                values[n] for n in ('const', 'even', 'level'))],
                'values seen by __init__')

    def each(self, func, kinds, what):
        for obj, cls, _ in list(self.objs):
            out = core.attempt(func, obj)
            if kinds is None:
                core.expect_ok(self.ctx, out, what)
            else:
                core.expect(self.ctx, out, kinds, what)

    def construct(self, cls, name, value):
        """Passing an immutable property to the constructor."""
        out = core.attempt(getattr(self.wld, cls), **{name: value})
        core.expect(self.ctx, out, AttributeError, '%s(%s=...)' % (cls, name))
        out = core.attempt(getattr(self.wld, cls), **{'num': 1, name: value})
        core.expect(self.ctx, out, AttributeError, '%s(%s=...)' % (cls, name))

    def hold(self, name):
        holder = self.wld.Holder()
        out = core.attempt(setattr, holder, 'one', {name: 2})
        core.expect(self.ctx, out, (AttributeError, ValueError),
                    'instance from keyword %s' % name)
        self.ctx.check(holder.one is None, 'it was stored')
        for obj, _, _ in self.objs:
            holder.one = obj
            self.ctx.check(holder.one is obj, 'stored as is')

    def link(self, name, traits):
        for obj, _, _ in list(self.objs):
            if traits:
                class Src(traitlets.HasTraits):
                    x = traitlets.Int()
                src = Src()
            else:
                class Src(P.HasProperties):
                    _REGISTRY = dict()
                    x = P.Integer('', required=False)
                src = Src()
            out = core.attempt(P.directional_link, (src, 'x'), (obj, name))
            if out[0] == 'ok':
                out = core.attempt(setattr, src, 'x', 2)
                core.expect(self.ctx, out, AttributeError, 'link to ' + name)

    def image(self, entry):
        obj, cls, values = entry
        out = {'__class__': cls}
        if obj.num is not None:
            out['num'] = obj.num
        for name, val in values.items():
            if val is None:
                continue
            if isinstance(val, uuid.UUID):
                val = str(val)
            if name in ('even', 'call') or (name == 'const' and cls == 'C'):
                val = 'even %d' % val
            out[name] = val
        return out

    def save(self, idx):
        if idx >= len(self.objs):
            return
        data = self.objs[idx][0].serialize()
        want = self.image(self.objs[idx])
        self.ctx.check(dict(data) == want, 'serialize: %s, expected %s' % (
            core.show(dict(data)), core.show(want)))
        self.saved = (json.loads(json.dumps(data)), self.objs[idx])

    def load(self, into):
        if self.saved is None or len(self.objs) >= 3:
            return
        data, (_, cls, values) = self.saved
        out = core.attempt(getattr(self.wld, into).deserialize, data,
                           trusted=True)
        obj = core.expect_ok(self.ctx, out, 'deserialize')
        self.add(obj, cls, **{k: v for k, v in values.items()
                              if v is not None})

    def patch(self, name, value, good, want=None):
        """A document with one immutable value."""
        if len(self.objs) >= 3:
            return
        out = core.attempt(self.wld.A.deserialize, {name: value})
        what = 'deserialize({%r: %r})' % (name, value)
        if not good:
            core.expect(self.ctx, out, (ValueError, IndexError,
                                        AttributeError, TypeError), what)
            return
        obj = core.expect_ok(self.ctx, out, what)
        self.add(obj, 'A', **{name: want})

    def duplicate(self, idx):
        if idx >= len(self.objs) or len(self.objs) >= 3:
            return
        obj, cls, values = self.objs[idx]
        twin = P.copy(obj)
        self.ctx.check(P.equal(obj, twin), 'a copy is equal')
        self.add(twin, cls, **{k: v for k, v in values.items()
                               if v is not None})

    def redeclare(self):
        """New defaults of the class do not touch instances."""
        cls = type('Later', (self.wld.A,), {
            '_defaults': {'const': 77, 'even': 6, 'level': 'L'}})
        obj = cls()
        self.ctx.same((obj.const, obj.even, obj.level), (77, 6, 'L'),
                      'later class')

    def ops(self):
        out = []

        def op(label, func):
            out.append((label, func))
        for cls in 'ABC':
            op(cls + '()', lambda s, c=cls: s.make(c))
        for name in NAMES:
            vals = {'const': 5, 'even': 4, 'ident': UUID}
            for val in (vals.get(name, 2), P.undefined):
                op('%s = %s' % (name, core.show(val)),
                   lambda s, n=name, v=val: s.each(
                       lambda o: setattr(o, n, v), AttributeError,
                       'set ' + n))
            op('%s = itself' % name, lambda s, n=name: s.each(
                lambda o: setattr(o, n, getattr(o, n)), AttributeError,
                'set ' + n))
            op('del ' + name, lambda s, n=name: s.each(
                lambda o: delattr(o, n), AttributeError, 'del ' + n))
            op('reset ' + name, lambda s, n=name: s.each(
                lambda o: o._reset(n), AttributeError, 'reset ' + n))
            op('constructor ' + name, lambda s, n=name, v=vals.get(name, 2):
               s.construct('AB'[n == 'const'], n, v))
        op('constructor C', lambda s: s.construct('C', 'extra', UUID))
        for name in ('const', 'even', 'ident'):
            op('hold ' + name, lambda s, n=name: s.hold(n))
            op('link ' + name, lambda s, n=name: s.link(n, False))
            op('trait link ' + name, lambda s, n=name: s.link(n, True))
        op('reset all', lambda s: s.each(lambda o: o._reset(), None, 'reset'))
        op('num = 1', lambda s: s.each(lambda o: setattr(o, 'num', 1), None,
                                       'num'))
        op('validate', lambda s: s.each(lambda o: o.validate(), None,
                                        'validate'))
        op('save 0', lambda s: s.save(0))
        op('save 1', lambda s: s.save(1))
        op('load', lambda s: s.load('A'))
        op('copy 0', lambda s: s.duplicate(0))
        op('later class', lambda s: s.redeclare())
        op('patch const', lambda s: s.patch('const', 'w', True, 'w'))
        op('patch even', lambda s: s.patch('even', 'even 12', True, 12))
        op('patch odd', lambda s: s.patch('even', 'even 3', False))
        op('patch ident', lambda s: s.patch('ident', UUID, True,
                                            uuid.UUID(UUID)))
        op('patch bad ident', lambda s: s.patch('ident', 'no', False))
        op('patch nothing', lambda s: s.patch('nothing', [1], True, [1]))
        return out

    def check(self):
        for obj, cls, values in self.objs:
            for name, value in values.items():
                got = getattr(obj, name)
                if got is not value:
                    self.ctx.fail('%s of %s changed from %s to %s' % (
                        name, cls, core.show(value), core.show(got)))

    def key(self):
        return (tuple((cls, obj.num, tuple(
            core.canon(v) if n in ('const', 'even', 'level', 'nothing') and
            not isinstance(v, dict) else bool(v)
            for n, v in sorted(vals.items()))) for obj, cls, vals in
            self.objs), self.saved and self.saved[1][1])


def attempts(part, parts):
    def run(ctx):
        core.explore(ctx, Attempts, 2 if ctx.quick else 3, part=(part, parts))
    return run


def frontier(ctx):
    core.explore(ctx, Attempts, 1, extend=4 if ctx.quick else 6,
                 max_states=70 if ctx.quick else 3000)


def defaults(ctx):
    """Every kind of constant, at every level."""
    class Weird(object):
        pass
    values = [v for v in types.COMMON if v is not None and not callable(v)]
    values += [float('nan'), 10 ** 30, 'text', b'bytes', (1, [2]), [[]],
               {'a': {}}, Weird(), np.array([1, 2]), uuid.UUID(UUID),
               False, 0, '']
    for value, level, called in itertools.product(
            range(len(values)), range(4), (False, True)):
        value = values[value]

        def go():
            give = (lambda: value) if called else value

            class Base(P.HasProperties):
                _REGISTRY = dict()
                prop = (P.GettableProperty('', default=give) if level == 0
                        else P.GettableProperty('', default='other'))
                if level == 1:
                    _defaults = {'prop': give}
            cls = Base
            if level == 2:
                class cls(Base):
                    _defaults = {'prop': give}
            elif level == 3:
                class cls(Base):
                    prop = P.GettableProperty('', default=give)
            one, two = cls(), cls()
            for obj in (one, two):
                ctx.same(obj.prop, value, 'value')
                for bad in (value, 'x', P.undefined, None):
                    core.expect(ctx, core.attempt(setattr, obj, 'prop', bad),
                                AttributeError, 'set')
                core.expect(ctx, core.attempt(delattr, obj, 'prop'),
                            AttributeError, 'delete')
                core.expect(ctx, core.attempt(cls, prop=value),
                            AttributeError, 'constructor')
                core.expect(ctx, core.attempt(obj._reset, 'prop'),
                            AttributeError, 'reset')
                obj._reset()
                ctx.check(obj.validate() is True, 'validate')
                ctx.same(obj.prop, value, 'value')
                ctx.step(8)
            ctx.state((core.show(value), level, called))
        core.case(ctx, 'default %s level %d callable=%s' % (
            core.show(value), level, called), go)


def invalid(ctx):
    """Defaults are validated for each instance."""
    for when, level in itertools.product(range(1, 5), range(2)):
        def go():
            calls = []
            armed = []

            def make():
                if armed:
                    calls.append(1)
                    if len(calls) >= when:
                        return 'odd'
                return '6'

            class Thing(P.HasProperties):
                _REGISTRY = dict()
                num = P.Integer('', required=False)
                even = Even('', default=make if level == 0 else 2)
                if level == 1:
                    _defaults = {'even': make}
            armed.append(1)
            made = []
            for num in range(1, 5):
                out = core.attempt(Thing, num=num)
                if len(calls) >= when:
                    core.expect(ctx, out, ValueError, 'invalid default')
                else:
                    obj = core.expect_ok(ctx, out, 'valid default')
                    made.append(obj)
                ctx.step()
            for obj in made:
                ctx.same(obj.even, 6, 'validated default')
            ctx.check(len(made) >= when - 2, 'valid instances')
            ctx.state((when, level))
        core.case(ctx, 'default function invalid at call %d, level %d' % (
            when, level), go)


def identifiers(ctx):
    class One(P.HasProperties):
        _REGISTRY = dict()
        first = P.Uuid('')
        second = P.Uuid('')

    class Two(One):
        third = P.Uuid('')
    seen = set()
    objs = []
    for num in range(100 if ctx.quick else 1000):
        obj = (One, Two)[num % 2]()
        names = ['first', 'second'] + ['third'] * (num % 2)
        vals = [getattr(obj, n) for n in names]
        for val in vals:
            ctx.check(isinstance(val, uuid.UUID) and val not in seen,
                      'identifier %s repeats' % val)
            seen.add(val)
        objs.append((obj, names, vals))
        ctx.step()
    for obj, names, vals in objs:
        ctx.check(all(getattr(obj, n) is v for n, v in zip(names, vals)),
                  'an identifier changed')
        data = json.loads(json.dumps(obj.serialize()))
        ctx.check(all(data[n] == str(v) for n, v in zip(names, vals)),
                  'serialized identifiers')
        back = type(obj).deserialize(data)
        ctx.check([getattr(back, n) for n in names] == vals,
                  'restored identifiers')
        ctx.step()
    for level in range(2):
        for bad in ('text', 5, UUID, None, [], uuid.uuid4().hex):
            def go():
                if bad is None:
                    return
                if level:
                    out = core.attempt(P.Uuid, '', default=bad)
                else:
                    out = core.attempt(type, 'X', (P.HasProperties,), {})
                    out = core.attempt(
                        lambda: type(P.HasProperties)(
                            'Bad', (One,), {'_defaults': {'first': bad}}))
                core.expect(ctx, out, (ValueError, AttributeError, TypeError),
                            'default %r of an identifier' % (bad,))
            core.case(ctx, 'uuid default %r' % (bad,), go)
    # identifiers given as default, or made by a given function
    fixed = [uuid.UUID(int=n) for n in (0, 1)]
    made = []

    def make():
        made.append(uuid.uuid4())
        return made[-1]
    for given in fixed + [make]:
        def go():
            class Given(One):
                _defaults = {'first': given}
            label = 'identifier with class-level default %s' % (
                given if given is not make else 'function')
            del made[:]
            for count in range(3):
                obj = Given()
                want = given if given is not make else made[-1]
                ctx.check(obj.first == want, lambda: '%s: got %s' % (
                    label, obj.first))
                core.expect(ctx, core.attempt(
                    setattr, obj, 'first', fixed[0]), AttributeError, label)
                ctx.check(obj.first == want, label + ': changed')
                ctx.step(2)
            ctx.state(label)
        core.case(ctx, 'given %s' % (given is make or given), go)


def restoring(ctx):
    """Saved immutable values of every class are validated when restored."""
    class Root(P.HasProperties):
        _REGISTRY = dict()
        low = Even('', default=0)
        num = P.Integer('', required=False)

    class Mid(Root):
        mid = Even('', default=2)

    class Leaf(Mid):
        low = Even('', default=4)
        top = P.Uuid('')

    class Side(Root):
        mid = P.Uuid('')
    chain = {'Root': Root, 'Mid': Mid, 'Leaf': Leaf, 'Side': Side}
    forms = {'valid': 'even 8', 'odd': 'even 7', 'text': 'odd', 'none': None,
             'uuid': UUID}
    for start, named, trusted, low, mid, top in itertools.product(
            chain, [None] + list(chain), (True, False), *[
                [None] + list(forms)] * 3):
        def go():
            data = {'num': 1}
            given = {'low': low, 'mid': mid, 'top': top}
            for name, form in given.items():
                if form:
                    data[name] = forms[form]
            if named:
                data['__class__'] = named
            cls = chain[named] if trusted and named else chain[start]
            want, good = {}, True
            for name, form in given.items():
                if name not in cls._props or form is None:
                    continue
                is_even = isinstance(cls._props[name], Even)
                if form == 'none':
                    return
                good = good and form == ('valid' if is_even else 'uuid')
                want[name] = 8 if is_even else uuid.UUID(UUID)
            out = core.attempt(chain[start].deserialize, data, trusted=trusted)
            ctx.step()
            ctx.outcome((cls.__name__, good))
            if not good:
                ctx.check(out[0] == core.ERR and isinstance(
                    out[1], (ValueError, IndexError, TypeError,
                             AttributeError)),
                          lambda: 'invalid immutable value restored from %s: '
                          '%s' % (data, core.show(out)))
                return
            obj = core.expect_ok(ctx, out, 'restoring %s' % data)
            ctx.check(type(obj) is cls, 'class of the restored instance')
            for name in ('low', 'mid', 'top'):
                if name in want:
                    ctx.same(getattr(obj, name), want[name],
                             'restored ' + name)
                elif name in cls._props and isinstance(cls._props[name], Even):
                    ctx.same(getattr(obj, name), cls._props[name].default,
                             'default of ' + name)
                if name in cls._props:
                    core.expect(ctx, core.attempt(setattr, obj, name, 2),
                                AttributeError, 'set after restoring')
        if not core.case(ctx, (start, named, trusted, low, mid, top), go):
            return
        ctx.state((start, named, trusted, low, mid, top))


def scenarios(tier):
    parts = 4 if tier == 'quick' else 16
    for part in range(parts):
        yield ('attempts %d' % part, attempts(part, parts))
    yield ('frontier', frontier)
    yield ('defaults', defaults)
    yield ('invalid', invalid)
    yield ('identifiers', identifiers)
    yield ('restoring', restoring)
