"""P17: renamed and dynamic properties are views of stored state."""
import datetime
import itertools
import json
import warnings

import numpy as np

import properties as P

from checks.p08 import array_families
from mc import core, names, sizes, types

PROPERTY = 'P17'
BOUNDS = ('every sequence of 3 (quick) / 4 (thorough) operations (all but the '
          'last from the 35 mutating ones) and breadth-first further over 47 reads, sets, '
          'deletions, resets, round trips and copies through 2 chains of '
          'renamed properties and 5 dynamic properties; every property '
          'configuration of the catalogue with every accepted and rejected '
          'value behind a renamed and a dynamic property; every combination of '
          'getter, setter and deleter; every way to declare them in a hierarchy; '
          'every sequence of 3 (quick) / 4 (thorough) operations on two instances '
          'whose getters hand out the same objects, changed in place')
ASSUMPTIONS = ['whether an old name appears in a document with dynamic values '
               'is unspecified',
               'a document or constructor naming both the old and the new '
               'name is unspecified']


def make_class():
    class Thing(P.HasProperties):
        _REGISTRY = dict()
        x = P.Integer('', required=False, max=9)
        y = P.Integer('', required=False, default=2, max=5)
        items = P.List('', P.Integer(''), required=False,
                       observe_mutations=True)
        const = P.GettableProperty('', default=9)

        old_x = P.Renamed('x')
        older_x = P.Renamed('old_x')
        quiet_y = P.Renamed('y', warn=False)
        old_items = P.Renamed('items')
        old_const = P.Renamed('const')
        old_total = P.Renamed('total')

        def __init__(self, **kwargs):
            self.log = []
            super().__init__(**kwargs)

        @P.Integer('dynamic sum')
        def total(self):
            if self.x is None:
                return None
            return self.x + (self.y or 0)

        @total.setter
        def total(self, value):
            self.x = value - (self.y or 0)

        @total.deleter
        def total(self):
            del self.x

        @P.Float('read only')
        def ratio(self):
            return self.x if self.x is not None else P.undefined

        @P.Integer('at most 6', max=6)
        def tight(self):
            return self.x

        @tight.setter
        def tight(self, value):
            self.x = value

        @P.String('text', change_case='upper')
        def text(self):
            return 'x%s' % self.y

        @P.List('fresh list', P.Integer(''))
        def pair(self):
            return [self.x, self.y] if self.x is not None and \
                self.y is not None else None

        @pair.setter
        def pair(self, value):
            self.x, self.y = value

        @P.observer(P.everything)
        def watch(self, change):
            value = change['value']
            self.log.append((change['name'], core.canon(
                None if value is P.undefined else value)))
    return Thing


THING = make_class()


class Histories(core.System):
    """One object driven through old names, one through new ones."""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.old, self.new = THING(), THING()
        self.state = dict(x=None, y=2, items=None)

    # -- model ------------------------------------------------------------
    def dynamic(self):
        x, y = self.state['x'], self.state['y']
        return {
            'total': None if x is None else x + (y or 0),
            'ratio': None if x is None else float(x),
            'tight': x if x is None or x <= 6 else ValueError,
            'text': 'X%s' % ('NONE' if y is None else y),
            'pair': None if x is None or y is None else [x, y],
        }

    @staticmethod
    def coerce(name, value):
        """('ok', value) for what the stored property accepts."""
        if value is P.undefined:
            return None
        if name == 'items':
            if isinstance(value, list) and all(
                    isinstance(v, int) for v in value):
                return list(value)
            return ValueError
        if isinstance(value, float) and value == int(value):
            value = int(value)
        if not isinstance(value, int) or value > dict(x=9, y=5)[name]:
            return ValueError
        return value

    # -- both sides ---------------------------------------------------------
    def both(self, func, old, new, warned, what):
        """Same outcome through both names; deprecation counted."""
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            first = core.attempt(func, self.old, old)
        count = len([w for w in caught if issubclass(w.category,
                                                     FutureWarning)])
        self.ctx.same(count, warned, '%s: deprecation warnings' % what)
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            second = core.attempt(func, self.new, new)
        self.ctx.same(len(caught), 0, '%s: warnings of the new name' % what)
        if first[0] != second[0]:
            self.ctx.fail('%s: old name: %s, new name: %s' % (
                what, core.show(first), core.show(second)))
        if first[0] == core.ERR:
            self.ctx.same(type(first[1]).__name__, type(second[1]).__name__,
                          what)
            if str(first[1]).split(' object at')[0] != \
                    str(second[1]).split(' object at')[0]:
                self.ctx.fail('%s: messages differ: %s / %s' % (
                    what, first[1], second[1]))
        else:
            self.ctx.same(first[1], second[1], what)
        return first

    def get(self, old, new, warned):
        out = self.both(getattr, old, new, warned, 'read ' + old)
        want = dict(self.state, const=9, **self.dynamic())[new]
        if want is ValueError:
            core.expect(self.ctx, out, ValueError, 'read ' + old)
        else:
            self.ctx.same(core.expect_ok(self.ctx, out, 'read ' + old), want,
                          'read ' + old)

    def put(self, old, new, value, warned):
        what = '%s = %s' % (old, core.show(value))
        out = self.both(lambda o, n: setattr(o, n, value), old, new, warned,
                        what)
        want = self.coerce(new, value)
        if want is ValueError:
            core.expect(self.ctx, out, ValueError, what)
            return
        core.expect_ok(self.ctx, out, what)
        self.state[new] = want

    def drop(self, old, new, warned):
        what = 'del ' + old
        out = self.both(lambda o, n: delattr(o, n), old, new, warned, what)
        core.expect_ok(self.ctx, out, what)
        self.state[new] = None

    def refuse(self, old, new, warned, func, kinds, what):
        out = self.both(func, old, new, warned, what)
        core.expect(self.ctx, out, kinds, what)

    def put_dynamic(self, name, value, old=None, warned=0):
        what = '%s = %s' % (old or name, core.show(value))
        out = self.both(lambda o, n: setattr(o, n, value), old or name, name,
                        warned, what)
        given = value
        if isinstance(given, float) and given == int(given):
            given = int(given)
        if name == 'pair':
            bad = not isinstance(value, list) or not all(
                isinstance(v, int) for v in value)
        else:
            bad = not isinstance(given, int) or (
                name == 'tight' and given > 6)
        if bad:
            core.expect(self.ctx, out, ValueError, what)
            return
        moves = []
        if name == 'total':
            moves = [('x', given - (self.state['y'] or 0))]
        elif name == 'tight':
            moves = [('x', given)]
        else:
            moves = list(zip(('x', 'y'), given))
        for target, val in moves:
            val = self.coerce(target, val)
            if val is ValueError:
                core.expect(self.ctx, out, ValueError, what)
                return
            self.state[target] = val
        core.expect_ok(self.ctx, out, what)

    def drop_total(self, old, warned):
        out = self.both(lambda o, n: delattr(o, n), old, 'total', warned,
                        'del ' + old)
        core.expect_ok(self.ctx, out, 'del ' + old)
        self.state['x'] = None

    def append(self):
        if self.state['items'] is None:
            return
        def grow(obj, name):
            getattr(obj, name).append(len(getattr(obj, 'items')))
        self.both(grow, 'old_items', 'items', 1, 'append')
        self.state['items'].append(len(self.state['items']))

    def reset(self, name):
        self.both(lambda o, n: o._reset(n), name, name, 0, 'reset')
        self.state[name] = dict(x=None, y=2, items=None)[name]

    def bad_reset(self, name):
        self.refuse(name, name, 0, lambda o, n: o._reset(n), AttributeError,
                    'reset of %s' % name)

    def document(self, obj, **kwargs):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return dict(obj.serialize(**kwargs))

    def stored(self):
        out = {k: v for k, v in self.state.items() if v is not None}
        out.update(const=9, __class__='Thing')
        return out

    def reload(self, old_names):
        """Round trip, the document written with old or new names."""
        data = self.document(self.new)
        self.ctx.check(data == self.stored(), 'document: %s, expected %s' % (
            core.show(data), core.show(self.stored())))
        names = dict(x='older_x', y='quiet_y', items='old_items')
        moved = {names.get(k, k): v for k, v in data.items()}
        # values of dynamic properties in a document are ignored
        junk = dict(total=77, ratio='no', text=5, old_total=1)
        junk.pop('old_total')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.old = THING.deserialize(
                dict(moved if old_names else data, **junk))
            self.new = THING.deserialize(data)
        if self.state['y'] is None:
            self.state['y'] = 2
        self.ctx.same((self.old.log, self.new.log), ([], []),
                      'notifications of deserialization')

    def rebuild(self):
        """Constructor arguments under old and new names."""
        kwargs = {k: v for k, v in self.state.items() if v is not None}
        names = dict(x='old_x', y='quiet_y', items='old_items')
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            self.old = THING(**{names[k]: v for k, v in kwargs.items()})
        self.ctx.same(len(caught), len([k for k in kwargs if k != 'y']),
                      'warnings of the constructor')
        self.new = THING(**kwargs)
        if self.state['y'] is None:
            self.state['y'] = 2
        self.ctx.same(self.old.log, self.new.log,
                      'notifications of the constructor')

    def save_dynamic(self):
        dyn = self.dynamic()
        for obj in (self.old, self.new):
            if dyn['tight'] is ValueError:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    out = core.attempt(obj.serialize, save_dynamic=True)
                core.expect(self.ctx, out, ValueError, 'save_dynamic')
                continue
            data = self.document(obj, save_dynamic=True)
            want = self.stored()
            want.update({k: v for k, v in dyn.items() if v is not None})
            for old, new in (('old_x', 'x'), ('older_x', 'x'),
                             ('quiet_y', 'y'), ('old_items', 'items'),
                             ('old_const', 'const'), ('old_total', 'total')):
                if old in data:
                    self.ctx.same(data.pop(old), want.get(new), old)
            self.ctx.check(data == want, 'save_dynamic: %s, expected %s' % (
                core.show(data), core.show(want)))
            json.dumps(data)

    def duplicate(self):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.old, self.new = P.copy(self.old), P.copy(self.new)
            if self.dynamic()['tight'] is not ValueError:
                self.ctx.check(P.equal(self.old, self.new),
                               'copies are equal')
        if self.state['y'] is None:
            self.state['y'] = 2

    def validate(self):
        for obj in (self.old, self.new):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.ctx.check(obj.validate() is True, 'validate')

    def ops(self):
        out = []

        def op(label, func):
            out.append((label, func))
        undefined = P.undefined
        for old, new, warned in (('old_x', 'x', 1), ('older_x', 'x', 2),
                                 ('quiet_y', 'y', 0)):
            for val in (3, 9, 'bad', undefined) if old == 'old_x' else (
                    4, 10):
                op('%s = %s' % (old, core.show(val)),
                   lambda s, o=old, n=new, v=val, w=warned: s.put(o, n, v, w))
            op('del ' + old, lambda s, o=old, n=new, w=warned: s.drop(o, n, w))
        op('older_x = 2.0', lambda s: s.put('older_x', 'x', 2.0, 2))
        op('old_items = [1]', lambda s: s.put('old_items', 'items', [1], 1))
        op('old_items = bad', lambda s: s.put('old_items', 'items', ['q'], 1))
        op('del old_items', lambda s: s.drop('old_items', 'items', 1))
        op('old_items.append', lambda s: s.append())
        for name in ('x', 'y', 'items'):
            op('reset ' + name, lambda s, n=name: s.reset(n))
        for val in (4, 4.0, 'bad', 40):
            op('total = %r' % (val,), lambda s, v=val: s.put_dynamic(
                'total', v))
        op('old_total = 5', lambda s: s.put_dynamic('total', 5, 'old_total',
                                                    1))
        op('tight = 6', lambda s: s.put_dynamic('tight', 6))
        op('tight = 7', lambda s: s.put_dynamic('tight', 7))
        op('pair = [1, 1]', lambda s: s.put_dynamic('pair', [1, 1]))
        op('pair = bad', lambda s: s.put_dynamic('pair', [1, 'q']))
        op('del total', lambda s: s.drop_total('total', 0))
        op('del old_total', lambda s: s.drop_total('old_total', 1))
        op('reload', lambda s: s.reload(False))
        op('reload with old names', lambda s: s.reload(True))
        op('rebuild', lambda s: s.rebuild())
        op('copy', lambda s: s.duplicate())
        # operations that never change anything come last
        self.mutating = len(out)
        for name in ('ratio', 'text'):
            op('%s = 1' % name, lambda s, n=name: s.refuse(
                n, n, 0, lambda o, k: setattr(o, k, '1'),
                (AttributeError, ValueError), 'set ' + n))
            op('del ' + name, lambda s, n=name: s.refuse(
                n, n, 0, lambda o, k: delattr(o, k), AttributeError,
                'del ' + n))
        op('del tight', lambda s: s.refuse(
            'tight', 'tight', 0, lambda o, k: delattr(o, k), AttributeError,
            'del tight'))
        op('old_const = 1', lambda s: s.refuse(
            'old_const', 'const', 1, lambda o, k: setattr(o, k, 1),
            AttributeError, 'set const'))
        op('del old_const', lambda s: s.refuse(
            'old_const', 'const', 1, lambda o, k: delattr(o, k),
            AttributeError, 'del const'))
        for name in ('old_x', 'older_x', 'total', 'ratio', 'old_total'):
            op('reset ' + name, lambda s, n=name: s.bad_reset(n))
        op('save_dynamic', lambda s: s.save_dynamic())
        op('validate', lambda s: s.validate())
        return out

    def check(self):
        for old, new, warned in (('old_x', 'x', 1), ('older_x', 'x', 2),
                                 ('quiet_y', 'y', 0), ('old_items', 'items',
                                                       1),
                                 ('old_const', 'const', 1),
                                 ('old_total', 'total', 1),
                                 ('ratio', 'ratio', 0), ('tight', 'tight', 0),
                                 ('text', 'text', 0), ('pair', 'pair', 0)):
            self.get(old, new, warned)
        self.ctx.same(self.old.log, self.new.log, 'notifications')
        for obj in (self.old, self.new):
            data = self.document(obj)
            if data != self.stored():
                self.ctx.fail('document: %s, expected %s' % (
                    core.show(data), core.show(self.stored())))

    def key(self):
        return core.canon(self.state)


def histories(part, parts):
    def run(ctx):
        probe = Histories(ctx)
        nops = len(probe.ops())
        prefixes = itertools.product(range(probe.mutating),
                                     repeat=2 if ctx.quick else 3)
        for num, prefix in enumerate(prefixes):
            if num % parts != part:
                continue
            for last in range(nops):
                core.guarded(ctx, lambda: core.run_sequence(
                    ctx, Histories, list(prefix) + [last]))
            if ctx.full():
                return
    return run


def frontier(ctx):
    core.explore(ctx, Histories, 1, extend=3 if ctx.quick else 5,
                 max_states=200 if ctx.quick else 3000)


# -- every property type behind a renamed and a dynamic property -------------
def kinds(part, parts):
    def run(ctx):
        specs = list(types.primitive_specs(ctx.quick))
        for num, spec in enumerate(specs):
            if num % parts != part:
                continue
            good = [given for given, _ in spec.accepted()]
            bad = spec.rejected()
            if ctx.quick:
                good, bad = good[:12], bad[:6]
            if not core.case(ctx, spec.name, one_kind, ctx, spec.name,
                             spec.make, good, bad):
                return
        for num, (name, make, values) in enumerate(array_families()):
            if num % parts == part:
                if not core.case(ctx, name, one_kind, ctx, name, make, values,
                                 ['q', object()]):
                    return
        for num, (name, make, good, bad) in enumerate(compounds()):
            if num % parts == part:
                if not core.case(ctx, name, one_kind, ctx, name, make, good,
                                 bad):
                    return
    return run


class Member(P.HasProperties):
    _REGISTRY = dict()
    num = P.Integer('', required=False)
    when = P.DateTime('', required=False)


def compounds():
    """Types whose items are converted on the way to JSON."""
    day = datetime.datetime(2020, 1, 2, 3, 4, 5)
    for name, leaf, items, wrong in (
            ('dates', lambda: P.DateTime(''), [day, '1995/08/12'], 'q'),
            ('complex', lambda: P.Complex(''), [1 + 2j, 3], 'q'),
            ('floats', lambda: P.Float(''), [float('nan'), 1, float('inf')],
             'q'),
            ('members', lambda: P.Instance('', Member),
             [Member(), Member(num=0, when=day), {'num': 1}], 'q'),
            ('colors', lambda: P.Color(''), ['red', (1, 2, 3)], 'q'),
            ('lists', lambda: P.List('', P.DateTime('')),
             [[], [day], [day, '1995/08/12']], ['q'])):
        yield ('list of ' + name, lambda leaf=leaf, **k: P.List(
            '', leaf(), **k), [[], items[:1], items], [[wrong], 'q'])
        yield ('tuple of ' + name, lambda leaf=leaf, **k: P.Tuple(
            '', leaf(), **k), [(), tuple(items)], [(wrong,), 'q'])
        yield ('dictionary of ' + name, lambda leaf=leaf, **k: P.Dictionary(
            '', value_prop=leaf(), **k),
               [{}, {'a': items[0], 'b': items[-1]}], [{'a': wrong}, 'q'])
        yield ('union of ' + name, lambda leaf=leaf, **k: P.Union(
            '', [P.Integer('', max=-9), leaf()], **k),
               items[:1] + [-10], [wrong])
        yield ('optional list of ' + name, lambda leaf=leaf, **k: P.List(
            '', P.Union('', [P.Bool(''), leaf()]), **k),
               [[True], [items[0], False]], [[wrong]])
    yield ('instance', lambda **k: P.Instance('', Member, **k),
           [Member(), Member(num=0, when=day), {'num': 1}], ['q', 5])
    yield ('own serializer', lambda **k: P.Instance(
        '', bytearray, serializer=lambda v, **kw: v.decode('ascii'),
        deserializer=lambda v, **kw: bytearray(v, 'ascii'), **k),
           [bytearray(b''), bytearray(b'ab')], ['q'])
    yield ('list of own serializer', lambda **k: P.List('', P.Instance(
        '', bytearray, serializer=lambda v, **kw: v.decode('ascii'),
        deserializer=lambda v, **kw: bytearray(v, 'ascii')), **k),
           [[], [bytearray(b''), bytearray(b'ab')]], ['q', ['q']])


def same_value(one, two):
    return core.same(one, two)


def one_kind(ctx, name, make, good, bad):
    class Kind(P.HasProperties):
        _REGISTRY = dict()
        prop = make(required=False)
        old = P.Renamed('prop')
        source = P.Property('', required=False)

    def getter(self):
        return self.source

    def setter(self, value):
        self.got.append(value)
    getter.__name__ = setter.__name__ = 'view'
    dyn = P.basic.DynamicProperty('', getter, make())
    dyn.setter(setter)

    class View(P.HasProperties):
        _REGISTRY = dict()
        source = P.Property('', required=False)
        view = dyn

        def __init__(self):
            self.got = []
            super().__init__()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for value in good:
            one, two = Kind(), Kind()
            one.prop = types.fresh(value)
            two.old = types.fresh(value)
            want = one.prop
            what = '%s, value %s' % (name, core.show(value))
            ctx.same(two.prop, want, what + ' set through the old name')
            ctx.same(two.old, want, what + ' read through the old name')
            three = Kind(old=types.fresh(value))
            ctx.same(three.prop, want, what + ' constructor')
            ctx.step(3)
            ctx.state((name, core.show(value)))
            data = core.attempt(one.serialize)
            if data[0] == 'ok' and 'prop' in data[1]:
                moved = dict(data[1])
                moved['old'] = moved.pop('prop')
                first = core.attempt(Kind.deserialize, dict(data[1]))
                second = core.attempt(Kind.deserialize, moved)
                ctx.same(first[0], second[0], what + ' deserialization')
                if first[0] == 'ok':
                    ctx.same(second[1].prop, first[1].prop,
                             what + ' deserialization')
            # a dynamic view of the same value
            view = View()
            view.source = types.fresh(value)
            out = core.attempt(getattr, view, 'view')
            if value is None:
                ctx.same(core.expect_ok(ctx, out, what), None, what)
            else:
                ctx.same(core.expect_ok(ctx, out, what + ' dynamic'), want,
                         what + ' dynamic value')
            view.view = types.fresh(value)
            ctx.same(view.got, [want], what + ' given to the setter')
            ctx.step(2)
            if data[0] == 'ok' and value is not None:
                saved = view.serialize(save_dynamic=True)
                ctx.same(saved.get('view'), data[1].get('prop'),
                         what + ' saved on request')
            plain = core.attempt(view.serialize)
            if plain[0] == 'ok':
                ctx.check('view' not in plain[1], what + ' saved unasked')
        for value in bad:
            what = '%s, rejected %s' % (name, core.show(value))
            one, two = Kind(), Kind()
            first = core.attempt(setattr, one, 'prop', value)
            second = core.attempt(setattr, two, 'old', value)
            core.expect(ctx, first, ValueError, what)
            core.expect(ctx, second, type(first[1]), what + ' old name')
            ctx.same((two.prop, two.old), (None, None), what)
            third = core.attempt(Kind, old=value)
            core.expect(ctx, third, ValueError, what + ' constructor')
            view = View()
            if value is None:
                continue
            view.source = value
            core.expect(ctx, core.attempt(getattr, view, 'view'), ValueError,
                        what + ' dynamic value')
            core.expect(ctx, core.attempt(setattr, view, 'view', value),
                        ValueError, what + ' dynamic set')
            ctx.same(view.got, [], what + ' given to the setter')
            ctx.step(4)


# -- declarations ---------------------------------------------------------------
def declarations(ctx):
    """Getter, setter and deleter in every combination and hierarchy."""
    for has_set, has_del, inherit in itertools.product(
            (False, True), (False, True), range(6)):
        def go():
            calls = []

            def build(tag):
                def view(self):
                    return (self.base or 0) + tag
                prop = P.Integer('')(view)
                if has_set:
                    def view(self, value):
                        calls.append((tag, value))
                        self.base = value - tag
                    prop.setter(view)
                if has_del:
                    def view(self):
                        calls.append((tag, 'del'))
                        self.base = None if False else P.undefined
                    prop.deleter(view)
                return prop

            class Base(P.HasProperties):
                _REGISTRY = dict()
                base = P.Integer('', required=False)
                view = build(10)
                old = P.Renamed('view')
            tag = 10
            cls = Base
            if inherit == 1:
                class cls(Base):
                    extra = P.Integer('', required=False)
            elif inherit == 2:
                class cls(Base):
                    view = build(100)
                tag = 100
            elif inherit == 3:
                class Middle(Base):
                    view = build(100)

                class cls(Middle):
                    view = build(1000)
                tag = 1000
            elif inherit == 4:
                class cls(Base):
                    view = P.Integer('', required=False, default=1)
            elif inherit == 5:
                class Other(Base):
                    view = build(100)

                class Stored(Base):
                    view = P.Integer('', required=False, default=1)

                class cls(Other, Stored):
                    pass
                tag = 100
            one, other = cls(), cls()
            other.base = 5
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                for name in ('view', 'old'):
                    del calls[:]
                    one.base = 1
                    if inherit == 4:
                        one.view = 1
                        setattr(one, name, 3)
                        ctx.same((one.view, one.old, one.base, calls),
                                 (3, 3, 1, []), 'overridden by a stored one')
                        ctx.same(one.serialize()['view'], 3, 'stored')
                        delattr(one, name)
                        ctx.same((one.view, one.old), (None, None), 'deleted')
                        continue
                    ctx.same(getattr(one, name), 1 + tag, 'value')
                    out = core.attempt(setattr, one, name, tag + 4)
                    if has_set:
                        core.expect_ok(ctx, out, 'set')
                        ctx.same((calls, one.base), ([(tag, tag + 4)], 4),
                                 'setter')
                    else:
                        core.expect(ctx, out, AttributeError, 'no setter')
                        ctx.same(one.base, 1, 'nothing was set')
                    del calls[:]
                    out = core.attempt(delattr, one, name)
                    if has_del:
                        core.expect_ok(ctx, out, 'delete')
                        ctx.same((calls, one.base), ([(tag, 'del')], None),
                                 'deleter')
                    else:
                        core.expect(ctx, out, AttributeError, 'no deleter')
                    ctx.check('view' not in one.serialize(), 'not stored')
                    ctx.same(getattr(one, name), (one.base or 0) + tag,
                             'value')
                    core.expect(ctx, core.attempt(cls, view=3),
                                AttributeError, 'constructor')
                    data = cls.deserialize({'view': 99, 'base': 2})
                    ctx.same((data.base, data.view), (2, 2 + tag),
                             'deserialized')
                ctx.same(other.base, 5, 'the other instance')
                ctx.step(8)
                ctx.state((has_set, has_del, inherit))
        core.case(ctx, 'setter=%s deleter=%s hierarchy %d' % (
            has_set, has_del, inherit), go)


def json_hooks(ctx):
    """Registered serializers of dynamic and renamed targets."""
    for own, kind in itertools.product((False, True),
                                       ('dynamic', 'renamed', 'chain')):
        def go():
            kwargs = dict(serializer=lambda v, **k: v and 'S%s' % v,
                          deserializer=lambda v, **k: int(v[1:])
                          if isinstance(v, str) else v) if own else {}

            class Hook(P.HasProperties):
                _REGISTRY = dict()
                num = P.Integer('', required=False, **kwargs)
                old = P.Renamed('num')
                older = P.Renamed('old')

                @P.Integer('', **kwargs)
                def view(self):
                    return self.num
            one = Hook(num=5)
            text = 'S5' if own else 5
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if kind == 'dynamic':
                    data = one.serialize(save_dynamic=True)
                    ctx.same((data['view'], data['num']), (text, text),
                             'saved')
                    ctx.check('view' not in one.serialize(), 'unasked')
                else:
                    name = dict(renamed='old', chain='older')[kind]
                    back = Hook.deserialize({name: text})
                    ctx.same((back.num, back.view), (5, 5), name)
                    none = Hook.deserialize({})
                    ctx.same(none.num, None, 'nothing')
            ctx.step()
            ctx.state((own, kind))
        core.case(ctx, 'json %s own=%s' % (kind, own), go)

    class Inner(P.HasProperties):
        _REGISTRY = dict()
        num = P.Integer('', required=False)

        @P.Integer('')
        def twice(self):
            return self.num and 2 * self.num

    class Outer(P.HasProperties):
        _REGISTRY = Inner._REGISTRY
        inner = P.Instance('', Inner, required=False)
        many = P.List('', Inner, required=False)
        table = P.Dictionary('', value_prop=Inner, required=False)
        old = P.Renamed('inner')

        @P.Instance('', Inner)
        def first(self):
            return self.many[0] if self.many else None

    def nested():
        """The request reaches nested instances."""
        one = Outer(inner=Inner(num=1), many=[Inner(num=2)],
                    table={'k': Inner(num=3)})
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            plain = one.serialize()
            full = one.serialize(save_dynamic=True)
            text = json.dumps(plain)
            ctx.check('twice' not in text and 'first' not in text,
                      'dynamic values without request: %s' % text)
            ctx.same((full['inner'].get('twice'), full['many'][0].get('twice'),
                      full['table']['k'].get('twice'),
                      full['first'].get('twice')), (2, 4, 6, 4), 'requested')
            for data in (plain, full):
                back = Outer.deserialize(json.loads(json.dumps(data)))
                ctx.same((back.inner.num, back.inner.twice, back.many[0].num,
                          back.first is back.many[0], back.table['k'].twice),
                         (1, 2, 2, True, 6), 'round trip')
            moved = dict(plain, old=plain['inner'])
            del moved['inner']
            back = Outer.deserialize(moved)
            ctx.check(type(back.inner) is Inner and back.inner.num == 1,
                      'renamed instance')
        ctx.step(5)
    core.case(ctx, 'nested', nested)


def depths(ctx):
    """The request for dynamic values (and classes) at every level."""
    kinds = {
        'instance': (lambda c: P.Instance('', c, required=False),
                     lambda o: o, lambda d: d),
        'list': (lambda c: P.List('', c, required=False),
                 lambda o: [o, o], lambda d: [d, d]),
        'tuple': (lambda c: P.Tuple('', c, required=False),
                  lambda o: (o,), lambda d: [d]),
        'lists': (lambda c: P.List('', P.List('', c), required=False),
                  lambda o: [[o]], lambda d: [[d]]),
        'set': (lambda c: P.Set('', c, required=False),
                lambda o: {o}, lambda d: [d]),
        'dictionary': (lambda c: P.Dictionary('', value_prop=c,
                                              required=False),
                       lambda o: {'k': o}, lambda d: {'k': d}),
        'union': (lambda c: P.Union('', [P.Integer(''), c], required=False),
                  lambda o: o, lambda d: d),
    }
    for one, two in itertools.product(kinds, repeat=2):
        for include, save in itertools.product((None, True, False), repeat=2):
            core.case(ctx, '%s of %s, include_class=%s, save_dynamic=%s' % (
                one, two, include, save), one_depth, ctx, kinds[one],
                      kinds[two], include, save)


def one_depth(ctx, one, two, include, save):
    class Leaf(P.HasProperties):
        _REGISTRY = dict()
        num = P.Integer('', default=4)

        @P.Integer('')
        def dyn(self):
            return 2 * self.num

    class Mid(P.HasProperties):
        _REGISTRY = Leaf._REGISTRY
        part = two[0](Leaf)

        @P.Instance('', Leaf)
        def leaf(self):
            return Leaf(num=7)

    class Top(P.HasProperties):
        _REGISTRY = Leaf._REGISTRY
        part = one[0](Mid)

        @P.List('', Leaf)
        def leaves(self):
            return [Leaf(num=8)]
    kwargs = {}
    if include is not None:
        kwargs['include_class'] = include
    if save is not None:
        kwargs['save_dynamic'] = save

    def image(name, **members):
        if not save:
            members = {k: v for k, v in members.items()
                       if k not in ('dyn', 'leaf', 'leaves')}
        if include is not False:
            members['__class__'] = name
        return members
    want = image('Top', part=one[2](image('Mid', part=two[2](
        image('Leaf', num=4, dyn=8)), leaf=image('Leaf', num=7, dyn=14))),
                 leaves=[image('Leaf', num=8, dyn=16)])
    top = Top(part=one[1](Mid(part=two[1](Leaf()))))
    got = json.loads(json.dumps(top.serialize(**kwargs)))
    ctx.step()
    ctx.check(got == want, lambda: 'document %s, expected %s' % (
        core.show(got), core.show(want)))
    back = Top.deserialize(got)
    ctx.check(P.equal(back, top) or 'set' in str(type(top.part)),
              'not equal after a round trip')
    again = json.loads(json.dumps(back.serialize(**kwargs)))
    ctx.check(again == want, lambda: 'document after a round trip %s, '
              'expected %s' % (core.show(again), core.show(want)))
    ctx.state(core.canon(want))


# -- views of state that is changed in place -----------------------------------
class Live(core.System):
    """Two instances whose getters hand out the same mutable objects."""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.box = box = {'list': [], 'dict': {}, 'num': None, 'calls': []}

        class Views(P.HasProperties):
            _REGISTRY = dict()

            @P.List('', P.Integer(''))
            def items(self):
                return box['list']

            @P.Dictionary('', key_prop=P.String(''), value_prop=P.Float(''))
            def table(self):
                return box['dict']

            @P.Integer('', max=9)
            def num(self):
                return box['num']

            @num.setter
            def num(self, value):
                box['calls'].append(('set', self.tag, value))
                box['num'] = value

            @num.deleter
            def num(self):
                box['calls'].append(('del', self.tag))
                box['num'] = None

            @items.deleter
            def items(self):
                box['calls'].append(('empty', self.tag))
                box['list'] = None

        self.objs = [Views(), Views()]
        for tag, obj in enumerate(self.objs):
            obj.tag = tag
        self.model = {'list': [], 'dict': {}, 'num': None}
        self.calls = []

    def ops(self):
        out = []

        def op(label, func):
            out.append((label, func))

        def both(func):
            def run(s):
                for where in (s.box, s.model):
                    func(where)
            return run

        def into(where, key, make, change):
            if where[key] is None:
                where[key] = make()
            change(where[key])
        op('append 1', both(lambda w: into(w, 'list', list,
                                           lambda v: v.append(1))))
        op('append 2.0', both(lambda w: into(w, 'list', list,
                                             lambda v: v.append(2.0))))
        op('append bad', both(lambda w: into(w, 'list', list,
                                             lambda v: v.append('q'))))
        op('clear list', both(lambda w: into(w, 'list', list,
                                             lambda v: v.clear())))
        op('new list', both(lambda w: w.update(list=[5])))
        op('no list', both(lambda w: w.update(list=None)))
        op('table a=1', both(lambda w: into(w, 'dict', dict,
                                            lambda v: v.update(a=1))))
        op('table bad', both(lambda w: into(w, 'dict', dict,
                                            lambda v: v.update(a='q'))))
        op('num 3', both(lambda w: w.update(num=3)))
        op('num 4.0', both(lambda w: w.update(num=4.0)))
        op('num 10', both(lambda w: w.update(num=10)))
        op('num undefined', both(lambda w: w.update(num=P.undefined)))
        for tag in (0, 1):
            op('del %d.num' % tag, lambda s, t=tag: s.delete(t, 'num', 'del'))
            op('del %d.items' % tag,
               lambda s, t=tag: s.delete(t, 'items', 'empty'))
            op('set %d.num' % tag, lambda s, t=tag: s.put(t, 7.0, 7))
            op('set %d.num bad' % tag, lambda s, t=tag: s.put(t, 70, None))
        op('spoil a read value', lambda s: s.spoil())
        return out

    def delete(self, tag, name, call):
        core.expect_ok(self.ctx, core.attempt(delattr, self.objs[tag], name),
                       'del %s' % name)
        self.calls.append((call, tag))
        self.model['num' if name == 'num' else 'list'] = None

    def put(self, tag, value, want):
        out = core.attempt(setattr, self.objs[tag], 'num', value)
        if want is None:
            core.expect(self.ctx, out, ValueError, 'num = %r' % (value,))
            return
        core.expect_ok(self.ctx, out, 'num = %r' % (value,))
        self.calls.append(('set', tag, want))
        self.model['num'] = want

    def spoil(self):
        """What a getter returned is validated anew: it is not the state."""
        out = core.attempt(getattr, self.objs[0], 'items')
        if out[0] == 'ok' and out[1] is not None:
            out[1].append('spoilt')

    def check(self):
        ctx, model = self.ctx, self.model
        ctx.same(self.box['calls'], self.calls, 'calls of setters, deleters')
        for tag, obj in enumerate(self.objs):
            for name, key in (('items', 'list'), ('table', 'dict'),
                              ('num', 'num')):
                out = core.attempt(getattr, obj, name)
                now = model[key]
                what = '%d.%s of %r' % (tag, name, now)
                if now is None or now is P.undefined:
                    ctx.same(core.expect_ok(ctx, out, what), None, what)
                elif (name == 'items' and 'q' in now) or (
                        name == 'table' and 'q' in now.values()) or (
                            name == 'num' and now > 9):
                    core.expect(ctx, out, ValueError, what)
                else:
                    want = ([int(v) for v in now] if name == 'items' else
                            {k: float(v) for k, v in now.items()}
                            if name == 'table' else int(now))
                    ctx.same(core.expect_ok(ctx, out, what), want, what)

    def key(self):
        return core.canon({k: (repr(v) if v is P.undefined else v)
                           for k, v in self.model.items()})


def live(part, parts):
    def run(ctx):
        nops = len(Live(ctx).ops())
        for num, seq in enumerate(itertools.product(
                range(nops), repeat=3 if ctx.quick else 4)):
            if num % parts != part:
                continue
            core.guarded(ctx, lambda: core.run_sequence(ctx, Live, list(seq)))
            if ctx.full():
                return
    return run


def scenarios(tier):
    yield ('names', lambda ctx: names.named(ctx, names.alias))
    yield ('many', lambda ctx: sizes.counted(ctx, sizes.renames))
    parts = 7 if tier == 'quick' else 31
    for part in range(parts):
        yield ('histories %d' % part, histories(part, parts))
    yield ('frontier', frontier)
    for part in range(4):
        yield ('live %d' % part, live(part, 4))
    for part in range(4):
        yield ('kinds %d' % part, kinds(part, 4))
    yield ('declarations', declarations)
    yield ('json', json_hooks)
    yield ('depths', depths)
