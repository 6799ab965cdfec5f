"""P29: property types of the user work wherever a property works."""
import itertools
import json
import warnings

import properties as P
from properties.basic import GettableProperty

from mc import core

PROPERTY = 'P29'
BOUNDS = ('property types built on Property with every subset of overridden '
          'validate, equal, to_json/from_json and info, in one class or split '
          'over two, and extensions of 10 standard types x 17 ways to hold a '
          'property x every pair of contents of one or two values: '
          'assignment, refusal, change detection, equality, validation after '
          'mutation, serialization with keywords, deserialization and copies; '
          '_class_default x places of defaults; documentation; owners passed '
          'to validate and errors; own options; own assert_valid.')
ASSUMPTIONS = ['own methods follow the documented contract: validation of a '
               'valid value returns it unchanged, equal is an equivalence']


class Box(object):
    """A value no standard type knows: compared by identity, no JSON."""

    def __init__(self, num):
        self.num = num

    def __repr__(self):
        return 'Box(%s)' % (self.num,)


class Alike(Box):
    """Every two of these compare equal in Python."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = Box.__hash__


class Touchy(Box):
    """Nobody but the own methods of the type may compare or test these."""

    def __eq__(self, other):
        raise RuntimeError('compared')

    __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__
    __hash__ = Box.__hash__

    def __bool__(self):
        raise RuntimeError('tested')

    def __iter__(self):
        raise RuntimeError('iterated')

    def __len__(self):
        raise RuntimeError('measured')

    def __call__(self):
        raise RuntimeError('called')


class Falsy(Box):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


KINDS = {'': Box, 'alike': Alike, 'touchy': Touchy, 'falsy': Falsy}


def num(val):
    return val.num if isinstance(val, Box) else val


def view(val):
    if isinstance(val, Box):
        return ('Box', val.num)
    if isinstance(val, P.HasProperties):
        return (type(val).__name__, [
            (name, view(getattr(val, name))) for name in val._props])
    if isinstance(val, dict):
        return ('dict', sorted(((view(k), view(v)) for k, v in val.items()),
                               key=repr))
    if isinstance(val, (set, frozenset)):
        return ('set', sorted((view(v) for v in val), key=repr))
    if isinstance(val, (list, tuple)):
        return (core.base_name(val), [view(v) for v in val])
    return (type(val).__name__, val)


# -- leaves ------------------------------------------------------------------------
class Leaf(object):
    """A user-defined type with its alphabet and oracle.

    values: labels; raw(label, pool) a value to assign; want(label) the view
    of what is stored; json(label); after(label) the view of the value loaded
    from that JSON; same(a, b) equality of stored values; bad: refused values.
    """
    info = None
    spoil = None            # makes a stored value invalid in place

    def key_ok(self, label):
        return True


class BoxLeaf(Leaf):
    OVER = ('validate', 'equal', 'json', 'info')

    def __init__(self, over, split, kind=''):
        self.over = over
        self.log = []
        self.kind = kind
        self.box = KINDS[kind]
        self.name = 'Property with own %s%s%s' % (
            '/'.join(over) or 'nothing', ', split' if split else '',
            ', %s values' % kind if kind else '')
        self.cls = self.build(over, split)
        self.info = 'a box or number' if 'info' in over else None
        self.values = [('i', 1), ('i', 2), ('b', 1, 0), ('b', 1, 1),
                       ('b', 2, 2)]
        self.bad = ['x', -1, self.box(-3), None] if 'validate' in over else []
        if 'validate' in over:
            self.spoil = self._spoil

    def build(self, over, split):
        log, box = self.log, self.box

        def validate(self, instance, value):
            log.append(('validate', instance))
            if isinstance(value, bool) or not isinstance(value, (int, Box)):
                self.error(instance, value)
            if num(value) < 0:
                self.error(instance, value, extra='It is negative.')
            return box(value) if isinstance(value, int) else value

        def equal(self, value_a, value_b):
            return num(value_a) == num(value_b)

        def to_json(value, **kwargs):
            log.append(('to_json', kwargs))
            return 'n%d' % num(value)

        def from_json(value, **kwargs):
            log.append(('from_json', kwargs))
            return box(int(value[1:]))

        members = {
            'validate': {'validate': validate},
            'equal': {'equal': equal},
            'json': {'to_json': staticmethod(to_json),
                     'from_json': staticmethod(from_json)},
            'info': {'info': property(lambda self: 'a box or number')},
        }
        low, high = {'class_info': 'something'}, {}
        for pos, name in enumerate(over):
            (high if split and pos % 2 else low).update(members[name])
        cls = type('Leaf', (P.Property,), low)
        if split:
            cls = type('Leaf', (cls,), high)
        return cls

    def make(self, **kwargs):
        return self.cls('doc', **kwargs)

    def raw(self, label, pool):
        if label[0] == 'i':
            return label[1]
        if label[2] not in pool:
            pool[label[2]] = self.box(label[1])
        return pool[label[2]]

    def want(self, label):
        if label[0] == 'i' and 'validate' not in self.over:
            return ('int', label[1])
        return ('Box', label[1])

    def same(self, one, two):
        if 'equal' in self.over:
            return one[1] == two[1]
        if self.kind == 'alike' and ('validate' in self.over or 'b' in (
                one[0], two[0])):
            return True
        if one[0] == two[0] == 'i':
            return 'validate' not in self.over and one[1] == two[1]
        return one == two

    def json(self, label):
        if 'json' in self.over:
            return ('str', 'n%d' % label[1])
        return self.want(label)

    def after(self, label):
        return ('Box', label[1]) if 'json' in self.over else self.want(label)

    def key_ok(self, label):
        return self.kind not in ('alike', 'touchy')

    @staticmethod
    def _spoil(value):
        if isinstance(value, Box):
            value.num = -1
            return True
        return False


class Extended(Leaf):
    """A standard type extended by methods that call the inherited ones."""

    def __init__(self, name, make, values, bad, info=None, same=None,
                 hashable=True):
        self.name = name
        self.make = make
        self.table = values         # (raw, stored, json)
        self.values = list(range(len(values)))
        self.bad = bad
        self.info = info
        self.log = []
        self._same = same
        self.hashable = hashable

    def raw(self, label, pool):
        import copy
        return copy.deepcopy(self.table[label][0])

    def want(self, label):
        return view(self.table[label][1])

    def json(self, label):
        return view(self.table[label][2])

    def after(self, label):
        return view(self.table[label][1])

    def same(self, one, two):
        one, two = self.table[one][1], self.table[two][1]
        return self._same(one, two) if self._same else one == two

    def key_ok(self, label):
        return self.hashable


class Even(P.Integer):
    class_info = 'an even number'

    def validate(self, instance, value):
        value = super(Even, self).validate(instance, value)
        if value % 2:
            self.error(instance, value, extra='It is odd.')
        return value


class Slug(P.String):
    def validate(self, instance, value):
        value = super(Slug, self).validate(instance, value)
        return value.strip().lower().replace(' ', '-')


class Percent(P.Float):
    @property
    def info(self):
        return 'a percentage'

    @staticmethod
    def to_json(value, **kwargs):
        return '%d%%' % (value * 100)

    @staticmethod
    def from_json(value, **kwargs):
        return int(value[:-1]) / 100.


class Angle(P.Integer):
    def equal(self, value_a, value_b):
        return value_a % 360 == value_b % 360


class Sorted(P.List):
    def validate(self, instance, value):
        value = super(Sorted, self).validate(instance, value)
        value.sort()
        return value


class Pair(P.Tuple):
    class_info = 'a pair'

    def validate(self, instance, value):
        value = super(Pair, self).validate(instance, value)
        if len(value) != 2:
            self.error(instance, value)
        return value

    @staticmethod
    def to_json(value, **kwargs):
        return '%d:%d' % value

    def serialize(self, value, **kwargs):
        return None if value is None else self.to_json(value)

    def deserialize(self, value, **kwargs):
        return None if value is None else tuple(
            int(part) for part in value.split(':'))


class Choice(P.StringChoice):
    def equal(self, value_a, value_b):
        return value_a[0] == value_b[0]


class Flag(P.Boolean):
    def validate(self, instance, value):
        if value in ('on', 'off'):
            value = value == 'on'
        return super(Flag, self).validate(instance, value)

    @staticmethod
    def to_json(value, **kwargs):
        return 'on' if value else 'off'

    @staticmethod
    def from_json(value, **kwargs):
        return value == 'on'


class Stamp(P.DateTime):
    def validate(self, instance, value):
        import datetime
        if isinstance(value, int):
            value = datetime.datetime(2000, 1, value)
        return super(Stamp, self).validate(instance, value)


class Either(P.Union):
    def validate(self, instance, value):
        if value == 'one':
            value = 1
        return super(Either, self).validate(instance, value)


def extended():
    import datetime
    day = datetime.datetime
    return [
        Extended('Integer + validate', lambda **k: Even('doc', **k),
                 [(0, 0, 0), (2, 2, 2), (4.0, 4, 4)], [1, 3, 'x', 2.5],
                 'an even number'),
        Extended('String + coercion', lambda **k: Slug('doc', **k),
                 [('A b', 'a-b', 'a-b'), ('a-b', 'a-b', 'a-b'),
                  ('', '', '')], [1, None, []]),
        Extended('Float + json', lambda **k: Percent('doc', **k),
                 [(.5, .5, '50%'), (0, 0., '0%'), (1, 1., '100%')],
                 ['x', [], None], 'a percentage'),
        Extended('Integer + equal', lambda **k: Angle('doc', **k),
                 [(0, 0, 0), (360, 360, 360), (5, 5, 5)], ['x'],
                 same=lambda a, b: a % 360 == b % 360),
        Extended('List + validate', lambda **k: Sorted(
            'doc', P.Integer(''), **k),
                 [([2, 1], [1, 2], [1, 2]), ([1, 2], [1, 2], [1, 2]),
                  ([], [], [])], [(1,), ['x']], hashable=False),
        Extended('Tuple + serialize', lambda **k: Pair(
            'doc', P.Integer(''), **k),
                 [((1, 2), (1, 2), '1:2'), ((0, 0), (0, 0), '0:0')],
                 [(1,), [1, 2], ('x', 'y')], 'a pair'),
        Extended('StringChoice + equal', lambda **k: Choice(
            'doc', ['ab', 'ac', 'b'], **k),
                 [('ab', 'ab', 'ab'), ('ac', 'ac', 'ac'), ('b', 'b', 'b')],
                 ['c', 1], same=lambda a, b: a[0] == b[0]),
        Extended('Boolean + validate + json', lambda **k: Flag('doc', **k),
                 [('on', True, 'on'), (False, False, 'off')], ['x', 3]),
        Extended('DateTime + validate', lambda **k: Stamp('doc', **k),
                 [(3, day(2000, 1, 3), '2000-01-03T00:00:00Z'),
                  (day(2001, 2, 3), day(2001, 2, 3),
                   '2001-02-03T00:00:00Z')], ['x', []]),
        Extended('Union + validate', lambda **k: Either(
            'doc', [P.Integer(''), P.String('')], **k),
                 [('one', 1, 1), ('x', 'x', 'x'), (2, 2, 2)], [[], None]),
    ]


# -- holders -------------------------------------------------------------------------
class Other(P.HasProperties):
    pass


class Holder(object):
    """make(leaf) -> members of a class; build/shape place items in it."""

    def __init__(self, name, make, build, shape, counts=(1,), equal=None,
                 json=None, read='p', write='p', save=None, only=None,
                 owned=True, fixed=False):
        self.name = name
        self.make = make
        self.build = build          # raw items -> value to assign
        self.shape = shape          # views -> view of the stored value
        self.jshape = json or shape  # views -> view of the serialized value
        self.counts = counts
        self._equal = equal
        self.read, self.write = read, write
        self.save = save or read    # key in the serialized data
        self.only = only            # leaf, label -> can it be held
        self.owned = owned          # has a stored value

    def equal(self, leaf, one, two):
        if self._equal:
            return self._equal(leaf, one, two)
        return len(one) == len(two) and all(
            leaf.same(a, b) for a, b in zip(one, two))


def first(items):
    return items[0]


def seq(kind):
    return lambda items: (kind, list(items))


def unordered(leaf, one, two):
    rest = list(two)
    for item in one:
        for other in rest:
            if leaf.same(item, other):
                rest.remove(other)
                break
    return len(one) == len(two) and not rest


def as_set(items):
    return ('set', sorted(items, key=repr))


def entry(key):
    return lambda items: ('dict', [(('str', key), items[0])])


def hashable(leaf, label):
    return leaf.key_ok(label)


def no_text(leaf, label):
    return not isinstance(leaf, Extended) or \
        'String' not in leaf.name and 'Union' not in leaf.name


def dynamic(leaf):
    body = {}

    def p(self):
        return getattr(self, '_raw', None)

    def setter(self, value):
        self._raw = value
    setter.__name__ = str('p')
    body['p'] = leaf.make()(p).setter(setter)
    return body


def nested(leaf):
    cls = type('Inner', (P.HasProperties,), {'q': leaf.make()})
    return {'p': P.Instance('', cls)}


def holders():
    return [
        Holder('plain', lambda l: {'p': l.make()}, first, first),
        Holder('optional', lambda l: {'p': l.make(required=False)}, first,
               first),
        Holder('renamed', lambda l: {'p': l.make(), 'old': P.Renamed(
            'p', warn=False)}, first, first, read='old', write='old',
               save='p'),
        Holder('dynamic', dynamic, first, first, owned=False),
        Holder('Tuple', lambda l: {'p': P.Tuple('', l.make())}, tuple,
               seq('tuple'), (1, 2), json=seq('list')),
        Holder('Tuple coerced', lambda l: {'p': P.Tuple(
            '', l.make(), coerce=True)}, list, seq('tuple'), (2,),
               json=seq('list')),
        Holder('List', lambda l: {'p': P.List('', l.make())}, list,
               seq('list'), (1, 2)),
        Holder('observed List', lambda l: {'p': P.List(
            '', l.make(), observe_mutations=True)}, list, seq('list'),
               (1, 2)),
        Holder('List of List', lambda l: {'p': P.List('', P.List(
            '', l.make()))}, lambda i: [list(i)],
               lambda i: ('list', [('list', list(i))]), (1, 2)),
        Holder('Set', lambda l: {'p': P.Set('', l.make())}, set, as_set,
               (1, 2), equal=unordered,
               json=lambda items: ('list', list(items)), only=hashable),
        Holder('Dictionary value', lambda l: {'p': P.Dictionary(
            '', value_prop=l.make())}, lambda i: {'k': i[0]}, entry('k')),
        Holder('observed Dictionary value', lambda l: {'p': P.Dictionary(
            '', key_prop=P.String(''), value_prop=l.make(),
            observe_mutations=True)}, lambda i: {'k': i[0]}, entry('k')),
        Holder('Dictionary key', lambda l: {'p': P.Dictionary(
            '', key_prop=l.make())}, lambda i: {i[0]: 5},
               lambda i: ('dict', [(i[0], ('int', 5))]), only=hashable,
               equal=lambda leaf, one, two: None),
        Holder('first of Union', lambda l: {'p': P.Union(
            '', [l.make(), P.Instance('', Other)])}, first, first),
        Holder('last of Union', lambda l: {'p': P.Union(
            '', [P.Instance('', Other), l.make()])}, first, first,
               only=no_text),
        Holder('List of Union', lambda l: {'p': P.List('', P.Union(
            '', [l.make(), P.Instance('', Other)]))}, list, seq('list'),
               (1, 2)),
        Holder('nested', nested, lambda i: {'q': i[0]},
               lambda i: ('Inner', [('q', i[0])]),
               json=lambda i: ('dict', [(('str', '__class__'), ('str', 'Inner')
                                         ), (('str', 'q'), i[0])])),
    ]


def owner(leaf, holder, base=P.HasProperties, **extra):
    log = []

    def hear(tag):
        return lambda self, change: log.append(
            (tag, view(change['previous']) if change['previous'] is not
             P.undefined else None, view(change['value']) if change['value']
             is not P.undefined else None))
    body = holder.make(leaf)
    if holder.owned:
        body.update(on_set=P.observer('p')(hear('set')),
                    on_change=P.observer('p', change_only=True)(
                        hear('change')))
    body.update(extra)
    return type('Owner', (base,), body), log


def contents(leaf, holder, quick):
    labels = [l for l in leaf.values if not holder.only or
              holder.only(leaf, l)]
    out = []
    for count in holder.counts:
        out += [c for c in itertools.product(labels, repeat=count)
                if count == 1 or not quick or c[0] != c[1]]
    if holder.name == 'Set':        # items that stay apart in a set
        out = [c for c in out if len(c) == 1 or
               leaf.want(c[0]) != leaf.want(c[1])]
    return out


def held(leaf, holder, labels, pool):
    return holder.build([leaf.raw(l, pool) for l in labels])


def wanted(leaf, holder, labels):
    return holder.shape([leaf.want(l) for l in labels])


def loaded(leaf, holder, labels):
    return holder.shape([leaf.after(l) for l in labels])


def order_free(holder, json_view):
    if holder.name == 'Set':
        return (json_view[0], sorted(json_view[1], key=repr))
    return json_view


def pair(ctx, leaf, holder, one, two):
    """A program over two contents against the oracle."""
    cls, log = owner(leaf, holder)
    pool = {}
    inst, twin = cls(), cls()
    first_val = wanted(leaf, holder, one)
    second_val = wanted(leaf, holder, two)
    setattr(inst, holder.write, held(leaf, holder, one, pool))
    ctx.check(view(getattr(inst, holder.read)) == first_val,
              lambda: 'assigned: reads %s, not %s' % (
                  view(getattr(inst, holder.read)), first_val))
    del log[:]
    setattr(inst, holder.write, held(leaf, holder, two, pool))
    ctx.check(view(getattr(inst, holder.read)) == second_val,
              lambda: 'assigned again: reads %s, not %s' % (
                  view(getattr(inst, holder.read)), second_val))
    equal = holder.equal(leaf, one, two)
    if holder.name == 'nested' and equal is not None:
        equal = holder.equal(leaf, one, two)
    if holder.owned and equal is not None:
        want = [('set', first_val, second_val)]
        if not equal:
            want.insert(0, ('change', first_val, second_val))
        ctx.check(log == want, lambda: 'change detection: told %s, expected '
                  '%s' % (log, want))
    setattr(twin, holder.write, held(leaf, holder, one, pool))
    if equal is not None and holder.name != 'dynamic' or \
            'equal' in getattr(leaf, 'over', ()):
        for left, right in ((inst, twin), (twin, inst)):
            have = P.equal(left, right)
            if equal is not None:
                ctx.check(have is equal, lambda: 'equal gives %s' % have)
    ctx.check(P.equal(inst, inst) is True, 'not equal to itself')
    ctx.check(inst.validate() is True, 'invalid')
    for bad in leaf.bad:
        if holder.name in ('Set', 'Dictionary key') and \
                isinstance(bad, (list, dict, set)):
            continue
        del leaf.log[:]
        err = core.expect(ctx, core.attempt(
            setattr, inst, holder.write, holder.build([bad])), ValueError,
                          'assigning %r' % (bad,))
        if holder.name in ('plain', 'optional', 'renamed', 'dynamic'):
            ctx.check(leaf.info is None or leaf.info in str(err),
                      'the message does not say %r: %s' % (leaf.info, err))
        ctx.check(view(getattr(inst, holder.read)) == second_val,
                  'a refused value is kept')


def convert(ctx, leaf, holder, labels):
    """Serialization, loading and copies, with every keyword."""
    cls, _ = owner(leaf, holder)
    pool = {}
    inst = cls()
    setattr(inst, holder.write, held(leaf, holder, labels, pool))
    save = {'save_dynamic': True} if not holder.owned else {}
    want = order_free(holder, holder.jshape([leaf.json(l) for l in labels]))
    for more in ({}, {'include_class': False}, {'mine': 3}):
        kwargs = dict(more, **save)
        del leaf.log[:]
        data = inst.serialize(**kwargs)
        expected = want
        if more.get('include_class') is False and holder.name == 'nested':
            expected = (want[0], want[1][1:])
        have = order_free(holder, view(data.get(holder.save)))
        ctx.check(have == expected, lambda: 'serialized as %s, not %s' % (
            have, expected))
        calls = [k for n, k in leaf.log if n == 'to_json']
        ctx.check('json' not in getattr(leaf, 'over', ()) or calls,
                  'to_json was not called')
        for kws in calls:
            ctx.check(kws.get('include_class') is more.get(
                'include_class', True) and kws.get('mine') == more.get(
                    'mine') and kws.get('save_dynamic') is bool(save),
                      lambda: 'to_json was given %s' % kws)
    data = inst.serialize(**save)
    if holder.name == 'dynamic':
        return
    for more in ({}, {'strict': True}, {'trusted': True, 'mine': 4}):
        del leaf.log[:]
        back = cls.deserialize(data, **more)
        have = view(getattr(back, holder.read))
        ctx.check(have == loaded(leaf, holder, labels), lambda: 'loaded as '
                  '%s, not %s' % (have, loaded(leaf, holder, labels)))
        calls = [k for n, k in leaf.log if n == 'from_json']
        ctx.check('json' not in getattr(leaf, 'over', ()) or calls,
                  'from_json was not called')
        for kws in calls:
            ctx.check(kws.get('trusted') is more.get('trusted', False) and
                      kws.get('mine') == more.get('mine'),
                      lambda: 'from_json was given %s' % kws)
        ctx.check(back.validate() is True, 'the loaded instance is invalid')
    dup = P.copy(inst)
    ctx.check(view(getattr(dup, holder.read)) == loaded(
        leaf, holder, labels), lambda: 'copied as %s' % (view(getattr(
            dup, holder.read)),))
    # absent values stay absent
    empty = cls()
    data = empty.serialize(include_class=False)
    ctx.check(data == {}, 'an undefined value is serialized as %s' % data)


def leaves_of(value):
    if isinstance(value, Box):
        return [value]
    if isinstance(value, P.HasProperties):
        return leaves_of([getattr(value, n) for n in value._props])
    if isinstance(value, dict):
        return leaves_of(list(value)) + leaves_of(list(value.values()))
    if isinstance(value, (list, tuple, set)):
        return [box for item in value for box in leaves_of(item)]
    return []


def spoiled(ctx, leaf, holder, labels):
    """A value that became invalid in place is found by validate."""
    if leaf.spoil is None or not holder.owned:
        return
    cls, _ = owner(leaf, holder)
    inst = cls()
    setattr(inst, holder.write, held(leaf, holder, labels, {}))
    boxes = leaves_of(getattr(inst, holder.read))
    ctx.check(len(boxes) >= 1, 'no boxes are held')
    for box in boxes:
        old = box.num
        box.num = -1
        err = core.expect(ctx, core.attempt(inst.validate), P.ValidationError,
                          'validate with an invalid item')
        ctx.check({t.prop for t in err.error_tuples} <= {'p', 'q'},
                  'blames %s' % [t.prop for t in err.error_tuples])
        box.num = old
        ctx.check(inst.validate() is True, 'still invalid after the repair')


def owned(ctx, leaf, holder, labels):
    """validate is told the instance that owns the value."""
    if 'validate' not in getattr(leaf, 'over', ()):
        return
    cls, _ = owner(leaf, holder)
    inst = cls()
    steps = [('assignment', lambda: setattr(inst, holder.write, held(
        leaf, holder, labels, {}))), ('validation', inst.validate)]
    for bad in leaf.bad[:2]:
        steps.append(('refusal', lambda bad=bad: core.attempt(
            setattr, inst, holder.write, holder.build([bad]))))
    for what, func in steps:
        del leaf.log[:]
        func()
        seen = [who for name, who in leaf.log if name == 'validate']
        if holder.name == 'nested':
            ok = all(who is None or type(who).__name__ == 'Inner'
                     for who in seen) and any(who is not None for who in seen)
        elif holder.name == 'dynamic' and what == 'validation':
            continue
        else:
            ok = all(who is None or who is inst for who in seen) and \
                any(who is inst for who in seen)
        ctx.check(ok, lambda: '%s: validate was given %s' % (what, seen))


def mutated(ctx, leaf, holder, labels):
    """Items that enter an observed container are checked by the type."""
    if 'observed' not in holder.name or leaf.name == 'List + validate':
        return
    cls, log = owner(leaf, holder)
    for label in leaf.values:
        inst = cls()
        pool = {}
        setattr(inst, holder.write, held(leaf, holder, labels, pool))
        del log[:]
        item = leaf.raw(label, pool)
        if 'List' in holder.name:
            inst.p.append(item)
            want = ('list', [leaf.want(l) for l in labels + (label,)])
        else:
            inst.p['z'] = item
            want = ('dict', [(('str', 'k'), leaf.want(labels[0])),
                             (('str', 'z'), leaf.want(label))])
        ctx.check(view(inst.p) == want, lambda: 'after the mutation %s, not '
                  '%s' % (view(inst.p), want))
        ctx.check([l[0] for l in log] == ['change', 'set'],
                  lambda: 'told %s' % log)
        before = view(inst.p)
        for bad in leaf.bad:
            if 'List' in holder.name:
                got = core.attempt(inst.p.append, bad)
            else:
                got = core.attempt(inst.p.__setitem__, 'y', bad)
            core.expect(ctx, got, ValueError, 'mutation with %r' % (bad,))
            ctx.check(view(inst.p) == before, 'a refused mutation is kept')


def leaves(which):
    if which == 'extended':
        return extended()
    out = []
    for size in range(len(BoxLeaf.OVER) + 1):
        for over in itertools.combinations(BoxLeaf.OVER, size):
            out.append(BoxLeaf(over, False))
            if size > 1:
                out.append(BoxLeaf(over, True))
            if 'info' not in over:
                out += [BoxLeaf(over, False, kind) for kind in (
                    'alike', 'touchy', 'falsy')
                        if kind != 'touchy' or 'equal' in over]
    return out


def held_types(ctx, which, holder_name):
    for leaf in leaves(which):
        for holder in holders():
            if holder.name != holder_name:
                continue
            labels = contents(leaf, holder, ctx.quick)
            what = '%s in %s' % (leaf.name, holder.name)
            for one in labels:
                for func in (convert, spoiled, owned, mutated):
                    if not core.case(ctx, '%s: %s %s' % (
                            what, func.__name__, one), func, ctx, leaf,
                            holder, one):
                        return
                    ctx.step(3)
                ctx.state((leaf.name, one))
            for one, two in itertools.product(labels, repeat=2):
                if not core.case(ctx, '%s: %s then %s' % (
                        what, one, two), pair, ctx, leaf, holder, one, two):
                    return
                ctx.step(4)
                ctx.state((leaf.name, one, two))


# -- defaults of the class ---------------------------------------------------------------
def class_defaults(ctx):
    """_class_default x default= x _defaults, static or called."""
    def body(kind, log):
        def call():
            log.append(1)
            return 7

        def validate(self, instance, value):
            if not isinstance(value, (int, Box)):
                self.error(instance, value)
            return Box(value) if isinstance(value, int) else value
        out = {'validate': validate, 'class_info': 'a box'}
        if kind == 'static':
            out['_class_default'] = 7
        elif kind == 'falsy':
            out['_class_default'] = 0
        elif kind == 'called':
            out['_class_default'] = staticmethod(call)
        elif kind == 'inherited':
            return type('Leaf', (type('Leaf', (P.Property,), dict(
                out, _class_default=7)),), {})
        elif kind == 'property':
            out['_class_default'] = property(lambda self: self.start)
            out['start'] = 7
        elif kind == 'removed':
            return type('Leaf', (type('Leaf', (P.Property,), dict(
                out, _class_default=7)),), {'_class_default': P.undefined})
        return type('Leaf', (P.Property,), out)

    def judge(kind, own, mapped, base):
        log = []
        leaf = body(kind, log)
        kwargs = {}
        if own == 'value':
            kwargs['default'] = 4
        elif own == 'undefined':
            kwargs['default'] = P.undefined
        elif own == 'called':
            kwargs['default'] = lambda: 4
        if kind == 'property':
            kwargs['start'] = 9
        members = {'p': leaf('', **kwargs)}
        want = {'static': 7, 'falsy': 0, 'called': 7, 'inherited': 7,
                'property': 9}.get(kind)
        if own:
            want = None if own == 'undefined' else 4
        if base == 'union':
            members['p'] = P.Union('', [P.String(''), leaf('', **kwargs)])
        elif base == 'list item':
            members['p'] = P.List('', leaf('', **kwargs))
            want = None
        if mapped and base != 'list item':
            members['_defaults'] = {'p': {
                'value': 5, 'undefined': P.undefined,
                'called': lambda: 5}[mapped]}
            want = None if mapped == 'undefined' else 5
        cls = type('Owner', (P.HasProperties,), members)
        sub = type('Sub', (cls,), {})
        del log[:]
        for each in (cls, sub):
            for _ in range(2):
                inst = each()
                have = getattr(inst, 'p')
                ctx.check((have is None) if want is None else
                          isinstance(have, Box) and have.num == want,
                          lambda: 'default %r, expected %r' % (have, want))
                inst.p = [3] if base == 'list item' else 3
                inst._reset()
                have = getattr(inst, 'p')
                ctx.check((have is None) if want is None else
                          isinstance(have, Box) and have.num == want,
                          lambda: 'reset to %r, not %r' % (have, want))
        if kind == 'called' and not own and not mapped and \
                base != 'list item':
            ctx.check(len(log) >= 8, 'the default is called %d times for 8 '
                      'uses' % len(log))

    for kind in ('none', 'static', 'falsy', 'called', 'inherited',
                 'property', 'removed'):
        for own in (None, 'value', 'undefined', 'called'):
            for mapped in (None, 'value', 'undefined', 'called'):
                for base in ('plain', 'union', 'list item'):
                    if not core.case(ctx, '_class_default %s, default %s, '
                                     '_defaults %s, %s' % (
                                         kind, own, mapped, base), judge,
                                     kind, own, mapped, base):
                        return
                    ctx.step(4)
                    ctx.state((kind, own, mapped, base))


# -- documentation ---------------------------------------------------------------------
def documented(ctx):
    """The class documentation is made of the methods of the type."""
    def judge(info, sphinx, holder, super_too):
        body = {'__module__': 'mine'}
        if info == 'class_info':
            body['class_info'] = 'a thing of mine'
        elif info == 'info':
            body['info'] = property(lambda self: 'a thing of mine')
        elif info == 'option':
            body['limit'] = 'nothing'
            body['info'] = property(lambda self: 'a thing of %s' % self.limit)
        elif info == 'old class_info':
            body['info_text'] = 'a thing of mine'
        elif info == 'old info':
            body['info'] = lambda self: 'a thing of mine'
        if sphinx:
            body['sphinx_class'] = lambda self: ':class:`my.Thing`'
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter('always')
            leaf = type('Thing', (P.Property,), body)
        told = [w for w in seen if issubclass(w.category, FutureWarning)]
        ctx.check(bool(told) == info.startswith('old'),
                  lambda: 'warnings %s' % [str(w.message) for w in told])
        if super_too:
            leaf = type('Thing', (leaf,), {'__module__': 'mine'})
        prop = leaf('the doc', limit='mine') if info == 'option' else leaf(
            'the doc')
        text = '' if info == 'none' else 'a thing of mine'
        ctx.check(prop.info == text, 'info is %r' % (prop.info,))
        link = ':class:`my.Thing`' if sphinx else \
            ':class:`Thing <mine.Thing>`'
        ctx.check(prop.sphinx_class() == link, 'linked as %s' %
                  prop.sphinx_class())
        if holder == 'plain':
            members = {'p': prop}
            link_text = '(%s)' % link
        elif holder == 'list':
            members = {'p': P.List('the doc', prop)}
            link_text = link
        elif holder == 'union':
            members = {'p': P.Union('the doc', [prop, P.Integer('')])}
            link_text = link
        elif holder == 'dynamic':
            def p(self):
                return None
            members = {'p': prop(p)}
            link_text = link
        cls = type('Owner', (P.HasProperties,), members)
        for want in ('**p**', 'the doc', text, link_text):
            ctx.check(want in cls.__doc__, lambda: '%r is not in %r' % (
                want, cls.__doc__))
        ctx.check(want in type('Sub', (cls,), {}).__doc__, 'not inherited')

    for info in ('none', 'class_info', 'info', 'option', 'old class_info',
                 'old info'):
        for sphinx in (False, True):
            for holder in ('plain', 'list', 'union', 'dynamic'):
                for super_too in (False, True):
                    if not core.case(ctx, '%s sphinx=%s %s sub=%s' % (
                            info, sphinx, holder, super_too), judge, info,
                            sphinx, holder, super_too):
                        return
                    ctx.step()
                    ctx.state((info, sphinx, holder, super_too))


# -- options ----------------------------------------------------------------------------
class Scaled(P.Property):
    """An option checked by a setter, a plain one and a read-only one."""
    class_info = 'a number'
    plain = 3

    @property
    def factor(self):
        return getattr(self, '_factor', 1)

    @factor.setter
    def factor(self, value):
        if not isinstance(value, int):
            raise TypeError('factor must be an integer')
        if value < 0:
            raise ValueError('factor must not be negative')
        self._factor = value

    @property
    def fixed(self):
        return 5

    def validate(self, instance, value):
        if not isinstance(value, int) or value % self.factor:
            self.error(instance, value)
        return value


class Needy(P.Property):
    """A type with a required argument of its own."""

    def __init__(self, doc, top, **kwargs):
        self.top = top
        super(Needy, self).__init__(doc, **kwargs)

    def validate(self, instance, value):
        if value > self.top:
            self.error(instance, value)
        return value


def options(ctx):
    def judge_scaled(kwargs, default):
        more = dict(kwargs)
        if default is not None:
            more['default'] = default
        got = core.attempt(lambda: Scaled('doc', **more))
        factor = kwargs.get('factor', 1)
        if '_factor' in kwargs or 'unknown' in kwargs or 'fixed' in kwargs \
                or 'terms' in kwargs:
            bad = not isinstance(factor, int) or factor < 0
            core.expect(ctx, got, (AttributeError, TypeError, ValueError)
                        if bad else AttributeError, 'options %s' % kwargs)
            return
        if not isinstance(factor, int):
            core.expect(ctx, got, TypeError, 'options %s' % kwargs)
            return
        if factor < 0:
            core.expect(ctx, got, ValueError, 'options %s' % kwargs)
            return
        if default is not None and default % factor:
            core.expect(ctx, got, ValueError, 'default of %s' % kwargs)
            return
        prop = core.expect_ok(ctx, got, 'options %s' % kwargs)
        ctx.check((prop.factor, prop.plain) == (factor, kwargs.get(
            'plain', 3)), 'options read back')
        ctx.check(prop.terms.cls is Scaled and prop.terms.args == ('doc',)
                  and prop.terms.kwargs == more, 'terms %s' % (prop.terms,))
        again = prop.terms.cls(*prop.terms.args, **prop.terms.kwargs)
        ctx.check(again.factor == factor, 'built again from the terms')
        cls = type('Owner', (P.HasProperties,), {
            'p': prop, 'q': Scaled('', factor=2), 'r': P.List('', Scaled(
                '', factor=5))})
        inst = cls()
        ctx.check(inst.p == default, 'default')
        for val in (0, 1, 2, 3, 4, 5, 6, 10, 15):
            for name, scale, wrap in (('p', factor, int), ('q', 2, int),
                                      ('r', 5, lambda v: [v])):
                got = core.attempt(setattr, inst, name, wrap(val))
                if val % scale:
                    core.expect(ctx, got, ValueError, '%s = %s' % (name, val))
                else:
                    core.expect_ok(ctx, got, '%s = %s' % (name, val))
                    ctx.check(getattr(inst, name) == wrap(val), 'stored')

    singles = [{}, {'factor': 3}, {'factor': 1}, {'factor': 'x'},
               {'factor': -1}, {'plain': 8}, {'plain': None}, {'fixed': 6},
               {'_factor': 2}, {'unknown': 1}, {'terms': {}}]
    for one, two in itertools.product(singles, repeat=2):
        if set(one) & set(two) and one is not two:
            continue
        for default in (None, 0, 3, 4):
            if not core.case(ctx, 'Scaled(%s, %s, default=%s)' % (
                    one, two, default), judge_scaled, dict(one, **two),
                    default):
                return
            ctx.step()
            ctx.state((repr(one), repr(two), default))

    def judge_needy(top, default):
        got = core.attempt(lambda: Needy('d', top, default=default))
        if default is not None and default > top:
            core.expect(ctx, got, ValueError, 'default')
            return
        prop = core.expect_ok(ctx, got, 'Needy')
        ctx.check(prop.terms.args == ('d', top), 'terms')
        cls = type('Owner', (P.HasProperties,), {
            'p': prop, 'q': P.Tuple('', Needy('', top + 1))})
        inst = cls()
        for val in range(5):
            got = core.attempt(setattr, inst, 'p', val)
            ctx.check((got[0] == 'ok') is (val <= top), 'p = %s' % val)
            got = core.attempt(setattr, inst, 'q', (val,))
            ctx.check((got[0] == 'ok') is (val <= top + 1), 'q = %s' % val)
        core.expect(ctx, core.attempt(lambda: Needy('d')), TypeError,
                    'without the argument')
    for top in range(4):
        for default in (None, 0, 1, 2, 3, 4):
            core.case(ctx, 'Needy(%s, default=%s)' % (top, default),
                      judge_needy, top, default)
            ctx.step()
            ctx.state(('needy', top, default))


# -- errors -------------------------------------------------------------------------------
def own_errors(ctx):
    """How a type refuses a value: error, error_class, its own exception."""
    class Mine(P.ValidationError):
        pass

    class Value(ValueError):
        pass

    ways = {
        'error': (lambda s, i, v: s.error(i, v), P.ValidationError, True),
        'error with extra': (lambda s, i, v: s.error(i, v, extra='So there.'),
                             P.ValidationError, True),
        'error of its class': (lambda s, i, v: s.error(i, v, Mine), Mine,
                               True),
        'error of ValueError': (lambda s, i, v: s.error(i, v, Value), Value,
                                False),
        'raise ValueError': ('value', Value, False),
        'raise ValidationError': ('plain', Mine, False),
    }

    def judge(way, holder, bad):
        refuse, kind, record = ways[way]

        def validate(self, instance, value):
            if isinstance(value, int) and not isinstance(value, bool) and \
                    value >= 0:
                return value
            if refuse == 'value':
                raise Value('no way')
            if refuse == 'plain':
                raise Mine('no way')
            refuse(self, instance, value)
        leaf = type('Leaf', (P.Property,), {'validate': validate,
                                            'class_info': 'one of mine'})
        make = {
            'plain': (leaf('', default=1), 1, lambda v: v),
            'List': (P.List('', leaf(''), default=[1]), [1], lambda v: [1, v]),
            'observed': (P.List('', leaf(''), default=[1],
                                observe_mutations=True), [1],
                         lambda v: [v]),
            'Dictionary': (P.Dictionary('', value_prop=leaf(''), default={
                'a': 1}), {'a': 1}, lambda v: {'b': v}),
            'key': (P.Dictionary('', key_prop=leaf(''), default={1: 1}),
                    {1: 1}, lambda v: {v: 2}),
            'Union': (P.Union('', [leaf(''), leaf('')], default=1), 1,
                      lambda v: v),
            'Tuple': (P.Tuple('', leaf(''), default=(1,)), (1,),
                      lambda v: (1, v)),
            'Set': (P.Set('', leaf(''), default={1}), {1}, lambda v: {v}),
        }
        prop, start, wrap = make[holder]
        cls = type('Owner', (P.HasProperties,), {'p': prop})
        inst = cls()
        for what, func in (
                ('assignment', lambda: setattr(inst, 'p', wrap(bad))),
                ('construction', lambda: cls(p=wrap(bad))),
                ('loading', lambda: cls.deserialize({'p': wrap(
                    bad) if holder != 'Set' else [bad]}))):
            err = core.expect(ctx, core.attempt(func), ValueError, what)
            if holder == 'plain':
                if what == 'assignment':
                    ctx.check(isinstance(err, kind), '%s: %s' % (what, type(
                        err).__name__))
                if record and what == 'assignment':
                    ctx.check([(t.prop, t.instance is inst, t.reason) for t in
                               err.error_tuples] == [('p', True, 'invalid')],
                              'records %s' % (err.error_tuples,))
                    ctx.check('one of mine' in str(err), 'message %s' % err)
                    ctx.check('extra' not in way or 'So there.' in str(err),
                              'the extra text is missing in %s' % err)
            else:
                ctx.check(isinstance(err, P.ValidationError),
                          '%s: %s' % (what, type(err).__name__))
            ctx.check(inst.p == start, 'kept %r' % (inst.p,))
        if bad is not None:
            core.expect(ctx, core.attempt(lambda: leaf('', default=bad)),
                        ValueError, 'default')
        core.expect(ctx, core.attempt(type, 'Sub', (cls,), {
            '_defaults': {'p': wrap(bad)}}), AttributeError, '_defaults')
        ctx.check(inst.validate() is True, 'valid')
        if holder == 'observed':
            core.expect(ctx, core.attempt(inst.p.append, bad), ValueError,
                        'append')
            ctx.check(inst.p == [1], 'kept %r' % (inst.p,))

    for way in ways:
        for holder in ('plain', 'List', 'observed', 'Dictionary', 'key',
                       'Union', 'Tuple', 'Set'):
            for bad in ('x', -1, True, None, 2.5, ''):
                if not core.case(ctx, '%s in %s: %r' % (way, holder, bad),
                                 judge, way, holder, bad):
                    return
                ctx.step(3)
                ctx.state((way, holder, repr(bad)))


# -- own assert_valid -----------------------------------------------------------------------
def asserted(ctx):
    """assert_valid of the type takes part in validation of the instance."""
    def judge(holder, base, broken, repaired):
        calls, owners = [], []

        def assert_valid(self, instance, value=None):
            if value is None:
                value = instance._get(self.name)
            calls.append(value)
            owners.append(instance)
            if value in broken:
                self.error(instance, value, extra='Not now.')
            return super(leaf, self).assert_valid(instance, value)
        leaf = type('Leaf', (base,), {'assert_valid': assert_valid})
        inner = type('Inner', (P.HasProperties,), {'q': leaf('')})
        make = {
            'plain': (leaf(''), 3, [3]),
            'List': (P.List('', leaf('')), [1, 3], [1, 3]),
            'Tuple': (P.Tuple('', leaf('')), (3, 4), [3, 4]),
            'Set': (P.Set('', leaf('')), {3, 5}, [3, 5]),
            'Dictionary': (P.Dictionary('', value_prop=leaf('')),
                           {'a': 3, 'b': 4}, [3, 4]),
            'key': (P.Dictionary('', key_prop=leaf('')), {3: 1, 4: 2}, [3, 4]),
            'Union': (P.Union('', [P.String(''), leaf('')]), 3, [3]),
            'nested': (P.Instance('', inner), {'q': 3}, [3]),
            'List of List': (P.List('', P.List('', leaf(''))), [[1], [3]],
                             [1, 3]),
        }
        prop, value, items = make[holder]
        cls = type('Owner', (P.HasProperties,), {'p': prop})
        inst = cls(p=value)
        bad = set(items) & set(broken)
        del calls[:], owners[:]
        got = core.attempt(inst.validate)
        who = inst.p if holder == 'nested' else inst
        ctx.check(owners and all(each is who for each in owners),
                  lambda: 'assert_valid was given %s' % owners)
        if bad:
            err = core.expect(ctx, got, P.ValidationError, 'validation')
            if holder == 'plain':
                ctx.check('Not now.' in str(err), 'says %s' % err)
        else:
            ctx.check(core.expect_ok(ctx, got, 'validation') is True, 'valid')
            ctx.check(set(calls) >= set(items), 'asked about %s' % calls)
        if bad and repaired:
            broken.clear()
            ctx.check(inst.validate() is True, 'after the repair')
    for holder in ('plain', 'List', 'Tuple', 'Set', 'Dictionary', 'key',
                   'Union', 'nested', 'List of List'):
        for base in (P.Property, P.Integer):
            for size in range(3):
                for broken in itertools.combinations((1, 3, 4, 5), size):
                    if not core.case(ctx, '%s of %s: %s broken' % (
                            holder, base.__name__, broken), judge, holder,
                            base, set(broken), True):
                        return
                    ctx.step(2)
                    ctx.state((holder, base.__name__, broken))


# -- immutable ---------------------------------------------------------------------------------
def gettable(ctx):
    """A type built on GettableProperty: default only, no assignment."""
    def judge(default, over):
        body = {}
        if 'validate' in over:
            body['validate'] = lambda self, instance, value: Box(num(value))
        if 'json' in over:
            body['to_json'] = staticmethod(
                lambda value, **kwargs: 'n%s' % num(value))
        if 'equal' in over:
            body['equal'] = lambda self, a, b: num(a) == num(b)
        if default == 'class':
            body['_class_default'] = 4
        leaf = type('Fixed', (GettableProperty,), body)
        kwargs = {'default': 4} if default == 'own' else (
            {'default': lambda: 4} if default == 'called' else {})
        cls = type('Owner', (P.HasProperties,), {
            'p': leaf('', **kwargs), 'q': P.Integer('', required=False)})
        inst, twin = cls(), cls()
        if default == 'none':
            ctx.check(inst.p is None, 'undefined')
        else:
            ctx.check(view(inst.p) == (('Box', 4) if 'validate' in over
                                       else ('int', 4)), 'reads %r' % (inst.p,))
            data = inst.serialize(include_class=False)
            if 'json' in over:
                ctx.check(data == {'p': 'n4'}, 'saved %s' % data)
            else:
                ctx.check(list(data) == ['p'] and data['p'] is inst.p,
                          'saved %s' % data)
        core.expect(ctx, core.attempt(setattr, inst, 'p', 5), AttributeError,
                    'assignment')
        core.expect(ctx, core.attempt(delattr, inst, 'p'), AttributeError,
                    'deletion')
        want = default == 'none' or 'equal' in over or 'validate' not in over
        for one, two in ((inst, twin), (twin, inst)):
            ctx.check(P.equal(one, two) is want, 'equal gives %s' % (not want))
        ctx.check(inst.validate() is True or 'equal' not in over, 'valid')

    for default in ('none', 'class', 'own', 'called'):
        for size in range(4):
            for over in itertools.combinations(('validate', 'json', 'equal'),
                                               size):
                if 'validate' in over and 'equal' not in over:
                    continue
                core.case(ctx, 'default %s, own %s' % (default, over), judge,
                          default, over)
                ctx.step(4)
                ctx.state((default, over))


def scenarios(tier):
    for holder in holders():
        yield ('types in %s' % holder.name,
               lambda ctx, h=holder.name: held_types(ctx, 'own', h))
    for holder in holders():
        yield ('extended types in %s' % holder.name,
               lambda ctx, h=holder.name: held_types(ctx, 'extended', h))
    yield 'class defaults', class_defaults
    yield 'documentation', documented
    yield 'options', options
    yield 'own errors', own_errors
    yield 'own assert_valid', asserted
    yield 'immutable', gettable
