"""P26: who and what a validation error names, and the error hook."""
import collections
import itertools

import numpy as np

import properties as P
from properties.extras import HasUID, Pointer

from mc import core
from mc import names as called, types

PROPERTY = 'P26'
BOUNDS = ('every rejected value of the input alphabets of every primitive type '
          'configuration (quick: every 4th string configuration), and a '
          'catalogue for the compound types; by assignment, construction, '
          'stand-alone validation, through a subclass, a renamed and a dynamic '
          'property, and as a member of a list, tuple, set, dictionary (key '
          'and value), union, instance and two-level combinations; every '
          'accepted value with the hook silent; every subset of invalid '
          'properties on validation, also those that a validator would change or refuse by now; every combination of error arguments')
ASSUMPTIONS = ['the expectation is named if the info text of the property is '
               'part of the message']

HOOKS = []
NAME = 'quantity'


class Hooked(P.HasProperties):
    """Logs the calls of its error hook."""

    def _error_hook(self, error_tuples):
        HOOKS.append((self, list(error_tuples)))


def family(make):
    """Classes around one property."""
    class Culprit(Hooked):
        quantity = make()
        other = P.Integer('', default=1)
        alias = P.Renamed('quantity', warn=False)

        @make()
        def moving(self):
            return self.quantity

        @moving.setter
        def moving(self, value):
            self.quantity = value

    class Descendant(Culprit):
        more = P.Integer('', required=False)

        def __len__(self):
            return 0            # culprits may well be false
    return Culprit, Descendant


def names(ctx, err, obj, name, info, label, cls=None):
    """The error is one record that tells everything."""
    ctx.check(isinstance(err, ValueError), label + ': kind of error')
    ctx.check(isinstance(err, P.ValidationError), label + ': kind of error')
    ctx.same(len(err.error_tuples), 1, label + ': number of records')
    record(ctx, err.error_tuples[0], obj, name, info, label, cls)
    ctx.check(err.error_tuples[0].message in str(err), lambda:
              '%s: the record is not part of the message %s' % (label, err))


def record(ctx, rec, obj, name, info, label, cls=None, reason='invalid'):
    ctx.check(tuple(rec) == (rec.message, rec.reason, rec.prop, rec.instance),
              label + ': fields of the record')
    ctx.same(rec.reason, reason, label + ': reason')
    ctx.same(rec.prop, name, label + ': property')
    if obj is not None:
        ctx.check(rec.instance is obj, label + ': instance of the record')
        cls = type(obj)
    if cls is not None:
        ctx.check(type(rec.instance) is cls, label + ': class of the record')
        ctx.check(cls.__name__ in rec.message, lambda: '%s: the message does '
                  'not name the class: %s' % (label, rec.message))
    if name:
        ctx.check(name in rec.message, lambda: '%s: the message does not name '
                  'the property: %s' % (label, rec.message))
    if info:
        ctx.check(info in rec.message, lambda: '%s: the message does not say '
                  'what was expected: %s' % (label, rec.message))


def hooked(ctx, err, obj, label, nested=False):
    """The hook got the records of the error.

    Members that reject a part of the value may have called it before.
    """
    calls = [h for h in HOOKS if h[0] is obj]
    ctx.check(calls, label + ': the error hook was not called')
    ctx.check(all(h[0] is obj or isinstance(h[0], (Inner, Ident))
                  for h in HOOKS), label + ': hook of another')
    ctx.check(list(calls[-1][1]) == list(err.error_tuples), lambda: '%s: the '
              'hook got %s, the error has %s' % (
                  label, core.show(calls[-1][1]), core.show(err.error_tuples)))
    if not nested:
        ctx.same(len(calls), 1, label + ': hook calls')
    final = err.error_tuples[0].prop
    for _, records in calls:
        ctx.check(all(r.instance is obj and r.reason == 'invalid' and
                      r.prop in (final, NAME) for r in records),
                  label + ': hook got records of something else')


def contexts(ctx, classes, prop, value, label, nested=False):
    """All ways to assign a rejected value."""
    fresh = lambda: types.fresh(value)
    bare = core.expect(ctx, core.attempt(lambda: prop.validate(None, fresh())),
                       ValueError, label + ', stand-alone')
    ctx.step()
    ctx.check(isinstance(bare, P.ValidationError) and
              len(bare.error_tuples) == 1 and
              bare.error_tuples[0].instance is None and
              bare.error_tuples[0].reason == 'invalid' and
              prop.info in str(bare) and type(prop).__name__ in str(bare),
              lambda: '%s, stand-alone: %s' % (label, bare))
    late = []
    for cls in classes:
        what = '%s of %s' % (label, cls.__name__)
        for name in (NAME, 'alias', 'moving'):
            obj = cls()
            real = 'moving' if name == 'moving' else NAME
            info = cls._props[real].info if real == NAME else prop.info
            del HOOKS[:]
            err = core.expect(ctx, core.attempt(setattr, obj, name, fresh()),
                              P.ValidationError, '%s by %s' % (what, name))
            ctx.step()
            names(ctx, err, obj, real, info, '%s by %s' % (what, name))
            if nested:
                calls = list(HOOKS)
                if name == NAME:
                    late.append((calls, err, obj, what))
            else:
                hooked(ctx, err, obj, '%s by %s' % (what, name))
            ctx.check(getattr(obj, NAME) is None, what + ': it was stored')
        # construction
        del HOOKS[:]
        err = core.expect(ctx, core.attempt(lambda: cls(quantity=fresh())),
                          P.ValidationError, what + ' constructed')
        ctx.step()
        names(ctx, err, None, NAME, cls._props[NAME].info,
              what + ' constructed', cls=cls)
        calls = [h for h in HOOKS if type(h[0]) is cls]
        ctx.same(len(calls), 1, what + ' constructed: hook calls')
        ctx.check(list(calls[0][1]) == list(err.error_tuples) and
                  calls[0][0] is err.error_tuples[0].instance,
                  what + ' constructed: records of the hook')
    for calls, err, obj, what in late:
        HOOKS[:] = calls
        hooked(ctx, err, obj, what, nested=True)


def silent(ctx, cls, value, label, key=None):
    """Accepted values do not call the hook."""
    del HOOKS[:]
    obj = core.expect_ok(ctx, core.attempt(lambda: cls(
        quantity=types.fresh(value))), label + ' constructed')
    ctx.step()
    ctx.check(not HOOKS, label + ' constructed: the hook was called')
    core.expect_ok(ctx, core.attempt(setattr, cls(), 'alias',
                                     types.fresh(value)), label)
    core.expect_ok(ctx, core.attempt(setattr, obj, NAME, types.fresh(value)),
                   label)
    ctx.step(2)
    ctx.check(not HOOKS, lambda: '%s is accepted, but the hook was called '
              'with %s' % (label, core.show(HOOKS)), key=key)
    delattr(obj, NAME)
    ctx.check(not HOOKS, label + ' deleted: the hook was called', key=key)


def primitives(part, parts):
    def run(ctx):
        strings = 0
        for num, spec in enumerate(types.primitive_specs(ctx.quick)):
            if spec.name.startswith('String('):
                strings += 1
                if ctx.quick and strings % 4:
                    continue
            if num % parts != part:
                continue
            classes = family(spec.make)
            prop = spec.make()
            seen = 0
            for value in spec.rejected():
                label = '%s given %s' % (spec.name, core.show(value))
                core.case(ctx, label, contexts, ctx, classes, prop, value,
                          label)
                seen += 1
                if ctx.full():
                    return
            for value, _ in spec.accepted():
                label = '%s given %s' % (spec.name, core.show(value))
                core.case(ctx, label, silent, ctx, classes[0], value, label)
                if ctx.full():
                    return
            ctx.state(spec.name)
            ctx.outcome((spec.name, seen))
    return run


class Inner(Hooked):
    num = P.Integer('')
    txt = P.String('', required=False)


class Ident(HasUID, Hooked):
    pass


class Picky(Ident):
    _INSTANCES = dict()

    @classmethod
    def validate_uid(cls, uid):
        if uid == 'no':
            raise P.ValidationError('this one is refused')
        return True


def vectors():
    """Array types: (make, rejected values, accepted values)."""
    flat = ['q', 3, None, {}, [[[1.]]], np.array('x'), [1, 'a'],
            types.ODD]
    yield 'Array', lambda: P.Array(''), flat + [[[1.]], ['a']], [[1.], (1, 2)]
    yield ('Array int', lambda: P.Array('', dtype=int, shape=('*', 2)),
           flat + [[1, 2], [[1., 2.]], [[1, 2, 3]]], [[[1, 2]]])
    yield ('Array strict', lambda: P.Array('', coerce=False),
           flat + [[1.], (1.,)], [np.array([1.])])
    yield ('Vector3', lambda: P.Vector3(''),
           flat + [[1, 2], 'upp', '', (1, 2, 3, 4)],
           ['x', 'UP', [1, 2, 3], 'zero'])
    yield ('Vector3 length', lambda: P.Vector3('', length=2),
           flat + ['zero', [0, 0, 0]], ['x', [1, 2, 3]])
    yield ('Vector2', lambda: P.Vector2(''), flat + ['z', 'up', [1, 2, 3]],
           ['x', [1., 2.]])
    yield ('Vector3Array', lambda: P.Vector3Array(''),
           flat + [['q'], ['x', 'q'], [[1, 2]]], [['x', 'up'], [[1, 2, 3]]])
    yield ('Vector2Array', lambda: P.Vector2Array('', length=1),
           flat + [['z'], ['x', 'zero'], [[1, 2, 3]]], [['x'], [[1, 2]]])


def simple_compounds():
    """Types whose errors come from the type itself."""
    yield ('Instance', lambda: P.Instance('', Inner), [
        3, 'x', [], None, {'nope': 1}, {'num': 'x'}, {'num': 'x', 'txt': 3},
        types.ODD], [{}, {'num': 1}, Inner()])
    yield ('Instance int', lambda: P.Instance('', int), ['x', [], None, {'a': 1}],
           [3, '4'])
    yield ('Pointer', lambda: Pointer('', Ident), [3, None, [], {'nope': 1}],
           ['uid', {}, Ident()])
    yield ('Pointer checked', lambda: Pointer('', Picky),
           ['no', 3, {'uid': 'no', 'nope': 1}, Ident()], ['uid', Picky()])
    yield ('Pointer loading', lambda: Pointer('', Picky, load=True),
           ['no', 3, None], ['uid', Picky()])
    yield ('List type', lambda: P.List('', P.Property('')), [
        3, 'x', (), None, {}, set()], [[], [1, 'x']])
    yield ('Tuple type', lambda: P.Tuple('', P.Property('')), [
        3, 'x', [], None, {}, set()], [(), (1, 'x')])
    yield ('Set type', lambda: P.Set('', P.Property('')), [
        3, 'x', [], None, {}, ()], [set(), {1, 'x'}])
    yield ('Dictionary type', lambda: P.Dictionary(''), [3, 'x', [], None],
           [{}, {'a': 1}])
    yield ('Dictionary coerced', lambda: P.Dictionary('', coerce=True),
           [3, 'x', [1], None], [{}, [('a', 1)]])
    yield ('File', lambda: P.File(''), ['x', 3, None, []], [])
    yield ('ImagePNG', lambda: P.ImagePNG(''), ['/nonexistent/x', 3, None],
           [])


def compounds(ctx):
    for name, make, rejected, accepted in itertools.chain(
            vectors(), simple_compounds()):
        classes = family(make)
        for value in rejected:
            label = '%s given %s' % (name, core.show(value))
            core.case(ctx, label, contexts, ctx, classes, make(), value, label)
            if ctx.full():
                return
        for value in accepted:
            label = '%s given %s' % (name, core.show(value))
            core.case(ctx, label, silent, ctx, classes[0], value, label)
            if ctx.full():
                return
        ctx.state(name)


LEAVES = {
    'Integer': (lambda: P.Integer('', max=9), [4, -2], ['x', 1.5, 10]),
    'String': (lambda: P.String('', regex='^a'), ['ab', 'a'], [5, 'b']),
    'Choice': (lambda: P.StringChoice('', ['a', 'b']), ['a', 'B'], ['c', 3]),
    'Color': (lambda: P.Color(''), ['red', '#fff'], ['nocolor', 5]),
    'Boolean': (lambda: P.Boolean(''), [True, False], [3, 'x']),
}


def wraps():
    """name -> (property of the leaf, values of one leaf value)."""
    return {
        'list': (lambda leaf: P.List('', leaf()),
                 lambda v, g: [[v], [g, v], [v, g], [v, v]]),
        'tuple': (lambda leaf: P.Tuple('', leaf()),
                  lambda v, g: [(v,), (g, v), (v, g)]),
        'set': (lambda leaf: P.Set('', leaf()), lambda v, g: [{v}, {v, g}]),
        'seen list': (lambda leaf: P.List('', leaf(), observe_mutations=True),
                      lambda v, g: [[v], [g, v]]),
        'values': (lambda leaf: P.Dictionary('', value_prop=leaf()),
                   lambda v, g: [{'k': v}, {'j': g, 'k': v}]),
        'keys': (lambda leaf: P.Dictionary('', key_prop=leaf()),
                 lambda v, g: [{v: 1}, {g: 1, v: 2}]),
        'union': (lambda leaf: P.Union('', [leaf()]), lambda v, g: [v]),
        'union of two': (lambda leaf: P.Union('', [P.DateTime(''), leaf()]),
                         lambda v, g: [v]),
        'union of list': (lambda leaf: P.Union('', [P.List('', leaf())]),
                          lambda v, g: [[v], [g, v]]),
        'list of union': (lambda leaf: P.List('', P.Union('', [leaf()])),
                          lambda v, g: [[v], [g, v]]),
        'list of list': (lambda leaf: P.List('', P.List('', leaf())),
                         lambda v, g: [[[v]], [[g], [g, v]]]),
        'values of list': (lambda leaf: P.Dictionary('', value_prop=P.List(
            '', leaf())), lambda v, g: [{'k': [v]}, {'j': [g], 'k': [g, v]}]),
        'list of tuple': (lambda leaf: P.List('', P.Tuple('', leaf())),
                          lambda v, g: [[(v,)], [(g,), (g, v)]]),
    }


def members(wrap):
    def run(ctx):
        make, spread = wraps()[wrap]
        for leaf, (prop, goods, bads) in LEAVES.items():
            build = lambda: make(prop)
            classes = family(build)
            for bad in bads:
                for value in spread(bad, goods[0]):
                    label = '%s of %s given %s' % (wrap, leaf, core.show(value))
                    core.case(ctx, label, contexts, ctx, classes, build(),
                              value, label, True)
                    if ctx.full():
                        return
            for good in goods:
                for value in spread(good, goods[1]):
                    label = '%s of %s given %s' % (wrap, leaf, core.show(value))
                    core.case(ctx, label, silent, ctx, classes[0], value,
                              label, 'union-hook' if wrap == 'union of two'
                              else None)
                    if ctx.full():
                        return
            ctx.state((wrap, leaf))
    return run


def unions(ctx):
    """Every order of three member types; the error explains each refusal."""
    pool = {
        'int': (lambda: P.Integer('', max=9), lambda v: type(v) is int and
                v <= 9),
        'str': (lambda: P.String('', regex='^a'), lambda v: type(v) is str and
                v.startswith('a')),
        'list': (lambda: P.List('', P.Integer('')),
                 lambda v: type(v) is list and all(type(w) is int for w in v)),
        'inner': (lambda: Inner, lambda v: isinstance(v, Inner) or
                  type(v) is dict and set(v) <= {'num'} and
                  type(v.get('num', 1)) is int),
    }
    values = [3, 10, 'ab', 'b', [], [1], ['x'], {}, {'num': 1}, {'num': 'x'},
              {'nope': 1}, None, 1.5, types.ODD]
    for size in (1, 2, 3):
        for kinds in itertools.permutations(pool, size):
            build = lambda: P.Union('', [pool[k][0]() for k in kinds])
            classes = family(build)
            for value in values:
                label = 'union of %s given %s' % (', '.join(kinds),
                                                  core.show(value))
                fits = [pool[k][1](value) for k in kinds]
                if not any(fits):
                    core.case(ctx, label, contexts, ctx, classes, build(),
                              value, label, True)

                    def explained():
                        obj = classes[0]()
                        err = core.expect(ctx, core.attempt(
                            setattr, obj, NAME, types.fresh(value)),
                            P.ValidationError, label)
                        for member in obj._props[NAME].props:
                            alone = core.attempt(member.validate, None,
                                                 types.fresh(value))
                            for rec in getattr(alone[1], 'error_tuples', ()):
                                # up to the owner, which is unknown here
                                part = rec.message.split(' must be ', 1)[1]
                                ctx.check(part in str(err), lambda:
                                          '%s: the message does not say %s' % (
                                              label, part))
                            ctx.check(member.info in str(err), lambda:
                                      '%s: the message does not mention %s' % (
                                          label, member.info))
                        ctx.step()
                    core.case(ctx, label, explained)
                else:
                    core.case(ctx, label, silent, ctx, classes[0], value,
                              label, 'union-hook' if not fits[0] else None)
                if ctx.full():
                    return
            ctx.state(kinds)


def validation(ctx):
    """Every subset of problems is reported, each once, with its culprit."""
    class Part(Hooked):
        quantity = P.Integer('')

    class Whole(Hooked):
        first = P.Integer('')
        second = P.List('', P.Integer(''), max_length=2)
        third = P.Instance('', Part)
        fourth = P.Dictionary('', value_prop=P.Instance('', Part))
        fifth = P.Union('', [P.Integer(''), Part], required=False)
        sixth = P.Tuple('', P.Instance('', Part), min_length=1)
        last = P.String('', required=False)

        @P.validator
        def _cross(self):
            if self.first == 13:
                raise P.ValidationError('unlucky number', 'luck', 'first',
                                        self)

    def good():
        return Part(quantity=1)

    # name -> list of (value or None, function on the instance, reason)
    fine = {'first': lambda o: 3, 'second': lambda o: [1],
            'third': lambda o: good(), 'fourth': lambda o: {'k': good()},
            'fifth': lambda o: good(), 'sixth': lambda o: (good(),)}
    flaws = {
        'first': [('missing', None), ('luck', lambda o: 13)],
        'second': [('missing', None), ('invalid', lambda o: [1, 2, 3]),
                   ('item', lambda o: [1])],
        'third': [('missing', None), ('part', lambda o: Part())],
        'fourth': [('missing', None), ('part', lambda o: {'k': Part()})],
        'fifth': [('invalid', lambda o: Part())],
        'sixth': [('missing', None), ('invalid', lambda o: ()),
                  ('part', lambda o: (good(), Part()))],
    }
    fields = list(fine)
    for choice in itertools.product(*[[None] + flaws[f] for f in fields]):
        label = 'problems %s' % ({f: c[0] for f, c in zip(fields, choice)
                                  if c},)

        def go():
            obj = Whole()
            parts = []
            for field, flaw in zip(fields, choice):
                func = flaw[1] if flaw else fine[field]
                if func is None:
                    continue
                setattr(obj, field, func(obj))
                if flaw and flaw[0] == 'item':
                    obj.second.append('x')
            want = []
            for field, flaw in zip(fields, choice):
                if flaw is None:
                    continue
                if flaw[0] == 'part':
                    held = getattr(obj, field)
                    part = (held if field == 'third' else held['k']
                            if field == 'fourth' else held[-1])
                    want.append(('missing', NAME, part))
                    parts.append(part)
                elif flaw[0] == 'item':
                    want.append(('invalid', field, obj))
                else:
                    want.append((flaw[0], field, obj))
            del HOOKS[:]
            out = core.attempt(obj.validate)
            ctx.step()
            mine = [h for h in HOOKS if h[0] is obj]
            if not want:
                core.expect_ok(ctx, out, label)
                ctx.check(not HOOKS, label + ': a hook was called')
                return
            err = core.expect(ctx, out, P.ValidationError, label)
            got = [(r.reason, r.prop, r.instance) for r in err.error_tuples]

            def order(item):
                return repr(item[:2]) + str(id(item[2]))
            ctx.check(sorted(got, key=order) == sorted(want, key=order),
                      lambda: '%s: records %s, expected %s' % (
                          label, core.show(got), core.show(want)))
            for rec in err.error_tuples:
                ctx.check(rec.message in str(err), label + ': message')
                if rec.reason in ('missing', 'invalid'):
                    record(ctx, rec, rec.instance, rec.prop, None, label,
                           reason=rec.reason)
            ctx.same(len(mine), 1, label + ': calls of the hook')
            ctx.check(mine[0][1] == list(err.error_tuples),
                      label + ': records of the hook')
            for part in parts:
                calls = [h for h in HOOKS if h[0] is part]
                ctx.same(len(calls), 1, label + ': hook of the part')
                ctx.check(all(r.instance is part for r in calls[0][1]),
                          label + ': records of the part')
            ctx.state(tuple(c[0] if c else None for c in choice))
        core.case(ctx, label, go)
        if ctx.full():
            return


def drifted(ctx):
    """Values that a validator would change or refuse by now."""
    class Tank(Hooked):
        first = P.Integer('', default=8)
        second = P.Float('', default=8.)
        third = P.List('', P.Integer(''), default=lambda: [8])
        fourth = P.String('', default='8')

        @P.validator(['first', 'second', 'third', 'fourth'])
        def _adjust(self, change):
            move = getattr(self, 'moves', {}).get(change['name'])
            if move == 'replace':
                change['value'] = NEW[change['name']]
            elif move == 'refuse':
                raise P.ValidationError('refused ' + change['name'], 'no',
                                        change['name'], self)
            elif move == 'veto':
                raise P.ValidationError('refused ' + change['name'])
            elif move == 'same':
                change['value'] = SAME[change['name']]

    class Holder(Hooked):
        tank = P.Instance('', Tank)
    NEW = {'first': 5, 'second': 5., 'third': [5], 'fourth': '5'}
    SAME = {'first': 8, 'second': 8., 'third': [8], 'fourth': '8'}
    want = {'replace': lambda n, o: ('invalid', n, o),
            'refuse': lambda n, o: ('no', n, o),
            'veto': lambda n, o: (None, None, None)}
    for moves in itertools.product((None, 'same', 'replace', 'refuse', 'veto'),
                                   repeat=4):
        moves = dict(zip(NEW, moves))

        def go():
            for outer in (False, True):
                tank = Tank()
                tank.moves = moves
                root = Holder(tank=tank) if outer else tank
                expected = [want[m](n, tank) for n, m in moves.items()
                            if m in want]
                del HOOKS[:]
                out = core.attempt(root.validate)
                ctx.step()
                if not expected:
                    core.expect_ok(ctx, out, 'validate')
                    ctx.check(not HOOKS, 'hook')
                    continue
                err = core.expect(ctx, out, P.ValidationError, 'validate')
                got = [(r.reason, r.prop, r.instance)
                       for r in err.error_tuples]
                ctx.check(sorted(got, key=repr) == sorted(expected, key=repr),
                          lambda: 'records %s, expected %s' % (
                              core.show(got), core.show(expected)))
                for rec in err.error_tuples:
                    ctx.check(rec.message in str(err) and (
                        rec.prop is None or rec.prop in rec.message),
                        'message')
                mine = [h for h in HOOKS if h[0] is tank]
                ctx.same(len(mine), 1, 'calls of the hook')
                ctx.check([tuple(r) for r in mine[0][1]] ==
                          [tuple(r) for r in err.error_tuples], 'its records')
                for name in NEW:
                    ctx.check(getattr(tank, name) == SAME[name], 'changed')
            ctx.state(tuple(moves.values()))
        core.case(ctx, str(moves), go)
        if ctx.full():
            return


def mutations(ctx):
    """Refused mutations of observed containers name the property."""
    class Culprit(Hooked):
        quantity = P.List('', P.Integer(''), observe_mutations=True,
                          default=lambda: [1, 2])
        others = P.Dictionary('', value_prop=P.Integer(''),
                              observe_mutations=True,
                              default=lambda: {'a': 1})
        third = P.Set('', P.Integer(''), observe_mutations=True,
                      default=lambda: {1, 2})
    moves = {
        'quantity': [lambda v: v.append('x'), lambda v: v.insert(0, 'x'),
                     lambda v: v.extend([3, 'x']),
                     lambda v: v.__setitem__(0, 'x'),
                     lambda v: v.__setitem__(slice(0, 1), ['x', 3])],
        'others': [lambda v: v.__setitem__('b', 'x'),
                   lambda v: v.update({'c': 'x'}),
                   lambda v: v.setdefault('d', 'x')],
        'third': [lambda v: v.add('x'), lambda v: v.update([3, 'x']),
                  lambda v: v.symmetric_difference_update({'x'})],
    }
    for name in moves:
        for num, move in enumerate(moves[name]):
            def go():
                obj = Culprit()
                before = core.canon(getattr(obj, name))
                del HOOKS[:]
                err = core.expect(ctx, core.attempt(move, getattr(obj, name)),
                                  P.ValidationError, 'move %d' % num)
                ctx.step()
                names(ctx, err, obj, name, type(obj)._props[name].info,
                      '%s move %d' % (name, num))
                ctx.check(HOOKS and HOOKS[-1] == (obj, err.error_tuples),
                          '%s move %d: hook' % (name, num))
                ctx.check(core.canon(getattr(obj, name)) == before,
                          'it changed')
                ctx.state((name, num))
            core.case(ctx, '%s move %d' % (name, num), go)
            if ctx.full():
                return


SPELLINGS = ('x', '_hidden', 'name', 'value', 'Mixed_Case', 'self_', 'none',
             '__dunder', 'a1', 'p' * 60, 'doc', '\u00e9t\u00e9')
BY_NAME = {
    'Integer': (lambda: P.Integer(''), 'x', 3),
    'String': (lambda: P.String(''), 3, 'x'),
    'List': (lambda: P.List('', P.Integer('')), 3, [3]),
    'Dictionary': (lambda: P.Dictionary('', key_prop=P.String('')), 3, {}),
    'Union': (lambda: P.Union('', [P.Integer(''), P.Color('')]), 'x', 3),
    'Instance': (lambda: P.Instance('', Inner), 3, {'num': 3}),
    'Array': (lambda: P.Array(''), 'x', [3]),
    'Vector3': (lambda: P.Vector3(''), 'q', 'x'),
}


def spellings(ctx):
    """The culprit is named whatever it is called."""
    for name, (kind, (make, bad, good)), lower in itertools.product(
            SPELLINGS, BY_NAME.items(), (False, True)):
        def go():
            cls = type(P.HasProperties)('Culprit', (Hooked,), {name: make()})
            if lower:
                cls = type(P.HasProperties)('Lower', (cls,), {})
            info = cls._props[name].info
            label = '%s %s' % (kind, name)
            for prior in (False, True):
                obj = cls()
                if prior:
                    setattr(obj, name, types.fresh(good))
                del HOOKS[:]
                err = core.expect(ctx, core.attempt(
                    setattr, obj, name, types.fresh(bad)), P.ValidationError,
                    label)
                names(ctx, err, obj, name, info, label)
                ctx.check("'%s'" % name in str(err), lambda: '%s: the message '
                          'does not name the property: %s' % (label, err))
                hooked(ctx, err, obj, label, kind == 'Union')
            err = core.expect(ctx, core.attempt(cls, **{
                name: types.fresh(bad)}), P.ValidationError, label)
            names(ctx, err, None, name, info, label + ' constructed', cls)
            obj = cls()
            del HOOKS[:]
            err = core.expect(ctx, core.attempt(obj.validate),
                              P.ValidationError, label + ' missing')
            record(ctx, err.error_tuples[0], obj, name, None,
                   label + ' missing', reason='missing')
            ctx.same(len(HOOKS), 1, label + ': hook calls')
            ctx.step(4)
            ctx.state((name, kind, lower))
        if not core.case(ctx, (name, kind, lower), go):
            return


def arguments(ctx):
    """The error class itself, and Property.error."""
    class Sub(P.ValidationError):
        pass

    def hooks():
        obj = Hooked()
        odd = Exception()
        hollow = type('Hollow', (Hooked,), {'__len__': lambda self: 0})()
        for cls, reason, prop, inst in itertools.product(
                (P.ValidationError, Sub), (None, 'why', '', 3, b'x', []),
                (None, 'p', '', 3, []), (None, obj, 3, 0, '', [], False, 'x', odd, Exception,
                                           hollow)):
            label = '%s(%r, %r, %r)' % (cls.__name__, reason, prop, inst)
            ctx.trace = [label]
            del HOOKS[:]
            out = core.attempt(lambda: cls('message', reason, prop, inst))
            again = core.attempt(lambda: cls(
                message='message', instance=inst, prop=prop, reason=reason))
            ctx.step(2)
            good = (reason in (None, 'why', '') and prop in (None, 'p', '') and
                    (inst is None or inst is obj or inst is hollow))
            for res in (out, again):
                if not good:
                    core.expect(ctx, res, TypeError, label)
                    continue
                err = core.expect_ok(ctx, res, label)
                ctx.same(str(err), 'message', label)
                ctx.check(err.error_tuples == [('message', reason, prop, inst)],
                          label + ': records')
            want = 2 if good and inst is not None else 0
            ctx.same(len(HOOKS), want, label + ': hook calls')
            for who, records in HOOKS:
                ctx.check(who is inst and records == out[1].error_tuples,
                          label + ': records of the hook')
            ctx.state((cls.__name__, repr(reason), repr(prop), repr(inst)))
        ctx.same(P.ValidationError('m').error_tuples, [('m', None, None, None)],
                 'message only')

    def errors():
        for make in (lambda: P.Integer(''), lambda: P.String('', regex='^a'),
                     lambda: P.List('', P.Integer('')), lambda: P.Color(''),
                     lambda: P.Array(''), lambda: P.Vector3(''),
                     lambda: P.Union('', [P.Integer('')]),
                     lambda: P.Instance('', Inner), lambda: P.Property(''),
                     lambda: P.Uuid('')):
            cls = type('Culprit', (Hooked,), {NAME: make()})
            prop = cls._props[NAME]
            for value, inst, error_class, extra in itertools.product(
                    (3, 'x' * 300, [1, 2], np.array([1, 2]), types.ODD, None),
                    (True, False), (None, P.ValidationError, Sub, ValueError,
                                    KeyError, RuntimeError),
                    ('', 'more words')):
                obj = cls() if inst else None
                label = '%s.error(%s, %s, %s)' % (
                    type(prop).__name__, core.show(value), inst, error_class)
                ctx.trace = [label]
                kwargs = {'extra': extra} if extra else {}
                if error_class:
                    kwargs['error_class'] = error_class
                del HOOKS[:]
                err = core.expect(ctx, core.attempt(lambda: prop.error(
                    obj, value, **kwargs)), error_class or P.ValidationError,
                    label)
                ctx.step()
                ctx.check(type(err) is (error_class or P.ValidationError),
                          label + ': class of the error')
                text = str(err.args[0])
                if inst:
                    ctx.check(NAME in text and 'Culprit' in text,
                              lambda: '%s: message %s' % (label, text))
                ctx.check(type(prop).__name__ in text or inst,
                          lambda: '%s: message %s' % (label, text))
                ctx.check(prop.info in text and extra in text,
                          lambda: '%s: message %s' % (label, text))
                if not inst:
                    ctx.check('NoneType instance' not in text,
                              lambda: '%s: message %s' % (label, text))
                if len(repr(value)) < 100 and not isinstance(prop, P.Array):
                    ctx.check(repr(value) in text,
                              lambda: '%s: message %s' % (label, text))
                alone = make()
                other = core.expect(ctx, core.attempt(
                    lambda: alone.error(obj, value, **kwargs)), error_class or
                    P.ValidationError, label + ', unnamed')
                said = str(other.args[0])
                ctx.check(isinstance(prop, P.Array) or
                          "''" not in said.replace(repr(value), '') and
                          alone.info in said and
                          type(alone).__name__ in said,
                          lambda: '%s, unnamed: message %s' % (label, said))
                del HOOKS[:]
                err = core.expect(ctx, core.attempt(lambda: prop.error(
                    obj, value, **kwargs)), error_class or P.ValidationError,
                    label)
                if isinstance(err, P.ValidationError):
                    ctx.same(len(err.error_tuples), 1, label)
                    rec = err.error_tuples[0]
                    ctx.check(tuple(rec) == (text, 'invalid', NAME, obj),
                              label + ': record')
                    ctx.same(len(HOOKS), int(inst), label + ': hook calls')
                else:
                    ctx.check(not HOOKS, label + ': hook')

    def zero():
        class Culprit(Hooked):
            quantity = P.Vector3('', length=1)
            flat = P.Vector2('', length=1)
            many = P.Vector3Array('', length=1)
            pairs = P.Vector2Array('', length=1)
        for name, value in ((NAME, 'zero'), (NAME, [0, 0, 0]),
                            ('flat', [0, 0]), ('many', [[0, 0, 0], 'x']),
                            ('pairs', ['x', 'zero'])):
            obj = Culprit()
            del HOOKS[:]
            err = core.expect(ctx, core.attempt(setattr, obj, name, value),
                              P.ValidationError, 'zero vector')
            ctx.check(isinstance(err, ZeroDivisionError), 'zero vector: kind')
            names(ctx, err, obj, name, type(obj)._props[name].info,
                  'zero vector')
            hooked(ctx, err, obj, 'zero vector')
            ctx.step()

    def own_hook():
        """A hook may raise its own error or keep the records."""
        class Own(Exception):
            pass

        class Strict(P.HasProperties):
            quantity = P.Integer('')

            def _error_hook(self, error_tuples):
                raise Own(error_tuples)

        class Replaced(Strict):
            def _error_hook(self, error_tuples):
                kept.append(error_tuples)
        kept = []
        obj = Strict()
        for func in (lambda: setattr(obj, NAME, 'x'), obj.validate,
                     lambda: Strict(quantity='x')):
            err = core.expect(ctx, core.attempt(func), Own, 'own error')
            ctx.same(err.args[0][0].prop, NAME, 'record')
            ctx.step()
        ctx.check(obj.quantity is None, 'stored')
        obj.quantity = 3
        core.expect_ok(ctx, core.attempt(obj.validate), 'validate')
        other = Replaced()
        for num, func in enumerate((
                lambda: setattr(other, NAME, 'x'), other.validate,
                lambda: Replaced(quantity='x'))):
            err = core.expect(ctx, core.attempt(func), P.ValidationError,
                              'inherited hook')
            ctx.same(len(kept), num + 1, 'hook calls')
            ctx.check(list(kept[-1]) == list(err.error_tuples), 'records')
            ctx.step()
    def nested():
        """An instance that cannot be made tells everything that is wrong."""
        class Many(Hooked):
            num = P.Integer('', max=9)
            txt = P.StringChoice('', ['a', 'b'])
            pos = P.Vector3('')
            more = P.List('', P.Color(''))
        wrong = collections.OrderedDict([
            ('num', 'x'), ('txt', 'c'), ('pos', 'q'), ('more', ['nocolor'])])
        makers = {
            'instance': (lambda: P.Instance('', Many), lambda v: v),
            'list': (lambda: P.List('', Many), lambda v: [v]),
            'dictionary': (lambda: P.Dictionary(
                '', value_prop=P.Instance('', Many)), lambda v: {'k': v}),
        }
        for where, (make, wrap) in makers.items():
            for size in range(1, 5):
                for which in itertools.permutations(wrong, size):
                    cls = type('Culprit', (Hooked,), {NAME: make()})
                    obj = cls()
                    value = collections.OrderedDict(
                        (key, wrong[key]) for key in which)
                    inner = core.expect(
                        ctx, core.attempt(lambda: Many(**value)),
                        P.ValidationError, 'made alone')
                    ctx.same([r.prop for r in inner.error_tuples], list(which),
                             'the records of the instance')
                    label = '%s with wrong %s' % (where, which)
                    err = core.expect(ctx, core.attempt(
                        setattr, obj, NAME, wrap(value)), P.ValidationError,
                        label)
                    ctx.step(2)
                    ctx.state(label)
                    if where != 'instance':
                        # the rule of the container is all it tells
                        continue
                    for key in which:
                        info = Many._props[key].info
                        ctx.check(("'%s'" % key) in str(err) and
                                  info in str(err), lambda: '%s: nothing is '
                                  'said about %s: %s' % (label, key, err))
    for func in (hooks, errors, zero, own_hook, nested):
        core.case(ctx, func.__name__, func)


def scenarios(tier):
    yield ('names', lambda ctx: called.named(ctx, called.blame))
    parts = 8 if tier == 'quick' else 16
    for part in range(parts):
        yield ('primitives %d' % part, primitives(part, parts))
    for wrap in wraps():
        yield ('members of ' + wrap, members(wrap))
    for func in (compounds, unions, validation, drifted, mutations, spellings,
                 arguments):
        yield (func.__name__, func)
