"""P13: unions against a first-match composition of their members."""
import datetime
import itertools
import json

import numpy as np

import properties as P
from properties.extras import URL

from mc import core, sizes
from mc.types import ODD, Truthless

PROPERTY = 'P13'
BOUNDS = ('every ordered pair of 35 member types (every ordered triple of 11 '
          'overlapping ones in quick, of 26 in thorough), 1 to 4 members, '
          'nested unions and unions in lists, tuples, sets and dictionaries; '
          'every value of an alphabet of 80, every JSON form of every accepted '
          'value, and dictionaries with every kind of class name; defaults of '
          'every placement')
ASSUMPTIONS = ['member types by themselves behave as P02, P03, P08, P09 and '
               'P20 check']

NAN = float('nan')


class Picky(P.Property):
    """Takes dictionaries and falls over other values in every way."""

    class_info = 'a dictionary'

    def validate(self, instance, value):
        if isinstance(value, bool):
            self.error(instance, value)
        if isinstance(value, (int, float, complex)):
            raise TypeError('number')
        if isinstance(value, str):
            raise KeyError('text')
        if isinstance(value, (list, tuple, set)):
            raise AttributeError('sequence')
        if not isinstance(value, dict):
            raise ValueError('odd')
        return value

    @staticmethod
    def from_json(value, **kwargs):
        if isinstance(value, str):
            raise AttributeError('text')
        if isinstance(value, list):
            raise KeyError('list')
        if isinstance(value, float):
            raise TypeError('number')
        return value


class Zoo(object):
    def __init__(self):
        class Aye(P.HasProperties):
            num = P.Integer('')
            txt = P.String('', required=False)

        class SubAye(Aye):
            more = P.Integer('', required=False)

        class Bee(P.HasProperties):
            num = P.Integer('', required=False)
            pos = P.Color('', required=False)
        self.Aye, self.SubAye, self.Bee = Aye, SubAye, Bee
        self.members = {
            'bool': lambda: P.Boolean(''),
            'boolcast': lambda: P.Boolean('', cast=True),
            'int': lambda: P.Integer(''),
            'small': lambda: P.Integer('', min=0, max=2),
            'intcast': lambda: P.Integer('', cast=True),
            'float': lambda: P.Float(''),
            'floatmax': lambda: P.Float('', max=1.2),
            'floatcast': lambda: P.Float('', cast=True),
            'complex': lambda: P.Complex(''),
            'str': lambda: P.String(''),
            'upper': lambda: P.String('', change_case='upper'),
            'strip': lambda: P.String('', strip=' '),
            'regex': lambda: P.String('', regex='^[a-c]'),
            'choice': lambda: P.StringChoice('', {'red': ['r'], 'b': []}),
            'color': lambda: P.Color(''),
            'date': lambda: P.DateTime(''),
            'url': lambda: URL('', remove_fragment=True),
            'list': lambda: P.List('', P.Integer('')),
            'listcoerce': lambda: P.List('', P.Integer(''), coerce=True),
            'longlist': lambda: P.List('', P.Float(''), min_length=2),
            'watched': lambda: P.List('', P.Float(''),
                                      observe_mutations=True),
            'tuple': lambda: P.Tuple('', P.Float('')),
            'set': lambda: P.Set('', P.String('')),
            'dict': lambda: P.Dictionary('', value_prop=P.Integer('')),
            'anydict': lambda: P.Dictionary(''),
            'aye': lambda: P.Instance('', Aye),
            'Aye': lambda: Aye,
            'bee': lambda: P.Instance('', Bee),
            'sub': lambda: P.Instance('', SubAye),
            'ayes': lambda: P.List('', Aye),
            'array': lambda: P.Array('', shape=('*',), dtype=(int, float)),
            'vec': lambda: P.Vector3(''),
            'nested': lambda: P.Union('', [P.Integer('', max=1),
                                           P.Color('')]),
            'picky': lambda: Picky(''),
            'any': lambda: P.Property(''),
        }
        date = datetime.datetime
        self.values = [lambda v=v: v for v in (
            None, True, False, 0, 1, 2, 3, -1, 1.0, 1.1, 1.5, 1e20, NAN,
            1j, 1 + 0j, '', 'a', 'A', ' b ', 'red', 'RED', 'r', 'b', '#F00',
            'fff', '1', '1.5', 'yes', 'x', 'north', '2000-01-01', 'nan',
            '2000-01-01T10:00:00Z', 'http://a.com/#x', b'a', (), (1,),
            (1.5, 2), (1, 2, 3), (255, 0, 0), ('a',), date(2000, 1, 2), ODD,
            np.int64(1), np.bool_(True), Truthless(False))]
        self.values += [
            lambda: [], lambda: [1], lambda: [1.5], lambda: [1, 2],
            lambda: [1, 2, 3], lambda: [0, 0, 0], lambda: ['a'],
            lambda: [[1]], lambda: [255, 0, 0], lambda: set(),
            lambda: {'a'}, lambda: {1}, lambda: {}, lambda: {'a': 1},
            lambda: {'a': 'b'}, lambda: {'num': 1}, lambda: {'num': 'x'},
            lambda: {'num': 1, 'txt': 'a'}, lambda: {'num': 1, 'more': 2},
            lambda: {'num': 1, 'pos': 'red'}, lambda: {'zip': 1},
            lambda: np.array([1, 2, 3]), lambda: np.array([1.5]),
            lambda: np.array([[1, 2]]), lambda: Aye(), lambda: Aye(num=1),
            lambda: SubAye(num=2), lambda: Bee(), lambda: Bee(num=1),
            lambda: [Aye(num=1)], lambda: [{'num': 1}], lambda: [Bee()],
        ]
        self.raw = [
            dict(d, **({'__class__': c} if c else {}))
            for c in (None, 'Aye', 'SubAye', 'Bee', 'Other')
            for d in ({}, {'num': 1}, {'num': 'x'}, {'txt': 'a'},
                      {'num': 1, 'extra': 2}, {'num': 1, 'more': 2},
                      {'num': 1, 'pos': [1, 2, 3]})]
        self.raw += [[], [1], [1, 2], ['a'], 'a', '1', 'yes', 'nan', 'red',
                     '2000-01-01', 5, 1.5, True, None, [255, 0, 0],
                     [{'num': 1}], [{'num': 1, '__class__': 'Aye'}],
                     {'a': 1}, '1+2j']


def wrap(member):
    return P.Instance('', member) if isinstance(member, type) else member


ERRORS = (ValueError, KeyError, TypeError, AttributeError)


class Table(object):
    """What every member, standing alone, does with every value."""

    def __init__(self, zoo):
        self.zoo = zoo
        self.cache = {}
        self.back = {}

    def prop(self, name):
        prop = wrap(self.zoo.members[name]())
        prop.name = 'p'
        return prop

    def first(self, names, make):
        """Index, stored value of the first member that accepts."""
        for idx, name in enumerate(names):
            key = (name, make)
            if self.cache.get(key) is False:
                continue
            out = core.attempt(self.prop(name).validate, None, make())
            ok = out[0] == 'ok'
            if not ok and not isinstance(out[1], ERRORS):
                raise out[1]
            self.cache[key] = ok
            if ok:
                return idx, out[1]
        return None, None

    def accepts_stored(self, names, stored):
        for idx, name in enumerate(names):
            if core.attempt(self.prop(name).validate, None,
                            stored)[0] == 'ok':
                return idx
        return None

    def load(self, names, value, strict, strict_instances, trusted):
        """('ok', value) or (raises, error) of deserializing a union."""
        kwargs = dict(trusted=trusted, strict=strict or strict_instances,
                      assert_valid=strict_instances)
        if value is None:
            return ('ok', None)
        if isinstance(value, dict) and value.get('__class__'):
            for name in names:
                prop = self.prop(name)
                if isinstance(prop, P.Instance) and \
                        prop.instance_class.__name__ == value['__class__']:
                    return core.attempt(prop.deserialize, value, **kwargs)
        for name in names:
            key = (name, json.dumps(value), strict, strict_instances, trusted)
            if self.back.get(key) is False:
                continue
            prop = self.prop(name)
            out = core.attempt(prop.deserialize, value, **kwargs)
            good = out[0] == 'ok' and core.attempt(
                prop.validate, None, out[1])[0] == 'ok'
            self.back[key] = good
            if good:
                return out
        return ('ok', value)


def make_union(zoo, names, **kwargs):
    return P.Union('', [zoo.members[n]() for n in names], required=False,
                   **kwargs)


def host_class(prop):
    return type(P.HasProperties)('Host', (P.HasProperties,), {
        'p': prop, '_REGISTRY': {}, 'other': P.Integer('', default=3)})


def assign(ctx, zoo, table, names, Host, make):
    """One value offered to one union."""
    label = 'Union(%s) <- %s' % (', '.join(names), core.show(make()))
    ctx.trace = [label]
    which, want = table.first(names, make)
    inst = Host()
    ctx.step()
    ctx.traces += 1
    if which is None:
        for prior in (None, 'value'):
            val = make()
            out = core.attempt(setattr, inst, 'p', val)
            err = core.expect(ctx, out, ValueError, label)
            ctx.check("'p'" in str(err), lambda: '%s: the error does not name '
                      'the property: %s' % (label, err))
            tuples = getattr(err, 'error_tuples', None)
            ctx.check(tuples is not None and len(tuples) == 1 and
                      tuples[0].prop == 'p' and tuples[0].instance is inst,
                      lambda: '%s: error records %s' % (label, tuples))
            if prior is None:
                ctx.check(inst.p is None, label + ': stored a rejected value')
                break
        ctx.outcome('no')
        return None
    val = make()
    core.expect_ok(ctx, core.attempt(setattr, inst, 'p', val), label)
    got = inst.p
    if isinstance(want, (P.HasProperties, type(ODD))) and \
            not isinstance(val, dict):
        ctx.check(got is val, label + ': instance replaced')
    ctx.same(got, want, '%s (member %s)' % (label, names[which]))
    ctx.outcome((which, type(want).__name__))
    ctx.state((names, core.canon(want)))
    if want is None:
        return None
    # validity of the stored value
    second = table.accepts_stored(names, want)
    settled = second == which
    if settled:
        member = table.prop(names[which])
        alone = [core.attempt(table.prop(n).assert_valid, inst,
                              inst.p)[0] == 'ok' for n in names]
        again = core.attempt(member.validate, None, inst.p)
        stable = again[0] == 'ok' and core.attempt(
            member.equal, inst.p, again[1]) == ('ok', True)
        valid = core.attempt(inst.validate)
        if stable and any(alone):
            core.expect_ok(ctx, valid, label + ': validating the instance')
        elif stable:
            core.expect(ctx, valid, ValueError, label + ': validating an '
                        'instance that no member finds valid')
        ctx.step()
    # serialization by the member
    for include in (True, False):
        outs = [core.attempt(table.prop(names[i]).serialize, inst.p,
                             include_class=include)
                for i in {which, second}]
        got = core.attempt(inst.serialize, include_class=include)
        if any(o[0] != 'ok' for o in outs):
            continue
        core.expect_ok(ctx, got, label + ': serialize')
        ctx.check(any(core.same(got[1].get('p'), o[1]) for o in outs),
                  lambda: '%s: serialized as %s, member gives %s' % (
                      label, core.show(got[1].get('p')), core.show(outs)))
        ctx.step()
    ctx.same(inst.p, want, label + ': changed by serializing')
    return which, inst.p, got


def load_one(ctx, table, names, union, Host, value, strict_instances):
    label = 'Union(%s%s).deserialize(%s)' % (
        ', '.join(names), ', strict' if strict_instances else '',
        core.show(value))
    for strict, trusted in ((False, False), (False, True), (True, False)):
        ctx.trace = ['%s strict=%s trusted=%s' % (label, strict, trusted)]
        want = table.load(names, value, strict, strict_instances, trusted)
        before = core.canon(value)
        got = core.attempt(union.deserialize, value, strict=strict,
                           trusted=trusted)
        ctx.check(core.canon(value) == before, label + ': input modified')
        ctx.step()
        if want[0] != 'ok':
            core.expect(ctx, got, ERRORS, ctx.trace[0])
        else:
            core.expect_ok(ctx, got, ctx.trace[0])
            ctx.same(got[1], want[1], ctx.trace[0])
        ctx.outcome(('load', want[0]))
    ctx.traces += 1


def one_union(ctx, zoo, table, names, loads):
    Host = host_class(make_union(zoo, names))
    ctx.state(names)
    stored = []
    jsons = []
    for make in zoo.values:
        box = []
        core.guarded(ctx, lambda: box.append(assign(
            ctx, zoo, table, names, Host, make)))
        if ctx.full():
            return
        if box and box[0]:
            which, val, got = box[0]
            stored.append((which, val))
            if got[0] == 'ok' and 'p' in got[1]:
                try:
                    jsons.append(json.loads(json.dumps(got[1]['p'])))
                except (TypeError, ValueError):
                    pass
    union = Host._props['p']

    def equality():
        for (i, one), (j, two) in itertools.combinations(stored[::3], 2):
            if i != j or core.show(one) == 'nan':
                continue
            ctx.trace = ['Union(%s): %s equal %s' % (names, core.show(one),
                                                     core.show(two))]
            # the members that both values are valid for
            votes = [bool(table.prop(n).equal(one, two)) for n in names
                     if all(core.attempt(table.prop(n).validate, None,
                                         v)[0] == 'ok' for v in (one, two))]
            if not votes or (any(votes) and not votes[0]):
                continue
            want = votes[0]
            for pair in ((one, two), (two, one)):
                got = core.attempt(union.equal, *pair)
                core.expect_ok(ctx, got, ctx.trace[0])
                ctx.same(bool(got[1]), want, ctx.trace[0])
            ctx.step()
        for i, one in stored:
            ctx.check(union.equal(one, one), lambda: '%s not equal to '
                      'itself' % core.show(one))
    core.guarded(ctx, equality)
    if not loads:
        return
    strict = make_union(zoo, names, strict_instances=True)
    strict.name = 'p'
    seen = set()
    for value in jsons + zoo.raw:
        key = core.canon(value)
        if key in seen:
            continue
        seen.add(key)
        core.guarded(ctx, lambda: load_one(ctx, table, names, union, Host,
                                           value, False))
        if isinstance(value, (dict, list)):
            core.guarded(ctx, lambda: load_one(ctx, table, names, strict,
                                               Host, value, True))
        if ctx.full():
            return


OVERLAP = ('bool', 'int', 'small', 'floatcast', 'str', 'upper', 'choice',
           'color', 'listcoerce', 'tuple', 'aye')


def unions(size, part, parts):
    def run(ctx):
        zoo = Zoo()
        table = Table(zoo)
        if size == 3 and ctx.quick:
            pool = OVERLAP
        elif size == 3:
            pool = [n for n in zoo.members if n not in (
                'watched', 'Aye', 'strip', 'url', 'longlist', 'anydict',
                'nested', 'floatmax')]
        else:
            pool = list(zoo.members)
        count = 0
        for names in itertools.product(pool, repeat=size):
            if size == 3 and len(set(names)) < 3:
                continue
            count += 1
            if count % parts != part:
                continue
            one_union(ctx, zoo, table, names,
                      loads=size < 3 or count % (7 * parts) == part)
            if ctx.full():
                return
        ctx.sample('all %d unions of %d members' % (count, size))
    return run


def selected(ctx):
    """Instance-heavy and longer unions."""
    zoo = Zoo()
    table = Table(zoo)
    groups = [('aye', 'bee', 'sub'), ('bee', 'any'), ('int', 'str', 'aye'),
              ('anydict', 'aye', 'bee'), ('Aye', 'bee', 'list'),
              ('picky', 'str', 'aye')]
    for group in groups:
        for names in itertools.permutations(group):
            one_union(ctx, zoo, table, names, loads=True)
    for names in itertools.permutations(('small', 'color', 'str', 'bee')):
        one_union(ctx, zoo, table, names, loads=True)


# -- nesting --------------------------------------------------------------------
def nesting(part, parts):
    return lambda ctx: nesting_part(ctx, part, parts)


def nesting_part(ctx, part, parts):
    zoo = Zoo()
    table = Table(zoo)
    pool = ('small', 'str', 'color', 'list', 'aye', 'bool')
    for idx, names in enumerate(itertools.permutations(pool, 2)):
        if idx % parts != part:
            continue
        inner = lambda: make_union(zoo, names)
        for third in pool:
            for order in (0, 1):
                flat = (names + (third,)) if order == 0 else (
                    (third,) + names)
                props = [inner(), zoo.members[third]()]
                Host = host_class(P.Union('', props[::1 if order == 0 else -1],
                                          required=False))

                def go():
                    for make in zoo.values:
                        ctx.trace = ['nested %s <- %s' % (
                            flat, core.show(make()))]
                        which, want = table.first(flat, make)
                        inst = Host()
                        out = core.attempt(setattr, inst, 'p', make())
                        ctx.step()
                        if which is None:
                            core.expect(ctx, out, ValueError, ctx.trace[0])
                        else:
                            core.expect_ok(ctx, out, ctx.trace[0])
                            ctx.same(inst.p, want, ctx.trace[0])
                core.case(ctx, 'nested %s' % (flat,), go)
        items = []
        for make in zoo.values:
            which, want = table.first(names, make)
            items.append((make, which, want))
        containers = {
            'list': (lambda p: P.List('', p, required=False), list, list),
            'watched': (lambda p: P.List('', p, required=False,
                                         observe_mutations=True), list, list),
            'tuple': (lambda p: P.Tuple('', p, required=False), tuple, tuple),
            'dict': (lambda p: P.Dictionary('', value_prop=p, required=False),
                     lambda seq: dict(zip('abc', seq)),
                     lambda seq: dict(zip('abc', seq))),
        }
        for kind, (build, pack, expected) in containers.items():
            Host = host_class(build(inner()))

            def go():
                good = [it for it in items if it[1] is not None]
                bad = [it for it in items if it[1] is None]
                for one in good:
                    for two in good[::4]:
                        ctx.trace = ['%s of %s <- %s, %s' % (
                            kind, names, core.show(one[2]),
                            core.show(two[2]))]
                        inst = Host()
                        out = core.attempt(setattr, inst, 'p', pack(
                            [one[0](), two[0]()]))
                        core.expect_ok(ctx, out, ctx.trace[0])
                        ctx.same(inst.p, expected([one[2], two[2]]),
                                 ctx.trace[0])
                        ctx.step()
                        ctx.state((kind, names, core.canon(inst.p)))
                    for two in bad:
                        inst = Host()
                        out = core.attempt(setattr, inst, 'p', pack(
                            [one[0](), two[0]()]))
                        core.expect(ctx, out, ValueError, '%s of %s with %s' % (
                            kind, names, core.show(two[0]())))
                        ctx.check(inst.p is None, 'stored a rejected value')
                        ctx.step()
            core.case(ctx, '%s of %s' % (kind, names), go)
        if ctx.full():
            return


def defaults(ctx):
    """The explicit default, else the first member default."""
    options = [(), (1,), ('red',), ('x',), ([1],)]

    def member(kind, default, required=True):
        kwargs = {'default': default[0]} if default else {}
        kwargs['required'] = required
        return {'int': lambda: P.Integer('', **kwargs),
                'color': lambda: P.Color('', **kwargs),
                'str': lambda: P.String('', **kwargs),
                'list': lambda: P.List('', P.Integer(''), **kwargs)}[kind]()
    fits = {'int': {0: None, 1: 1}, 'color': {0: None, 2: (255, 0, 0)},
            'str': {0: None, 2: 'red', 3: 'x'}, 'list': {0: None, 4: [1]}}
    for kinds in itertools.permutations(fits, 2):
        for picks in itertools.product(range(len(options)), repeat=2):
            if any(p not in fits[k] for k, p in zip(kinds, picks)):
                continue
            for top, need in itertools.product(
                    range(len(options)), itertools.product(
                        (True, False), repeat=2)):
                label = 'Union(%s defaults %s required %s) default %s' % (
                    kinds, [options[p] for p in picks], need, options[top])

                def go():
                    kwargs = {'default': options[top][0]} if top else {}
                    build = lambda: host_class(P.Union('', [
                        member(k, options[p], r)
                        for k, p, r in zip(kinds, picks, need)],
                        required=False, **kwargs))
                    want = None
                    if top:
                        fit = [fits[k][top] for k in kinds if top in fits[k]]
                        if not fit:
                            out = core.attempt(build)
                            core.expect(ctx, out, (TypeError, ValueError),
                                        label)
                            return
                        want = fit[0]
                    else:
                        for kind, pick in zip(kinds, picks):
                            if pick:
                                # stored through the union, first match again
                                want = next(fits[k][pick] for k in kinds
                                            if pick in fits[k])
                                break
                    inst = build()()
                    ctx.same(inst.p, want, label)
                    del inst.p
                    ctx.check(inst.p is None, label + ' deleted')
                    inst._reset('p')
                    ctx.same(inst.p, want, label + ' after reset')
                    ctx.step()
                    ctx.state(label)
                core.case(ctx, label, go)


def scenarios(tier):
    yield ('many', lambda ctx: sizes.counted(ctx, sizes.members))
    quick = tier == 'quick'
    yield ('one member', unions(1, 0, 1))
    for part in range(6):
        yield ('pairs %d' % part, unions(2, part, 6))
    parts = 5 if quick else 24
    for part in range(parts):
        yield ('triples %d' % part, unions(3, part, parts))
    yield ('selected', selected)
    for part in range(4):
        yield ('nesting %d' % part, nesting(part, 4))
    yield ('defaults', defaults)
