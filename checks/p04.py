"""P04: observable containers behave like builtins and notify on mutation."""
import collections
import itertools
import operator

import properties as P

from mc import core, sizes

PROPERTY = 'P04'
BOUNDS = ('observed list, set, dict, OrderedDict and subclasses; alphabet: every '
          'mutator, operator and in-place operator of the builtin with valid, '
          'coercible, invalid and failing arguments, on the stored container, '
          'on a stale handle, on a second property and a second instance; '
          'every sequence of 2 (quick) / 3 (thorough) operations with and '
          'without a vetoing validator, and breadth-first closure of the '
          'vetoed system (size at most 3); every pair of assignments and '
          'mutations of containers of subclasses with equal names')
ASSUMPTIONS = ['in-place operators on a local variable holding the container '
               'leave the stored container alone or notify; either is accepted',
               'containers nested inside an observed container are not observed']


class MyList(list):
    pass


class Boom(Exception):
    pass


def breaking(vals):
    for v in vals:
        yield v
    raise Boom('iterator failed')


def item_ok(v):
    """Coerced item or None."""
    if isinstance(v, (bool, int, float)) and v == int(v) and 0 <= v <= 9:
        return int(v)
    return None


def coerce(contents):
    """Contents as stored, or None if invalid."""
    if isinstance(contents, dict):
        out = type(contents)()
        for k, v in contents.items():
            if not isinstance(k, str) or item_ok(v) is None:
                return None
            out[k] = item_ok(v)
        return out
    vals = [item_ok(v) for v in contents]
    if None in vals:
        return None
    return type(contents)(vals)


def size_veto(contents):
    if len(contents) > 3:
        return True
    return 7 in (contents.values() if isinstance(contents, dict) else contents)


def snap(v):
    if v is P.undefined or v is None:
        return None
    if isinstance(v, dict):
        return ('dict', tuple(v.items()))
    if isinstance(v, set):
        return ('set', tuple(sorted((repr(x), type(x).__name__) for x in v)))
    return ('list', tuple((repr(x), type(x).__name__) for x in v))


def make_class(kind, veto):
    def prop():
        if kind in ('dict', 'odict'):
            return P.Dictionary('', key_prop=P.String(''),
                                value_prop=P.Integer('', min=0, max=9),
                                observe_mutations=True)
        typ = {'list': P.List, 'mylist': P.List, 'set': P.Set}[kind]
        return typ('', prop=P.Integer('', min=0, max=9),
                   observe_mutations=True)

    def on_set(self, change):
        self.log.append(('set', change['name'], snap(change['previous']),
                         snap(change['value']), change['mode'],
                         change['previous']))

    def on_change(self, change):
        self.log.append(('change', change['name'], snap(change['previous']),
                         snap(change['value']), change['mode'],
                         change['previous']))

    def guard(self, change):
        if change['value'] is P.undefined:
            return
        if size_veto(change['value']):
            raise ValueError('vetoed')

    members = {
        'x': prop(), 'y': prop(),
        'on_set': P.observer(P.everything)(on_set),
        'on_change': P.observer(['x', 'y'], change_only=True)(on_change),
    }
    if veto:
        members['__len__'] = lambda self: 0     # owners may well be false
        members['guard'] = P.validator(['x', 'y'])(guard)
    cls = type('Owner', (P.HasProperties,), members)
    cls.log = None
    return cls


def start(kind):
    return {'list': lambda: [3, 1], 'mylist': lambda: MyList([3, 1]),
            'set': lambda: {3, 1}, 'dict': lambda: {'a': 3, 'b': 1},
            'odict': lambda: collections.OrderedDict([('a', 3), ('b', 1)])
            }[kind]()


def mutators(kind):
    """(label, func(container) -> result) for real and model alike."""
    out = []

    def add(label, func):
        out.append((label, func))
    if kind in ('list', 'mylist'):
        for v in (2, 4.0, 'x', 11, 7, True):
            add('append(%r)' % (v,), lambda c, v=v: c.append(v))
        add('append()', lambda c: c.append())
        add('extend([5, 0])', lambda c: c.extend([5, 0]))
        add('extend([])', lambda c: c.extend([]))
        add("extend([5, 'x'])", lambda c: c.extend([5, 'x']))
        add('extend(5)', lambda c: c.extend(5))
        add('extend(iter)', lambda c: c.extend(iter((2, 2))))
        add('extend(self)', lambda c: c.extend(c))
        add('extend(breaking)', lambda c: c.extend(breaking([1, 2])))
        add('insert(0, 6)', lambda c: c.insert(0, 6))
        add('insert(-1, 6.0)', lambda c: c.insert(-1, 6.0))
        add("insert('x', 6)", lambda c: c.insert('x', 6))
        add('pop()', lambda c: c.pop())
        add('pop(0)', lambda c: c.pop(0))
        add('pop(5)', lambda c: c.pop(5))
        add('remove(1)', lambda c: c.remove(1))
        add('remove(8)', lambda c: c.remove(8))
        add('reverse()', lambda c: c.reverse())
        add('sort()', lambda c: c.sort())
        add('sort(reverse)', lambda c: c.sort(reverse=True))
        add('sort(key)', lambda c: c.sort(key=lambda v: -v))
        add('sort(badkey)', lambda c: c.sort(key=lambda v: v.nope))
        add('clear()', lambda c: c.clear())
        add('[0]=5', lambda c: operator.setitem(c, 0, 5))
        add("[0]='x'", lambda c: operator.setitem(c, 0, 'x'))
        add('[9]=5', lambda c: operator.setitem(c, 9, 5))
        add('[0:1]=[8, 8]', lambda c: operator.setitem(c, slice(0, 1), [8, 8]))
        add("[0:1]=['x']", lambda c: operator.setitem(c, slice(0, 1), ['x']))
        add('[::2]=[0]*n', lambda c: operator.setitem(
            c, slice(None, None, 2), [0] * len(c[::2])))
        add('[::2]=[0]*9', lambda c: operator.setitem(
            c, slice(None, None, 2), [0] * 9))
        add('del [0]', lambda c: operator.delitem(c, 0))
        add('del [9]', lambda c: operator.delitem(c, 9))
        add('del [1:]', lambda c: operator.delitem(c, slice(1, None)))
    elif kind == 'set':
        for v in (2, 4.0, 'x', 7, True, 1):
            add('add(%r)' % (v,), lambda c, v=v: c.add(v))
        add('add([])', lambda c: c.add([]))
        add('update([5, 0])', lambda c: c.update([5, 0]))
        add('update()', lambda c: c.update())
        add("update([5, 'x'])", lambda c: c.update([5, 'x']))
        add('update(breaking)', lambda c: c.update(breaking([8])))
        add('update([4], [6])', lambda c: c.update([4], [6]))
        add('discard(1)', lambda c: c.discard(1))
        add('discard(8)', lambda c: c.discard(8))
        add('remove(3)', lambda c: c.remove(3))
        add('remove(8)', lambda c: c.remove(8))
        add('pop()', lambda c: c.pop())
        add('clear()', lambda c: c.clear())
        add('difference_update', lambda c: c.difference_update([1, 4]))
        add('intersection_update', lambda c: c.intersection_update([1, 4]))
        add('symmetric_difference_update',
            lambda c: c.symmetric_difference_update([1, 4]))
        add("symmetric_difference_update('x')",
            lambda c: c.symmetric_difference_update(['x']))
        add('intersection_update(5)', lambda c: c.intersection_update(5))
    else:
        for k, v in (('c', 2), ('a', 4.0), ('a', 'x'), ('a', 7), (5, 1),
                     ('b', 1)):
            add('[%r]=%r' % (k, v),
                lambda c, k=k, v=v: operator.setitem(c, k, v))
        add('[[]]=1', lambda c: operator.setitem(c, [], 1))
        add("del ['a']", lambda c: operator.delitem(c, 'a'))
        add("del ['z']", lambda c: operator.delitem(c, 'z'))
        add("pop('a')", lambda c: c.pop('a'))
        add("pop('z')", lambda c: c.pop('z'))
        add("pop('z', 0)", lambda c: c.pop('z', 0))
        add('popitem()', lambda c: c.popitem())
        add('clear()', lambda c: c.clear())
        add("setdefault('a', 5)", lambda c: c.setdefault('a', 5))
        add("setdefault('c', 5)", lambda c: c.setdefault('c', 5))
        add("setdefault('c')", lambda c: c.setdefault('c'))
        add('update({})', lambda c: c.update({}))
        add("update({'c': 5})", lambda c: c.update({'c': 5}))
        add("update(c=6, a=0)", lambda c: c.update(c=6, a=0))
        add("update({'c': 'x'})", lambda c: c.update({'c': 'x'}))
        add("update([('d', 4)])", lambda c: c.update([('d', 4)]))
        add("update([('d', 4), 5])", lambda c: c.update([('d', 4), 5]))
        add('update(breaking)', lambda c: c.update(breaking([('e', 1)])))
        if kind == 'odict':
            add("move_to_end('a')", lambda c: c.move_to_end('a'))
            add("move_to_end('b', last=False)",
                lambda c: c.move_to_end('b', last=False))
            add("move_to_end('z')", lambda c: c.move_to_end('z'))
            add('popitem(last=False)', lambda c: c.popitem(last=False))
    return out


def inplace(kind):
    if kind in ('list', 'mylist'):
        return [('+= [2]', lambda c: operator.iadd(c, [2])),
                ("+= ['x']", lambda c: operator.iadd(c, ['x'])),
                ('+= (4.0,)', lambda c: operator.iadd(c, (4.0,))),
                ('+= 5', lambda c: operator.iadd(c, 5)),
                ('+= breaking', lambda c: operator.iadd(c, breaking([1]))),
                ('*= 2', lambda c: operator.imul(c, 2)),
                ('*= 0', lambda c: operator.imul(c, 0)),
                ("*= 'x'", lambda c: operator.imul(c, 'x'))]
    if kind == 'set':
        return [('|= {2}', lambda c: operator.ior(c, {2})),
                ("|= {'x'}", lambda c: operator.ior(c, {'x'})),
                ('|= [2]', lambda c: operator.ior(c, [2])),
                ('&= {1, 2}', lambda c: operator.iand(c, {1, 2})),
                ('-= {1}', lambda c: operator.isub(c, {1})),
                ('^= {1, 4}', lambda c: operator.ixor(c, {1, 4})),
                ("^= {'x'}", lambda c: operator.ixor(c, {'x'}))]
    return [("|= {'c': 2}", lambda c: operator.ior(c, {'c': 2})),
            ("|= {'c': 'x'}", lambda c: operator.ior(c, {'c': 'x'})),
            ('|= 5', lambda c: operator.ior(c, 5))]


def operators(kind):
    if kind in ('list', 'mylist'):
        return [('+ [2]', lambda c: c + [2]), ('* 2', lambda c: c * 2),
                ('2 *', lambda c: 2 * c), ('copy()', lambda c: c.copy()),
                ('[:1]', lambda c: c[:1]), ('+ 5', lambda c: c + 5)]
    if kind == 'set':
        return [('| {2}', lambda c: c | {2}), ('& {1}', lambda c: c & {1}),
                ('- {1}', lambda c: c - {1}), ('^ {1}', lambda c: c ^ {1}),
                ('{2} |', lambda c: {2} | c), ('{1, 2} -', lambda c: {1, 2} - c),
                ('{1, 2} &', lambda c: {1, 2} & c),
                ('{1, 2} ^', lambda c: {1, 2} ^ c),
                ('copy()', lambda c: c.copy()),
                ('union', lambda c: c.union([4])),
                ('difference', lambda c: c.difference([1])),
                ('intersection', lambda c: c.intersection([1])),
                ('symmetric_difference',
                 lambda c: c.symmetric_difference([1])),
                ('| 5', lambda c: c | 5)]
    return [('copy()', lambda c: c.copy()),
            ('| {}', lambda c: c | {'q': 1}),
            ('{} |', lambda c: {'q': 1, 'a': 9} | c),
            ('fromkeys', lambda c: c.fromkeys(['k'], 4))]


class Observed(core.System):
    kind = 'list'
    veto = False
    small = False

    def __init__(self, ctx):
        super().__init__(ctx)
        if not hasattr(ctx, 'classes'):
            ctx.classes = {}
        tag = (self.kind, self.veto)
        if tag not in ctx.classes:
            ctx.classes[tag] = make_class(*tag)
        cls = ctx.classes[tag]
        self.log = []
        cls.log = self.log
        self.inst = {'a': cls(), 'b': cls()}
        self.model = {}
        for slot in ('a.x', 'a.y', 'b.x'):
            self.put(slot, start(self.kind))
            self.model[slot] = start(self.kind)
        self.stale = None           # (real handle, model contents)
        del self.log[:]

    def get(self, slot):
        who, attr = slot.split('.')
        return getattr(self.inst[who], attr)

    def put(self, slot, value):
        who, attr = slot.split('.')
        setattr(self.inst[who], attr, value)

    # -- operations ---------------------------------------------------------
    def transition(self, slot, what, run, after, result=None, raises=None):
        """Run a mutation; `after` are the builtin contents afterwards."""
        ctx = self.ctx
        old_handle = self.get(slot)
        old = snap(old_handle)
        mark = len(self.log)
        out = core.attempt(run)
        new = None if after is None else coerce(after)
        bad = raises is None and after is not None and (
            new is None or (self.veto and size_veto(new)))
        events = self.log[mark:]
        if raises is not None or bad:
            kinds = type(raises) if raises is not None else ValueError
            core.expect(ctx, out, kinds, what)
            ctx.check(not events, lambda: what + ' failed but notified: ' +
                      core.show(events))
            ctx.check(self.get(slot) is old_handle, lambda: what +
                      ' failed but replaced the stored container')
            ctx.outcome('refused')
            return
        core.expect_ok(ctx, out, what)
        if result is not None:
            got = out[1]
            ctx.check(type(got) is type(result[0]) and got == result[0],
                      lambda: '%s returned %s, the builtin returns %s' % (
                          what, core.show(got), core.show(result[0])))
        name = slot.split('.')[1]
        sets = [e for e in events if e[0] == 'set']
        changes = [e for e in events if e[0] == 'change']
        ctx.check(len(sets) == 1, lambda: '%s fired %d set notifications: %s'
                  % (what, len(sets), core.show(events)))
        ctx.check(sets[0][1:5] == (name, old, snap(new), 'observe_set'),
                  lambda: '%s notified %s, expected %s -> %s of %s' % (
                      what, core.show(sets[0]), old, snap(new), name))
        differs = (self.model[slot] is None) != (new is None) or \
            self.model[slot] != new
        if self.kind == 'odict':
            differs = None      # order of entries: equality is unspecified
        if differs is not None:
            ctx.check(len(changes) == int(differs), lambda: '%s fired %d '
                      'change-only notifications' % (what, len(changes)))
        if old is not None:
            ctx.check(snap(old_handle) == old, lambda: what +
                      ' modified the previous container: ' +
                      core.show(old_handle))
            ctx.check(sets[0][5] is old_handle or snap(sets[0][5]) == old,
                      lambda: what + ': previous value was modified')
            ctx.check(self.get(slot) is not old_handle,
                      lambda: what + ' modified the container in place')
            if slot == 'a.x':
                self.stale = (old_handle, self.model[slot])
        self.model[slot] = new
        ctx.outcome('mutated')

    def mutate(self, slot, label, func):
        if self.model[slot] is None:
            return
        after = copy_of(self.model[slot])
        try:
            result, raises = [func(after)], None
        except Exception as err:
            result, raises = None, err
        handle = self.get(slot)
        self.transition(slot, '%s.%s' % (slot, label), lambda: func(handle),
                        after, result, raises)

    def augment(self, slot, label, func):
        """inst.x <op>= arg"""
        if self.model[slot] is None:
            return
        after = copy_of(self.model[slot])
        try:
            after, raises = func(after), None
        except Exception as err:
            raises = err
        self.transition(slot, '%s %s' % (slot, label),
                        lambda: self.put(slot, func(self.get(slot))),
                        after, None, raises)

    def augment_local(self, slot, label, func):
        """h = inst.x; h <op>= arg: the stored container does not change."""
        if self.model[slot] is None:
            return
        mark = len(self.log)
        want = snap(self.model[slot])
        core.attempt(lambda: func(self.get(slot)))
        got = snap(self.get(slot))
        events = self.log[mark:]
        self.ctx.check(got == want or events, lambda: 'local %s changed '
                       '%s to %s without notification' % (label, want, got))
        if got != want:
            self.model[slot] = copy_of(self.get(slot))

    def operate(self, slot, label, func):
        """A non-mutating operator: same result, no effect, result detached."""
        if self.model[slot] is None:
            return
        what = '%s %s' % (slot, label)
        before = copy_of(self.model[slot])
        want = core.attempt(func, before)
        mark = len(self.log)
        got = core.attempt(func, self.get(slot))
        if want[0] != 'ok':
            core.expect(self.ctx, got, type(want[1]), what)
        else:
            core.expect_ok(self.ctx, got, what)
            self.ctx.check(got[1] == want[1] and isinstance(
                got[1], core_type(want[1])), lambda: '%s gives %s, the builtin '
                'gives %s' % (what, core.show(got[1]), core.show(want[1])))
            self.poke(got[1])
        self.ctx.check(len(self.log) == mark, lambda: what + ' (or changing '
                       'its result) notified')

    def poke(self, box):
        if isinstance(box, dict):
            box['poked'] = 'poked'
        elif isinstance(box, set):
            box.add('poked')
        else:
            box.append('poked')

    def stale_op(self, label, func):
        """A replaced container is ordinary: same results, no notification."""
        if self.stale is None:
            return
        handle, model = self.stale
        what = 'stale handle %s' % label
        mark = len(self.log)
        after = copy_of(model)
        want = core.attempt(func, after)
        got = core.attempt(func, handle)
        if want[0] == 'ok':
            core.expect_ok(self.ctx, got, what)
            self.ctx.check(got[1] == want[1], lambda: '%s returned %s, the '
                           'builtin returns %s' % (what, core.show(got[1]),
                                                   core.show(want[1])))
        else:
            core.expect(self.ctx, got, type(want[1]), what)
        self.ctx.check(snap(handle) == snap(after), lambda: '%s gives %s, '
                       'expected %s' % (what, core.show(handle),
                                        core.show(after)))
        self.ctx.check(len(self.log) == mark, lambda: what + ' notified')
        self.stale = (handle, after)

    def assign(self, slot, label, value):
        """Whole-value assignment; `value()` gives the input."""
        given = value(self)
        if given is None:
            return
        plain = copy_of(given) if not isinstance(given, str) else None
        if plain is None:
            mark = len(self.log)
            out = core.attempt(self.put, slot, given)
            core.expect(self.ctx, out, ValueError, label)
            self.ctx.check(len(self.log) == mark, lambda: label + ' notified')
            return
        self.transition(slot, label, lambda: self.put(slot, given), plain)

    def delete(self, slot):
        if self.model[slot] is None:
            return
        who, attr = slot.split('.')
        self.transition(slot, 'del ' + slot,
                        lambda: delattr(self.inst[who], attr), None)

    def ops(self):
        out = []
        muts = mutators(self.kind)
        if self.small:
            muts = muts[::3]
        for label, func in muts:
            out.append(('a.x.' + label, lambda s, lab=label, f=func:
                        s.mutate('a.x', lab, f)))
        for label, func in inplace(self.kind):
            if not self.small or label in ('+= [2]', '|= {2}', "|= {'c': 2}"):
                out.append(('a.x ' + label, lambda s, lab=label, f=func:
                            s.augment('a.x', lab, f)))
        for label, func in inplace(self.kind)[:1]:
            out.append(('h ' + label, lambda s, lab=label, f=func:
                        s.augment_local('a.x', lab, f)))
        opers = operators(self.kind)
        for label, func in opers if not self.small else opers[:1]:
            out.append((label, lambda s, lab=label, f=func:
                        s.operate('a.x', lab, f)))
        for label, func in muts[:1] + muts[-1:]:
            out.append(('stale ' + label, lambda s, lab=label, f=func:
                        s.stale_op(lab, f)))
            out.append(('a.y.' + label, lambda s, lab=label, f=func:
                        s.mutate('a.y', lab, f)))
            out.append(('b.x.' + label, lambda s, lab=label, f=func:
                        s.mutate('b.x', lab, f)))
        out.append(('a.x=start', lambda s: s.assign(
            'a.x', 'a.x = start', lambda s: start(s.kind))))
        out.append(("a.x='x'", lambda s: s.assign(
            'a.x', "a.x = 'x'", lambda s: 'x')))
        out.append(('a.y=a.x', lambda s: s.assign(
            'a.y', 'a.y = a.x', lambda s: s.get('a.x'))))
        out.append(('b.x=a.x', lambda s: s.assign(
            'b.x', 'b.x = a.x', lambda s: s.get('a.x'))))
        out.append(('a.x=a.y', lambda s: s.assign(
            'a.x', 'a.x = a.y', lambda s: s.get('a.y'))))
        out.append(('a.x=a.x', lambda s: s.assign(
            'a.x', 'a.x = a.x', lambda s: s.get('a.x'))))
        out.append(('del a.x', lambda s: s.delete('a.x')))
        return out

    def check(self):
        for slot, want in self.model.items():
            got = self.get(slot)
            if want is None:
                self.ctx.check(got is None, lambda: '%s is %s, expected '
                               'nothing' % (slot, core.show(got)))
                continue
            self.ctx.check(
                snap(got) == snap(want) and got == want and
                isinstance(got, type(want)) and len(got) == len(want),
                lambda: '%s is %s, expected %s' % (slot, core.show(got),
                                                   core.show(want)))

    def key(self):
        return (self.kind, self.veto, tuple(
            (s, snap(v)) for s, v in sorted(self.model.items())),
            None if self.stale is None else snap(self.stale[1]))


def core_type(val):
    for typ in (list, set, dict):
        if isinstance(val, typ):
            return typ
    return object


def copy_of(val):
    if isinstance(val, collections.OrderedDict):
        return collections.OrderedDict(val)
    if isinstance(val, dict):
        return dict(val)
    if isinstance(val, MyList):
        return MyList(val)
    return core_type(val)(val)


def system(kind_, veto_, small_=False):
    class Bound(Observed):
        kind = kind_
        veto = veto_
        small = small_
    return Bound


def twins(ctx):
    """Each stored container keeps its own class, whatever it is called."""
    def one(base, names, seq, nested):
        kinds = [base]
        for num, name in enumerate(names):
            kinds.append(type(name, (base if num != 1 or not nested
                                     else kinds[-1],),
                              {'own': lambda self, num=num: num}))
        prop = {list: P.List, set: P.Set, dict: P.Dictionary}[base]
        log = []

        def heard(self, change):
            log.append((change['name'], change['value']))
        Owner = type('Owner', (P.HasProperties,), {
            'x': prop('', observe_mutations=True),
            'y': prop('', observe_mutations=True),
            'z': prop(''),
            'heard': P.observer(P.everything)(heard)})
        obj = Owner()
        content = {list: [1], set: {1}, dict: {'a': 1}}[base]
        for num, (name, pick) in enumerate(seq):
            kind = kinds[pick]
            given = kind(content)
            del log[:]
            setattr(obj, name, given)
            got = getattr(obj, name)
            ctx.step(2)
            ctx.check(isinstance(got, kind), lambda: '%s of %s became %s' % (
                kind, base.__name__, type(got).__mro__))
            ctx.check(not any(isinstance(got, other) for other in kinds
                              if not issubclass(kind, other)),
                      lambda: 'a %s became another: %s' % (
                          kind.__name__, type(got).__mro__))
            if pick:
                ctx.same(got.own(), pick - 1, 'own method')
            ctx.same(len(log), 1, 'notifications of setting')
            {list: lambda: got.append(2), set: lambda: got.add(2),
             dict: lambda: got.update(b=2)}[base]()
            ctx.same(len(log), 1 if name == 'z' else 2,
                     'notifications of a mutation')
            now = getattr(obj, name)
            ctx.check(isinstance(now, kind) and len(now) == 2,
                      'class after a mutation: %s' % (type(now).__mro__,))
            if pick:
                ctx.same(now.own(), pick - 1, 'own method')
            ctx.check(len(given) == (2 if name == 'z' and got is given
                                     else 1), 'the given container changed')
            for other in 'xyz':
                if getattr(obj, other) is not None and other != name:
                    ctx.check(getattr(obj, other) is not now, 'shared')
    for base in (list, set, dict):
        for names in (('Kind', 'Kind'), ('Kind', 'Other'),
                      (base.__name__, base.__name__),
                      ('Observable' + base.__name__, 'Kind')):
            for nested in (False, True):
                for seq in itertools.product(
                        itertools.product('xyz', range(3)), repeat=2):
                    key = (base.__name__, names, nested, seq)
                    ctx.state(key)
                    if not core.case(ctx, key, one, base, names, seq, nested):
                        return


def scenarios(tier):
    yield ('many', lambda ctx: sizes.counted(ctx, sizes.observed))
    quick = tier != 'thorough'
    for kind in ('list', 'set', 'dict', 'odict', 'mylist'):
        for veto in (False, True):
            name = kind + (' with veto' if veto else '')
            if kind == 'mylist' and veto and quick:
                continue
            yield name, lambda ctx, k=kind, v=veto: core.explore(
                ctx, system(k, v), 2 if quick else 3)
    yield 'classes of the same name', twins
    for kind in ('list', 'set', 'dict', 'odict'):
        yield kind + ' small alphabet', lambda ctx, k=kind: core.explore(
            ctx, system(k, True, True), 3 if quick else 4)
        yield kind + ' closure', lambda ctx, k=kind: core.explore(
            ctx, system(k, True, True), 0, extend=4 if quick else 30,
            max_states=300 if quick else 4000)
