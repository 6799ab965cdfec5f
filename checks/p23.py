"""P23: construction by keywords against assignment one by one."""
import itertools

import properties as P

from mc import core, names, sizes

PROPERTY = 'P23'
BOUNDS = ('every set of keywords over 12 names (primitive with default, '
          'coerced, vetoed or replaced, container, nested instance, renamed, '
          'immutable, dynamic with and without setter, plain attribute, '
          'unknown), each with 1 to 6 values; every order of up to 3 (quick) / '
          '4 (thorough) keywords; with listeners on and off; for a class, a '
          'subclass with its own initializer, and a nested instance')
ASSUMPTIONS = ['keyword order is the order of assignment',
               'errors other than value, key, type and attribute errors pass '
               'through at once']

LOG = []
HOOKS = []
OK, BAD, NOW, LATER = 'ok', 'bad', 'now', 'later'


class Inner(P.HasProperties):
    num = P.Integer('', max=9)
    txt = P.String('', required=False)

    def _error_hook(self, error_tuples):
        HOOKS.append((self, list(error_tuples)))


class Thing(P.HasProperties):
    num = P.Integer('', max=9, default=3)
    txt = P.String('', required=False, change_case='upper')
    odd = P.Integer('', required=False)
    twice = P.Integer('', max=12, required=False)
    lst = P.List('', P.Integer(''), required=False)
    inner = P.Instance('', Inner, required=False)
    fixed = P.GettableProperty('', default=5)
    old = P.Renamed('num', warn=False)
    note = 'class'

    def _error_hook(self, error_tuples):
        HOOKS.append((self, list(error_tuples)))

    @P.Integer('')
    def dyn(self):
        return 7

    @P.Integer('')
    def dynset(self):
        return self.odd

    @dynset.setter
    def dynset(self, value):
        self.odd = value

    @P.validator('odd')
    def _judge(self, change):
        value = change['value']
        if value == 13:
            raise P.ValidationError('thirteen', 'invalid', 'odd', self)
        if value == 15:
            change['value'] = 16
        if value == 17:
            raise KeyError('seventeen')
        if value == 19:
            raise RuntimeError('nineteen')

    @P.observer('num')
    def _double(self, change):
        if change['value'] is not P.undefined:
            self.twice = 2 * change['value']

    @P.validator(P.everything)
    def _log0(self, change):
        LOG.append((change['mode'], change['name'], change['previous'],
                    change['value']))

    @P.observer(P.everything)
    def _log1(self, change):
        LOG.append((change['mode'], change['name'], change['previous'],
                    change['value']))

    @P.observer(P.everything, change_only=True)
    def _log2(self, change):
        LOG.append((change['mode'], change['name'], change['previous'],
                    change['value']))


class Sub(Thing):
    extra = P.Integer('', default=1, required=False)

    def __init__(self, arg=2, **kwargs):
        super(Sub, self).__init__(**kwargs)
        self.extra = arg


NAMES = ('num', 'txt', 'odd', 'twice', 'lst', 'inner', 'fixed', 'old', 'dyn',
         'dynset', 'note', 'zip')

# name -> list of (make value, verdict, detail); detail is the stored value,
# the property named by the error, or the kind of error
OPTIONS = {
    'num': [(4, OK, 4), (5.0, OK, 5), ('x', BAD, 'num'), (10, BAD, 'num'),
            (P.undefined, OK, None), (8, BAD, 'twice')],
    'txt': [('ab', OK, 'AB'), (5, BAD, 'txt')],
    'odd': [(1, OK, 1), (13, BAD, 'odd'), (15, OK, 16), (17, LATER, KeyError),
            (19, NOW, RuntimeError)],
    'twice': [(2, OK, 2)],
    'lst': [([1, 2.0], OK, [1, 2]), ([1, 'x'], BAD, 'lst')],
    'inner': [({'num': 1}, OK, None), ({'num': 'x', 'txt': 5}, BAD, 'inner'),
              ({'nope': 1}, BAD, 'inner')],
    'fixed': [(1, LATER, AttributeError)],
    'old': [(6, OK, 6), ('y', BAD, 'num')],
    'dyn': [(1, NOW, AttributeError)],
    'dynset': [(1, NOW, AttributeError)],
    'note': [('mine', OK, 'mine')],
    'zip': [(1, NOW, AttributeError)],
}


def copy_of(value):
    if isinstance(value, list):
        return list(value)
    if isinstance(value, dict):
        return dict(value)
    return value


def state(obj):
    return tuple((name, core.canon(getattr(obj, name)))
                 for name in list(obj._props) + ['note'])


def show_log(log):
    return core.canon([list(entry) for entry in log])


def verdict(items):
    """(kind, error types or list of bad properties) expected of items."""
    bad, first = [], None
    for name, option in items:
        _, what, detail = OPTIONS[name][option]
        if what == NOW:
            return NOW, detail
        if what == BAD:
            bad.append(detail)
        elif what == LATER and first is None:
            first = detail
    if bad:
        return BAD, bad
    if first:
        return LATER, first
    return OK, None


def one(ctx, cls, items, fresh):
    """Construct with the items and compare with assigning them."""
    kwargs = {name: copy_of(OPTIONS[name][opt][0]) for name, opt in items}
    given = {name: copy_of(value) for name, value in kwargs.items()}
    label = '%s(%s)' % (cls.__name__, ', '.join(
        '%s=%s' % (n, core.show(v)) for n, v in kwargs.items()))
    ctx.trace = [label]
    kind, detail = verdict(items)
    del LOG[:], HOOKS[:]
    out = core.attempt(lambda: cls(**kwargs))
    ctx.step()
    log, hooks = LOG[:], HOOKS[:]
    ctx.check(core.canon(kwargs) == core.canon(given), lambda: '%s changed '
              'its arguments to %s' % (label, core.show(kwargs)))
    mine = [entry for entry in hooks if isinstance(entry[0], Thing)]
    if kind != OK:
        want = P.ValidationError if kind == BAD else detail
        err = core.expect(ctx, out, want, label)
        if kind != BAD:
            ctx.check(not isinstance(err, P.ValidationError),
                      label + ': kind of error')
            ctx.check(not mine, lambda: '%s called the error hook with %s' % (
                label, mine))
            if kind == NOW and detail is AttributeError:
                bad = next(n for n, o in items if OPTIONS[n][o][1] == NOW)
                ctx.check("'%s'" % bad in str(err), lambda: '%s: the error '
                          'does not name %s: %s' % (label, bad, err))
        else:
            tuples = list(err.error_tuples)
            got = [tup.prop for tup in tuples]
            ctx.check(got == detail, lambda: '%s: the error lists %s, expected '
                      '%s' % (label, got, detail))
            ctx.check(all(tup.message in str(err) for tup in tuples), lambda:
                      '%s: a message is missing in %s' % (label, err))
            ctx.check(len(mine) == 1, lambda: '%s called the error hook %d '
                      'times' % (label, len(mine)))
            ctx.check(mine[0][1] == tuples, lambda: '%s: the hook got %s, the '
                      'error has %s' % (label, mine[0][1], tuples))
            who = mine[0][0]
            ctx.check(type(who) is cls and all(
                tup.instance is who for tup in tuples),
                label + ': instance of the error')
    else:
        obj = core.expect_ok(ctx, out, label)
        ctx.check(not hooks, lambda: '%s called the error hook' % label)
    # the same by assignment
    del LOG[:], HOOKS[:]
    twin = fresh()
    del LOG[:]
    for name, option in items:
        value, what, more = OPTIONS[name][option]
        if what == NOW and more is AttributeError:
            continue
        res = core.attempt(setattr, twin, name, copy_of(value))
        ctx.step()
        if what == OK:
            core.expect_ok(ctx, res, 'setting %s=%s' % (
                name, core.show(value)))
        else:
            core.expect(ctx, res, P.ValidationError if what == BAD else more,
                        'setting %s=%s' % (name, core.show(value)))
    if kind == OK:
        wanted = LOG[:]
        if cls is Sub:      # its initializer sets it at the end
            log = [e for e in log if e[1] != 'extra']
        ctx.check(show_log(log) == show_log(wanted), lambda: '%s notified %s, '
                  'assignment notifies %s' % (label, core.show(log),
                                              core.show(wanted)))
        ctx.check(state(obj) == state(twin), lambda: '%s: state %s, by '
                  'assignment %s' % (label, core.show(state(obj)),
                                     core.show(state(twin))))
        ctx.check(obj.serialize() == twin.serialize(), label + ': serialized')
        last = {}
        for name, option in items:
            last['num' if name == 'old' else name] = OPTIONS[name][option][2]
        for name, value in last.items():
            if name in ('inner', 'twice'):
                continue
            ctx.same(getattr(obj, name), value, label + ': value of ' + name)
        if 'inner' in kwargs:
            ctx.same(obj.inner.num, 1, label + ': nested value')
        usable(ctx, obj, label)
    ctx.check(state(cls()) == fresh.state, lambda: '%s left something behind: '
              'a new instance is %s' % (label, core.show(state(cls()))))
    ctx.state((cls.__name__, tuple(items)))
    ctx.outcome((kind, tuple(sorted(detail)) if kind == BAD else str(detail)))
    ctx.traces += 1


def usable(ctx, obj, label):
    """A new instance handles errors and validation as any other."""
    del HOOKS[:]
    out = core.attempt(setattr, obj, 'txt', 5)
    core.expect(ctx, out, P.ValidationError, label + ': later assignment')
    ctx.check(len(HOOKS) == 1 and HOOKS[0][0] is obj, label + ': hook of a '
              'later assignment')
    out = core.attempt(obj.validate)
    if obj.num is None:
        core.expect(ctx, out, P.ValidationError, label + ': validate')
    else:
        core.expect_ok(ctx, out, label + ': validate')


class Fresh(object):
    """Empty instances, and how they look."""

    def __init__(self, cls):
        self.cls = cls
        self.state = state(cls())

    def __call__(self):
        return self.cls()


def subsets(cls, part, parts):
    """Every set of keywords in declaration order, with every value."""
    def run(ctx):
        fresh = Fresh(cls)
        spans = [range(-1, len(OPTIONS[name])) for name in NAMES]
        if ctx.quick:
            drop = {'num': (1, 4), 'odd': (2,), 'inner': (2,)}
            if cls is Sub:
                drop = {'num': (1, 2, 4, 5), 'odd': (0, 2, 4), 'inner': (1, 2),
                        'lst': (0, 1), 'twice': (0,), 'dyn': (0,)}
            spans = [[o for o in span if o not in drop.get(name, ())]
                     for name, span in zip(NAMES, spans)]
        for count, choice in enumerate(itertools.product(*spans)):
            if count % parts != part:
                continue
            items = [(n, o) for n, o in zip(NAMES, choice) if o >= 0]
            if ctx.quick and sum(n in ('dyn', 'dynset', 'zip')
                                 for n, _ in items) > 1:
                continue
            core.guarded(ctx, lambda: one(ctx, cls, items, fresh))
            if ctx.full():
                return
        ctx.sample('all %d keyword sets' % (count + 1))
    return run


def orders(cls, size, part, parts):
    def run(ctx):
        fresh = Fresh(cls)
        pairs = [(n, o) for n in NAMES for o in range(len(OPTIONS[n]))]
        count = 0
        for items in itertools.permutations(pairs, size):
            if len(set(n for n, _ in items)) < size:
                continue
            count += 1
            if count % parts != part:
                continue
            core.guarded(ctx, lambda: one(ctx, cls, list(items), fresh))
            if ctx.full():
                return
        ctx.sample('all %d ordered choices of %d keywords' % (count, size))
    return run


def silent(ctx):
    """With listeners disabled only type validation is left."""
    names = ('num', 'txt', 'odd', 'lst', 'old')
    for choice in itertools.product(*[range(-1, len(OPTIONS[n]))
                                      for n in names]):
        items = [(n, o) for n, o in zip(names, choice) if o >= 0]
        kwargs = {n: copy_of(OPTIONS[n][o][0]) for n, o in items}
        label = 'disabled: Thing(%s)' % core.show(kwargs)

        def go():
            bad = [OPTIONS[n][o][2] for n, o in items if OPTIONS[n][o][1] ==
                   BAD and OPTIONS[n][o][2] != 'twice' and n != 'odd']
            del LOG[:], HOOKS[:]
            with P.listeners_disabled():
                out = core.attempt(lambda: Thing(**kwargs))
            ctx.step()
            ctx.check(not LOG, label + ' notified')
            if bad:
                err = core.expect(ctx, out, P.ValidationError, label)
                got = [tup.prop for tup in err.error_tuples]
                ctx.check(got == bad, lambda: '%s: errors of %s, expected %s' %
                          (label, got, bad))
                ctx.check(len(HOOKS) == 1, label + ': hook')
            else:
                obj = core.expect_ok(ctx, out, label)
                ctx.check(obj.twice is None, label + ': an observer ran')
                if 'odd' in kwargs:
                    ctx.same(obj.odd, kwargs['odd'], label)
                Thing(num=2)
                ctx.check(bool(LOG), 'listeners are back')
            ctx.state(tuple(items))
        core.case(ctx, label, go)
        if ctx.full():
            return


def nested(ctx):
    """Dictionaries for instances build them with the same rules."""
    class Outer(P.HasProperties):
        one = P.Instance('', Thing, required=False)
        many = P.List('', P.Instance('', Thing), required=False)
        either = P.Union('', [P.Integer(''), Thing], required=False)

    single = [(n, o) for n in NAMES for o in range(len(OPTIONS[n]))]
    for items in [()] + [(s,) for s in single] + list(
            itertools.permutations(single, 2)):
        if len(set(n for n, _ in items)) < len(items):
            continue
        kind, detail = verdict(items)
        fresh = lambda: {n: copy_of(OPTIONS[n][o][0]) for n, o in items}
        label = 'nested %s' % core.show(fresh())

        def go():
            want = state(Thing(**fresh())) if kind == OK else None
            for name, wrap, pick in (
                    ('one', lambda v: v, lambda v: v),
                    ('many', lambda v: [{}, v], lambda v: v[1]),
                    ('either', lambda v: v, lambda v: v)):
                for build in (False, True):
                    outer = Outer()
                    value = wrap(fresh())
                    if build:
                        out = core.attempt(lambda: Outer(**{name: value}))
                    else:
                        out = core.attempt(setattr, outer, name, value)
                    ctx.step()
                    what = '%s as %s%s' % (label, name,
                                           ', keyword' if build else '')
                    if kind == OK:
                        res = core.expect_ok(ctx, out, what)
                        got = pick(getattr(res if build else outer, name))
                        ctx.check(type(got) is Thing, what + ': class')
                        ctx.check(state(got) == want, what + ': state')
                    elif kind == NOW and detail is RuntimeError:
                        core.expect(ctx, out, RuntimeError, what)
                    else:
                        err = core.expect(ctx, out, P.ValidationError, what)
                        ctx.check(name in [t.prop for t in err.error_tuples],
                                  what + ': the error does not name the '
                                  'property')
                        ctx.check(getattr(outer, name) is None,
                                  what + ': stored something')
            ctx.state(items)
        core.case(ctx, label, go)
        if ctx.full():
            return


def edges(ctx):
    """Arguments that are no keywords, empty classes, own attributes."""
    class Empty(P.HasProperties):
        pass

    class Slotted(P.HasProperties):
        num = P.Integer('')

        @property
        def alias(self):
            return self.num

        @alias.setter
        def alias(self, value):
            self.num = value

        @property
        def readonly(self):
            return 1

    def positional():
        for cls, args in ((Empty, (1,)), (Slotted, (1,)), (Slotted, ({},)),
                          (Thing, (None, 2))):
            core.expect(ctx, core.attempt(cls, *args), TypeError,
                        '%s%r' % (cls.__name__, args))

    def attributes():
        ctx.same(Slotted(alias=4).num, 4, 'settable attribute')
        err = core.expect(ctx, core.attempt(lambda: Slotted(alias='x')),
                          P.ValidationError, 'invalid by attribute')
        ctx.same([t.prop for t in err.error_tuples], ['num'], 'culprit')
        core.expect(ctx, core.attempt(lambda: Slotted(readonly=4)),
                    AttributeError, 'attribute without setter')
        core.expect(ctx, core.attempt(lambda: Slotted(num=1, readonly=4)),
                    AttributeError, 'attribute without setter')
        core.expect(ctx, core.attempt(lambda: Slotted(num='x', readonly=4)),
                    P.ValidationError, 'both')
        core.expect(ctx, core.attempt(lambda: Empty(num=1)), AttributeError,
                    'unknown name')

    def early():
        """Attributes that exist on the instance only, or in a slot."""
        class Early(P.HasProperties):
            num = P.Integer('', required=False)

            def __init__(self, **kwargs):
                self.note = 'unset'
                self._hidden = 0
                super().__init__(**kwargs)

        class Lower(Early):
            pass
        for cls in (Early, Lower):
            for names in itertools.chain.from_iterable(
                    itertools.permutations(('num', 'note', '_hidden'), size)
                    for size in range(4)):
                kwargs = {n: i + 1 for i, n in enumerate(names)}
                obj = core.expect_ok(ctx, core.attempt(cls, **kwargs),
                                     'keywords %s' % (names,))
                want = dict({'num': None, 'note': 'unset', '_hidden': 0},
                            **kwargs)
                got = {n: getattr(obj, n) for n in want}
                ctx.same(got, want, 'keywords %s' % (names,))
                core.expect(ctx, core.attempt(lambda: cls(
                    unknown=1, **kwargs)), AttributeError, 'unknown name')
                ctx.step(2)

    def caught():
        """A class that handles the failure of its own construction."""
        seen = []

        class Careful(P.HasProperties):
            num = P.Integer('')
            txt = P.String('')

            def _error_hook(self, error_tuples):
                seen.append(len(error_tuples))

            def __init__(self, **kwargs):
                try:
                    super(Careful, self).__init__(**kwargs)
                except P.ValidationError as err:
                    self.problem = err
        for kwargs, count in (({'num': 'x'}, 1), ({'num': 'x', 'txt': 1}, 2),
                              ({'txt': 'a', 'num': 'x'}, 1)):
            del seen[:]
            obj = Careful(**kwargs)
            ctx.same(len(obj.problem.error_tuples), count, 'errors')
            ctx.same(seen, [count], 'hook calls')
            core.expect(ctx, core.attempt(setattr, obj, 'num', 'y'),
                        P.ValidationError, 'later assignment')
            ctx.same(seen, [count, 1], 'hook of a later assignment')
            missing = 2 - len([k for k in kwargs if kwargs[k] == 'a'])
            err = core.expect(ctx, core.attempt(obj.validate),
                              P.ValidationError, 'validate')
            ctx.same(len(err.error_tuples), missing, 'missing values')
            obj.num, obj.txt = 1, 'b'
            core.expect_ok(ctx, core.attempt(obj.validate), 'validate')
            ctx.step(5)

    def raising_hook():
        class Own(Exception):
            pass

        class Strict(P.HasProperties):
            num = P.Integer('')
            txt = P.String('')

            def _error_hook(self, error_tuples):
                raise Own(len(error_tuples))
        for kwargs, count in (({'num': 'x'}, 1), ({'num': 'x', 'txt': 1}, 2)):
            err = core.expect(ctx, core.attempt(lambda: Strict(**kwargs)), Own,
                              'error of the hook')
            ctx.same(err.args, (count,), 'records')
        obj = Strict(num=1)
        core.expect(ctx, core.attempt(setattr, obj, 'num', 'x'), Own, 'hook')
        core.expect(ctx, core.attempt(obj.validate), Own, 'hook')
        obj.txt = 'a'
        core.expect_ok(ctx, core.attempt(obj.validate), 'validate')
        ctx.same(obj.num, 1, 'value')
        ctx.step(5)

    def makers():
        """Classes with their own __new__: same arguments as __init__."""
        seen = []

        class Made(P.HasProperties):
            num = P.Integer('', required=False)
            txt = P.String('', required=False)

            def __new__(cls, *args, **kwargs):
                seen.append((cls, args, dict(kwargs)))
                return super(Made, cls).__new__(cls)

        class Extra(Made):
            def __init__(self, first=None, second=None, **kwargs):
                super(Extra, self).__init__(**kwargs)
                self.args = (first, second)

        class Strict(P.HasProperties):
            num = P.Integer('', required=False)

            def __new__(cls, num=None, factor=1):
                obj = super(Strict, cls).__new__(cls)
                cls.last = (num, factor)
                return obj

            def __init__(self, num=None, factor=1):
                super(Strict, self).__init__()
                if num is not None:
                    self.num = num * factor
        for cls in (Made, Extra):
            for names in itertools.chain.from_iterable(
                    itertools.combinations(('num', 'txt'), size)
                    for size in range(3)):
                for args in ((), (1,), (1, 2)):
                    if args and cls is Made:
                        continue
                    kwargs = {n: 3 if n == 'num' else 'a' for n in names}
                    del seen[:]
                    obj = core.expect_ok(ctx, core.attempt(
                        cls, *args, **kwargs), 'instance')
                    ctx.same(seen, [(cls, args, kwargs)], 'arguments of new')
                    ctx.same((obj.num, obj.txt), (kwargs.get('num'),
                                                  kwargs.get('txt')), 'values')
                    if cls is Extra:
                        ctx.same(obj.args, (args + (None, None))[:2],
                                 'arguments')
                    ctx.step()
                    ctx.state((cls.__name__, names, args))
        for args, kwargs in (((), {}), ((2,), {}), ((), {'num': 2}),
                             ((2, 3), {}), ((2,), {'factor': 3}),
                             ((), {'num': 2, 'factor': 3})):
            num = kwargs.get('num', args[0] if args else None)
            factor = kwargs.get('factor', args[1] if len(args) > 1 else 1)
            obj = core.expect_ok(ctx, core.attempt(Strict, *args, **kwargs),
                                 'instance')
            ctx.same(Strict.last, (num, factor), 'arguments of new')
            ctx.same(obj.num, num and num * factor, 'value')
            ctx.step()
        core.expect(ctx, core.attempt(lambda: Strict(other=1)), TypeError,
                    'unknown argument')

    for func in (positional, attributes, early, caught, raising_hook, makers):
        core.case(ctx, func.__name__, func)


def scenarios(tier):
    yield ('names', lambda ctx: names.named(ctx, names.keyword, True))
    yield ('many', lambda ctx: sizes.counted(ctx, sizes.keywords))
    quick = tier == 'quick'
    parts = 6 if quick else 16
    for part in range(parts):
        yield ('keyword sets %d' % part, subsets(Thing, part, parts))
    for part in range(1 if quick else 8):
        yield ('keyword sets of a subclass %d' % part,
               subsets(Sub, part, 1 if quick else 8))
    for size in (1, 2, 3) if quick else (1, 2, 3, 4):
        count = {3: 3, 4: 16}.get(size, 1)
        for part in range(count):
            yield ('orders of %d, %d' % (size, part),
                   orders(Thing, size, part, count))
    yield ('orders of 2, subclass', orders(Sub, 2, 0, 1))
    yield ('silent', silent)
    yield ('nested', nested)
    yield ('edges', edges)
