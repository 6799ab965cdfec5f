"""P06: listener-disabling scopes, against a stack model."""
import itertools

import properties as P

from mc import core

PROPERTY = 'P06'
BOUNDS = ('every well-nested program of up to 4 (quick) / 5 (thorough) actions '
          'out of: entering fresh contexts of 7 kinds, entering 3 reused '
          'context objects (programs of 5 / 7 actions that only enter 4 reused '
          'objects and leave), leaving normally, leaving by exception, '
          'constructing, deserializing and failing to construct instances; all '
          'three listener kinds are probed on two instances after every action; '
          'all kinds in containers changed, and kinds assigned, at 3 moments')
ASSUMPTIONS = ['contexts are left in the reverse order of entering, as the with '
               'statement guarantees', 'single thread (P33 has threads)']

ALL = frozenset(['validate', 'observe_set', 'observe_change'])
FRESH = [
    ('listeners_disabled()', lambda: P.listeners_disabled(), ALL),
    ('validators_disabled()', lambda: P.validators_disabled(),
     frozenset(['validate'])),
    ('observers_disabled()', lambda: P.observers_disabled(),
     frozenset(['observe_set', 'observe_change'])),
    ("listeners_disabled('observe_set')",
     lambda: P.listeners_disabled('observe_set'), frozenset(['observe_set'])),
    ("listeners_disabled(['observe_change'])",
     lambda: P.listeners_disabled(['observe_change']),
     frozenset(['observe_change'])),
    ("listeners_disabled(('validate', 'observe_set'))",
     lambda: P.listeners_disabled(('validate', 'observe_set')),
     frozenset(['validate', 'observe_set'])),
    ('listeners_disabled(set())', lambda: P.listeners_disabled(set()),
     frozenset()),
]


class Stop(Exception):
    pass


class Exit(BaseException):
    pass


class Own(Exception):
    """An exception that is false in a condition."""

    def __bool__(self):
        return False


RAISED = [Stop, Exit, Own, StopIteration, GeneratorExit, KeyboardInterrupt,
          SystemExit, ValueError, KeyError, AttributeError, TypeError,
          AssertionError, RuntimeError, MemoryError, ArithmeticError]


def make_class(log):
    class Watched(P.HasProperties):
        p = P.Integer('p', min=0, max=9, default=0)
        sub = P.Float('q', required=False)

        @P.validator('p')
        def check_it(self, change):
            log.append('validate')

        @P.observer('p')
        def on_set(self, change):
            log.append('observe_set')

        @P.observer('p', change_only=True)
        def on_change(self, change):
            log.append('observe_change')

        @P.validator
        def class_level(self):
            log.append('class')
    return Watched


class Fussy(P.Property):
    """Raises what its values say."""

    def validate(self, instance, value):
        if isinstance(value, type) and issubclass(value, BaseException):
            raise value()
        return value


ERROR = []


def provide():
    if ERROR:
        raise ERROR[0]()
    return 1


class Fragile(P.HasProperties):
    """User code that raises while it is constructed or loaded."""
    made = P.Property('', default=provide)
    fussy = Fussy('', required=False, deserializer=lambda v, **_: v)


FAULTS = (ValueError, RuntimeError, core.Interrupt)


class Nest(core.System):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.log = []
        self.cls = make_class(self.log)
        self.inst = [self.cls(), self.cls()]
        self.inst[1].p = 3
        log2 = self.log

        def extra(self, change):
            log2.append('inst ' + change['mode'])
        P.validator(self.inst[1], 'p', extra)
        P.observer(self.inst[1], 'p', extra)
        P.observer(self.inst[1], 'p', extra, change_only=True)
        self.reused = [P.listeners_disabled(), P.validators_disabled(),
                       P.listeners_disabled('observe_change')]
        self.kinds = [ALL, frozenset(['validate']),
                      frozenset(['observe_change'])]
        self.stack = []             # (context object, suppressed before)
        self.off = frozenset()
        self.tick = 0

    def enter(self, make, kinds):
        obj = make()
        obj.__enter__()
        self.stack.append((obj, self.off))
        self.off = self.off | kinds

    def leave(self, raising):
        if not self.stack:
            return
        obj, before = self.stack.pop()
        if raising:
            try:
                raise Stop()
            except Stop as err:
                result = obj.__exit__(Stop, err, err.__traceback__)
        else:
            result = obj.__exit__(None, None, None)
        self.ctx.check(not result, 'leaving a context swallows exceptions')
        self.off = before

    def construct(self):
        mark = len(self.log)
        made = self.cls(p=5)
        want = [k for k in ('validate', 'observe_change', 'observe_set')
                if k not in self.off]
        self.ctx.check(self.log[mark:] == want, lambda: 'construction with a '
                       'keyword fired %s, expected %s' % (self.log[mark:],
                                                          want))
        self.ctx.check(made.p == 5, 'constructed value')

    def fail(self):
        out = core.attempt(self.cls, p='bad')
        core.expect(self.ctx, out, ValueError, 'construction with bad value')
        # the probes of `check` tell whether anything stays disabled
        live = Fragile()
        for fault in FAULTS:
            try:
                ERROR[:] = [fault]
                out = core.attempt(Fragile)
                core.expect(self.ctx, out, fault, 'failing default')
                out = core.attempt(Fragile.deserialize, {})
                core.expect(self.ctx, out, fault, 'failing default')
            finally:
                ERROR[:] = []
            self.probe('a default raised %s' % fault.__name__)
            out = core.attempt(Fragile.deserialize, {'fussy': fault})
            core.expect(self.ctx, out, fault, 'failing load')
            out = core.attempt(Fragile.deserialize, {'fussy': fault},
                               _instance=live)
            core.expect(self.ctx, out, fault, 'failing load')
            self.probe('loading raised %s' % fault.__name__)

    def probe(self, when):
        mark = len(self.log)
        inst = self.inst[0]
        inst.p = (inst.p + 1) % 10
        want = [k for k in ('validate', 'observe_change', 'observe_set')
                if k not in self.off]
        self.ctx.check(self.log[mark:] == want, lambda: 'after %s a change '
                       'fired %s, expected %s' % (when, self.log[mark:], want))

    def load(self, good):
        mark = len(self.log)
        data = {'p': 6 if good else 'bad'}
        out = core.attempt(self.cls.deserialize, data)
        if good:
            core.expect_ok(self.ctx, out, 'deserialize')
            self.ctx.check(out[1].p == 6, 'deserialized value')
        else:
            core.expect(self.ctx, out, ValueError, 'deserialize bad value')
        self.ctx.check(self.log[mark:] == [], lambda: 'deserializing fired %s'
                       % self.log[mark:])

    def validate(self):
        """Class validation still runs; property validators obey the scope."""
        mark = len(self.log)
        self.ctx.check(self.inst[0].validate() is True, 'validate() result')
        got = sorted(self.log[mark:])
        want = sorted(['class'] + (
            [] if 'validate' in self.off else ['validate']))
        self.ctx.check(got == want, lambda: 'validate() fired %s, expected %s'
                       % (got, want))

    def ops(self):
        out = [(label, lambda s, m=make, k=kinds: s.enter(m, k))
               for label, make, kinds in FRESH]
        for i in range(3):
            out.append(('reused context %d' % i, lambda s, i=i: s.enter(
                lambda: s.reused[i], s.kinds[i])))
        out += [('leave', lambda s: s.leave(False)),
                ('leave by exception', lambda s: s.leave(True)),
                ('construct', lambda s: s.construct()),
                ('construct badly', lambda s: s.fail()),
                ('deserialize', lambda s: s.load(True)),
                ('deserialize badly', lambda s: s.load(False)),
                ('validate', lambda s: s.validate())]
        return out

    def check(self):
        ctx = self.ctx
        order = ['validate', 'observe_change', 'observe_set']
        for i, inst in enumerate(self.inst):
            mark = len(self.log)
            new = (inst.p + 1) % 10
            inst.p = new
            want = []
            for kind in order:
                if kind in self.off:
                    continue
                want.append(kind)
                if i == 1:
                    want.append('inst ' + kind)
            ctx.check(self.log[mark:] == want, lambda: 'a change with %s '
                      'disabled fired %s, expected %s' % (
                          sorted(self.off), self.log[mark:], want))
            ctx.check(inst.p == new, 'the value was not stored')
            mark = len(self.log)
            inst.p = float(new)
            want = [w for w in want if 'observe_change' not in w]
            ctx.check(self.log[mark:] == want, lambda: 'setting an equal value '
                      'with %s disabled fired %s, expected %s' % (
                          sorted(self.off), self.log[mark:], want))
            mark = len(self.log)
            core.expect(ctx, core.attempt(setattr, inst, 'p', 'bad'),
                        ValueError, 'invalid value inside a context')
            ctx.check(inst.p == new and not self.log[mark:],
                      'an invalid value had an effect')
        ctx.outcome(tuple(sorted(self.off)))

    def key(self):
        return (tuple(sorted(self.off)), tuple(
            (self.reused.index(o) if o in self.reused else 'fresh',
             tuple(sorted(b))) for o, b in self.stack))

    def close(self):
        """Unwind; afterwards everything must be live again."""
        import sys
        failing = sys.exc_info()[0] is not None
        while self.stack:
            self.leave(len(self.stack) % 2)
            if not failing:
                self.check()
        if failing:
            live = getattr(P.listeners_disabled, '_quarantine', None)
            if isinstance(live, set):
                P.listeners_disabled._quarantine = set()
            elif hasattr(live, 'types'):
                live.types = frozenset()


class Reuse(Nest):
    """A few context objects that are used again and again."""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.reused = [P.validators_disabled(), P.observers_disabled(),
                       P.listeners_disabled(['observe_set', 'validate']),
                       P.listeners_disabled()]
        self.kinds = [frozenset(['validate']),
                      frozenset(['observe_set', 'observe_change']),
                      frozenset(['observe_set', 'validate']), ALL]

    def ops(self):
        out = [('reused context %d' % i, lambda s, i=i: s.enter(
            lambda: s.reused[i], s.kinds[i])) for i in range(4)]
        return out + [('leave', lambda s: s.leave(False))]


def sequences(ctx, depth, first=None, cls=Nest):
    """All sequences whose first action has the given index."""
    probe = cls(ctx)
    count = len(probe.ops())
    for rest in itertools.product(range(count), repeat=depth - 1):
        core.guarded(ctx, lambda: core.run_sequence(
            ctx, cls, (first,) + rest))
        if ctx.full():
            return
    ctx.sample('all programs of %d actions starting with %s' % (
        depth, probe.ops()[first][0]))


def with_statement(ctx):
    """The same through real with statements and real exceptions."""
    kinds = FRESH[:5]

    def nest(system, chain, pos, raise_at, catch_at):
        if pos == len(chain):
            return
        label, make, off = chain[pos]
        before = system.off
        try:
            with make():
                system.off = before | off
                system.check()
                nest(system, chain, pos + 1, raise_at, catch_at)
                system.check()
                if raise_at == pos:
                    raise Stop()
        except Stop:
            system.off = before
            system.check()
            if catch_at != pos:
                raise
        finally:
            system.off = before
            system.check()

    for size in (1, 2, 3):
        for chain in itertools.product(kinds, repeat=size):
            for raise_at in list(range(size)) + [None]:
                for catch_at in range(size):
                    def one():
                        system = Nest(ctx)
                        try:
                            nest(system, chain, 0, raise_at, catch_at)
                        except Stop:
                            pass
                        system.off = frozenset()
                        system.check()
                        ctx.step()
                        ctx.state((size, raise_at, catch_at,
                                   tuple(c[0] for c in chain)))
                    if not core.case(ctx, [c[0] for c in chain], one):
                        return


def exceptions(ctx):
    """Every kind of exception comes out as it went in."""
    for depth in (1, 2):
        for chain in itertools.product(FRESH, repeat=depth):
            for kind in RAISED:
                def one():
                    system = Nest(ctx)
                    want = kind('x')
                    got = None
                    try:
                        with chain[0][1]():
                            if depth == 2:
                                with chain[1][1]():
                                    raise want
                            raise want
                    except BaseException as err:    # pylint: disable=W0718
                        got = err
                    ctx.check(got is want, lambda: 'leaving by %s gave %r' % (
                        kind.__name__, got))
                    system.check()
                    ctx.step()
                    ctx.state((kind.__name__, tuple(c[0] for c in chain)))
                if not core.case(ctx, (kind.__name__,
                                       [c[0] for c in chain]), one):
                    return
    # a return and a generator left in the middle
    def inside(how):
        for _ in range(2):
            with P.listeners_disabled():
                if how == 'return':
                    return 5
                if how == 'continue':
                    continue
                if how == 'break':
                    break
        return 5

    def generator():
        with P.observers_disabled():
            yield 1
            yield 2
    for how in ('return', 'continue', 'break'):
        def one():
            system = Nest(ctx)
            ctx.check(inside(how) == 5, 'result')
            system.check()
            ctx.step()
            ctx.state(how)
        core.case(ctx, how, one)

    def left():
        system = Nest(ctx)
        gen = generator()
        next(gen)
        system.off = FRESH[2][2]
        system.check()
        gen.close()
        system.off = frozenset()
        system.check()
        ctx.state('generator')
    core.case(ctx, 'generator', left)


def bad_kinds(ctx):
    def one(value):
        core.expect(ctx, core.attempt(P.listeners_disabled, value), TypeError,
                    'listeners_disabled(%r)' % (value,))
        ctx.step()
        ctx.state(repr(value))
    for value in ('nope', 5, ['validate', 'nope'], {'x'}, ('observe',),
                  {'validate': 1}, 1.5, True):
        core.case(ctx, repr(value), one, value)


def changed_kinds(ctx):
    """What the kinds were given in is changed, or they are assigned."""
    subsets = [frozenset(c) for n in range(4)
               for c in itertools.combinations(sorted(ALL), n)]

    def use(system, scope, off):
        with scope:
            system.off = off
            system.check()
        system.off = frozenset()
        system.check()

    def given(form, kinds, other, moment):
        system = Nest(ctx)
        value = form(sorted(kinds))
        scope = P.listeners_disabled(value)
        ctx.check(value == form(sorted(kinds)), 'what was given is changed')
        if moment == 'between':
            use(system, scope, kinds)
        if moment == 'inside':
            with scope:
                value.clear()
                getattr(value, 'extend', getattr(value, 'update', None))(
                    sorted(other))
                system.off = kinds
                system.check()
            system.off = frozenset()
        else:
            value.clear()
            getattr(value, 'extend', getattr(value, 'update', None))(
                sorted(other))
        use(system, scope, kinds)
        with P.listeners_disabled('validate'):
            system.off = frozenset(['validate'])
            system.check()
            with scope:
                system.off = kinds | {'validate'}
                system.check()
            system.off = frozenset(['validate'])
            system.check()
        system.off = frozenset()
        system.check()
        use(system, scope, kinds)
        ctx.check(value == form(sorted(other)), 'what was given is changed')
        ctx.step(4)
        ctx.state((form.__name__, kinds, other, moment))

    def assigned(kinds, other, moment):
        system = Nest(ctx)
        scope = P.listeners_disabled(set(kinds))
        given_kinds = other if other is None else set(other)
        if moment == 'between':
            use(system, scope, kinds)
        elif moment == 'inside':
            with scope:
                scope.disable_type = given_kinds
            system.check()
        scope.disable_type = given_kinds
        core.expect(ctx, core.attempt(setattr, scope, 'disable_type', 'nope'),
                    TypeError, 'assigning an unknown kind')
        use(system, scope, ALL if other is None else other)
        scope.disable_type = None
        use(system, scope, ALL)
        ctx.step(4)
        ctx.state((kinds, other, moment))
    for kinds, other, moment in itertools.product(
            subsets, subsets + [None], ('before', 'between', 'inside')):
        if not core.case(ctx, 'kinds %s, then %s is assigned %s' % (
                kinds, other, moment), assigned, kinds, other, moment):
            return
        for form in (list, set):
            if other is not None and not core.case(
                    ctx, 'kinds %s in a %s that gets %s %s' % (
                        kinds, form.__name__, other, moment), given, form,
                    kinds, other, moment):
                return


def scenarios(tier):
    quick = tier != 'thorough'
    names = [f[0] for f in FRESH] + ['reused 0', 'reused 1', 'reused 2',
                                     'leave', 'leave by exception', 'construct',
                                     'construct badly', 'deserialize',
                                     'deserialize badly', 'validate']
    for i, name in enumerate(names):
        yield 'programs from ' + name, lambda ctx, i=i: sequences(
            ctx, 3 if quick else 4, i)
    yield 'closure', lambda ctx: core.explore(
        ctx, Nest, 0, extend=4 if quick else 6, max_states=400 if quick
        else 3000)
    for i in range(4):
        yield 'reused contexts %d' % i, lambda ctx, i=i: sequences(
            ctx, 5 if quick else 7, i, Reuse)
    yield 'with statements', with_statement
    yield 'exceptions', exceptions
    yield 'bad kinds', bad_kinds
    yield 'changed kinds', changed_kinds
