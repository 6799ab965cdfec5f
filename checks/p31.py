"""P31: operations inside callbacks work as outside, and leave nothing."""
import itertools

import properties as P

from mc import core

PROPERTY = 'P31'
BOUNDS = ('19 operations on an instance x each of the 20 places where they '
          'call user code x 20 operations run there on the same instance or '
          'on another one of its class, at the first call or at every call '
          '(thorough: two operations in a row), including operations that '
          'fail and exceptions and interrupts that leave the callback; the '
          'inner results, the outer result against the same operation with '
          'idle callbacks, and a battery of all operations afterwards.')
ASSUMPTIONS = ['single thread', 'a linked source is not deleted inside',
               'nothing is deleted while it is being serialized']


class Env(object):
    """Fresh classes whose callbacks run the planned inner operation."""

    def __init__(self):
        self.plan = None            # (place, inner, target, every)
        self.depth = 0
        self.fired = 0
        self.places = set()
        self.results = []
        self.log = []
        self.inner_log = []
        self.main = self.other = self.third = None
        self.depth += 1
        self.build()
        self.depth -= 1

    def fire(self, place, inst):
        if self.depth:
            return
        self.places.add(place)
        if self.plan is None or self.plan[0] != place:
            return
        _, inners, target, every = self.plan
        if self.fired and not every:
            return
        self.fired += 1
        self.depth += 1
        try:
            who = inst if target == 'self' else self.other
            if who is None:
                return
            for inner in inners:
                del self.probed[:]
                self.probe.x = 1
                muted = not self.probed
                self.results.append((inner, who, muted,
                                     INNER[inner](self, who)))
        finally:
            self.depth -= 1

    def build(self):
        env = self

        class Typed(P.Property):
            class_info = 'text'

            def validate(self, instance, value):
                env.fire('type validate', instance)
                if not isinstance(value, str):
                    self.error(instance, value)
                return value

            def assert_valid(self, instance, value=None):
                env.fire('type assert_valid', instance)
                return super(Typed, self).assert_valid(instance, value)

            def equal(self, value_a, value_b):
                env.fire('type equal', env.main)
                return value_a == value_b

            @staticmethod
            def to_json(value, **kwargs):
                env.fire('type to_json', env.main)
                return 'j' + value

            @staticmethod
            def from_json(value, **kwargs):
                env.fire('type from_json', env.main)
                return value[1:]

        class Kid(P.HasProperties):
            num = P.Integer('', default=4)

            @P.validator
            def inspect(self):
                env.fire('class validator of a held instance', env.main)
                return True

        def save(value):
            env.fire('serializer', env.main)
            return value and value.upper()

        def load(value):
            env.fire('deserializer', env.main)
            return value.lower()

        def start():
            env.fire('default', env.main)
            return [1]

        class World(P.HasProperties):
            a = P.Integer('', default=1)
            c = P.Integer('', default=0)
            t = Typed('', default='x')
            s = P.String('', default='s', serializer=save, deserializer=load)
            f = P.List('', P.Integer(''), default=start,
                       observe_mutations=True)
            kid = P.Instance('', Kid, default=Kid)

            def __init__(self, **kwargs):
                env.fire('before __init__', self)
                super(World, self).__init__(**kwargs)
                env.fire('after __init__', self)

            @P.String('')
            def d(self):
                env.fire('getter', self)
                return 'dyn'

            @d.setter
            def d(self, value):
                env.fire('setter', self)

            @P.validator('a')
            def valid_a(self, change):
                env.fire('validator', self)

            @P.observer('a', change_only=True)
            def change_a(self, change):
                env.log.append(('a changes', change['value']))
                env.fire('change observer', self)

            @P.observer(['a', 'f'])
            def set_a(self, change):
                env.log.append(('set', change['name']))
                env.fire('observer', self)

            @P.observer('c')
            def set_c(self, change):
                if env.depth:
                    env.inner_log.append((self, change['value']))
                else:
                    env.log.append(('c', change['value']))

            @P.validator
            def check(self):
                env.fire('class validator', self)
                return True

            def _error_hook(self, error_tuples):
                env.fire('error hook', self)
        class Probe(P.HasProperties):
            x = P.Integer('')

            @P.observer('x')
            def told(self, change):
                env.probed.append(1)
        self.World, self.Kid, self.probe, self.probed = World, Kid, Probe(), []
        self.main, self.other = World(), World()
        self.third = World(c=99)
        self.follower = Probe()

        def change(value):
            env.fire('link transform', env.main)
            return value * 2
        P.directional_link((self.main, 'a'), (self.follower, 'x'),
                           change_only=True, transform=change)
        P.observer(self.main, 'a', lambda inst, change: env.fire(
            'own observer', inst))
        P.validator(self.main, 'a', lambda inst, change: env.fire(
            'own validator', inst))


def heard(env, who):
    return [value for inst, value in env.inner_log if inst is who]


def state(inst, masked=('c',)):
    if inst is None:
        return None
    return [(name, core.canon(getattr(inst, name)))
            for name in inst._props if name not in masked and name != 'd']


# -- inner operations -----------------------------------------------------------------
def i_set(env, who):
    del env.inner_log[:]
    who.c = 7
    return ('set', who.c, heard(env, who))


def i_bad(env, who):
    old = who.c
    got = core.attempt(setattr, who, 'c', 'bad')
    return ('refused', got[0] == 'raises' and isinstance(
        got[1], P.ValidationError) and who.c == old)


def i_delete(env, who):
    del env.inner_log[:]
    had = who.c is not None
    del who.c
    out = ('deleted', who.c, len(heard(env, who)))
    who.c = 0
    return out


def i_validate(env, who):
    return ('valid', core.attempt(who.validate))


def i_serialize(env, who):
    got = core.attempt(who.serialize)
    if got[0] == 'ok':
        return ('saved', got[1].get('__class__'), got[1].get('c') == who.c,
                got[1].get('t'), got[1].get('kid'))
    return ('saved', type(got[1]).__name__)


def i_copy(env, who):
    got = core.attempt(P.copy, who)
    if got[0] == 'ok':
        return ('copied', got[1] is not who and type(got[1]) is type(who),
                got[1].c == who.c, got[1].t == who.t,
                got[1].kid is not who.kid)
    return ('copied', type(got[1]).__name__)


def i_equal(env, who):
    return ('equal', P.equal(who, who), P.equal(env.third, who),
            P.equal(who, env.third))


def i_construct(env, who):
    made = env.World(a=3)
    return ('made', made.a, made.c, made.t, made.s, list(made.f),
            made.kid.num)


def i_fail(env, who):
    got = core.attempt(lambda: env.World(a='bad', c=5))
    return ('failed', isinstance(got[1], P.ValidationError))


def i_load(env, who):
    made = env.World.deserialize({'a': 3, 't': 'jq', 's': 'UP', 'f': [5],
                                  'kid': {'num': 8}})
    return ('loaded', made.a, made.c, made.t, made.s, list(made.f),
            made.kid.num)


def i_misload(env, who):
    got = core.attempt(env.World.deserialize, {'a': 'x1', 'c': 1})
    return ('misloaded', got[0] == 'raises')


def i_disabled(env, who):
    del env.inner_log[:]
    with P.listeners_disabled():
        who.c = 8
        inside = len(heard(env, who))
    who.c = 9
    return ('disabled', inside, who.c, heard(env, who))


def i_invalid(env, who):
    with P.validators_disabled():
        got = core.attempt(setattr, who, 'c', 'bad')
    return ('validators disabled', got[0])


def i_reset(env, who):
    who.c = 5
    who._reset('c')
    return ('reset', who.c)


def i_observe(env, who):
    told = []
    P.observer(who, 'c', lambda inst, change: told.append(
        (inst is who, change['value'])))
    who.c = 6
    return ('observed', list(told))


def i_read(env, who):
    return ('read', who.d)


def i_kid(env, who):
    old = who.kid
    who.kid = {'num': 5}
    out = ('kid', who.kid.num, who.kid is not old)
    who.kid = P.undefined if old is None else old
    return out


def i_link(env, who):
    one, two = env.World(), env.World()
    P.directional_link((who, 'c'), (one, 'c'))
    P.directional_link((one, 'c'), (two, 'c'))
    who.c = 0
    who.c = 12
    return ('linked', one.c, two.c)


def i_class(env, who):
    cls = type('More', (env.World,), {'z': P.Integer('', default=2)})
    inst = cls(a=9)
    return ('declared', inst.z, inst.a, inst.c)


def i_raise(env, who):
    raise KeyError('mine')


def i_interrupt(env, who):
    raise core.Interrupt('mine')


INNER = {'set': i_set, 'refused set': i_bad, 'delete': i_delete,
         'validate': i_validate, 'serialize': i_serialize, 'copy': i_copy,
         'equal': i_equal, 'construct': i_construct,
         'failing construct': i_fail, 'deserialize': i_load,
         'failing deserialize': i_misload, 'listeners disabled': i_disabled,
         'validators disabled': i_invalid, 'reset': i_reset,
         'observe': i_observe, 'read': i_read, 'assign instance': i_kid,
         'link': i_link, 'declare': i_class, 'raise': i_raise,
         'interrupt': i_interrupt}
ESCAPING = ('raise', 'interrupt')
# defaults are set, and instances loaded, with listeners disabled
LOADING = ('before __init__', 'after __init__', 'default', 'type equal',
           'type validate')
MAY_MUTE = {'deserialize': LOADING, 'deserialize valid': LOADING,
            'copy': LOADING, 'construct': ('default', 'type validate'),
            'failing construct': ('default', 'type validate'),
            'disabled': ('type equal', 'type validate')}


# -- outer operations --------------------------------------------------------------------
def o_set(env):
    env.main.a = 5


def o_same(env):
    env.main.a = 1


def o_bad(env):
    env.main.a = 'bad'


def o_typed(env):
    env.main.t = 'y'


def o_typed_bad(env):
    env.main.t = 5


def o_validate(env):
    return env.main.validate()


def o_invalid(env):
    del env.main.s
    return env.main.validate()


def o_serialize(env):
    return mask(env.main.serialize())


def o_dynamic(env):
    return mask(env.main.serialize(save_dynamic=True))


def mask(data):
    return {k: v for k, v in data.items() if k != 'c'}


def o_load(env):
    return state(env.World.deserialize({'a': 3, 't': 'jq', 's': 'UP',
                                        'kid': {'num': 7}}))


def o_load_valid(env):
    return state(env.World.deserialize({'a': 3, 't': 'jq'},
                                       assert_valid=True))


def o_copy(env):
    return state(P.copy(env.main))


def o_equal(env):
    return P.equal(env.main, env.twin)


def o_construct(env):
    return state(env.World(a=2, t='z'))


def o_construct_bad(env):
    return state(env.World(a='bad'))


def o_reset(env):
    env.main.a = 5
    env.main._reset()


def o_dyn(env):
    env.main.d = 'e'
    return env.main.d


def o_append(env):
    env.main.f.append(3)


def o_disabled(env):
    with P.listeners_disabled():
        env.main.a = 5
        env.main.t = 'u'


OUTER = {'set': o_set, 'set equal': o_same, 'refused set': o_bad,
         'set typed': o_typed, 'refused typed': o_typed_bad,
         'validate': o_validate, 'failing validate': o_invalid,
         'serialize': o_serialize, 'serialize dynamic': o_dynamic,
         'deserialize': o_load, 'deserialize valid': o_load_valid,
         'copy': o_copy, 'equal': o_equal, 'construct': o_construct,
         'failing construct': o_construct_bad, 'reset': o_reset,
         'dynamic': o_dyn, 'mutate': o_append, 'disabled': o_disabled}


def prepare(env):
    env.depth += 1
    env.twin = env.World()
    env.depth -= 1
    del env.log[:]


def ordered(value):
    """Dictionaries sorted: deleted and set again is written last."""
    if isinstance(value, dict):
        return {key: ordered(value[key]) for key in sorted(value)}
    return value


def outcome(got):
    if got[0] == 'ok':
        return ('ok', core.canon(ordered(got[1])))
    return ('raises', type(got[1]).__name__, [
        (t.reason, t.prop) for t in getattr(got[1], 'error_tuples', [])])


def perform(outer, plan):
    env = Env()
    prepare(env)
    env.plan = plan
    got = core.attempt(OUTER[outer], env)
    env.plan = None
    log = [entry for entry in env.log if entry[0] != 'c']
    return env, outcome(got), got, state(env.main), (
        state(env.other), env.follower.x), log


def battery(env):
    """Every operation, with idle callbacks."""
    out = []
    env.depth += 1
    for who in (env.main, env.other, env.World()):
        del env.inner_log[:]
        who.a, who.t, who.s, who.f, who.c = 1, 'x', 's', [1], 0
        who.c = 1
        out.append(heard(env, who))
        out.append(core.attempt(setattr, who, 'c', 'bad')[0])
        out.append((outcome(core.attempt(who.validate)),
                    outcome(core.attempt(who.serialize)),
                    outcome(core.attempt(P.copy, who)),
                    outcome(core.attempt(P.equal, who, who)),
                    outcome(core.attempt(P.equal, who, env.third)),
                    outcome(core.attempt(getattr, who, 'd'))))
        who.s = P.undefined
        out.append(outcome(core.attempt(who.validate)))
        who.s = 's'
        out.append(outcome(core.attempt(who.validate)))
    made = env.World(a=4)
    out.append(state(made, ()))
    del env.log[:], env.inner_log[:]
    made.a = 6
    out.append(list(env.log))
    env.depth -= 1
    return out


STANDARD = {}


def standard(outer):
    """Everything about the outer operation with idle callbacks."""
    if outer not in STANDARD:
        env, out, _, main, other, log = perform(outer, None)
        STANDARD[outer] = (sorted(env.places), out, main, other, log,
                           battery(env))
    return STANDARD[outer]


def wanted(inner, who, env, muted, outer, target, mid):
    """What the inner operation gives; None: anything of the right kind."""
    main = who is env.main
    loaded = target == 'self' and not main and who is not env.other
    if inner == 'set':
        return ('set', 7, [] if muted else [7])
    if inner == 'refused set':
        return ('refused', True)
    if inner == 'delete':
        return ('deleted', None, None)
    if inner == 'validate':
        if loaded or (main and outer == 'failing validate'):
            return None
        return ('valid', ('ok', True))
    if inner in ('serialize', 'copy'):
        if main and outer in ('serialize', 'serialize dynamic', 'copy') and \
                mid:
            return (mid, 'SelfReferenceError')
        return None if main or loaded else (
            ('saved', 'World', True, 'jx', {'__class__': 'Kid', 'num': 4})
            if inner == 'serialize' else ('copied', True, True, True, True))
    if inner == 'equal':
        return None if main and outer == 'equal' else (
            'equal', True, False, False)
    return {
        'construct': ('made', 3, 0, 'x', 's', [1], 4),
        'failing construct': ('failed', True),
        'deserialize': ('loaded', 3, 0, 'q', 'up', [5], 8),
        'failing deserialize': ('misloaded', True),
        'listeners disabled': ('disabled', 0, 9, [] if muted else [9]),
        'validators disabled': ('validators disabled', 'raises'),
        'reset': ('reset', 0),
        'observe': ('observed', [] if muted else [(True, 6)]),
        'read': ('read', 'dyn'),
        'assign instance': ('kid', 5, True),
        'link': ('linked', 0, 0) if muted else ('linked', 12, 12),
        'declare': ('declared', 2, 9, 0),
    }[inner]


SERIAL = ('serializer', 'type to_json', 'getter')


def judge(ctx, outer, place, inners, target, every):
    _, out0, main0, other0, log0, battery0 = standard(outer)
    plan = (place, inners, target, every)
    env, out, got, main, other, log = perform(outer, plan)
    ctx.check(env.fired, 'the callback was not called')
    escapes = [i for i in inners if i in ESCAPING]
    for inner, who, muted, result in env.results:
        mid = None
        if place in SERIAL and inner in ('serialize', 'copy'):
            mid = {'serialize': 'saved', 'copy': 'copied'}[inner]
        ctx.check(not muted or place in MAY_MUTE.get(outer, ()),
                  'listeners are disabled')
        want = wanted(inner, who, env, muted, outer, target, mid)
        if want is None:
            ctx.check(isinstance(result, tuple), 'no result')
            continue
        if inner == 'delete':
            result, want = result[:2], want[:2]
        ctx.check(result == want, lambda: '%s inside gave %s, expected %s' % (
            inner, result, want))
    # a dictionary that is being written cannot lose a key
    resized = 'delete' in inners and place in SERIAL
    if not escapes and not resized:
        ctx.check(out == out0, lambda: 'the outcome is %s, expected %s' % (
            out, out0))
        ctx.check(main == main0, lambda: 'the instance holds %s, expected %s'
                  % (main, main0))
        ctx.check(other == other0, lambda: 'the other instance holds %s, '
                  'expected %s' % (other, other0))
        have = [entry for entry in log if entry in log0]
        ctx.check(have == log0 or len(log) >= len(log0), lambda: 'told %s, '
                  'expected %s' % (log, log0))
    elif 'interrupt' in escapes:
        ctx.check(got[0] == 'raises' and isinstance(
            got[1], core.Interrupt), lambda: 'an interrupt was swallowed: %s'
                  % (out,))
    have = battery(env)
    ctx.check(have == battery0, lambda: 'afterwards: %s' % [
        (x, y) for x, y in zip(have, battery0) if x != y])


def operation(ctx, outer):
    places = standard(outer)[0]
    ctx.sample('%s calls %s' % (outer, places))
    counts = (1,) if ctx.quick else (1, 2)
    for place in places:
        for count in counts:
            for inners in itertools.permutations(sorted(INNER), count):
                if inners[0] in ESCAPING and count == 2:
                    continue
                # P14 leaves open what deleting a linked source does
                if {'link', 'delete'} <= set(inners):
                    continue
                for target in ('self', 'other'):
                    for every in (False, True):
                        if not core.case(ctx, '%s, in %s: %s on %s%s' % (
                                outer, place, ', '.join(inners), target,
                                ', every time' if every else ''), judge, ctx,
                                outer, place, inners, target, every):
                            return
                        ctx.step(2)
                        ctx.state((outer, place, inners, target, every))


def scenarios(tier):
    for outer in OUTER:
        yield 'inside %s' % outer, lambda ctx, o=outer: operation(ctx, o)
