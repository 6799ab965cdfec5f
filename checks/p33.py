"""P33: two threads that use different instances do not notice each other."""
import copy
import datetime
import pickle
import threading
import warnings

import properties as P
import properties.extras as X

from mc import core, threads

warnings.simplefilter('ignore')

PROPERTY = 'P33'
BOUNDS = ('25 uses of the library in one thread x 7 (thorough: 25) in another, '
          'each with instances of its own of the same classes: a switch at '
          'every line of the code with a new stack of lines (thorough: every '
          'line executed; quick: calls and returns of the longest), '
          'the other thread then running to its end; 18 small uses, each with itself and pairs of short ones (thorough: all '
          'pairs) with two switches, at every call and return with a new '
          'stack (thorough: also every line, for 5); 18 x 5 (18) '
          'of them with classes never used before; both results, both '
          'instances, what the listeners were told, and all of it again '
          'afterwards in both threads, against each use running alone.')
ASSUMPTIONS = ['no instance, and no singleton name or uid, is used by both '
               'threads', 'two threads', 'a thread switch happens between '
               'lines of the code of the repository']
HERE = (__file__,)


class Part(P.HasProperties):
    num = P.Integer('', default=4)


class World(object):
    """Classes that both threads use; listeners write to their instance."""

    def __init__(self):
        world = self

        class Kid(P.HasProperties):
            num = P.Integer('', default=4)
            name = P.String('', required=False)

            @P.validator
            def checks(self):
                return True

        def save(value):
            return value and value.upper()

        def load(value):
            return value.lower()

        class Thing(P.HasProperties):
            a = P.Integer('', default=1)
            b = P.Integer('', default=1, max=9)
            s = P.String('', default='s', serializer=save, deserializer=load)
            f = P.List('', P.Integer(''), default=lambda: [1],
                       observe_mutations=True)
            m = P.Dictionary('', default=dict, key_prop=P.String(''),
                             value_prop=P.Float(''), observe_mutations=True)
            kid = P.Instance('', Kid, default=Kid)
            u = P.Union('', [P.Boolean(''), P.DateTime(''), P.Integer(''),
                             P.String('')], default=3)
            k = P.Color('', default='red')
            old = P.Renamed('b')

            @P.Integer('')
            def d(self):
                return self.a + 1

            @d.setter
            def d(self, value):
                self.a = value - 1

            @P.validator('a')
            def valid_a(self, change):
                note(self, 'valid', change)

            @P.observer('a', change_only=True)
            def change_a(self, change):
                note(self, 'changes', change)

            @P.observer(['a', 'f', 'm'])
            def set_a(self, change):
                note(self, 'set', change)

            @P.validator
            def checks(self):
                note(self, 'checks', None)
                return self.b != 8

        class Small(P.HasProperties):
            a = P.Integer('', default=1)

            @P.validator('a')
            def valid_a(self, change):
                note(self, 'valid', change)

            @P.observer('a', change_only=True)
            def change_a(self, change):
                note(self, 'changes', change)

            @P.observer('a')
            def set_a(self, change):
                note(self, 'set', change)

        class Holder(P.HasProperties):
            f = P.List('', P.Integer(''), observe_mutations=True)
            u = P.Union('', [P.DateTime(''), P.Integer('')], default=1)

            @P.observer(['f', 'u'])
            def set_a(self, change):
                note(self, 'set', change)

        class Ident(X.HasUID):
            _INSTANCES = {}
            num = P.Integer('', default=1)
            to = X.Pointer('', X.HasUID, required=False)

            @P.observer('num')
            def told(self, change):
                note(self, 'num', change)

        class Single(X.Singleton):
            _SINGLETONS = {}
            num = P.Integer('', default=1)

            @P.observer('num')
            def told(self, change):
                note(self, 'num', change)

        class Job(X.BaseTask):
            class Input(X.BaseInput):
                num = P.Integer('')

            class Output(X.BaseOutput):
                num = P.Integer('')

            def run(self, input_obj):
                return self.Output(num=input_obj.num * 2)

        for cls in (Kid, Thing):
            cls.__module__ = __name__
        self.Kid, self.Thing, self.Ident = Kid, Thing, Ident
        self.Single, self.Job = Single, Job
        self.Small, self.Holder = Small, Holder
        self.count = 0

    def thing(self, **kwargs):
        inst = self.Thing(**kwargs)
        inst.log = []
        return inst


HEARD = {}      # what was told to each thread, about any instance


def note(inst, what, change):
    told = (what,) if change is None else (
        what, change['name'], core.canon(change['value']))
    HEARD.setdefault(threading.get_ident(), []).append(told)
    log = inst.__dict__.get('log')
    if log is not None:
        log.append(told)


def listening(func):
    """The function, giving also what was told while it ran."""
    def run():
        HEARD[threading.get_ident()] = []
        got = core.attempt(func)
        return got, HEARD.pop(threading.get_ident())
    return run


def reach(val, found):
    """The ids of everything changeable that is held."""
    if isinstance(val, (list, tuple, set, dict, P.HasProperties)):
        if id(val) in found:
            return found
        if not isinstance(val, tuple):
            found[id(val)] = val
        if isinstance(val, P.HasProperties):
            reach(val._backend, found)
        elif isinstance(val, dict):
            reach(tuple(val.values()), found)
        else:
            for item in val:
                reach(item, found)
    return found


def state(inst):
    return [(name, core.canon(getattr(inst, name))) for name in inst._props
            if name != 'uid']


MOMENT = datetime.datetime(2020, 1, 2, 3, 4, 5)


class Use(object):
    """Something one thread does, with instances of its own."""

    def __init__(self, world, tag):
        self.world, self.tag = world, tag
        self.inst = None
        self.prepare()

    def prepare(self):
        self.inst = self.world.thing()

    def act(self):
        raise NotImplementedError

    def after(self):
        if self.inst is None:
            return None
        out = [state(self.inst), self.inst.__dict__.get('log')]
        # nothing is left to be going on
        return out + [outcome(core.attempt(func)) for func in (
            self.inst.serialize, self.inst.validate,
            lambda: P.equal(self.inst, self.inst))]


class Construct(Use):
    def prepare(self):
        pass

    def act(self):
        made = self.world.Thing(a=self.tag, u='x')
        return made


class FailConstruct(Use):
    def prepare(self):
        pass

    def act(self):
        self.world.Thing(a=self.tag, b=self.tag * 100)


class Set(Use):
    def act(self):
        self.inst.a = self.tag
        self.inst.a = self.tag
        self.inst.b = 3
        self.inst.k = 'blue'


class Refused(Use):
    def act(self):
        got = core.attempt(setattr, self.inst, 'a', 'bad')
        self.inst.log.append(outcome(got))
        self.inst.b = 100


class Delete(Use):
    def act(self):
        del self.inst.a
        self.inst.a = self.tag
        self.inst._reset('b')
        self.inst._reset('a')


class Load(Use):
    def prepare(self):
        pass

    def act(self):
        made = self.world.Thing.deserialize({
            'a': self.tag, 's': 'UP', 'f': [5, self.tag], 'm': {'q': 1.5},
            'kid': {'num': self.tag, '__class__': 'Kid'}, 'u': 'z',
            'old': 4, 'unknown': 1, '__class__': 'Thing'}, trusted=True)
        return made


class FailLoad(Use):
    def prepare(self):
        pass

    def act(self):
        self.world.Thing.deserialize({'a': 'x%d' % self.tag, 'b': 1})


class Save(Use):
    def prepare(self):
        self.inst = self.world.thing(a=self.tag, s='t%d' % self.tag)

    def act(self):
        return self.inst.serialize(save_dynamic=True)


class Copy(Use):
    def prepare(self):
        self.inst = self.world.thing(a=self.tag, kid={'num': self.tag})

    def act(self):
        made = P.copy(self.inst)
        made.kid.num = 77
        return made


class Validate(Use):
    def prepare(self):
        self.inst = self.world.thing(a=self.tag)

    def act(self):
        return self.inst.validate()


class Invalid(Use):
    def prepare(self):
        self.inst = self.world.thing(a=self.tag, b=8)
        self.inst.kid.num = P.undefined

    def act(self):
        self.inst.validate()


class Equal(Use):
    def prepare(self):
        self.inst = self.world.thing(a=self.tag)
        self.same = self.world.thing(a=self.tag)
        self.less = self.world.thing(a=self.tag, kid={'num': 9})

    def act(self):
        return (P.equal(self.inst, self.same), P.equal(self.inst, self.less))


class Mutate(Use):
    def act(self):
        self.inst.f.append(self.tag)
        self.inst.f[0] = 9
        self.inst.m['k'] = 2.5
        self.inst.m.update({'l': 1.0})


class Quiet(Use):
    def act(self):
        self.inst.a = 2
        with P.listeners_disabled():
            self.inst.a = 3
            self.inst.f.append(4)
        self.inst.a = 5


class HalfQuiet(Use):
    def act(self):
        with P.validators_disabled():
            self.inst.a = 3
            with P.listeners_disabled('observe_change'):
                self.inst.a = 4
            self.inst.a = 5
        with P.observers_disabled():
            self.inst.a = 6
        self.inst.a = 7


class Unions(Use):
    def act(self):
        out = []
        for value in (True, MOMENT, [1]):
            try:
                self.inst.u = value
            except P.ValidationError as err:
                out.append(str(err))
            out.append((self.inst.u, self.inst.serialize()['u']))
        return out


class Linked(Use):
    def prepare(self):
        self.inst = self.world.thing()
        self.follow = self.world.thing()

    def act(self):
        one = P.directional_link((self.inst, 'a'), (self.follow, 'a'))
        self.inst.a = self.tag
        two = P.link((self.inst, 'b'), (self.follow, 'b'))
        self.follow.b = 7
        one.unlink()
        self.inst.a = 0
        two.relink()
        return self.follow, self.follow.log


class Identified(Use):
    def prepare(self):
        self.world.count += 2
        self.uids = ['u%d' % (self.world.count + i) for i in range(2)]

    def act(self):
        one, two = self.uids
        made = self.world.Ident.deserialize({
            '__root__': one,
            one: {'uid': one, 'num': self.tag, 'to': two,
                  '__class__': 'Ident'},
            two: {'uid': two, 'num': 5, 'to': one, '__class__': 'Ident'}})
        made.log = []
        made.num = 6
        data = made.serialize()
        return (made.to is two or made.to.num, made.log, len(data),
                made.uid == one, self.world.Ident.load(one) is made)


class Unique(Use):
    def prepare(self):
        self.world.count += 1
        self.uid = 'v%d' % self.world.count

    def act(self):
        made = self.world.Ident(uid=self.uid, num=self.tag)
        twice = core.attempt(lambda: self.world.Ident(uid=self.uid))
        found = self.world.Ident.load(self.uid) is made
        fresh = self.world.Ident()
        self.made = made
        return (made.num, twice[0], found, len(fresh.uid),
                self.world.Ident.load(fresh.uid) is fresh)

    def after(self):
        return self.world.Ident.load(self.uid) is self.made


class Named(Use):
    def prepare(self):
        self.world.count += 1
        self.name = 'n%d' % self.world.count

    def act(self):
        made = self.world.Single(self.name, num=self.tag)
        again = self.world.Single(self.name)
        data = made.serialize()
        back = self.world.Single.deserialize(data)
        other = self.world.Single.deserialize(
            {'_singleton_id': self.name + 'x', 'num': 3})
        self.made = made, other
        return (made is again, back is made, made.num, other.num,
                data['_singleton_id'] == self.name)

    def after(self):
        return (self.world.Single(self.name) is self.made[0],
                self.world.Single(self.name + 'x') is self.made[1])


class Run(Use):
    def prepare(self):
        self.job = self.world.Job()

    def act(self):
        good = self.job(num=self.tag)
        bad = core.attempt(lambda: self.job(num='x'))
        return good, outcome(bad)


class Pickled(Use):
    def prepare(self):
        self.inst = Part(num=self.tag)

    def act(self):
        made = pickle.loads(pickle.dumps(self.inst))
        deep = copy.deepcopy(self.inst)
        return made, deep


class Dynamic(Use):
    def act(self):
        self.inst.d = self.tag
        out = self.inst.d, self.inst.old
        self.inst.old = 5
        return out


class Declare(Use):
    def prepare(self):
        # a class of an earlier schedule does not count
        getattr(self.world.Small, '_REGISTRY', {}).pop(
            'More%d' % self.tag, None)

    def act(self):
        got = []

        def told(inst, change):
            got.append(change['value'])
        More = type(self.world.Small)('More%d' % self.tag, (
            self.world.Small,), {
                'z': P.Integer('', default=self.tag),
                'w': P.List('', P.Set('', P.Integer('')), default=list,
                            observe_mutations=True),
                'told': P.observer('z')(told)})
        inst = More(a=9)
        inst.z = 3
        inst.w = [{1, 2}]
        inst.w.append({3})
        return (inst, got, sorted(More._props),
                'z' in More.__doc__, inst.validate())

    def after(self):
        name = 'More%d' % self.tag
        got = core.attempt(self.world.Small.deserialize, {
            '__class__': name, 'a': 4, 'z': 5}, trusted=True)
        return outcome(got)


class Listen(Use):
    def act(self):
        told = []
        P.observer(self.inst, ['a', 'b'], lambda inst, change: told.append(
            (inst is self.inst, change['name'], change['value'])))
        P.validator(self.inst, 'b', lambda inst, change: told.append('v'))
        self.inst.a = self.tag
        self.inst.b = 2
        return told



# -- small ones, for two switches --------------------------------------------------------
class SmallUse(Use):
    def prepare(self):
        self.inst = self.world.Small()
        self.inst.log = []


class SmallSet(SmallUse):
    def act(self):
        self.inst.a = self.tag


class SmallRefused(SmallUse):
    def act(self):
        self.inst.a = 'bad'


class SmallMake(SmallUse):
    def act(self):
        return self.world.Small(a=self.tag)


class SmallFail(SmallUse):
    def act(self):
        self.world.Small(a='bad')


class SmallLoad(SmallUse):
    def act(self):
        return self.world.Small.deserialize({'a': self.tag})


class SmallSave(SmallUse):
    def act(self):
        return self.inst.serialize(), self.inst.serialize()


class SmallCopy(SmallUse):
    def act(self):
        return P.copy(self.inst)


class SmallCheck(SmallUse):
    def act(self):
        return self.inst.validate()


class SmallInvalid(SmallUse):
    def prepare(self):
        super(SmallInvalid, self).prepare()
        self.inst._backend['a'] = 'bad'

    def act(self):
        return self.inst.validate()


class SmallEqual(SmallUse):
    def prepare(self):
        super(SmallEqual, self).prepare()
        self.same = self.world.Small()

    def act(self):
        return (P.equal(self.inst, self.same), P.equal(self.same, self.inst),
                P.equal(self.inst, self.same))


class SmallQuiet(SmallUse):
    def act(self):
        with P.listeners_disabled():
            self.inst.a = 3
        self.inst.a = 5


class SmallNoValidators(SmallUse):
    def act(self):
        with P.validators_disabled():
            self.inst.a = 3
        self.inst.a = 5


class SmallNoObservers(SmallUse):
    def act(self):
        with P.observers_disabled():
            self.inst.a = 3
        self.inst.a = 5


class SmallMutate(SmallUse):
    def prepare(self):
        self.inst = self.world.Holder(f=[1])
        self.inst.log = []

    def act(self):
        self.inst.f.append(self.tag)


class SmallUnion(SmallUse):
    def prepare(self):
        self.inst = self.world.Holder()
        self.inst.log = []

    def act(self):
        self.inst.u = MOMENT if self.tag == 2 else self.tag
        return self.inst.serialize()


class SmallQuietMake(SmallUse):
    def act(self):
        with P.listeners_disabled():
            made = self.world.Small(a=self.tag)
            self.inst.a = 3
        return made


class SmallNamed(SmallUse):
    def prepare(self):
        self.world.count += 1
        self.inst = None
        self.name = 's%d' % self.world.count

    def act(self):
        self.made = self.world.Single(self.name, num=self.tag)
        return self.made.num

    def after(self):
        return self.world.Single(self.name) is self.made


class SmallUnique(SmallUse):
    def prepare(self):
        self.world.count += 1
        self.inst = None
        self.uid = 's%d' % self.world.count

    def act(self):
        self.made = self.world.Ident(uid=self.uid)
        return self.made.uid == self.uid

    def after(self):
        return self.world.Ident.load(self.uid) is self.made


USES = [Construct, FailConstruct, Set, Refused, Delete, Load, FailLoad, Save,
        Copy, Validate, Invalid, Equal, Mutate, Quiet, HalfQuiet, Unions,
        Linked, Identified, Unique, Named, Run, Pickled, Dynamic, Declare,
        Listen]
SMALL = [SmallSet, SmallRefused, SmallMake, SmallFail, SmallLoad, SmallSave,
         SmallCopy, SmallCheck, SmallInvalid, SmallEqual, SmallQuiet,
         SmallNoValidators, SmallNoObservers, SmallMutate, SmallUnion,
         SmallQuietMake, SmallNamed, SmallUnique]

# what the second thread does in the quick tier
OTHERS = [Set, Load, Invalid, Mutate, Quiet, Declare]
MANY = [SmallSet, SmallMake, SmallLoad, SmallQuiet, SmallMutate]
# switched at calls and returns only in the quick tier
LONG = (Copy,)
# pairs that are worth their length
PAIRS = {(SmallQuietMake, SmallMake), (SmallMake, SmallQuietMake)}


def outcome(got):
    if got[0] == 'ok':
        return ('ok', core.canon(got[1]))
    return ('raises', type(got[1]).__name__, str(got[1]), [
        (t.reason, t.prop) for t in getattr(got[1], 'error_tuples', [])])


def probe(world):
    """Everything still works, in the thread that calls this."""
    out = []
    inst = world.thing(a=4)
    inst.a = 6
    inst.a = 6
    out.append(outcome(core.attempt(setattr, inst, 'a', 'bad')))
    inst.f.append(2)
    out += [state(inst), list(inst.log), inst.validate(),
            core.canon(inst.serialize()), P.equal(inst, inst)]
    made = world.Thing.deserialize({'a': 3, 'kid': {'num': 2}})
    made.log = []
    made.a = 5
    out += [state(made), made.log]
    return out


def live(world):
    """All listeners are called, in the thread that calls this."""
    inst = world.Small()
    inst.log = []
    inst.a = 8
    return [entry[0] for entry in inst.log]


LISTENERS = ('ok', ['valid', 'changes', 'set'])
ALONE = {}


def alone(use, tag):
    """What it gives when no other thread runs."""
    key = (use, tag)
    if key not in ALONE:
        world = World()
        one = use(world, tag)
        got, heard = listening(one.act)()
        ALONE[key] = ((outcome(got), heard), core.canon(one.after()),
                      probe(world))
    return ALONE[key]


def schedule(ctx, duo, world, use, other, at, back, fine):
    one, two = use(world, 2), other(world, 3)
    first, second = [got[1] for got in duo.run(
        listening(one.act), listening(two.act), at, back, fine)]
    mine = reach((one.inst, first), {})
    ctx.check(not set(mine) & set(reach((two.inst, second), {})),
              'the threads hold something in common')
    for which, got, have, want in (
            ('first', first, one, alone(use, 2)),
            ('second', second, two, alone(other, 3))):
        got = outcome(got[0]), got[1]
        ctx.check(got == want[0], lambda: 'the %s thread got %s, alone %s' % (
            which, got, want[0]))
        left = core.canon(have.after())
        ctx.check(left == want[1], lambda: 'the %s thread has %s, alone %s' % (
            which, left, want[1]))
    for which, got in (('first', core.attempt(live, world)),
                       ('second', duo.other(lambda: live(world)))):
        ctx.check(got == LISTENERS, lambda: 'afterwards, in the %s thread: '
                  'listeners called: %s' % (which, got))


def afterwards(ctx, duo, world, want):
    for which, got in (('first', core.attempt(probe, world)),
                       ('second', duo.other(lambda: probe(world)))):
        ctx.check(got == ('ok', want), lambda: 'afterwards, in the %s '
                  'thread: %s, expected %s' % (which, got, want))


def pair(ctx, duo, use, other, fine=True, double=False, cold=False,
         every=False):
    """All switches between two uses."""
    world = World()
    places = []
    for which in (use, other):
        if not cold:
            # what is done once only has been done
            core.attempt(which(world, 2).act)
        places.append(duo.steps(which(world, 2).act, fine, not every))
        if cold:
            world = World()
    want = alone(use, 2)[2]
    for at in [0] + places[0]:
        for back in places[1] if double else (None,):
            if cold:
                world = World()
            if not core.case(ctx, '%s up to %s %d, then %s%s' % (
                    use.__name__, 'line' if fine else 'call or return', at,
                    other.__name__, ', up to its %s' % back if back else ''),
                    schedule, ctx, duo, world, use, other, at, back, fine):
                return False
            ctx.step(2)
            ctx.state((use, other, at, back, fine, cold))
    ctx.outcome((use.__name__, other.__name__))
    return core.case(ctx, 'after all of %s and %s' % (
        use.__name__, other.__name__), afterwards, ctx, duo, world, want)


def once(ctx, use, others, every, fine):
    """One switch to the other thread, which runs to the end."""
    duo = threads.Duo(HERE)
    for other in others + [use] * (use not in others):
        if not pair(ctx, duo, use, other, fine=fine, every=every):
            return


def quick_enough(duo, use, other, limit):
    """The same use twice, two short ones, or all."""
    world, count = World(), 1
    for which in (use, other):
        count *= len(duo.steps(which(world, 2).act, False, True))
    return (use is other or not limit or count <= limit or
            (use, other) in PAIRS)


def twice(ctx, use, others, fine, limit=0):
    """And the other thread is left again, to be finished at the end."""
    duo = threads.Duo(HERE)
    for other in others:
        if not fine and not quick_enough(duo, use, other, limit):
            continue
        if not pair(ctx, duo, use, other, fine=fine, double=True):
            return


def first(ctx, use, others, fine):
    """Classes that have not been used yet."""
    duo = threads.Duo(HERE)
    for other in others:
        if not pair(ctx, duo, use, other, fine=fine, cold=True):
            return


def scenarios(tier):
    quick = tier != 'thorough'
    order = sorted(USES, key=lambda use: use not in (
        Declare, Load, Copy, Unions, Construct, Validate))
    for use in order:
        yield ('one switch inside %s' % use.__name__,
               lambda ctx, use=use: once(
                   ctx, use, OTHERS if quick else USES, not quick,
                   not quick or use not in LONG))
    for use in SMALL:
        yield ('two switches, %s' % use.__name__, lambda ctx, use=use: twice(
            ctx, use, SMALL, False, 2000 if quick else 0))
    for use in () if quick else MANY:
        yield ('two switches, lines of %s' % use.__name__,
               lambda ctx, use=use: twice(ctx, use, MANY, True))
    for use in SMALL:
        yield ('first use, %s' % use.__name__,
               lambda ctx, use=use: first(
                   ctx, use, MANY if quick else SMALL, not quick))
