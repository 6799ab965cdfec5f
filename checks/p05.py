"""P05: the notification protocol, against an event-log interpreter."""
import itertools

import properties as P

from mc import core, names, sizes

PROPERTY = 'P05'
BOUNDS = ('18 listeners (class-level, inherited, overriding, instance-level; '
          'one name, several, everything; validate/change/set; logging, '
          'vetoing, replacing, re-entrant): every subset of up to 3 (quick) / 4 '
          '(thorough) of them, each with every sequence of 2 / 3 operations '
          'out of 15 on three instances of two classes; plus every registration '
          'order of 3 instance-level listeners; every sequence of up to 3 '
          'registrations of one function, on private names too, that may write '
          'into its notification; every history of 3 values of '
          '17 kinds of properties (three with their own idea of equality)')
ASSUMPTIONS = ['observers that raise are outside this property']

UNDEF = 'UNDEF'


# name -> (where, method name, mode, observed names, behaviour)
CATALOGUE = [
    ('base', 'b_val', 'validate', 'p', ('log',)),
    ('base', 'b_rep', 'validate', ['p', 'q'], ('replace', 3, 4)),
    ('sub', 's_veto', 'validate', 'p', ('veto', 5)),
    ('inst', None, 'validate', 'p', ('log',)),
    ('base', 'b_set', 'observe_set', 'p', ('log',)),
    ('sub', 's_chg', 'observe_change', ('p',), ('log',)),
    ('inst', None, 'observe_set', 'EVERY', ('log',)),
    ('inst', None, 'observe_change', {'p', 'q'}, ('log',)),
    ('base', 'b_all', 'observe_set', 'EVERY', ('log',)),
    ('sub', 's_set_p', 'observe_set', 'q', ('set', 'p', 1)),
    ('inst', None, 'validate', ['q', 's'], ('veto', 1.0)),
    ('base', 'b_set_q', 'observe_change', 'p', ('set', 'q', 2.0)),
    ('sub', 'b_set', 'observe_change', 'q', ('log',)),      # overrides
    ('inst', None, 'observe_change', 'p', ('setif', 6, 'p', 2)),
    ('base', 'b_keep', 'validate', 'EVERY', ('veto', UNDEF)),
    ('inst', None, 'validate', 'p', ('set', 'q', 9.0)),
    ('inst', None, 'observe_change', 'EVERY', ('log',)),
    ('base', 'b_drop', 'validate', 'p', ('replace', 6, UNDEF)),
]

PROPS = ('p', 'q', 's')
DEFAULT = {'p': UNDEF, 'q': UNDEF, 's': 'A'}


def coerce(prop, value):
    """(True, coerced) or (False, None)."""
    if value == UNDEF and isinstance(value, str):
        return True, UNDEF
    if prop == 'p':
        if isinstance(value, (int, float)) and value == int(value) \
                and 0 <= value <= 9:
            return True, int(value)
        return False, None
    if prop == 'q':
        return (True, float(value)) if isinstance(value, (int, float)) \
            else (False, None)
    return (True, value.upper()) if isinstance(value, str) else (False, None)


def equal(prop, a, b):
    if prop == 'q':
        return abs(a - b) <= 1e-9
    return a == b


class Veto(Exception):
    pass


class Model(object):
    """The documented protocol, written down."""

    def __init__(self, listeners):
        self.listeners = listeners      # per instance: ordered list
        self.state = {who: dict(DEFAULT) for who in listeners}
        self.log = []

    def notify(self, who, change):
        for lid, mode, names, behave in self.listeners[who]:
            if mode != change['mode']:
                continue
            if names != 'EVERY' and change['name'] not in (
                    [names] if isinstance(names, str) else names):
                continue
            self.log.append((lid, who, change['name'], change['mode'],
                             change['previous'], change['value'],
                             self.state[who][change['name']]))
            self.act(who, change, behave)

    def act(self, who, change, behave):
        if behave[0] == 'veto':
            if change['value'] == behave[1]:
                raise Veto()
        elif behave[0] == 'replace':
            if change['value'] == behave[1]:
                change['value'] = behave[2]
        elif behave[0] == 'set':
            if self.state[who][behave[1]] != behave[2]:
                self.set(who, behave[1], behave[2])
        elif behave[0] == 'setif':
            if change['value'] == behave[1]:
                self.set(who, behave[2], behave[3])

    def set(self, who, prop, value):
        good, value = coerce(prop, value)
        if not good:
            raise Veto()
        prev = self.state[who][prop]
        change = {'name': prop, 'previous': prev, 'value': value,
                  'mode': 'validate'}
        self.notify(who, change)
        new = change['value']
        self.state[who][prop] = new
        if not (prev == UNDEF and new == UNDEF):
            if UNDEF in (prev, new) or not equal(prop, prev, new):
                self.notify(who, dict(change, mode='observe_change'))
        self.notify(who, dict(change, mode='observe_set'))


def out(val):
    return UNDEF if val is P.undefined else val


def build(config, log, names):
    """Base and Sub with the class-level listeners of a configuration."""
    def fire(lid, behave):
        def method(self, change):
            log.append((lid, names[id(self)], change['name'], change['mode'],
                        out(change['previous']), out(change['value']),
                        out(getattr(self, change['name'])
                            if getattr(self, change['name']) is not None
                            else P.undefined)))
            if behave[0] == 'veto':
                if out(change['value']) == behave[1]:
                    raise ValueError('vetoed')
            elif behave[0] == 'replace':
                if out(change['value']) == behave[1]:
                    change['value'] = (P.undefined if behave[2] == UNDEF
                                       else behave[2])
            elif behave[0] == 'set':
                if getattr(self, behave[1]) != behave[2]:
                    setattr(self, behave[1], behave[2])
            elif behave[0] == 'setif':
                if out(change['value']) == behave[1]:
                    setattr(self, behave[2], behave[3])
        return method

    def wrap(mode, which, func):
        which = P.everything if which == 'EVERY' else which
        if mode == 'validate':
            return P.validator(which)(func)
        return P.observer(which, change_only=mode == 'observe_change')(func)

    base = {'p': P.Integer('', min=0, max=9), 'q': P.Float(''),
            's': P.String('', change_case='upper', default='a')}
    sub = {}
    inst = []
    for lid in config:
        where, name, mode, which, behave = CATALOGUE[lid]
        func = fire(lid, behave)
        if where == 'inst':
            inst.append((mode, which, func))
        else:
            (base if where == 'base' else sub)[name] = wrap(mode, which, func)
    Base = type('Base', (P.HasProperties,), base)
    Sub = type('Sub', (Base,), sub)
    return Base, Sub, inst


def attach(obj, inst):
    for mode, which, func in inst:
        which = P.everything if which == 'EVERY' else which
        if mode == 'validate':
            P.validator(obj, which, func)
        else:
            P.observer(obj, which, func,
                       change_only=mode == 'observe_change')


def ordering(config):
    """Listeners per instance, in the order the documentation implies."""
    base = [i for i in config if CATALOGUE[i][0] == 'base']
    sub = [i for i in config if CATALOGUE[i][0] == 'sub']
    inst = [i for i in config if CATALOGUE[i][0] == 'inst']
    hidden = {CATALOGUE[i][1] for i in sub}
    sub_list = [i for i in base if CATALOGUE[i][1] not in hidden] + sub

    def expand(ids):
        return [(i,) + CATALOGUE[i][2:] for i in ids]
    return {'a': expand(sub_list + inst), 'b': expand(sub_list),
            'c': expand(base)}


OPS = [('a', 'p', 3), ('a', 'p', 3.0), ('a', 'p', 5), ('a', 'p', 6),
       ('a', 'p', 'x'), ('a', 'q', 1), ('a', 'q', 1 + 1e-12), ('a', 's', 'b'),
       ('a', 'p', UNDEF), ('a', 'del', 'p'), ('a', 'reset', 's'),
       ('a', 'del', 's'), ('b', 'p', 3), ('c', 'p', 5), ('c', 'q', 7)]


def run_config(ctx, config, depth, ops):
    log, names = [], {}
    Base, Sub, inst = build(config, log, names)
    order = ordering(config)

    def execute(seq):
        objs = {'a': Sub(), 'b': Sub(), 'c': Base()}
        names.clear()
        names.update({id(o): w for w, o in objs.items()})
        attach(objs['a'], inst)
        del log[:]
        model = Model(order)
        ctx.trace = ['listeners %s' % (config,)]
        for who, prop, value in seq:
            label = '%s %s %r' % (who, prop, value)
            ctx.trace.append(label)
            obj = objs[who]
            saved = {w: dict(s) for w, s in model.state.items()}
            mark = len(model.log)
            if prop == 'del':
                real = core.attempt(delattr, obj, value)
                args = (who, value, UNDEF)
            elif prop == 'reset':
                real = core.attempt(obj._reset, value)
                args = (who, value, DEFAULT[value])
            else:
                real = core.attempt(setattr, obj, prop,
                                    P.undefined if value == UNDEF else value)
                args = (who, prop, value)
            ctx.step()
            try:
                model.set(*args)
                vetoed = False
            except Veto:
                vetoed = True
            if vetoed:
                core.expect(ctx, real, ValueError, label)
            else:
                core.expect_ok(ctx, real, label)
            ctx.check(log == model.log, lambda: '%s: notifications\n  %s\n'
                      'expected\n  %s' % (label, log[mark:], model.log[mark:]))
            for w, o in objs.items():
                for p in PROPS:
                    got = getattr(o, p)
                    want = model.state[w][p]
                    ctx.check((got is None) if want == UNDEF else
                              (got == want and type(got) is type(want)),
                              lambda: '%s: %s.%s is %r, expected %r' % (
                                  label, w, p, got, want))
            ctx.outcome((vetoed, len(model.log) - mark))
            ctx.state((config, tuple(sorted(
                (w, tuple(s.items())) for w, s in model.state.items()))))
        ctx.traces += 1

    for seq in itertools.product(ops, repeat=depth):
        core.guarded(ctx, lambda: execute(seq))
        if ctx.full():
            return


def subsets(ctx, size, depth, part, parts, ops=OPS):
    count = 0
    for idx, config in enumerate(itertools.combinations(
            range(len(CATALOGUE)), size)):
        if idx % parts != part:
            continue
        run_config(ctx, config, depth, ops)
        count += 1
        if ctx.full():
            return
    ctx.sample('%d listener sets of size %d x %d^%d histories' % (
        count, size, len(ops), depth))


def orders(ctx):
    """Instance-level listeners run in registration order, whatever it is."""
    inst = [i for i, c in enumerate(CATALOGUE) if c[0] == 'inst'] 
    for config in itertools.permutations(inst, 3):
        run_config(ctx, config, 1, OPS)
        if ctx.full():
            return
    klass = [i for i, c in enumerate(CATALOGUE) if c[0] == 'base']
    for config in itertools.permutations(klass, 3):
        run_config(ctx, config, 1, OPS)
        if ctx.full():
            return
    ctx.sample('registration orders')


def later(ctx):
    """Listeners registered or properties set between other operations."""
    for first, second in itertools.permutations(
            [i for i, c in enumerate(CATALOGUE) if c[0] == 'inst'], 2):
        for seq in itertools.product(OPS[:12], repeat=2):
            def one():
                log, names = [], {}
                Base, Sub, _ = build((), log, names)
                _, _, reg1 = build((first,), log, names)
                _, _, reg2 = build((second,), log, names)
                obj = Sub()
                names[id(obj)] = 'a'
                listeners = {'a': []}
                model = Model(listeners)
                for reg, lid, op in ((reg1, first, seq[0]),
                                     (reg2, second, seq[1])):
                    attach(obj, reg)
                    listeners['a'].append((lid,) + CATALOGUE[lid][2:])
                    _, prop, value = op
                    if prop == 'del':
                        real = core.attempt(delattr, obj, value)
                        args = ('a', value, UNDEF)
                    elif prop == 'reset':
                        real = core.attempt(obj._reset, value)
                        args = ('a', value, DEFAULT[value])
                    else:
                        real = core.attempt(
                            setattr, obj, prop,
                            P.undefined if value == UNDEF else value)
                        args = ('a', prop, value)
                    ctx.step()
                    try:
                        model.set(*args)
                        core.expect_ok(ctx, real, repr(op))
                    except Veto:
                        core.expect(ctx, real, ValueError, repr(op))
                    ctx.check(log == model.log, lambda: '%r: %s, expected %s'
                              % (op, log, model.log))
                ctx.state((first, second, seq))
            if not core.case(ctx, (first, second, seq), one):
                return


REPEATED = [('validate', 'EVERY'), ('observe_change', 'EVERY'),
            ('observe_set', 'EVERY'), ('observe_set', '_h'),
            ('validate', ['p', '_h']), ('observe_change', ('_h', 's'))]


def repeated(ctx):
    """Private names, functions registered several times, and listeners that
    write into the notification they were given."""
    ops = [('p', 1), ('p', 1), ('_h', 2), ('_h', P.undefined), ('s', 'x'),
           ('_h', 3), ('p', P.undefined)]

    def wrap(mode, which, func):
        if mode == 'validate':
            return P.validator(which)(func)
        return P.observer(which, change_only=mode == 'observe_change')(func)

    def one(config, place, tamper):
        log = []

        def func(self, change):
            log.append((change['name'], change['mode'], out(change['previous']),
                        out(change['value'])))
            if tamper:
                change['name'] = change['previous'] = 'other'
                if tamper == 'mode':
                    change['mode'] = 'other'
        body = {'p': P.Integer(''), '_h': P.Integer(''),
                's': P.String('', default='q')}
        decl = [(m, P.everything if w == 'EVERY' else w) for m, w in config]
        if place == 'class':
            for num, (mode, which) in enumerate(decl):
                body['listen%d' % num] = wrap(mode, which, func)
        obj = type('Owner', (P.HasProperties,), body)()
        if place == 'instance':
            for mode, which in decl:
                if mode == 'validate':
                    P.validator(obj, which, func)
                else:
                    P.observer(obj, which, func,
                               change_only=mode == 'observe_change')
        state = {'p': P.undefined, '_h': P.undefined, 's': 'q'}
        for name, value in ops:
            del log[:]
            want = []
            prev = state[name]
            for mode in ('validate', 'observe_change', 'observe_set'):
                if mode == 'observe_change' and prev == value:
                    continue
                for kind, which in config:
                    if kind == mode and (which == 'EVERY' or name in which):
                        want.append((name, mode, out(prev), out(value)))
            setattr(obj, name, value)
            state[name] = value
            ctx.step()
            ctx.same(log, want, '%s = %s' % (name, out(value)))
        ctx.state(repr((config, place, tamper)))

    for size in (1, 2, 3):
        for config in itertools.product(REPEATED, repeat=size):
            modes = [mode for mode, _ in config]
            for place in ('class', 'instance'):
                for tamper in (False, True, 'mode'):
                    # what later listeners of the same kind get is unspecified
                    if tamper and len(set(modes)) < size:
                        continue
                    if not core.case(ctx, (config, place, tamper),
                                     lambda: one(config, place, tamper)):
                        return


class Numbers(list):
    """A list under another name."""


def equality(ctx):
    """A change is whatever the property's own `equal` does not call equal."""
    import datetime
    import numpy as np

    class Never(P.Property):
        def equal(self, value_a, value_b):
            return False

    class Always(P.Property):
        def equal(self, value_a, value_b):
            return True

    class Lengths(P.List):
        def equal(self, value_a, value_b):
            return len(value_a) == len(value_b)

    class Node(P.HasProperties):
        num = P.Integer('')

    def plain(a, b):
        return a == b

    shared = Node(num=1)
    day = datetime.datetime(2020, 1, 2)
    kinds = [
        ('untyped', lambda: P.Property(''), plain,
         [1, 1.0, True, 0, False, 'a', '', (1,), [1], Numbers([1])]),
        ('never equal', lambda: Never(''), lambda a, b: False, [1, 2, 'a']),
        ('always equal', lambda: Always(''), lambda a, b: True, [1, 2, 'a']),
        ('by length', lambda: Lengths('', P.Integer('')),
         lambda a, b: len(a) == len(b), [[], [1], [2], [1, 2]]),
        ('float', lambda: P.Float(''), lambda a, b: abs(a - b) <= 1e-9,
         [0, -0.0, 1, 1 + 1e-10, 1 + 1e-8]),
        ('boolean', lambda: P.Boolean(''), plain, [True, False]),
        ('string', lambda: P.String(''), plain, ['', 'a', 'A']),
        ('integer', lambda: P.Integer(''), plain, [0, 0.0, 1, True, 1.0]),
        ('color', lambda: P.Color(''), plain,
         ['black', '#000', (0, 0, 0), 'red']),
        ('datetime', lambda: P.DateTime(''), plain,
         [day, '2020-01-02', datetime.datetime(2020, 1, 3)]),
        ('list', lambda: P.List('', P.Float('')),
         lambda a, b: len(a) == len(b) and all(
             abs(x - y) <= 1e-9 for x, y in zip(a, b)),
         [[], [1], Numbers([1]), [1 + 1e-10], [2], [1, 1]]),
        ('tuple', lambda: P.Tuple('', P.String('')), plain,
         [(), ('',), ('a',), ('a', 'a')]),
        ('set', lambda: P.Set('', P.Integer('')), plain,
         [set(), {1}, {1.0}, {1, 2}]),
        ('dictionary', lambda: P.Dictionary(''), plain,
         [{}, {'a': None}, {'a': 1}, {'b': None}, {'a': True}]),
        ('array', lambda: P.Array('', shape=('*',), dtype=float),
         lambda a, b: len(a) == len(b) and bool((np.asarray(a) ==
                                                 np.asarray(b)).all()),
         [np.zeros(0), np.zeros(1), np.zeros(2), np.ones(1)]),
        ('instance', lambda: P.Instance('', Node, auto_create=False),
         lambda a, b: a.num == b.num,
         [shared, Node(num=1), Node(num=2), Node()]),
        ('union', lambda: P.Union('', [P.Integer(''), P.List('', P.Bool(''))]),
         plain, [0, 1, 1.0, [True], [False], []]),
    ]

    def one(make, equal, seq, place):
        log = []

        def changed(self, change):
            log.append((change['mode'], change['previous'], change['value']))
        prop = make()
        body = {'val': prop}
        if place == 'class':
            body['watch'] = P.observer('val', change_only=True)(changed)
        obj = type('Owner', (P.HasProperties,), body)()
        del obj.val
        if place == 'instance':
            P.observer(obj, 'val', changed, change_only=True)
        prev = P.undefined
        for value in seq:
            del log[:]
            if value is P.undefined:
                del obj.val
            else:
                obj.val = value
            ctx.step()
            now = obj.val
            new = P.undefined if now is None else now
            want = (prev is not new if P.undefined in (typed(prev), typed(new))
                    else not equal(prev, new))
            ctx.check(len(log) == int(want), lambda: 'from %s to %s: %d change '
                      'notifications, expected %d' % (
                          core.show(prev), core.show(value), len(log), want))
            if want:
                ctx.check(log[0][0] == 'observe_change' and
                          log[0][2] is new,
                          lambda: 'notified with %s' % (log,))
            prev = new

    def typed(val):
        return P.undefined if val is P.undefined else 0

    for name, make, equal, values in kinds:
        for seq in itertools.product(values + [P.undefined], repeat=3):
            for place in ('class', 'instance'):
                if not core.case(ctx, (name, seq, place),
                                 lambda: one(make, equal, seq, place)):
                    return
        ctx.state(name)
    ctx.sample('%d kinds of properties' % len(kinds))


def scenarios(tier):
    yield ('names', lambda ctx: names.named(ctx, names.heard))
    yield ('many', lambda ctx: sizes.counted(ctx, sizes.listeners))
    quick = tier != 'thorough'
    yield 'no or one listener', lambda ctx: (
        subsets(ctx, 0, 2, 0, 1), subsets(ctx, 1, 3 if quick else 4, 0, 1))
    yield 'two listeners', lambda ctx: subsets(ctx, 2, 2 if quick else 3, 0, 1)
    parts = 4 if quick else 8
    for part in range(parts):
        yield 'three listeners %d/%d' % (part, parts), lambda ctx, part=part: \
            subsets(ctx, 3, 2 if quick else 3, part, parts,
                    OPS if not quick else OPS[:12])
    if not quick:
        for part in range(8):
            yield 'four listeners %d/8' % part, lambda ctx, part=part: \
                subsets(ctx, 4, 2, part, 8)
    yield 'registration orders', orders
    yield 'late registration', later
    yield 'what counts as a change', equality
    yield 'private names and repeated registration', repeated
