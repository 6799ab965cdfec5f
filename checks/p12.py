"""P12: what a class inherits, against Python's own resolution order."""
import itertools

import properties as P
from properties.extras import HasUID

from mc import core, names, sizes

PROPERTY = 'P12'
BOUNDS = ('every hierarchy of 1 to 5 classes in chain, fork, diamond, skew '
          'diamond, twisted, plain-mixin and two-root shapes, each class '
          'independently leaving out, declaring or removing one name as one of '
          '14 kinds of members (6 in the 4- and 5-class shapes in quick); every '
          'pair of two names; every placement of registries; every class of a '
          'hierarchy is exercised after all classes exist')
ASSUMPTIONS = ['a property object is declared under one name only',
               'class-level defaults name properties that the class has']

SHAPES = {
    'single': [('A', ())],
    'chain2': [('A', ()), ('B', ('A',))],
    'chain3': [('A', ()), ('B', ('A',)), ('C', ('B',))],
    'chain4': [('A', ()), ('B', ('A',)), ('C', ('B',)), ('D', ('C',))],
    'fork': [('A', ()), ('B', ('A',)), ('C', ('A',))],
    'roots': [('A', ()), ('B', ()), ('C', ('A', 'B'))],
    'plain first': [('A', ()), ('M', None), ('C', ('M', 'A'))],
    'plain last': [('A', ()), ('M', None), ('C', ('A', 'M'))],
    'plain chain': [('A', ()), ('M', None), ('C', ('M', 'A')), ('D', ('C',))],
    'diamond': [('A', ()), ('B', ('A',)), ('C', ('A',)), ('D', ('B', 'C'))],
    'skew': [('A', ()), ('B', ('A',)), ('C', ('A',)), ('D', ('B',)),
             ('E', ('D', 'C'))],
    'skew2': [('A', ()), ('B', ('A',)), ('C', ('A',)), ('D', ('C',)),
              ('E', ('B', 'D'))],
    'twist': [('A', ()), ('B', ()), ('C', ('A', 'B')), ('D', ('A',)),
              ('E', ('C', 'D'))],
    'half': [('A', ()), ('B', ('A',)), ('D', ('B', 'A'))],
}

KINDS = ('none', 'prop', 'plain', 'method', 'immutable', 'dynamic', 'renamed',
         'observer', 'changes', 'set validator', 'class validator', 'builtin',
         'list', 'gone')
FEW = ('none', 'prop', 'gone', 'observer', 'class validator', 'dynamic')
PROPLIKE = ('prop', 'immutable', 'dynamic', 'renamed', 'list')
TARGETS = ('t0', 't1')


def member(kind, idx, name, log, target='t0'):
    """An object to declare in a class body."""
    def tell(self, *change):
        log.append((kind, idx, name))

    if kind == 'prop':
        return P.Integer('int of %d' % idx, min=10 * idx, max=10 * idx + 5,
                         required=False).tag(who=idx)
    if kind == 'list':
        return P.List('list of %d' % idx, P.Integer(
            '', min=10 * idx, max=10 * idx + 5), required=False).tag(who=idx)
    if kind == 'immutable':
        return P.GettableProperty('fixed of %d' % idx,
                                  default=500 + idx).tag(who=idx)
    if kind == 'dynamic':
        def func(self):
            return 600 + idx
        func.__name__ = str(name)
        return P.Integer('dynamic of %d' % idx).tag(who=idx)(func)
    if kind == 'renamed':
        return P.Renamed(target, warn=False).tag(who=idx)
    if kind == 'gone':
        return None
    if kind == 'plain':
        return 1000 + idx
    if kind == 'method':
        return lambda self: 2000 + idx
    if kind == 'builtin':
        return property(lambda self: 3000 + idx)
    if kind == 'observer':
        return P.observer(target)(lambda self, change: tell(self, change))
    if kind == 'changes':
        return P.observer([target], change_only=True)(
            lambda self, change: tell(self, change))
    if kind == 'set validator':
        return P.validator(target)(lambda self, change: tell(self, change))
    assert kind == 'class validator'
    return P.validator(lambda self: tell(self))


def exercise(ctx, cls, name, kind, idx, log, label, target='t0', silent=()):
    """The member `name` of the class behaves as the given definition."""
    inst = cls()
    got = name in cls._props
    ctx.check(got == (kind in PROPLIKE), lambda: '%s: %s is %slisted as a '
              'property, but it is %s' % (label, name, '' if got else 'not ',
                                          kind))
    known, _ = P.filter_props(cls, {name: 1})
    ctx.check((name in known) == (kind in PROPLIKE), label + ': filter_props')
    del log[:]
    setattr(inst, target, 7)
    want = [(kind, idx, name)] if kind in ('observer', 'changes',
                                           'set validator') else []
    ctx.check([x for x in log if x[2] == name] == want, lambda: '%s: setting '
              'the target fired %s, expected %s' % (label, log, want))
    del log[:]
    valid = core.attempt(inst.validate)
    core.expect_ok(ctx, valid, label + ': validate')
    # property-set validators also judge stored values
    want = {(kind, idx, name)} if kind in ('class validator',
                                           'set validator') else set()
    seen = [x for x in log if x[2] == name]
    ctx.check(set(seen) == want and len(seen) <= 1, lambda: '%s: validate '
              'fired %s, expected %s' % (label, log, want))
    ctx.step(2)
    if kind in PROPLIKE:
        prop = cls._props[name]
        ctx.same(prop.meta.get('who'), idx, label + ': owner of the property')
        ctx.same(prop.name, name, label + ': name of the property')
    low = 10 * idx
    if kind in ('prop', 'list'):
        wrap = (lambda v: [v]) if kind == 'list' else (lambda v: v)
        ctx.check(getattr(inst, name) is None, label + ': no value yet')
        setattr(inst, name, wrap(low + 5))
        ctx.same(getattr(inst, name), wrap(low + 5), label + ': value')
        for bad in (low - 1, low + 6):
            out = core.attempt(setattr, inst, name, wrap(bad))
            err = core.expect(ctx, out, ValueError,
                              label + ': setting %d' % bad)
            ctx.check("'%s'" % name in str(err), lambda: '%s: error does not '
                      'name the property: %s' % (label, err))
        ctx.same(getattr(inst, name), wrap(low + 5), label + ': unchanged')
        ctx.same(getattr(cls(**{name: wrap(low)}), name), wrap(low),
                 label + ': keyword')
        ctx.same(inst.serialize(include_class=False)[name], wrap(low + 5),
                 label + ': serialized')
    elif kind == 'immutable':
        ctx.same(getattr(inst, name), 500 + idx, label + ': value')
        core.expect(ctx, core.attempt(setattr, inst, name, 1), AttributeError,
                    label + ': setting an immutable')
        ctx.same(inst.serialize()[name], 500 + idx, label + ': serialized')
    elif kind == 'dynamic':
        ctx.same(getattr(inst, name), 600 + idx, label + ': value')
        core.expect(ctx, core.attempt(setattr, inst, name, 1), AttributeError,
                    label + ': setting a dynamic')
        ctx.check(name not in inst.serialize(), label + ': not serialized')
        ctx.same(inst.serialize(save_dynamic=True)[name], 600 + idx,
                 label + ': serialized')
    elif kind == 'renamed':
        setattr(inst, name, 9)
        ctx.same(getattr(inst, target), 9, label + ': set by the old name')
        ctx.same(getattr(inst, name), 9, label + ': read by the old name')
        ctx.check(name not in inst.serialize(), label + ': not serialized')
    else:
        ctx.check(name not in inst.serialize(save_dynamic=True),
                  lambda: '%s: serialized %s' % (label, inst.serialize()))
        if kind == 'plain':
            ctx.same(getattr(inst, name), 1000 + idx, label + ': value')
        elif kind == 'gone':
            ctx.check(getattr(inst, name) is None, label + ': removed')
        elif kind == 'method':
            ctx.same(getattr(inst, name)(), 2000 + idx, label + ': result')
        elif kind == 'builtin':
            ctx.same(getattr(inst, name), 3000 + idx, label + ': value')
        elif kind == 'none':
            core.expect(ctx, core.attempt(getattr, inst, name),
                        AttributeError, label + ': undeclared name')
            core.expect(ctx, core.attempt(lambda: cls(**{name: 1})),
                        AttributeError, label + ': undeclared keyword')
        else:
            ctx.check(callable(getattr(inst, name)), label + ': callable')
    ctx.check(('**%s**' % name in cls.__doc__) == (
        kind in PROPLIKE), lambda: '%s: documentation lists %s: %s' % (
            label, name, cls.__doc__))


def snapshot(cls):
    return (tuple(cls._props.items()), cls.__doc__,
            tuple((k, id(v)) for k, v in sorted(vars(cls).items())
                  if not k.startswith('__')))


def build(ctx, shape, kinds, log, names=('x',)):
    """Classes of the shape; kinds[i] is a tuple of kinds, one per name."""
    made, own, before = {}, {}, {}
    for idx, (cname, bases) in enumerate(SHAPES[shape]):
        space = {}
        if bases == ():
            space['_REGISTRY'] = {}
            for target in TARGETS:
                space[target] = P.Integer('target', required=False)
        own[cname] = {}
        for name, kind, target in zip(names, kinds[idx], TARGETS):
            if kind != 'none':
                space[name] = member(kind, idx + 1, name, log, target)
                own[cname][name] = (kind, idx + 1)
        if bases is None:
            made[cname] = type(str(cname), (object,), space)
            continue
        base_objs = tuple(made[b] for b in bases) or (P.HasProperties,)
        made[cname] = type(P.HasProperties)(str(cname), base_objs, space)
        ctx.step()
        for other, old in before.items():
            ctx.check(snapshot(made[other]) == old, 'defining class %s '
                      'altered class %s' % (cname, other))
        before[cname] = snapshot(made[cname])
    return made, own


def resolve(cls, own, name):
    for anc in cls.__mro__:
        if name in own.get(anc.__name__, ()):
            return own[anc.__name__][name]
    return ('none', 0)


def one(ctx, shape, kinds):
    log = []
    label = '%s %s' % (shape, '/'.join(kinds))
    ctx.trace = [label]
    made, own = build(ctx, shape, [(k,) for k in kinds], log)
    for cname, bases in SHAPES[shape]:
        if bases is None:
            continue
        kind, idx = resolve(made[cname], own, 'x')
        exercise(ctx, made[cname], 'x', kind, idx, log,
                 '%s, class %s' % (label, cname))
        ctx.state((label, cname))
        ctx.outcome((cname, kind, idx))
    ctx.traces += 1


def plain_kinds(bases, kinds):
    """Members a plain (non-HasProperties) mixin can have."""
    if bases is None:
        return [k for k in kinds if k in ('none', 'plain', 'method', 'gone',
                                          'builtin')]
    return kinds


def hierarchies(shape, part=0, parts=1):
    def run(ctx):
        classes = SHAPES[shape]
        big = len(classes) > 3
        kinds = KINDS
        if big and ctx.quick:
            kinds = FEW if len(classes) == 4 else FEW[:4]
        elif len(classes) == 5:
            kinds = FEW + ('immutable',)
        count = 0
        for choice in itertools.product(*[
                plain_kinds(bases, kinds) for _, bases in classes]):
            count += 1
            if count % parts != part:
                continue
            core.guarded(ctx, lambda: one(ctx, shape, choice))
            if ctx.full():
                return
        ctx.sample('all %d declarations of one name in shape %s' % (
            count, shape))
    return run


def pairs(shape):
    """Two names at once: neither influences the other."""
    def run(ctx):
        classes = SHAPES[shape]
        kinds = ('none', 'prop', 'gone', 'observer') if ctx.quick else FEW
        options = list(itertools.product(kinds, repeat=2))
        for choice in itertools.product(options, repeat=len(classes)):
            label = '%s %s' % (shape, choice)
            ctx.trace = [label]

            def go():
                log = []
                made, own = build(ctx, shape, choice, log, ('x', 'y'))
                for cname, _ in classes:
                    for name, target in zip(('x', 'y'), TARGETS):
                        kind, idx = resolve(made[cname], own, name)
                        exercise(ctx, made[cname], name, kind, idx, log,
                                 '%s, class %s' % (label, cname), target)
                    ctx.state((label, cname))
                ctx.traces += 1
            core.guarded(ctx, go)
            if ctx.full():
                return
    return run


def registries(ctx):
    """Which registry every class lands in."""
    for shape, classes in SHAPES.items():
        for flags in itertools.product((False, True), repeat=len(classes)):
            label = 'registries %s %s' % (shape, flags)

            def go():
                root = {}
                made, own = {}, {'Root': root}
                class Root(P.HasProperties):
                    _REGISTRY = root
                all_regs = [root]
                for (cname, bases), flag in zip(classes, flags):
                    space = {}
                    if flag:
                        own[cname] = space['_REGISTRY'] = {}
                        all_regs.append(own[cname])
                    if bases is None:
                        made[cname] = type(str(cname), (object,), space)
                        continue
                    objs = tuple(made[b] for b in bases) or (Root,)
                    made[cname] = type(P.HasProperties)(str(cname), objs,
                                                        space)
                for cname, bases in classes:
                    if bases is None:
                        continue
                    cls = made[cname]
                    want = next(own[a.__name__] for a in cls.__mro__
                                if a.__name__ in own)
                    for reg in all_regs:
                        ctx.check((reg.get(cname) is cls) == (reg is want),
                                  '%s: class %s is in the wrong registry' % (
                                      label, cname))
                    ctx.check(P.HasProperties._REGISTRY.get(cname) is not cls,
                              '%s: class %s in the global registry' % (
                                  label, cname))
                    got = Root.deserialize({'__class__': cname}, trusted=True)
                    ctx.check(type(got) is root.get(cname, Root),
                              '%s: trusted name %s built %s' % (
                                  label, cname, type(got)))
                    got = cls.deserialize({'__class__': 'A'}, trusted=True)
                    ctx.check(type(got) is want.get('A', cls), label)
                ctx.state(label)
                ctx.step(len(classes))
            core.case(ctx, label, go)
    for flag in (False, True):
        def own_registry():
            space = {'_REGISTRY': {}} if flag else {}
            cls = type(P.HasProperties)('OwnUid', (HasUID,), space)
            try:
                regs = {'HasProperties': P.HasProperties._REGISTRY,
                        'HasUID': HasUID._REGISTRY,
                        'own': cls._REGISTRY}
                want = 'own' if flag else 'HasUID'
                for name, reg in regs.items():
                    ctx.check((reg.get('OwnUid') is cls) ==
                              (reg is regs[want]), lambda: 'a class with '
                              'identifiers is in the registry of ' + name)
                got = P.HasProperties.deserialize(
                    {'__class__': 'OwnUid'}, trusted=True)
                ctx.check(type(got) is P.HasProperties, 'built a class of '
                          'another registry')
                ctx.step(4)
            finally:
                HasUID._REGISTRY.pop('OwnUid', None)
            ctx.state(('HasUID', flag))
        core.case(ctx, 'registry of HasUID, own %s' % flag, own_registry)


def redefined(ctx):
    """A name used again stands for the latest class of that name."""
    for order in itertools.product((0, 1, 2), repeat=4):
        def one():
            root, side = {}, {}

            class Base(P.HasProperties):
                _REGISTRY = root
                num = P.Integer('', required=False)

            class Side(Base):
                _REGISTRY = side
            want = {0: {}, 1: {}}
            for step, kind in enumerate(order):
                # a class of the root registry, one of the other registry,
                # or one of the root registry below an earlier class
                parent = {0: Base, 1: Side,
                          2: want[0].get('Again', Base)}[kind]
                cls = type(P.HasProperties)('Again', (parent,), {
                    'step': P.Integer('', default=step)})
                reg = 1 if kind == 1 else 0
                want[reg]['Again'] = cls
                ctx.step()
                for known, wanted in ((root, want[0]), (side, want[1])):
                    ctx.check(known.get('Again') is wanted.get('Again'),
                              lambda: '%s: the name stands for an outdated '
                              'class' % (order,))
                for start, idx in ((Base, 0), (Side, 1)):
                    got = start.deserialize({'__class__': 'Again'},
                                            trusted=True)
                    ctx.check(type(got) is want[idx].get('Again', start),
                              lambda: '%s: built an outdated class' % (order,))
                dup = P.copy(cls(num=5))
                ctx.check(type(dup) is cls and dup.num == 5,
                          'the copy has an outdated class')
            ctx.state(order)
        if not core.case(ctx, ('redefined',) + order, one):
            return


def together(ctx):
    """Everything else is inherited; listeners fire once and in MRO order."""
    for shape, classes in SHAPES.items():
        if any(bases is None for _, bases in classes):
            continue
        for over in itertools.product((False, True), repeat=len(classes)):
            label = 'together %s %s' % (shape, over)

            def go():
                log = []
                made = {}
                own = {}
                for idx, (cname, bases) in enumerate(classes):
                    def note(tag):
                        return lambda self, *change: log.append(tag)
                    space = {'p%s' % cname: P.Integer('', required=False)}
                    if bases == ():
                        space['t'] = P.Integer('', required=False)
                    space['obs' + cname] = P.observer('t')(
                        note('obs' + cname))
                    space['all' + cname] = P.observer(P.everything)(
                        note('all' + cname))
                    space['val' + cname] = P.validator(note('val' + cname))
                    own[cname] = ['obs' + cname, 'all' + cname]
                    if over[idx]:
                        space['shared'] = P.observer('t')(
                            note('shared' + cname))
                        space['whole'] = P.validator(note('whole' + cname))
                    objs = tuple(made[b] for b in bases) or (P.HasProperties,)
                    made[cname] = type(P.HasProperties)(str(cname), objs,
                                                        space)
                for cname, _ in classes:
                    cls = made[cname]
                    mro = [a.__name__ for a in cls.__mro__
                           if a.__name__ in own]
                    inst = cls()
                    names = sorted(k for k in cls._props)
                    want = sorted(['p' + a for a in mro] + ['t'])
                    ctx.check(names == want, '%s: properties %s' % (
                        label, names))
                    over_by = [a for a in mro
                               if over[[c[0] for c in classes].index(a)]]
                    del log[:]
                    inst.t = 1
                    want = sorted(sum((own[a] for a in mro), []) + (
                        ['shared' + over_by[0]] if over_by else []))
                    ctx.check(sorted(log) == want, lambda: '%s: setting fired '
                              '%s, expected %s' % (label, log, want))
                    # a class's own listeners follow the inherited ones
                    for one, two in itertools.combinations(mro, 2):
                        if issubclass(made[one], made[two]):
                            ctx.check(log.index('obs' + two) < log.index(
                                'obs' + one), lambda: '%s: order %s' % (
                                    label, log))
                    for a in mro:
                        del log[:]
                        setattr(inst, 'p' + a, 2)
                        ctx.check(sorted(log) == sorted(
                            'all' + b for b in mro), lambda: '%s: setting '
                            'p%s fired %s' % (label, a, log))
                    del log[:]
                    inst.validate()
                    want = sorted(['val' + a for a in mro] + (
                        ['whole' + over_by[0]] if over_by else []))
                    ctx.check(sorted(log) == want, lambda: '%s: validate '
                              'fired %s, expected %s' % (label, log, want))
                    ctx.step(2 + len(mro))
                    ctx.state((label, cname))
            core.case(ctx, label, go)
            if ctx.full():
                return


def scenarios(tier):
    yield ('names', lambda ctx: names.named(ctx, names.member))
    yield ('many', lambda ctx: sizes.counted(ctx, sizes.lineage))
    for shape, classes in SHAPES.items():
        if len(classes) < 3:
            parts = 1
        elif tier == 'quick':
            parts = 2
        else:
            parts = {3: 2, 4: 8, 5: 6}[len(classes)]
        for part in range(parts):
            yield ('one name, %s %d' % (shape, part),
                   hierarchies(shape, part, parts))
    for shape in ('chain2',) + (() if tier == 'quick' else (
            'chain3', 'fork', 'roots')):
        yield ('two names, %s' % shape, pairs(shape))
    yield ('registries', registries)
    yield ('together', together)
    yield ('redefined', redefined)
