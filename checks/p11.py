"""P11: where defaults come from, that they are fresh, and silent."""
import itertools

import properties as P

from mc import core, names
from mc import types as T

PROPERTY = 'P11'
BOUNDS = ('every placement of a default (type: none/value/callable; property: '
          'none/value/callable/undefined, optionally redeclared in a subclass; '
          'class-level at every class of chain, fork, diamond and mixin '
          'hierarchies of up to 4 classes: none/value/callable/undefined); '
          'every accepted value of every primitive type configuration as '
          'property and class-level default; every sequence of 3 (quick) / 4 '
          '(thorough) operations of 20 on up to 3 instances with 6 kinds of '
          'mutable defaults')
ASSUMPTIONS = ['mutable static defaults of untyped properties are shared by '
               'design; only callable ones and typed containers are fresh']

UND = P.undefined
SHAPES = {
    # name -> list of (class name, bases), in order of definition
    'chain': [('A', ()), ('B', ('A',)), ('C', ('B',))],
    'fork': [('A', ()), ('B', ('A',)), ('C', ('A',))],
    'diamond': [('A', ()), ('B', ('A',)), ('C', ('A',)), ('D', ('B', 'C'))],
    'mixin': [('A', ()), ('M', None), ('C', ('A', 'M')), ('D', ('C',))],
    'skew': [('A', ()), ('B', ('A',)), ('C', ('B',)), ('D', ('A',)),
             ('E', ('C', 'D'))],
}


def log_listeners(body, log):
    """Class-level listeners of every kind for every property."""
    def seen(self, change):
        log.append((change['mode'], change['name'], change['previous'],
                    change['value']))
    body['check_it'] = P.validator(P.everything)(lambda s, c: seen(s, c))
    body['on_set'] = P.observer(P.everything)(lambda s, c: seen(s, c))
    body['on_change'] = P.observer(P.everything, change_only=True)(
        lambda s, c: seen(s, c))
    return body


KINDS = ('none', 'value', 'callable', 'undefined')


def declare(kind, number):
    """(declared?, object to declare, resulting value) for a default."""
    if kind == 'none':
        return False, None, None
    if kind == 'value':
        return True, [number], [number]
    if kind == 'callable':
        return True, lambda: [number], [number]
    return True, UND, None


def check_class(ctx, cls, want, log, label, deep):
    """Defaults of one class, in all their uses."""
    del log[:]
    one = cls()
    ctx.check(not log, lambda: '%s: construction fired listeners: %s' % (
        label, core.show(log)))
    ctx.same(one.p, want, '%s: default of %s' % (label, cls.__name__))
    two = cls()
    ctx.step(2)
    if want is not None:
        ctx.check(one.p is not two.p, '%s: two instances share one default '
                  'object' % label)
        one.p.append(99)
        ctx.same(two.p, want, '%s: changing the default of one instance '
                 'changed another' % label)
        ctx.same(cls().p, want, '%s: changing the default of one instance '
                 'changed the class' % label)
    if not deep:
        return
    del log[:]
    made = cls(p=[50])
    ctx.same(made.p, [50], '%s: keyword overrides the default' % label)
    prev = UND if want is None else want
    modes = ['validate', 'observe_change', 'observe_set']
    ctx.check([x[0] for x in log] == modes, lambda: '%s: keyword fired %s' % (
        label, core.show(log)))
    for entry in log:
        ctx.check(entry[1] == 'p' and (
            entry[2] is UND if prev is UND else
            core.same(entry[2], prev)), lambda: '%s: keyword notification %s '
            'should have the default %s as previous value' % (
                label, core.show(entry), core.show(prev)))
    for undo in ('set', 'delete'):
        if undo == 'delete':
            del made.p
        del log[:]
        made._reset('p')
        ctx.step(2)
        ctx.same(made.p, want, '%s: reset restores the default' % label)
        ctx.check(log and log[0][0] == 'validate' and log[-1][0] ==
                  'observe_set', lambda: '%s: reset notifications %s' % (
                      label, core.show(log)))
        changed = not (undo == 'delete' and want is None)
        ctx.check(('observe_change' in [x[0] for x in log]) == changed,
                  lambda: '%s: change notification of reset: %s' % (
                      label, core.show(log)))
    if want is not None:
        ctx.check(made.p is not two.p, '%s: reset shares the default' % label)


def hierarchy(ctx, shape, type_kind, prop_kind, redo, kinds, redo_kind):
    classes = SHAPES[shape]
    label = '%s type=%s prop=%s redeclared=%s(%s) class-level=%s' % (
        shape, type_kind, prop_kind, redo, redo_kind,
        ','.join('%s:%s' % (c[0], k) for c, k in zip(classes, kinds)))
    ctx.trace = [label]
    log = []
    has_type, type_obj, type_val = declare(type_kind, 1)
    body = {}
    if has_type:
        body['_class_default'] = (staticmethod(type_obj)
                                  if type_kind == 'callable' else type_obj)
    kind_cls = type('Numbers', (P.List,), body)

    def new_prop(kind, number):
        has, obj, val = declare(kind, number)
        kwargs = {'default': obj} if has else {}
        return kind_cls('doc', prop=P.Integer('item'), required=False,
                        **kwargs), (val if has else type_val)
    made = {}
    own = {}
    prop_def = {}
    registry = {}
    for idx, (name, bases) in enumerate(classes):
        space = {}
        if bases is None:           # a mixin that is not in the hierarchy
            base_objs = (P.HasProperties,)
            space['r'] = P.Integer('other', default=5)
        else:
            base_objs = tuple(made[b] for b in bases) or (P.HasProperties,)
        if idx == 0:
            space['p'], prop_def[name] = new_prop(prop_kind, 2)
            space['q'] = P.Integer('untouched', default=4)
            space['_REGISTRY'] = registry
            log_listeners(space, log)
        elif name == redo:
            space['p'], prop_def[name] = new_prop(redo_kind, 3)
        has, obj, val = declare(kinds[idx], 10 + idx)
        if bases is None:
            if has:
                space['_defaults'] = {'r': 20 + idx}
        elif has:
            space['_defaults'] = {'p': obj}
            own[name] = val
        made[name] = type(P.HasProperties)(name, base_objs, space)
        ctx.step()
    for idx, (name, bases) in enumerate(classes):
        cls = made[name]
        if bases is None:
            ctx.same(cls().r, 20 + idx if kinds[idx] != 'none' else 5,
                     label + ': default of the mixin')
            continue
        mro = [c.__name__ for c in cls.__mro__]
        for anc in mro:
            if anc in own:
                want = own[anc]
                break
        else:
            want = next(prop_def[anc] for anc in mro if anc in prop_def)
        check_class(ctx, cls, want, log, '%s / class %s' % (label, name),
                    deep=(idx == len(classes) - 1))
        ctx.same(cls().q, 4, label + ': the other property')
        if 'M' in mro:
            spot = [c[0] for c in classes].index('M')
            ctx.same(cls().r, 20 + spot if kinds[spot] != 'none' else 5,
                     label + ': default from the mixin')
        ctx.state((label, name, core.canon(want)))
    ctx.traces += 1


def hierarchies(shape, part, parts):
    def run(ctx):
        names = [c[0] for c in SHAPES[shape]]
        count = -1
        types = ('none', 'value', 'callable') if not ctx.quick or shape in (
            'chain', 'diamond') else ('none', 'callable')
        redos = [(None, 'none')]
        for name in names[1:]:
            if SHAPES[shape][names.index(name)][1] is None:
                continue
            redos += [(name, k) for k in (
                KINDS if not ctx.quick or shape == 'chain'
                else ('none', 'value'))]
        kinds_of = KINDS if shape == 'chain' or not ctx.quick else (
            'none', 'value', 'undefined')
        for kinds in itertools.product(kinds_of, repeat=len(names)):
            for type_kind, prop_kind, (redo, redo_kind) in itertools.product(
                    types, KINDS, redos):
                count += 1
                if count % parts != part:
                    continue
                if ctx.quick and shape in ('diamond', 'mixin', 'skew') and \
                        redo and (prop_kind not in ('none', 'value')
                                  or type_kind == 'value'):
                    continue
                core.guarded(ctx, lambda: hierarchy(
                    ctx, shape, type_kind, prop_kind, redo, kinds, redo_kind))
                if ctx.full():
                    return
        ctx.sample('all %d hierarchies of shape %s' % (count + 1, shape))
    return run


# -- values of every type as defaults ----------------------------------------
def type_values(ctx):
    for spec in T.primitive_specs(ctx.quick):
        accepted = [(v, w) for v, w in spec.accepted() if v is not None and
                    not (isinstance(v, str) and v.lower() == 'random')]
        limit = 12 if ctx.quick else 200
        if len(accepted) > limit:       # every stride-th, deterministic
            step = len(accepted) / float(limit)
            accepted = [accepted[int(i * step)] for i in range(limit)]
        if not accepted:
            continue
        other = accepted[0][0]
        for idx, (val, want) in enumerate(accepted):
            if callable(val):
                continue
            core.case(ctx, '%s default=%s' % (spec.name, core.show(val)),
                      one_value, ctx, spec, val, want, other)
            if ctx.full():
                return


def one_value(ctx, spec, val, want, other):
    def body(**kwargs):
        return {'p': spec.make(required=False, **kwargs)}
    Plain = type(P.HasProperties)('Plain', (P.HasProperties,), body(
        default=T.fresh(val)))
    Lazy = type(P.HasProperties)('Lazy', (P.HasProperties,), body(
        default=lambda: T.fresh(val)))
    over = body(default=T.fresh(other))
    over['_defaults'] = {'p': T.fresh(val)}
    Over = type(P.HasProperties)('Over', (P.HasProperties,), over)
    lazy = body()
    lazy['_defaults'] = {'p': lambda: T.fresh(val)}
    OverLazy = type(P.HasProperties)('OverLazy', (P.HasProperties,), lazy)
    Sub = type(P.HasProperties)('Sub', (OverLazy,), {
        '_defaults': {'p': T.fresh(other)}})
    Unset = type(P.HasProperties)('Unset', (Plain,), {
        '_defaults': {'p': UND}})
    other_want = spec.oracle(other)[1]
    for cls, expected in ((Plain, want), (Lazy, want), (Over, want),
                          (OverLazy, want), (Sub, other_want), (Unset, None)):
        inst = cls()
        ctx.same(inst.p, expected, 'default on class %s' % cls.__name__)
        inst.p = T.fresh(other)
        inst._reset('p')
        ctx.same(inst.p, expected, 'reset to default on %s' % cls.__name__)
        del inst.p
        ctx.check(inst.p is None, 'deleted')
        inst._reset()
        ctx.same(inst.p, expected, 'reset all on %s' % cls.__name__)
        ctx.same(cls(p=T.fresh(other)).p, other_want,
                 'keyword overrides default on %s' % cls.__name__)
        ctx.step(5)
        ctx.state((spec.name, cls.__name__, core.canon(val)))
    # immutable properties take the same value
    if type(Plain._props['p']).__name__ == 'Property':
        Fixed = type(P.HasProperties)('Fixed', (P.HasProperties,), {
            'p': P.GettableProperty('doc', default=T.fresh(val))})
        ctx.same(Fixed().p, want, 'immutable default')


# -- histories -------------------------------------------------------------------
class Pool(core.System):
    """Several instances of three classes with mutable defaults."""

    NAMES = ('lst', 'dic', 'st', 'leaf', 'obs', 'uni', 'raw')

    def __init__(self, ctx):
        super().__init__(ctx)
        self.log = log = []

        class Leaf(P.HasProperties):
            num = P.Integer('', default=1)

        body = dict(
            lst=P.List('', P.Integer(''), default=lambda: [1]),
            dic=P.Dictionary('', default=lambda: {'k': 1}),
            st=P.Set('', P.Integer(''), default=set),
            leaf=P.Instance('', Leaf, default=Leaf),
            raw=P.Property('', default=lambda: [8]),
            obs=P.List('', P.Integer(''), default=[7],
                       observe_mutations=True),
            uni=P.Union('', [P.Integer(''), P.List(
                '', P.Integer(''), default=lambda: [3])]),
            fixed=P.GettableProperty('', default=lambda: [5]),
        )
        Base = type(P.HasProperties)('Base', (P.HasProperties,),
                                     log_listeners(body, log))
        Sub = type(P.HasProperties)('Sub', (Base,), {
            '_defaults': {'lst': lambda: [2], 'fixed': lambda: [6],
                          'raw': lambda: [9]}})
        self.Leaf = Leaf
        self.classes = [Base, Sub]
        self.real = []
        self.model = []

    def defaults(self, which):
        return {'lst': [2] if which else [1], 'dic': {'k': 1}, 'st': set(),
                'leaf': 1, 'obs': [7], 'uni': [3],
                'raw': [9] if which else [8],
                'fixed': [6] if which else [5]}

    def new(self, which, **kwargs):
        if len(self.real) >= 3:
            return
        del self.log[:]
        self.real.append(self.classes[which](**kwargs))
        model = self.defaults(which)
        model.update(kwargs)
        model['cls'] = which
        self.model.append(model)
        want = 3 * len(kwargs)
        self.ctx.check(len(self.log) == want, lambda: 'construction fired '
                       'listeners: %s' % core.show(self.log))

    def pick(self, newest):
        if not self.real:
            return None, None
        spot = -1 if newest else 0
        return self.real[spot], self.model[spot]

    def mutate(self, newest):
        real, model = self.pick(newest)
        if real is None:
            return
        for name in ('lst', 'obs', 'fixed', 'uni', 'raw'):
            if isinstance(model[name], list):
                getattr(real, name).append(8)
                model[name] = model[name] + [8]
        if model['dic'] is not None:
            real.dic['new'] = 2
            model['dic'] = dict(model['dic'], new=2)
        if model['st'] is not None:
            real.st.add(4)
            model['st'] = model['st'] | {4}
        if model['leaf'] is not None:
            real.leaf.num = 9
            model['leaf'] = 9

    def reset(self, newest, name):
        real, model = self.pick(newest)
        if real is None:
            return
        del self.log[:]
        real._reset(name)
        names = self.NAMES if name is None else (name,)
        for key in names:
            model[key] = self.defaults(model['cls'])[key]
        got = sorted(x[1] for x in self.log if x[0] == 'observe_set')
        self.ctx.check(got == sorted(names), lambda: 'resetting %s notified '
                       'for %s' % (name or 'everything', got))
        got = sorted(x[1] for x in self.log if x[0] == 'validate')
        self.ctx.check(got == sorted(names), 'resetting ran the validators of '
                       '%s' % got)

    def delete(self, newest, name):
        real, model = self.pick(newest)
        if real is None:
            return
        delattr(real, name)
        model[name] = None

    def assign(self, newest):
        real, model = self.pick(newest)
        if real is None:
            return
        real.lst = [4]
        model['lst'] = [4]
        real.leaf = {'num': 3}
        model['leaf'] = 3

    def fixed_reset(self, newest):
        real, _ = self.pick(newest)
        if real is None:
            return
        out = core.attempt(real._reset, 'fixed')
        core.expect(self.ctx, out, AttributeError,
                    'resetting an immutable property')
        out = core.attempt(real._reset, 'nope')
        core.expect(self.ctx, out, AttributeError, 'resetting an unknown name')

    def ops(self):
        out = [('new Base', lambda s: s.new(0)),
               ('new Sub', lambda s: s.new(1)),
               ('new Base(lst, uni)', lambda s: s.new(0, lst=[4], uni=2))]
        for newest, who in ((True, 'newest'), (False, 'oldest')):
            out += [
                ('mutate ' + who, lambda s, n=newest: s.mutate(n)),
                ('reset all ' + who, lambda s, n=newest: s.reset(n, None)),
                ('assign ' + who, lambda s, n=newest: s.assign(n)),
                ('delete lst ' + who, lambda s, n=newest: s.delete(n, 'lst')),
                ('delete uni ' + who, lambda s, n=newest: s.delete(n, 'uni')),
                ('bad reset ' + who, lambda s, n=newest: s.fixed_reset(n)),
            ]
            out += [('reset %s %s' % (name, who),
                     lambda s, n=newest, k=name: s.reset(n, k))
                    for name in ('lst', 'leaf', 'uni', 'raw')]
        return out

    def check(self):
        for real, model in zip(self.real, self.model):
            for name in self.NAMES + ('fixed',):
                got = getattr(real, name)
                if name == 'leaf' and got is not None:
                    self.ctx.check(type(got) is self.Leaf, 'leaf class')
                    got = got.num
                if isinstance(model[name], list):
                    got = list(got) if isinstance(got, list) else got
                self.ctx.same(got, model[name], 'value of %s' % name)
        for name in self.NAMES + ('fixed',):
            seen = [id(getattr(r, name)) for r in self.real
                    if isinstance(getattr(r, name), (list, dict, set,
                                                     self.Leaf))]
            self.ctx.check(len(seen) == len(set(seen)), 'instances share the '
                           'default of %s' % name)

    def key(self):
        return core.canon([sorted(m.items()) for m in self.model])


def pool(first, part):
    def run(ctx):
        class Started(Pool):
            def __init__(self, ctx):
                super().__init__(ctx)
                for which in first:
                    self.new(which)
        core.explore(ctx, Started, 3 if ctx.quick else 4, part=(part, 4))
    return run


# -- special cases ---------------------------------------------------------------
def special(ctx):
    import warnings
    warnings.simplefilter('ignore')

    def own_init():
        class Odd(P.HasProperties):
            p = P.Integer('', default=3)
            fixed = P.GettableProperty('', default=lambda: [1])

            def __init__(self, factor):
                # no call of the base initializer
                self.seen = (self.p, list(self.fixed))
                self.p = self.p * factor
        odd = Odd(2)
        ctx.same(odd.seen, (3, [1]), 'defaults are there before __init__')
        ctx.same(odd.p, 6, 'value set by __init__')
        odd._reset()
        ctx.same(odd.p, 3, 'reset')

    def auto_create():
        class Leaf(P.HasProperties):
            num = P.Integer('', default=1)
        for auto, expected in ((True, True), (False, False)):
            class Host(P.HasProperties):
                leaf = P.Instance('', Leaf, auto_create=auto)

            class Off(Host):
                _defaults = {'leaf': UND}

            class Other(Host):
                _defaults = {'leaf': lambda: Leaf(num=2)}
            one, two = Host(), Host()
            ctx.check((one.leaf is not None) == expected, 'auto_create')
            ctx.check(Off().leaf is None, 'undefined removes the type default')
            ctx.same(Other().leaf.num, 2, 'class-level default first')
            if auto:
                ctx.check(one.leaf is not two.leaf, 'shared default instance')
                one.leaf.num = 5
                ctx.same((two.leaf.num, Host().leaf.num), (1, 1),
                         'default instance')
                one._reset('leaf')
                ctx.same(one.leaf.num, 1, 'reset instance')

            class Explicit(P.HasProperties):
                leaf = P.Instance('', Leaf, auto_create=auto, default=UND)
            ctx.check(Explicit().leaf is None, 'explicit undefined default')

    def unions():
        mk = {
            'none': lambda n: {},
            'value': lambda n: {'default': n},
            'callable': lambda n: {'default': lambda: n},
            'undefined': lambda n: {'default': UND},
        }
        val = lambda kind, n: n if kind in ('value', 'callable') else None
        for top, one, two, cls in itertools.product(mk, repeat=4):
            label = 'union default %s, members %s %s, class %s' % (
                top, one, two, cls)
            ctx.trace = [label]

            class Host(P.HasProperties):
                p = P.Union('', [P.Integer('', min=0, max=5, **mk[one](1)),
                                 P.Integer('', **mk[two](2))],
                            required=False, **mk[top](30))
            if cls != 'none':
                Host = type(P.HasProperties)('Sub', (Host,), {
                    '_defaults': {'p': mk[cls](4)['default']}})
            if cls != 'none':
                want = val(cls, 4)
            elif top != 'none':
                want = val(top, 30)     # undefined removes any default
            else:
                want = val(one, 1)
                if want is None:
                    want = val(two, 2)
            ctx.same(Host().p, want, label)
            ctx.traces += 1
            ctx.step()
            ctx.state(label)

    def listeners_silent():
        log = []
        body = log_listeners({
            'p': P.Integer('', default=1),
            'q': P.List('', P.Integer(''), default=list,
                        observe_mutations=True),
            'r': P.Integer('', required=False)}, log)

        def boom(self):
            log.append('class validator')
            return True
        body['whole'] = P.validator(boom)
        cls = type(P.HasProperties)('Loud', (P.HasProperties,), body)
        cls()
        ctx.check(not log, lambda: 'defaults fired %s' % core.show(log))
        # even when made by a listener of another instance

        class Maker(P.HasProperties):
            go = P.Integer('')

            @P.observer('go')
            def make(self, change):
                self.made = cls()
        maker = Maker()
        maker.go = 1
        ctx.check(not log, lambda: 'defaults fired %s' % core.show(log))
        maker.made.p = 4
        ctx.check(len(log) == 3, 'listeners work after construction')

    def per_instance():
        count = itertools.count()
        calls = []

        def fresh():
            calls.append(1)
            return next(count)

        class Host(P.HasProperties):
            p = P.Integer('', default=fresh)
            f = P.GettableProperty('', default=fresh)

        class Over(P.HasProperties):
            p = P.Integer('', default=3)
            f = P.GettableProperty('', default=4)
            _defaults = {'p': fresh, 'f': fresh}

        class Sub(Over):
            pass
        for cls in (Host, Over, Sub):
            seen = set()
            for _ in range(4):
                host = cls()
                seen |= {('p', host.p), ('f', host.f)}
                host._reset()
                seen.add(('p', host.p))
                host._reset('p')
                seen.add(('p', host.p))
            ctx.check(len(seen) == 16, 'callable defaults of %s are called '
                      'anew for every instance and reset: %s' % (
                          cls.__name__, seen))
            ctx.step(12)

    def mixins():
        """Ordinary classes that only carry _defaults."""
        for place, own, kinds in itertools.product(
                ('before', 'after', 'above', 'behind', 'late'), (False, True),
                itertools.product((None, 7, int, 'callable', 'undefined'),
                                  repeat=2)):
            def value(kind, num):
                return {'callable': lambda: num, 'undefined': P.undefined,
                        7: num, int: int}[kind]

            def body(kind, num):
                return {} if kind is None else {
                    '_defaults': {'p': value(kind, num)}}

            def result(kind, num):
                return {'callable': num, 'undefined': None, 7: num,
                        int: 0}[kind]
            mix = type('Mix', (object,), body(kinds[0], 11))
            props = {'p': P.Integer('', default=5), 'q': P.Integer('')}
            root = type('Root', (P.HasProperties,), dict(
                props, **body(kinds[1], 12)))
            last = {'_defaults': {'q': 3}} if own else {}
            if place == 'before':
                cls, found = type('Own', (mix, root), last), kinds
            elif place == 'after':
                cls = type('Own', (root, mix), last)
                found = (kinds[1], kinds[0])
            elif place == 'above':
                under = type('Under', (mix,), {})
                cls, found = type('Own', (under, root), last), kinds
            elif place == 'behind':
                side = type('Side', (P.HasProperties,), props)
                cls = type('Own', (root, type('Two', (mix, side), {})), last)
                found = (kinds[1], kinds[0])
            else:
                cls = type('Own', (type('Mid', (mix, root), {}),), last)
                found = kinds
            num = {kinds[0]: 11, kinds[1]: 12} if kinds[0] != kinds[1] else {}
            want = 5
            for pos, kind in enumerate(found):
                if kind is not None:
                    which = 11 if (pos == 0) == (found is kinds) else 12
                    want = result(kind, which)
                    break
            obj = core.expect_ok(ctx, core.attempt(cls), 'instance')
            label = 'mixin %s, defaults %s' % (place, kinds)
            ctx.same((obj.p, obj.q), (want, 3 if own else None), label)
            obj.p = 99
            obj._reset('p')
            ctx.same(obj.p, want, label + ', reset')
            ctx.same(cls(p=4).p, 4, label + ', keyword')
            ctx.step(3)
            ctx.state((place, own, kinds))
        for bad in ({'p': 'x'}, {'zip': 1}, {'p': lambda: 'x'}):
            mix = type('Mix', (object,), {'_defaults': bad})
            root = type('Root', (P.HasProperties,), {'p': P.Integer('')})
            core.expect(ctx, core.attempt(lambda: type(
                'Own', (mix, root), {})), AttributeError, 'wrong mixin')
            ctx.same(root().p, None, 'base of a refused class')

    for func in (own_init, auto_create, unions, listeners_silent,
                 per_instance, mixins):
        core.case(ctx, func.__name__, func)


def scenarios(tier):
    yield ('names', lambda ctx: names.named(ctx, names.default))
    parts = {'chain': 2, 'fork': 1, 'diamond': 3, 'mixin': 2, 'skew': 6}
    for shape in SHAPES:
        if tier == 'quick' and shape == 'skew':
            continue
        count = parts[shape] * (1 if tier == 'quick' else 4)
        for part in range(count):
            yield ('%s %d' % (shape, part), hierarchies(shape, part, count))
    yield ('values of every type', type_values)
    for first in ((0,), (1, 0)):
        for part in range(4):
            yield ('pool %s %d' % (first, part), pool(first, part))
    yield ('special', special)
