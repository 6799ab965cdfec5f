"""P01: assignments are atomic and reads return the last accepted value."""
import properties as P

from mc import core, names, sizes

PROPERTY = 'P01'
BOUNDS = ('two instances of one class and one of a subclass; alphabet: valid, '
          'coerced, out-of-range, wrong-type, vetoed, undefined assignments, '
          'deletions and resets on 8 attributes plus reconstruction; every '
          'sequence of 2 (quick) / 3 (thorough) operations over the full '
          'alphabet, every sequence of 4 / 5 over a reduced one, and '
          'breadth-first closure over the joint state beyond')
ASSUMPTIONS = ['mutating a plain (unobserved) container in place is outside '
               'this property; see P03, P04 and P07']

UNSET = object()


def make_classes():
    class Inner(P.HasProperties):
        n = P.Integer('n', default=0)

        def __repr__(self):
            return 'Inner(%s)' % self.n

    class Thing(P.HasProperties):
        i = P.Integer('i', min=0, max=3, default=1)
        f = P.Float('f', required=False)
        s = P.String('s', change_case='upper', strip=' ', required=False)
        col = P.Color('c', default='red')
        ls = P.List('l', P.Integer('', max=9), default=list)
        inst = P.Instance('o', Inner, required=False)
        un = P.Union('u', [P.Integer(''), P.List('', P.Integer(''))],
                     required=False)
        d = P.Dictionary('d', key_prop=P.String(''), value_prop=P.Integer(''),
                         required=False)

        @P.validator('f')
        def _veto(self, change):
            # rejects 13, replaces 7 by 8
            if change['value'] == 13:
                raise ValueError('unlucky')
            if change['value'] == 7:
                change['value'] = 8.0

    class Sub(Thing):
        i = P.Integer('i', min=0, max=5, default=4)
        extra = P.Boolean('b', default=False)

    return Inner, Thing, Sub


DEFAULTS = {'i': 1, 'f': UNSET, 's': UNSET, 'col': (255, 0, 0), 'ls': [],
            'inst': UNSET, 'un': UNSET, 'd': UNSET}

# attribute -> [(input, accepted value or None when rejected)]
INPUTS = {
    'i': [(2, 2), (3.0, 3), (0, 0), (True, 1), (4, None), (-1, None),
          (1.5, None), ('2', None), (None, None)],
    'f': [(2, 2.0), (0.5, 0.5), (13, None), (7, 8.0), ('x', None),
          (None, None)],
    's': [(' ab ', 'AB'), ('', ''), (5, None), (None, None)],
    'col': [('#00F', (0, 0, 255)), ([1, 2, 3], (1, 2, 3)), ((1, 2, 256), None),
            ('nope', None)],
    'ls': [([1, 2.0], [1, 2]), ([], []), ([1, 'x'], None), (['x', 1], None),
           ([1, 10], None), ((1,), None), (None, None)],
    'inst': [({'n': 2}, ('inner', 2)), ({}, ('inner', 0)), ({'n': 'x'}, None),
             ({'zz': 1}, None), (5, None)],
    'un': [(3, 3), ([1], [1]), (['x'], None), ('x', None)],
    'd': [({'a': 1}, {'a': 1}), ({'a': 1, 2: 3}, None), ({'a': 'x'}, None),
          ([], None)],
}
SUB_INPUTS = dict(INPUTS, i=[(5, 5), (4.0, 4), (6, None), (-1, None)],
                  extra=[(True, True), (1, None), (None, None)])


class Pair(core.System):
    """Two Thing instances and one Sub instance against plain dictionaries."""

    inputs = 'full'

    def __init__(self, ctx):
        super().__init__(ctx)
        if not hasattr(ctx, 'classes'):
            # shared by all executions: leaks between instances show up
            ctx.classes = make_classes()
        self.Inner, self.Thing, self.Sub = ctx.classes
        self.real = {'a': self.Thing(), 'b': self.Thing(), 'z': self.Sub()}
        self.model = {'a': dict(DEFAULTS), 'b': dict(DEFAULTS),
                      'z': dict(DEFAULTS, i=4, extra=False)}

    # operations -----------------------------------------------------------
    def put(self, who, attr, value, stored):
        import copy
        given = copy.deepcopy(value)
        out = core.attempt(setattr, self.real[who], attr, given)
        what = '%s.%s = %r' % (who, attr, value)
        if stored is None:
            core.expect(self.ctx, out, ValueError, what)
            self.ctx.outcome('reject ' + attr)
        else:
            core.expect_ok(self.ctx, out, what)
            self.model[who][attr] = stored
            self.ctx.outcome('accept ' + attr)
        # the caller keeps and changes its own object afterwards
        if isinstance(given, list):
            given.append('tampered')
        elif isinstance(given, dict):
            given['tampered'] = 'tampered'

    def undef(self, who, attr):
        core.expect_ok(self.ctx, core.attempt(
            setattr, self.real[who], attr, P.undefined),
            '%s.%s = undefined' % (who, attr))
        self.model[who][attr] = UNSET

    def delete(self, who, attr):
        core.expect_ok(self.ctx, core.attempt(delattr, self.real[who], attr),
                       'del %s.%s' % (who, attr))
        self.model[who][attr] = UNSET

    def reset(self, who, attr):
        core.expect_ok(self.ctx, core.attempt(self.real[who]._reset, attr),
                       'reset %s.%s' % (who, attr))
        base = dict(DEFAULTS, i=4, extra=False) if who == 'z' else DEFAULTS
        self.model[who][attr] = base[attr]

    def rebuild(self, who, kwargs, changes):
        """Replace an instance by a newly constructed one, if it constructs."""
        import copy
        cls = self.Sub if who == 'z' else self.Thing
        out = core.attempt(cls, **copy.deepcopy(kwargs))
        what = '%s = %s(**%r)' % (who, cls.__name__, kwargs)
        if changes is None:
            core.expect(self.ctx, out, (ValueError, AttributeError), what)
        else:
            self.real[who] = core.expect_ok(self.ctx, out, what)
            base = dict(DEFAULTS, i=4, extra=False) if who == 'z' else DEFAULTS
            self.model[who] = dict(base, **changes)

    def ops(self):
        out = []
        small = self.inputs == 'small'
        for who in ('a', 'b', 'z'):
            table = SUB_INPUTS if who == 'z' else INPUTS
            if small and who == 'z':
                continue
            for attr, vals in table.items():
                if small and attr not in ('i', 'f', 'ls'):
                    continue
                if who != 'a' and not small:
                    vals = vals[:1] + [v for v in vals if v[1] is None][:1]
                if small:
                    vals = vals[:2] + [v for v in vals if v[1] is None][:1]
                for value, stored in vals:
                    out.append(('%s.%s=%r' % (who, attr, value),
                                lambda s, w=who, a=attr, v=value, st=stored:
                                s.put(w, a, v, st)))
                if who == 'a' and not small:
                    out.append(('%s.%s=undefined' % (who, attr),
                                lambda s, w=who, a=attr: s.undef(w, a)))
                if who == 'a' or small:
                    out.append(('del %s.%s' % (who, attr),
                                lambda s, w=who, a=attr: s.delete(w, a)))
                if who != 'b' and not small or small and attr == 'i':
                    out.append(('reset %s.%s' % (who, attr),
                                lambda s, w=who, a=attr: s.reset(w, a)))
        if not small:
            for who in ('a', 'z'):
                for kwargs, changes in (
                        ({}, {}), ({'i': 2, 'ls': [3]}, {'i': 2, 'ls': [3]}),
                        ({'i': 9}, None), ({'i': 2, 'f': 13}, None),
                        ({'f': 7}, {'f': 8.0}), ({'nope': 1}, None)):
                    out.append(('%s=new(%r)' % (who, kwargs),
                                lambda s, w=who, k=kwargs, c=changes:
                                s.rebuild(w, k, c)))
        return out

    # oracle ---------------------------------------------------------------
    def check(self):
        for who, model in self.model.items():
            inst = self.real[who]
            for attr, want in model.items():
                got = getattr(inst, attr)
                if got is want:
                    continue
                label = '%s.%s after' % (who, attr)
                if want is UNSET:
                    self.ctx.check(got is None, lambda: '%s: got %s, expected '
                                   'None (undefined)' % (label, core.show(got)))
                elif isinstance(want, tuple) and want[:1] == ('inner',):
                    self.ctx.check(isinstance(got, self.Inner) and
                                   got.n == want[1], lambda: '%s: got %s, '
                                   'expected Inner(%s)' % (
                                       label, core.show(got), want[1]))
                else:
                    self.ctx.same(got, want, label)

    def key(self):
        return tuple(
            (who, attr, core.canon(None if val is UNSET else val))
            for who in sorted(self.model)
            for attr, val in sorted(self.model[who].items()))


class Small(Pair):
    inputs = 'small'


def validity(ctx):
    """An accepted history always ends in an instance that validates."""
    def one(seq):
        system = Pair(ctx)
        ops = [o for o in system.ops() if o[0].startswith('a.')]
        for idx in seq:
            ops[idx][1](system)
            ctx.step()
        if not any(system.model['a'][k] is UNSET for k in ('i', 'col', 'ls')):
            ctx.check(system.real['a'].validate() is True, 'validate() result')
        system.check()
        ctx.state(system.key())

    count = len([o for o in Pair(ctx).ops() if o[0].startswith('a.')])
    for i in range(count):
        for j in range(count):
            if not core.case(ctx, (i, j), one, (i, j)):
                return


def scenarios(tier):
    yield ('names', lambda ctx: names.named(ctx, names.state))
    yield ('many', lambda ctx: sizes.counted(ctx, sizes.many))
    quick = tier != 'thorough'
    yield 'all short histories', lambda ctx: core.explore(
        ctx, Pair, 2 if quick else 3)
    yield 'long histories, reduced alphabet', lambda ctx: core.explore(
        ctx, Small, 3 if quick else 4)
    yield 'closure, reduced alphabet', lambda ctx: core.explore(
        ctx, Small, 0, extend=5 if quick else 8,
        max_states=2500 if quick else 20000)
    yield 'valid end states', validity
