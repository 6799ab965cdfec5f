"""P07: whole-instance validation, against a table of planted problems."""
import itertools

import numpy as np

import properties as P

from mc import core, depths, sizes

PROPERTY = 'P07'
BOUNDS = ('a class of 13 properties (number, string, choice, nested list, '
          'bounded list, dictionary, set, array, unit vector, union, instance, '
          'list of instances, instance of a class without properties), each in up to 6 states (fine, missing, tampered '
          'in place, stored uncoerced, nested invalid): every combination of '
          'states of every 2 (quick) / 3 (thorough) properties, times 9 '
          'class-validator behaviours, times a history of 5 validations with '
          'repairs and re-breaks in between')
ASSUMPTIONS = ['property-set validators that reject during validation raise '
               'ValidationError, as documented for validators']


class Boom(Exception):
    """Not one of the error kinds validation collects."""


class Env(object):
    """One set of classes, with an error-hook log."""

    def __init__(self):
        env = self
        self.hooks = []
        self.poison = None
        self.behave = []
        self.ran = []
        self.deny = None

        class Leaf(P.HasProperties):
            need = P.Integer('needed', min=0, max=9)
            text = P.String('optional', required=False, change_case='upper')
            items = P.List('items', P.Integer(''), required=False,
                           max_length=2)

            def _error_hook(self, tuples):
                env.hooks.append((self, list(tuples)))

        class Hollow(Leaf):
            """A leaf whose truth value is false."""

            def __len__(self):
                return 0

        class Marker(object):
            """A class without properties."""

        class Marked(Marker, Leaf):
            """Properties and the marker."""

        class Thing(P.HasProperties):
            num = P.Integer('n', min=0, max=9)
            opt = P.Float('f', required=False, max=5)
            text = P.String('s', change_case='upper', required=False)
            nest = P.List('ll', P.List('', P.Integer('', max=9)))
            short = P.List('short', P.Float(''), min_length=1, max_length=2)
            table = P.Dictionary('d', key_prop=P.String(''),
                                 value_prop=P.Integer('', min=0))
            bag = P.Set('set', P.Integer('', max=5), min_length=1)
            arr = P.Array('a', shape=('*',), dtype=float, required=False)
            unit = P.Vector3('v', length=1, required=False)
            uni = P.Union('u', [P.Integer('', max=5), Leaf], required=False)
            leaf = P.Instance('leaf', Leaf)
            leaves = P.List('leaves', Leaf, min_length=1)
            mark = P.Instance('marker', Marker, required=False)

            @P.validator(P.everything)
            def guard(self, change):
                """Stores what the poison says, once."""
                if env.poison and env.poison[0] == change['name']:
                    change['value'] = env.poison[1]
                if env.deny == change['name']:
                    raise P.ValidationError('denied', 'invalid',
                                            change['name'], self)

            @P.validator
            def first(self):
                return env.run(0, self)

            @P.validator
            def second(self):
                return env.run(1, self)

            def _error_hook(self, tuples):
                env.hooks.append((self, list(tuples)))
        self.Leaf, self.Thing, self.Hollow = Leaf, Thing, Hollow
        self.Marker, self.Marked = Marker, Marked

    def run(self, idx, inst):
        self.ran.append(idx)
        how = self.behave[idx] if idx < len(self.behave) else 'none'
        if how == 'true':
            return True
        if how == 'false':
            return False
        if how == 'zero':
            return 0                    # only False counts as failure
        if how == 'verr':
            raise P.ValidationError('class problem', 'invalid', 'klass', inst)
        if how == 'value':
            raise ValueError('plain')
        if how == 'key':
            raise KeyError('plain')
        if how == 'boom':
            raise Boom()
        if how == 'halt':
            raise core.Interrupt()
        return None

    def leaf(self, **kwargs):
        return self.Leaf(**kwargs)

    def thing(self):
        leaf = self.leaf
        inst = self.Thing(
            num=1, opt=1.5, text='ab', nest=[[1], []], short=[1.0],
            table={'a': 1}, bag={1, 2}, arr=np.array([1., 2.]),
            unit=[0., 3., 4.], uni=3, leaf=leaf(need=1),
            leaves=[leaf(need=2), leaf(need=3)], mark=self.Marked(need=3))
        self.hooks = []
        return inst

    def force(self, inst, name, value):
        """Store a value past type validation, via a replacing validator."""
        self.poison = (name, value)
        try:
            setattr(inst, name, getattr(inst, name))
        finally:
            self.poison = None


# name -> [(label, apply(env, inst), problem kind or None, repair)]
def tamper(name, change):
    return lambda env, inst: change(getattr(inst, name))


def drop(name):
    return lambda env, inst: delattr(inst, name)


def force(name, make):
    return lambda env, inst: env.force(inst, name, make(env))


def assign(name, make):
    return lambda env, inst: setattr(inst, name, make(env))


MISS, BAD, CHILD = 'missing', 'invalid', 'child'


def poke(arr):
    arr[0] = 7.


def setitem(cont, key, val):
    cont[key] = val


def listed(env, *leaves):
    return list(leaves)


STATES = {
    'num': [('missing', drop('num'), MISS),
            ('stored 10', force('num', lambda e: 10), BAD),
            ('stored text', force('num', lambda e: 'x'), BAD),
            ('zero', assign('num', lambda e: 0), None)],
    'opt': [('missing', drop('opt'), None),
            ('stored 6', force('opt', lambda e: 6.0), BAD),
            ('zero', assign('opt', lambda e: 0), None)],
    'text': [('missing', drop('text'), None), ('empty', assign(
        'text', lambda e: ''), None),
             ('stored uncoerced', force('text', lambda e: 'ab'), BAD)],
    'nest': [('missing', drop('nest'), MISS),
             ('inner append text', tamper('nest', lambda v: v[0].append('x')),
              BAD),
             ('inner append 10', tamper('nest', lambda v: v[1].append(10)),
              BAD),
             ('append non-list', tamper('nest', lambda v: v.append(3)), BAD),
             ('inner append 4', tamper('nest', lambda v: v[1].append(4)),
              None),
             ('emptied', tamper('nest', lambda v: v.clear()), None)],
    'short': [('missing', drop('short'), MISS),
              ('emptied', tamper('short', lambda v: v.clear()), BAD),
              ('too long', tamper('short', lambda v: v.extend([2., 3.])), BAD),
              ('full', tamper('short', lambda v: v.append(2.)), None),
              ('assigned empty', assign('short', lambda e: []), BAD),
              ('append none', tamper('short', lambda v: v.append(None)), BAD)],
    'table': [('missing', drop('table'), MISS),
              ('bad value', tamper('table', lambda v: setitem(v, 'b', -1)),
               BAD),
              ('bad key', tamper('table', lambda v: setitem(v, 5, 1)), BAD),
              ('good item', tamper('table', lambda v: setitem(v, 'c', 2)),
               None)],
    'bag': [('missing', drop('bag'), MISS),
            ('bad item', tamper('bag', lambda v: v.add(6)), BAD),
            ('emptied', tamper('bag', lambda v: v.clear()), BAD),
            ('good item', tamper('bag', lambda v: v.add(5)), None)],
    'arr': [('missing', drop('arr'), None),
            ('poked', tamper('arr', poke), None),
            ('stored 2d', force('arr', lambda e: np.zeros((2, 2))), BAD),
            ('stored ints', force('arr', lambda e: np.array([1, 2])), BAD)],
    'unit': [('missing', drop('unit'), None),
             ('poked', tamper('unit', poke), BAD)],
    'uni': [('missing', drop('uni'), None),
            ('stored 6', force('uni', lambda e: 6), BAD),
            ('leaf', assign('uni', lambda e: e.leaf(need=1)), None),
            ('incomplete leaf', assign('uni', lambda e: e.leaf()), BAD),
            ('tampered leaf', assign('uni', lambda e: tampered(e)), BAD),
            ('incomplete falsy leaf', assign('uni', lambda e: e.Hollow()),
             BAD)],
    'leaf': [('missing', drop('leaf'), MISS),
             ('incomplete', assign('leaf', lambda e: e.leaf()), CHILD),
             ('incomplete later',
              tamper('leaf', lambda v: delattr(v, 'need')), CHILD),
             ('tampered', assign('leaf', lambda e: tampered(e)), CHILD),
             ('incomplete, falsy', assign('leaf', lambda e: e.Hollow()), CHILD),
             ('falsy', assign('leaf', lambda e: e.Hollow(need=1)), None),
             ('built from dict', assign('leaf', lambda e: {'need': 4}), None)],
    'leaves': [('missing', drop('leaves'), MISS),
               ('second incomplete',
                tamper('leaves', lambda v: delattr(v[1], 'need')), CHILD),
               ('append tampered',
                lambda env, inst: inst.leaves.append(tampered(env)), CHILD),
               ('append text', tamper('leaves', lambda v: v.append('x')), BAD),
               ('append incomplete, falsy', lambda env, inst:
                inst.leaves.append(env.Hollow()), CHILD),
               ('emptied', tamper('leaves', lambda v: v.clear()), BAD),
               ('append fine', lambda env, inst: inst.leaves.append(
                   env.leaf(need=5)), None)],
    'mark': [('missing', drop('mark'), None),
             ('without properties', assign('mark', lambda e: e.Marker()),
              None),
             ('incomplete', assign('mark', lambda e: e.Marked()), CHILD),
             ('incomplete later', tamper(
                 'mark', lambda v: delattr(v, 'need')), CHILD)],
}
ORDER = list(STATES)
BEHAVE = [(), ('true', 'none'), ('zero', 'true'), ('false',), ('true', 'false'),
          ('verr', 'verr'), ('value',), ('none', 'key'), ('value', 'false')]


def tampered(env):
    leaf = env.leaf(need=1, items=[1])
    leaf.items.append('x')
    return leaf


def judge(ctx, env, inst, problems, behave, label):
    """One call of validate(), against the table."""
    env.hooks, env.ran = [], []
    before = core.canon(inst)
    real = core.attempt(inst.validate)
    ctx.step()
    ctx.check(core.canon(inst) == before, lambda: '%s: validate() changed the '
              'instance' % label)
    collected = [b for b in behave if b in ('false', 'verr')]
    plain = [b for b in behave if b in ('value', 'key')]
    ctx.check(env.ran == [0, 1], lambda: '%s: class validators run: %s' % (
        label, env.ran))
    mine = [h for h in env.hooks if h[0] is inst]
    ctx.outcome((tuple(sorted(problems.items())), tuple(behave)))
    if not problems and not collected and not plain:
        ctx.check(core.expect_ok(ctx, real, label) is True,
                  '%s: validate() does not return True' % label)
        ctx.check(not env.hooks, lambda: '%s: error hook called' % label)
        return
    if not problems and not collected:
        core.expect(ctx, real, {'value': ValueError, 'key': KeyError}[plain[0]],
                    label)
        return
    err = core.expect(ctx, real, P.ValidationError, label)
    tuples = err.error_tuples
    ctx.check(len(mine) == 1, lambda: '%s: the error hook was called %d times'
              % (label, len(mine)))
    ctx.check(mine[0][1] == list(tuples), lambda: '%s: the error hook got %s, '
              'the error lists %s' % (label, mine[0][1], tuples))
    for tup in tuples:
        ctx.check(tup.message in str(err), lambda: '%s: the message misses %r'
                  % (label, tup.message))
    own = {}
    for tup in tuples:
        if tup.instance is inst and tup.prop in inst._props:
            own.setdefault(tup.prop, set()).add(tup.reason)
    want_own = {n: k for n, k in problems.items() if k != CHILD}
    for name, kind in want_own.items():
        ctx.check(name in own, lambda: '%s: the problem of %r is not reported '
                  'in %s' % (label, name, [t[1:3] for t in tuples]))
        ctx.check(kind in own[name], lambda: '%s: %r is reported as %s, '
                  'expected %s' % (label, name, own[name], kind))
    for name in own:
        ctx.check(name in problems, lambda: '%s: %r is reported without a '
                  'problem' % (label, name))
    children = {id(t.instance) for t in tuples
                if isinstance(t.instance, env.Leaf)}
    bad = set()
    if problems.get('leaf') == CHILD:
        bad.add(id(inst.leaf))
    if problems.get('mark') == CHILD:
        bad.add(id(inst.mark))
    if problems.get('leaves') == CHILD:
        bad |= {id(v) for v in inst.leaves
                if v.need is None or (v.items and 'x' in v.items)}
    ctx.check(bad <= children, lambda: '%s: an invalid nested instance is not '
              'reported' % label)
    ctx.check(children <= bad or problems.get('uni'), lambda: '%s: a valid '
              'nested instance is reported' % label)
    klass = [t for t in tuples if t.message in ('class problem',
                                                'Validation failed')]
    ctx.check(len(klass) >= len(collected), lambda: '%s: %d class validators '
              'failed, %d are reported' % (label, len(collected), len(klass)))


def combo(ctx, env, picks, behave):
    """Break, judge, judge again, repair one by one, judge, break again."""
    inst = env.thing()
    problems = {}
    label = ', '.join('%s %s' % (n, STATES[n][i][0]) for n, i in picks)
    label += ' with class validators %s' % (behave,)
    env.behave = ()
    judge(ctx, env, inst, {}, (), label + ' (before)')
    for name, idx in picks:
        _, apply, kind = STATES[name][idx]
        apply(env, inst)
        if kind:
            problems[name] = kind
    env.behave = behave
    judge(ctx, env, inst, problems, behave, label)
    judge(ctx, env, inst, problems, behave, label + ' (again)')
    ctx.state((picks, behave))
    fine = env.thing()
    for name, idx in picks:
        setattr(inst, name, getattr(fine, name))
        problems.pop(name, None)
        judge(ctx, env, inst, problems, behave, label + ' (%s repaired)' % name)
    env.behave = ()
    judge(ctx, env, inst, {}, (), label + ' (all repaired)')


def group(ctx, size, behaviours, part=0, parts=1):
    env = Env()
    combos = list(itertools.combinations(ORDER, size))
    for idx, names in enumerate(combos):
        if idx % parts != part:
            continue
        for picks in itertools.product(*[range(len(STATES[n]))
                                         for n in names]):
            for behave in behaviours:
                chosen = tuple(zip(names, picks))
                if not core.case(ctx, (chosen, behave),
                                 combo, ctx, env, chosen, behave):
                    return
    ctx.sample('every state combination of every %d of %s' % (size, ORDER))


def everything_wrong(ctx):
    """All properties at once in their i-th state."""
    env = Env()
    for idx in range(6):
        for behave in BEHAVE:
            picks = tuple((n, min(idx, len(STATES[n]) - 1)) for n in ORDER)
            if not core.case(ctx, (picks, behave), combo, ctx, env, picks,
                             behave):
                return


def denied(ctx):
    """Set-validators run during validation, unless disabled."""
    env = Env()

    def one(name, other, idx):
        inst = env.thing()
        problems = {}
        if other != name:
            STATES[other][idx][1](env, inst)
            if STATES[other][idx][2]:
                problems[other] = STATES[other][idx][2]
        env.behave = ()
        label = 'set-validator denies %s, %s %s' % (
            name, other, STATES[other][idx][0])
        env.deny = name
        try:
            with P.validators_disabled():
                judge(ctx, env, inst, problems, (), label + ' (disabled)')
            wrong = dict(problems)
            wrong[name] = BAD
            judge(ctx, env, inst, wrong, (), label)
            judge(ctx, env, inst, wrong, (), label + ' (again)')
        finally:
            env.deny = None
        judge(ctx, env, inst, problems, (), label + ' (allowed)')
        ctx.state(label)
    for name, other in itertools.product(ORDER, repeat=2):
        for idx in range(len(STATES[other])):
            if not core.case(ctx, (name, other, idx), one, name, other, idx):
                return


def escaping(ctx):
    """An error validation does not collect leaves no residue."""
    env = Env()

    def one(name, idx, behave):
        inst = env.thing()
        _, apply, kind = STATES[name][idx]
        apply(env, inst)
        problems = {name: kind} if kind else {}
        for _ in range(2):
            env.behave = behave
            out = core.attempt(inst.validate)
            core.expect(ctx, out, core.Interrupt if 'halt' in behave
                        else Boom, 'escaping error')
            env.behave = ()
            judge(ctx, env, inst, problems, (), 'after an escaping error, %s %s'
                  % (name, STATES[name][idx][0]))
        env.hooks = []
        core.expect(ctx, core.attempt(setattr, inst, 'num', 'x'), ValueError,
                    'assignment after an escaping error')
        ctx.check(len(env.hooks) == 1, 'the error hook is not called for a '
                  'failed assignment after an escaping error')
        ctx.step()
        ctx.state((name, idx, behave))
    for name in ORDER:
        for idx in range(len(STATES[name])):
            for behave in (('boom',), ('none', 'boom'), ('false', 'boom'),
                           ('halt',), ('value', 'halt'), ('false', 'halt')):
                core.case(ctx, (name, idx, behave), one, name, idx, behave)


def nested_chain(ctx, depth):
    """The verdict of a chain through every kind of holder at every level."""
    kinds = ('inst', 'list', 'tup', 'dic', 'uni', 'lol')

    class Node(P.HasProperties):
        need = P.Integer('needed')
    Node2 = Node
    holders = {}
    for kind in kinds:
        holders[kind] = {
            'inst': lambda: P.Instance('', Node2, required=False),
            'list': lambda: P.List('', P.Instance('', Node2), required=False),
            'tup': lambda: P.Tuple('', P.Instance('', Node2), required=False),
            'dic': lambda: P.Dictionary('', value_prop=P.Instance('', Node2),
                                        required=False),
            'uni': lambda: P.Union('', [P.String(''), P.Instance('', Node2)],
                                   required=False),
            'lol': lambda: P.List('', P.Tuple('', Node2), required=False),
        }[kind]
    Full = type('Full', (Node,), {k: holders[k]() for k in kinds})
    wrap = {'inst': lambda v: v, 'list': lambda v: [v], 'tup': lambda v: (v,),
            'dic': lambda v: {'k': v}, 'uni': lambda v: v,
            'lol': lambda v: [(v,)]}

    def one(path, bad):
        node = Full(need=1)
        nodes = [node]
        for kind in path:
            child = node
            node = Full(need=1)
            nodes.append(node)
            setattr(node, kind, wrap[kind](child))
        if bad is not None:
            del nodes[bad].need
        for top in range(len(nodes)):
            ctx.step()
            out = core.attempt(nodes[top].validate)
            if bad is not None and bad <= top:
                err = core.expect(ctx, out, P.ValidationError, 'path %s with '
                                  'node %s incomplete' % (path, bad))
                ctx.check('need' in str(err), 'the problem is not described')
            else:
                core.expect_ok(ctx, out, 'path %s' % (path,))
        if bad is not None:
            nodes[bad].need = 2
            for node in nodes:
                core.expect_ok(ctx, core.attempt(node.validate), 'repaired')
        ctx.state((path, bad))
    for size in range(1, depth + 1):
        for path in itertools.product(kinds, repeat=size):
            for bad in [None] + list(range(size + 1)):
                if not core.case(ctx, (path, bad), one, path, bad):
                    return
    ctx.sample('every holder path of up to %d levels' % depth)


def split(items, typ, outer=list):
    """The first item alone, the others together."""
    return outer([typ(items[:1]), typ(items[1:])])


def positions(top):
    """Every place of every container, with every set of places broken."""
    class Part(P.HasProperties):
        need = P.Integer('needed')

    class Node(Part):
        part = P.Instance('part', Part, required=False)

    class Empty(Node):
        def __len__(self):
            return 0

    item = lambda: P.Instance('', Node)
    either = lambda: P.Union('', [P.Integer(''), P.Instance('', Node)])
    keyed = lambda items: dict(zip('abcd', items))
    shapes = {
        'list': (lambda: P.List('', item()), list),
        'watched list': (lambda: P.List('', item(), observe_mutations=True),
                         list),
        'tuple': (lambda: P.Tuple('', item()), tuple),
        'set': (lambda: P.Set('', item()), set),
        'watched set': (lambda: P.Set('', item(), observe_mutations=True),
                        set),
        'values': (lambda: P.Dictionary('', value_prop=item()), keyed),
        'watched values': (lambda: P.Dictionary(
            '', value_prop=item(), observe_mutations=True), keyed),
        'values of named keys': (lambda: P.Dictionary(
            '', key_prop=P.String(''), value_prop=item()), keyed),
        'keys': (lambda: P.Dictionary('', key_prop=item()),
                 lambda items: {i: n for n, i in enumerate(items)}),
        'keys of typed values': (lambda: P.Dictionary(
            '', key_prop=item(), value_prop=P.Integer('')),
                                 lambda items: {i: 1 for i in items}),
        'keys and values': (
            lambda: P.Dictionary('', key_prop=item(), value_prop=item()),
            lambda items: {items[0]: items[-1], items[-1]: items[len(
                items) // 2]}),
        'lists in list': (lambda: P.List('', P.List('', item())),
                          lambda items: split(items, list)),
        'sets in tuple': (lambda: P.Tuple('', P.Set('', item())),
                          lambda items: split(items, set, tuple)),
        'mappings in list': (lambda: P.List('', P.Dictionary(
            '', value_prop=item())), lambda items: split(items, keyed)),
        'lists in mapping': (lambda: P.Dictionary('', value_prop=P.List(
            '', item())), lambda items: keyed(split(items, list))),
        'mappings in mapping': (
            lambda: P.Dictionary('', key_prop=P.String(''), value_prop=(
                P.Dictionary('', value_prop=item()))),
            lambda items: keyed(split(items, keyed))),
        'unions in list': (lambda: P.List('', either()),
                           lambda items: [3] + list(items)),
        'unions in mapping': (lambda: P.Dictionary('', value_prop=either()),
                              lambda items: dict(keyed(items), z=5)),
        'list in union': (lambda: P.Union('', [P.Integer(''), P.List(
            '', item())]), list),
        'mapping in union': (lambda: P.Union('', [P.List('', P.Integer('')),
                                                  P.Dictionary(
                                                      '', value_prop=item())]),
                             keyed),
    }
    breaks = {
        'incomplete': (lambda node: delattr(node, 'need'),
                       lambda node: setattr(node, 'need', 1)),
        'part incomplete': (lambda node: setattr(node, 'part', Part()),
                            lambda node: setattr(node.part, 'need', 2)),
        'part removed': (lambda node: setattr(node, 'part', Part()),
                         lambda node: delattr(node, 'part')),
    }

    def run(ctx):
        for (label, (make, pack)), how, cls, need in itertools.product(
                shapes.items(), breaks, (Node, Empty), (True, False)):
            prop = make()
            prop.required = need
            holder = type('Holder', (P.HasProperties,), {'p': prop})
            outer = type('Outer', (P.HasProperties,), {
                'one': P.Instance('', holder)})
            for count in range(1, top + 1):
                for broken in itertools.product((False, True), repeat=count):
                    for early in (True, False):
                        def one():
                            spoil, mend = breaks[how]
                            items = [cls(need=n) for n in range(count)]
                            hit = [i for i, b in zip(items, broken) if b]
                            if early:
                                for node in hit:
                                    spoil(node)
                            inst = holder(p=pack(items))
                            whole = outer(one=inst)
                            if not early:
                                for node in hit:
                                    spoil(node)
                            text = '%s, %s %s' % (label, how, broken)
                            for left in range(len(hit), -1, -1):
                                for obj in (inst, whole):
                                    out = core.attempt(obj.validate)
                                    ctx.step()
                                    if not left:
                                        core.expect_ok(ctx, out, text)
                                        continue
                                    err = core.expect(
                                        ctx, out, P.ValidationError, text)
                                    ctx.check('need' in str(err), lambda:
                                              text + ': not described: %s'
                                              % err)
                                if left:
                                    mend(hit[left - 1])
                            ctx.state((label, how, broken))
                        key = (label, how, cls.__name__, need, broken, early)
                        if not core.case(ctx, key, one):
                            return
        ctx.sample('every set of broken places of every container')
    return run


def scenarios(tier):
    yield ('sizes', lambda ctx: sizes.matrix(ctx, sizes.validity))
    yield ('depths', lambda ctx: depths.matrix(ctx, depths.validity))
    quick = tier != 'thorough'
    yield 'one property', lambda ctx: group(ctx, 1, BEHAVE)
    parts = 4
    for part in range(parts):
        yield 'two properties %d/%d' % (part, parts), lambda ctx, part=part: \
            group(ctx, 2, [(), ('false',), ('value', 'true')] if quick
                  else BEHAVE, part, parts)
    if not quick:
        for part in range(16):
            yield 'three properties %d/16' % part, lambda ctx, part=part: \
                group(ctx, 3, [(), ('verr', 'value')], part, 16)
    yield 'everything wrong', everything_wrong
    yield 'denying validators', denied
    yield 'escaping errors', escaping
    yield 'positions', positions(3 if quick else 4)
    yield 'holder paths', lambda ctx: nested_chain(ctx, 3 if quick else 4)
