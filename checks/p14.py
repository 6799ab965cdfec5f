"""P14: links against a small propagation model."""
import gc
import itertools

import traitlets

import properties as P

from mc import core, names, sizes

PROPERTY = 'P14'
BOUNDS = ('every set of directional links among 3 items (64 graphs, cycles '
          'included) with property and trait ends in 4 (quick) / 8 (thorough) '
          'combinations and change-only on, off or mixed; every multi-link of 2 '
          'to 4 items and pair of links sharing an item; trees of transforms; '
          'each under every history of 2 to 4 operations (set to 2 or 3 '
          'values, unlink, relink, delete, disable listeners, rejected value); '
          'one link under every history of 6 (quick) / 8 operations; every '
          'listener that unlinks or relinks while values propagate')
ASSUMPTIONS = ['deleting a linked source whose target rejects None is '
               'unspecified and not explored',
               'values after a cycle of transforming links are unspecified; '
               'only termination is checked there']


class Prop(P.HasProperties):
    a = P.Integer('a')
    b = P.Integer('b', default=0)
    loose = P.Property('any', required=False)
    tight = P.Integer('t', max=1, required=False)

    def __init__(self, **kwargs):
        self.sets = 0
        super().__init__(**kwargs)

    @P.observer('a')
    def count(self, change):
        self.sets += 1


class Trait(traitlets.HasTraits):
    a = traitlets.Int()
    b = traitlets.Int()


class Model(object):
    """Items with values and directional links between them."""

    def __init__(self, kinds, links):
        self.kinds = kinds
        self.val = [None if k == 'P' else 0 for k in kinds]
        self.sets = [0] * len(kinds)
        self.links = [dict(src=s, tgt=t, only=only or kinds[s] == 'T',
                           func=func, active=True, busy=False)
                      for s, t, only, func in links]

    def put(self, item, value, silent=False):
        changed = self.val[item] != value
        self.val[item] = value
        if silent:
            return
        self.sets[item] += 1
        # change-only links fire before those for every set
        for phase in (True, False):
            for link in self.links:
                if link['src'] != item or link['only'] != phase:
                    continue
                if link['only'] and not changed:
                    continue
                self.fire(link)

    def fire(self, link):
        if not link['active'] or link['busy']:
            return
        link['busy'] = True
        value = self.val[link['src']]
        if link['func']:
            value = link['func'](value)
        self.put(link['tgt'], value)
        link['busy'] = False


class Graph(core.System):
    """Items joined by directional links."""

    kinds = 'PPP'
    edges = ()              # (source, target, change_only, transform)
    values = (1, 2)
    count = False
    check_values = True

    def __init__(self, ctx):
        super().__init__(ctx)
        self.items = [Prop() if k == 'P' else Trait() for k in self.kinds]
        self.links = []
        for src, tgt, only, func in self.edges:
            kwargs = {'change_only': False} if not only else {}
            if func:
                kwargs['transform'] = func
            self.links.append(P.directional_link(
                (self.items[src], 'a'), (self.items[tgt], 'a'), **kwargs))
        self.model = Model(self.kinds, self.edges)

    def put(self, item, value):
        before = self.model.sets[:]
        self.items[item].a = value
        self.model.put(item, value)
        if self.count:
            want = [n - b for n, b in zip(self.model.sets, before)]
            for idx, kind in enumerate(self.kinds):
                if kind == 'P':
                    self.ctx.same(self.items[idx].sets, want[idx],
                                  'number of times item %d was set' % idx)
        for item in self.items:
            if isinstance(item, Prop):
                item.sets = 0

    def toggle(self, idx, active):
        link = self.links[idx]
        link.relink() if active else link.unlink()
        self.model.links[idx]['active'] = active

    def ops(self):
        out = [('item%d = %s' % (i, v), lambda s, i=i, v=v: s.put(i, v))
               for i in range(len(self.kinds)) for v in self.values]
        for idx, edge in enumerate(self.edges):
            out += [('unlink %d->%d' % edge[:2],
                     lambda s, i=idx: s.toggle(i, False)),
                    ('relink %d->%d' % edge[:2],
                     lambda s, i=idx: s.toggle(i, True))]
        return out

    def check(self):
        if not self.check_values:
            return
        got = [item.a for item in self.items]
        self.ctx.same(got, self.model.val, 'values of the items')

    def key(self):
        return (tuple(item.a for item in self.items),
                tuple(l['active'] for l in self.model.links))


def graphs(kinds, flags, slice_of):
    part, parts = slice_of

    def run(ctx):
        pairs = list(itertools.permutations(range(3), 2))
        for bits in range(part, 64, parts):
            chosen = [p for i, p in enumerate(pairs) if bits >> i & 1]
            edges = [(s, t, flags == 'on' or (flags == 'mixed' and
                                              (s + t) % 2 == 0), None)
                     for s, t in chosen]
            tgts = [e[1] for e in edges]
            tree = len(set(tgts)) == len(tgts) and acyclic(edges)
            cls = type('Graph', (Graph,), dict(kinds=kinds, edges=edges,
                                               count=tree))
            depth = 3 if len(edges) <= (2 if ctx.quick else 4) else 2
            core.explore(ctx, cls, depth,
                         extend=0 if ctx.quick else 2, max_states=400)
            if ctx.full():
                return
            ctx.state(('graph', bits))
    return run


def acyclic(edges):
    left = set(e[:2] for e in edges)
    nodes = set(range(4))
    while nodes:
        free = [n for n in nodes if not any(t == n for _, t in left)]
        if not free:
            return False
        nodes -= set(free)
        left = {e for e in left if e[0] not in free}
    return True


def transforms(ctx):
    double = lambda x: 2 * x

    class Adder(object):
        def __call__(self, val):
            return val + 10
    shapes = [
        [(0, 1, True, double)], [(0, 1, False, double)],
        [(0, 1, True, Adder()), (1, 2, True, double)],
        [(0, 1, True, double), (0, 2, True, Adder())],
        [(0, 1, False, double), (1, 2, False, None)],
        [(0, 1, True, None), (1, 2, False, double)],
        [(0, 1, True, abs)],
    ]
    for kinds in ('PPP', 'PTP', 'TPT', 'TTT'):
        for edges in shapes:
            cls = type('Tree', (Graph,), dict(
                kinds=kinds, edges=edges, values=(-1, 2, 3),
                count=True))
            core.explore(ctx, cls, 3 if ctx.quick else 4)
            if ctx.full():
                return
    # a source that maps to an equal target value sets it all the same
    for edges in ([(0, 1, True, abs)],):
        cls = type('Abs', (Graph,), dict(kinds='PPP', edges=edges, count=True,
                                         values=(-1, 1)))
        core.explore(ctx, cls, 4)
    # cycles of transforms: termination
    for edges in ([(0, 1, True, double), (1, 0, True, double)],
                  [(0, 1, True, Adder()), (1, 2, True, Adder()),
                   (2, 0, True, Adder())],
                  [(0, 1, False, double), (1, 0, False, Adder())],
                  [(0, 1, True, double), (1, 0, True, None)]):
        for kinds in ('PPP', 'PTP', 'TTT'):
            cls = type('Cycle', (Graph,), dict(
                kinds=kinds, edges=edges, check_values=False))
            core.explore(ctx, cls, 3)


class Multi(core.System):
    """One or two multi-links over some items."""

    kinds = 'PPP'
    groups = ((0, 1, 2),)
    only = True
    values = (1, 2)

    def __init__(self, ctx):
        super().__init__(ctx)
        self.items = [Prop() if k == 'P' else Trait() for k in self.kinds]
        kwargs = {} if self.only else {'change_only': False}
        self.links = [P.link(*[(self.items[i], 'a') for i in group], **kwargs)
                      for group in self.groups]
        self.model = [None if k == 'P' else 0 for k in self.kinds]
        self.active = [True] * len(self.groups)

    def put(self, item, value, silent=False):
        changed = self.model[item] != value
        self.items[item].a = value
        self.model[item] = value
        if silent:
            return
        moved = {item: changed}
        todo = [item]
        while todo:
            cur = todo.pop()
            # trait ends only ever report changes
            if not moved[cur] and (self.only or self.kinds[cur] == 'T'):
                continue
            for group, active in zip(self.groups, self.active):
                if not active or cur not in group:
                    continue
                for other in group:
                    if other in moved:
                        continue
                    moved[other] = self.model[other] != value
                    self.model[other] = value
                    todo.append(other)

    def quiet(self, item, value):
        with P.listeners_disabled():
            self.items[item].a = value
        self.model[item] = value

    def toggle(self, idx, active):
        self.links[idx].relink() if active else self.links[idx].unlink()
        self.active[idx] = active

    def ops(self):
        out = [('item%d = %s' % (i, v), lambda s, i=i, v=v: s.put(i, v))
               for i in range(len(self.kinds)) for v in self.values]
        for idx in range(len(self.groups)):
            out += [('unlink %d' % idx, lambda s, i=idx: s.toggle(i, False)),
                    ('relink %d' % idx, lambda s, i=idx: s.toggle(i, True))]
        if self.kinds[0] == 'P':
            out.append(('item0 = 2, listeners disabled',
                        lambda s: s.quiet(0, 2)))
        return out

    def check(self):
        self.ctx.same([item.a for item in self.items], self.model,
                      'values of the items')

    def key(self):
        return (tuple(self.model), tuple(self.active))


def multis(kinds):
    def run(ctx):
        size = len(kinds)
        options = [tuple(range(size))]
        for pick in range(2, size):
            options += list(itertools.permutations(range(size), pick))
        plans = [(g,) for g in options]
        if size == 3:
            plans += [((0, 1), (1, 2)), ((0, 1), (0, 1)), ((0, 1, 2), (2, 1)),
                      ((2, 0), (0, 1))]
        if size == 4:
            plans = [((0, 1, 2, 3),), ((0, 1), (2, 3)), ((0, 1), (1, 2, 3)),
                     ((3, 1, 0), (0, 2))]
        for groups in plans:
            for only in (True, False):
                cls = type('Multi', (Multi,), dict(
                    kinds=kinds, groups=groups, only=only))
                depth = 3 if ctx.quick or size > 3 else 4
                if ctx.quick and len(groups[0]) == 4 and not only:
                    depth = 2           # n! updates for every set
                core.explore(ctx, cls, depth)
                if ctx.full():
                    return
    return run


def creation(ctx):
    """What is set when a link is created."""
    start = (1, 2, 3)
    for kinds in itertools.product('PT', repeat=3):
        make = lambda: [Prop(a=v) if k == 'P' else Trait(a=v)
                        for k, v in zip(kinds, start)]
        for src, tgt in itertools.permutations(range(3), 2):
            for now, func in itertools.product((None, False, True),
                                               (None, lambda x: 10 * x)):
                label = 'directional_link %s %d->%d update_now=%s %s' % (
                    ''.join(kinds), src, tgt, now, 'x10' if func else '')

                def go():
                    items = make()
                    kwargs = {} if now is None else {'update_now': now}
                    if func:
                        kwargs['transform'] = func
                    made = P.directional_link((items[src], 'a'),
                                              (items[tgt], 'a'), **kwargs)
                    want = list(start)
                    scale = 10 if func else 1
                    if now:
                        want[tgt] = scale * want[src]
                    ctx.same([i.a for i in items], want, label)
                    ctx.check(made.source == (items[src], 'a') and
                              made.target == (items[tgt], 'a'), 'ends')
                    # the target does not write back
                    items[tgt].a = 7
                    want[tgt] = 7
                    ctx.same([i.a for i in items], want, label)
                    # it works without anybody holding the link
                    del made
                    gc.collect()
                    items[src].a = 4
                    want[src], want[tgt] = 4, 4 * scale
                    ctx.same([i.a for i in items], want, label + ' after set')
                    ctx.step(3)
                    ctx.state(label)
                core.case(ctx, label, go)
        for order in itertools.permutations(range(3)):
            for size in (2, 3):
                for now in (None, False, True):
                    label = 'link %s %s update_now=%s' % (
                        ''.join(kinds), order[:size], now)

                    def go():
                        items = make()
                        kwargs = {} if now is None else {'update_now': now}
                        made = P.link(*[(items[i], 'a')
                                        for i in order[:size]], **kwargs)
                        want = list(start)
                        if now:
                            for i in order[:size]:
                                want[i] = start[order[0]]
                        ctx.same([i.a for i in items], want, label)
                        made.unlink()
                        items[order[0]].a = 9
                        want[order[0]] = 9
                        ctx.same([i.a for i in items], want, label)
                        made.relink()
                        ctx.same([i.a for i in items], want,
                                 label + ' relinked')
                        items[order[1]].a = 8
                        for i in order[:size]:
                            want[i] = 8
                        ctx.same([i.a for i in items], want, label)
                        ctx.step(3)
                        ctx.state(label)
                    core.case(ctx, label, go)


class Rejecting(core.System):
    """A target that refuses some values, and undefined sources."""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.src, self.tgt = Prop(), Prop()
        self.other = Prop()
        self.links = [
            P.directional_link((self.src, 'a'), (self.tgt, 'tight')),
            P.directional_link((self.src, 'loose'), (self.tgt, 'loose')),
            P.directional_link((self.src, 'b'), (self.src, 'a')),
        ]
        self.model = dict(a=None, b=0, loose=None)
        self.target = dict(tight=None, loose=None)
        self.active = [True] * 3

    def put(self, name, value):
        changed = self.model[name] != value
        fails = False
        self.model[name] = value
        if name == 'b' and changed and self.active[2]:
            changed = self.model['a'] != value
            self.model['a'] = value
            name = 'a'
        if name == 'a' and changed and self.active[0]:
            if value <= 1:
                self.target['tight'] = value
            else:
                fails = True
        if name == 'loose' and changed and self.active[1]:
            self.target['loose'] = value
        return fails

    def set(self, name, value):
        fails = self.put(name, value)
        out = core.attempt(setattr, self.src, name, value)
        if fails:
            core.expect(self.ctx, out, ValueError, 'target rejects')
        else:
            core.expect_ok(self.ctx, out, 'set %s' % name)

    def delete(self):
        changed = self.model['loose'] is not None
        out = core.attempt(delattr, self.src, 'loose')
        core.expect_ok(self.ctx, out, 'delete')
        self.put('loose', None)

    def invalid(self):
        out = core.attempt(setattr, self.src, 'a', 'bad')
        core.expect(self.ctx, out, ValueError, 'invalid source value')

    def backwards(self):
        self.tgt.loose = 5
        self.tgt.tight = 0
        self.target.update(loose=5, tight=0)

    def toggle(self, idx, active):
        self.links[idx].relink() if active else self.links[idx].unlink()
        self.active[idx] = active

    def ops(self):
        out = [('%s = %s' % (n, v), lambda s, n=n, v=v: s.set(n, v))
               for n in ('a', 'b', 'loose') for v in (1, 0, 2)]
        out += [('del loose', lambda s: s.delete()),
                ('a = bad', lambda s: s.invalid()),
                ('set target', lambda s: s.backwards())]
        for idx in range(3):
            out += [('unlink %d' % idx, lambda s, i=idx: s.toggle(i, False)),
                    ('relink %d' % idx, lambda s, i=idx: s.toggle(i, True))]
        return out

    def check(self):
        got = {k: getattr(self.src, k) for k in self.model}
        self.ctx.same(got, self.model, 'source')
        got = {k: getattr(self.tgt, k) for k in self.target}
        self.ctx.same(got, self.target, 'target')

    def key(self):
        return (core.canon(self.model), core.canon(self.target),
                tuple(self.active))


class Failing(core.System):
    """Transforms and listeners that raise: links go on working afterwards."""

    kinds = 'PPP'
    only = True
    errors = (KeyError, IndexError)

    def __init__(self, ctx):
        super().__init__(ctx)
        self.items = [Prop(a=1) if k == 'P' else Trait(a=1)
                      for k in self.kinds]
        self.veto = False
        if self.kinds[1] == 'P':
            P.observer(self.items[1], 'a', self.listen)
        else:
            self.items[1].observe(lambda change: self.listen(None, change),
                                  names='a')

        def func(value):
            if value == 2:
                raise self.errors[0](value)
            return value
        kwargs = {} if self.only else {'change_only': False}
        self.links = [
            P.directional_link((self.items[0], 'a'), (self.items[1], 'a'),
                               transform=func, **kwargs),
            P.directional_link((self.items[1], 'a'), (self.items[2], 'a'),
                               **kwargs),
        ]
        self.model = [1, 1, 1]
        self.active = [True, True]

    def listen(self, _, change):
        if self.veto:
            raise self.errors[1]('veto')

    def put(self, item, value, veto):
        self.veto = veto
        out = core.attempt(setattr, self.items[item], 'a', value)
        self.veto = False
        error = None
        changed = self.model[item] != value
        self.model[item] = value
        loud = lambda i, c: c or not (self.only or self.kinds[i] == 'T')
        if item == 0 and loud(0, changed) and self.active[0]:
            if value == 2:
                error = self.errors[0]
            else:
                changed = self.model[1] != value
                self.model[1] = value
                item = 1
        if item == 1 and error is None:
            # change-only links come first, before the listener for every set
            first = self.only and self.kinds[1] == 'P'
            sent = loud(1, changed) and self.active[1]
            noisy = self.kinds[1] == 'P' or changed
            if veto and noisy:
                error = self.errors[1]
                sent = sent and first
            if sent:
                self.model[2] = value
        if error:
            core.expect(self.ctx, out, error, 'item%d = %s' % (item, value))
        else:
            core.expect_ok(self.ctx, out, 'item%d = %s' % (item, value))

    def toggle(self, idx, active):
        self.links[idx].relink() if active else self.links[idx].unlink()
        self.active[idx] = active

    def ops(self):
        out = [('item%d = %s%s' % (i, v, ', listener raises' if f else ''),
                lambda s, i=i, v=v, f=f: s.put(i, v, f))
               for i in range(2) for v in (1, 2, 3) for f in (False, True)]
        for idx in range(2):
            out += [('unlink %d' % idx, lambda s, i=idx: s.toggle(i, False)),
                    ('relink %d' % idx, lambda s, i=idx: s.toggle(i, True))]
        return out

    def check(self):
        self.ctx.same([item.a for item in self.items], self.model,
                      'values of the items')

    def key(self):
        return (tuple(self.model), tuple(self.active))


class Inside(core.System):
    """A listener that unlinks or relinks while values propagate."""

    kinds = 'PPP'
    edges = ((0, 1), (1, 2))
    only = True
    multi = False
    hook = (1, 'first', True, 0, False)     # item, when, change only, link, to

    def __init__(self, ctx):
        super().__init__(ctx)
        self.items = [Prop(a=0) if k == 'P' else Trait(a=0)
                      for k in self.kinds]
        self.model = [0] * len(self.kinds)
        self.active = [True] * len(self.edges)
        self.busy = [False] * len(self.edges)
        self.links = []
        self.order = [[] for _ in self.kinds]   # listeners of each item
        item, when, only, idx, value = self.hook
        if when == 'first':
            self.listen()
        kwargs = {} if self.only else {'change_only': False}
        if self.multi:
            # one link of all items, toggled as a whole
            self.links.append(P.link(*[(item, 'a') for item in self.items],
                                     **kwargs))
        for num, (src, tgt) in enumerate(self.edges):
            if not self.multi:
                self.links.append(P.directional_link(
                    (self.items[src], 'a'), (self.items[tgt], 'a'), **kwargs))
            self.order[src].append(
                ('link', num, self.only or self.kinds[src] == 'T'))
        if when == 'last':
            self.listen()

    def listen(self):
        item, _, only, idx, value = self.hook

        def react(*_):
            link = self.links[idx]
            link.relink() if value else link.unlink()
        if self.kinds[item] == 'P':
            P.observer(self.items[item], 'a', react, change_only=only)
        else:
            self.items[item].observe(react, names='a')
        self.order[item].append(
            ('hook', idx, only or self.kinds[item] == 'T'))

    def spread(self, item, value):
        changed = self.model[item] != value
        self.model[item] = value
        for phase in (True, False):
            for kind, num, only in self.order[item]:
                if only != phase or only and not changed:
                    continue
                if kind == 'hook':
                    self.turn(num, self.hook[4])
                elif self.active[num] and not self.busy[num]:
                    self.busy[num] = True
                    self.spread(self.edges[num][1], value)
                    self.busy[num] = False

    def turn(self, idx, active):
        for num in range(len(self.edges)) if self.multi else (idx,):
            self.active[num] = active

    def put(self, item, value):
        self.items[item].a = value
        self.spread(item, value)

    def toggle(self, idx, active):
        self.links[idx].relink() if active else self.links[idx].unlink()
        self.turn(idx, active)

    def ops(self):
        out = [('item%d = %s' % (i, v), lambda s, i=i, v=v: s.put(i, v))
               for i, v in ((0, 1), (0, 2), (1, 1), (2, 3))]
        for idx, edge in enumerate(self.edges[:len(self.links)]):
            out += [('unlink %d->%d' % edge,
                     lambda s, i=idx: s.toggle(i, False)),
                    ('relink %d->%d' % edge,
                     lambda s, i=idx: s.toggle(i, True))]
        return out

    def check(self):
        self.ctx.same([item.a for item in self.items], self.model,
                      'values of the items')

    def key(self):
        return (tuple(self.model), tuple(self.active))


def inside(kinds):
    def run(ctx):
        for edges in (((0, 1), (1, 2)), ((0, 1), (0, 2)), None):
            multi = edges is None
            if multi:
                edges = tuple(itertools.permutations(range(3), 2))
            for only, hook in itertools.product(
                    (True, False), itertools.product(
                        range(3), ('first', 'last'), (True, False), range(2),
                        (True, False))):
                if not hook[2] and kinds[hook[0]] == 'T' or (
                        multi and hook[3]):
                    continue
                cls = type('Inside', (Inside,), dict(
                    kinds=kinds, edges=edges, multi=multi, only=only,
                    hook=hook))
                core.explore(ctx, cls, 2 if ctx.quick else 3)
                if ctx.full():
                    return
    return run


def histories(kinds):
    """One link and two items, but long histories."""
    def run(ctx):
        for only in (True, False):
            class Pair(Graph):
                def ops(self):
                    return [
                        ('item0 = 1', lambda s: s.put(0, 1)),
                        ('item0 = 2', lambda s: s.put(0, 2)),
                        ('item1 = 3', lambda s: s.put(1, 3)),
                        ('unlink', lambda s: s.toggle(0, False)),
                        ('relink', lambda s: s.toggle(0, True)),
                    ]
            Pair.kinds, Pair.count = kinds, True
            Pair.edges = ((0, 1, only, None),)
            core.explore(ctx, Pair, 6 if ctx.quick else 8)
            if ctx.full():
                return
    return run


def failing(ctx):
    for kinds in ('PPP', 'TPP', 'PPT', 'PTP', 'TTT'):
        for only in (True, False):
            for errors in ((KeyError, IndexError),
                           (core.Interrupt, core.Interrupt)):
                cls = type('Failing', (Failing,), dict(
                    kinds=kinds, only=only, errors=errors))
                core.explore(ctx, cls, 3 if ctx.quick else 4)


class Values(core.System):
    """One link between properties of any value, undefined ones included."""

    kinds = 'PP'
    only = True
    func = None
    now = False
    start = ()
    POOL = [('1', 1), ('0', 0), ('False', False), ("''", ''), ('[]', []),
            ('None', None)]

    def __init__(self, ctx):
        super().__init__(ctx)
        self.seen = []

        def func(value):
            self.seen.append(value)
            return {'tuple': lambda: ('got', value),
                    'none': lambda: None,
                    'bool': lambda: bool(value)}[self.func]()
        self.items = [self.make(k) for k in self.kinds]
        self.model = [None, None]
        # a property that was never set differs from one set to None
        self.unset = self.kinds[0] == 'P'
        if self.start:
            self.items[0].loose = self.model[0] = self.start[0]
            self.unset = False
        kwargs = {} if self.only else {'change_only': False}
        if self.func:
            kwargs['transform'] = func
        if self.now:
            kwargs['update_now'] = True
        self.link = P.directional_link((self.items[0], 'loose'),
                                       (self.items[1], 'loose'), **kwargs)
        self.want = []
        if self.now:
            self.fire()
        self.active = True

    @staticmethod
    def make(kind):
        if kind == 'P':
            return Prop()

        class Loose(traitlets.HasTraits):
            loose = traitlets.Any(None, allow_none=True)
        return Loose()

    def fire(self):
        val = self.model[0]
        if self.func:
            self.want.append(val)
            val = {'tuple': ('got', val), 'none': None,
                   'bool': bool(val)}[self.func]
        self.model[1] = val

    def put(self, value, delete=False):
        old = self.model[0]
        changed = not core.same(old, value)
        if type(old) in (bool, int) and type(value) in (bool, int):
            changed = old != value
        if self.unset != delete:
            changed = True
        self.unset = delete
        if delete:
            del self.items[0].loose
        else:
            self.items[0].loose = value
        if changed:
            self.model[0] = value
        elif self.kinds[0] == 'P' or value is None:
            self.model[0] = value
        else:
            self.model[0] = self.items[0].loose
        if self.active and (changed or not self.only and
                            self.kinds[0] == 'P'):
            self.fire()

    def toggle(self, active):
        self.link.relink() if active else self.link.unlink()
        self.active = active

    def other(self):
        self.items[1].loose = self.model[1] = 9

    def ops(self):
        out = [('source = ' + n, lambda s, v=v: s.put(v))
               for n, v in self.POOL]
        if self.kinds[0] == 'P':
            out.append(('del source', lambda s: s.put(None, True)))
        return out + [('target = 9', lambda s: s.other()),
                      ('unlink', lambda s: s.toggle(False)),
                      ('relink', lambda s: s.toggle(True))]

    def check(self):
        self.ctx.same([i.loose for i in self.items], self.model,
                      'source and target')
        self.ctx.same(self.seen, self.want, 'values that were transformed')

    def key(self):
        return (core.canon(self.model), self.active, self.unset)


def loose_values(ctx):
    for kinds, only, func, now, start in itertools.product(
            ('PP', 'PT', 'TP'), (True, False),
            (None, 'tuple', 'none', 'bool'), (False, True), ((), (1,), ([],))):
        if not only and kinds[0] == 'T':
            continue
        cls = type('Values', (Values,), dict(
            kinds=kinds, only=only, func=func, now=now, start=start))
        core.explore(ctx, cls, 2 if ctx.quick else 4)
        if ctx.full():
            return


def rejecting(ctx):
    core.explore(ctx, Rejecting, 3 if ctx.quick else 4)


def refused(ctx):
    """Links that cannot be made."""
    hp, ht = Prop(), Trait()
    bad = [hp, 'a', None, 5, (hp,), (hp, 'a', 1), [hp, 'a'], (hp, 'zip'),
           (ht, 'zip'), ('a', hp), (5, 'a'), (hp, 5), (Prop, 'a'), (None, 'a')]
    good = [(hp, 'b'), (ht, 'b')]
    for item, other in itertools.product(bad, good):
        for make in (lambda: P.directional_link(item, other),
                     lambda: P.directional_link(other, item),
                     lambda: P.link(item, other), lambda: P.link(other, item),
                     lambda: P.link((hp, 'a'), other, item)):
            core.case(ctx, 'link %s, %s' % (core.show(item), other[1]),
                      lambda: core.expect(ctx, core.attempt(make), ValueError,
                                          'link of %s' % core.show(item)))
            ctx.step()
    for one in ((hp, 'a'), (ht, 'a')):
        for make in (lambda: P.directional_link(one, one),
                     lambda: P.link(one, one), lambda: P.link(one),
                     lambda: P.link(), lambda: P.link(
                         (hp, 'b'), one, transform=abs)):
            core.case(ctx, 'same item', lambda: core.expect(
                ctx, core.attempt(make), ValueError, 'link of %s' % one[1]))
        for func in ('abs', 5, lambda: 1, lambda a, b: a):
            core.case(ctx, 'transform', lambda: core.expect(
                ctx, core.attempt(P.directional_link, (hp, 'b'), one,
                                  transform=func), ValueError,
                'transform %s' % core.show(func)))

    def survives():
        one, two = Prop(a=1), Prop(a=2)
        core.attempt(P.link, (one, 'a'))
        core.attempt(P.directional_link, (one, 'a'), (two, 'a'),
                     transform='no')
        one.a = 5
        ctx.same(two.a, 2, 'a link that was refused is not active')
    core.case(ctx, 'refused link', survives)


def scenarios(tier):
    yield ('names', lambda ctx: names.named(ctx, names.linked))
    yield ('many', lambda ctx: sizes.counted(ctx, sizes.links))
    quick = tier == 'quick'
    all_kinds = ['PPP', 'PTP', 'TPT', 'TTT']
    if not quick:
        all_kinds = [''.join(k) for k in itertools.product('PT', repeat=3)]
    for kinds in all_kinds:
        for flags in ('on', 'off', 'mixed'):
            if quick and (flags == 'off' and 'T' in kinds or
                          kinds == 'TTT' and flags != 'on'):
                continue
            parts = 2 if quick else 3
            for part in range(parts):
                yield ('graphs %s change_only %s %d' % (kinds, flags, part),
                       graphs(kinds, flags, (part, parts)))
    yield ('transforms', transforms)
    for kinds in (('PP', 'PT', 'TT', 'PPP', 'PTP', 'TPT', 'PPPP', 'PTPT')
                  if quick else
                  ('PP', 'PT', 'TP', 'TT', 'PPP', 'PTP', 'TPT', 'PPT', 'TTP',
                   'PPPP', 'PTPT', 'TTPP', 'PPTT')):
        yield ('multi %s' % kinds, multis(kinds))
    yield ('creation', creation)
    yield ('rejecting', rejecting)
    yield ('values', loose_values)
    yield ('failing', failing)
    for kinds in ('PPP', 'TPP', 'PTP', 'TTT'):
        yield ('inside %s' % kinds, inside(kinds))
    for kinds in ('PP', 'PT', 'TP', 'TT'):
        yield ('histories %s' % kinds, histories(kinds))
    yield ('refused', refused)
