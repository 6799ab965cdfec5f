"""P24: cyclic instance graphs against a reachability oracle."""
import itertools
import warnings

import properties as P

from mc import core

PROPERTY = 'P24'
BOUNDS = ('every directed graph over 1 and 2 nodes with an instance property '
          'and a list, tuple, dictionary, union or set of instances each, and '
          'over 3 nodes with an instance property and a list (up to '
          'renumbering), every node valid or invalid; every pair (2 nodes) of '
          'operations, and every operation followed by all others (3 nodes); '
          'operations: validate, serialize, copy, equal, rewiring, and each of '
          'them failing at every node; equality of every two nodes of every '
          'coloured graph over 4 (quick) / 5 nodes with one reference and 3 / '
          '4 nodes with two references each; methods decorated with '
          'stop_recursion_with on every graph over up to 3 nodes')
ASSUMPTIONS = ['equality of two different cyclic instances may be False even '
               'if their structures agree (documented)']


class Boom(Exception):
    """Raised by user code in the middle of an operation."""


class Halt(core.Interrupt):
    """The same, as if the user had interrupted it."""


class Touchy(object):
    """A value that raises when it is compared or serialized, if armed."""

    armed = None
    error = Boom

    def __init__(self, node):
        self.node = node

    def __eq__(self, other):
        if Touchy.armed == ('equal', self.node):
            raise Touchy.error
        return isinstance(other, Touchy)

    def __ne__(self, other):
        return not self == other

    __hash__ = None


def dump(value, **kwargs):
    if Touchy.armed == ('serialize', value.node):
        raise Touchy.error
    return value.node


class Node(P.HasProperties):
    num = P.Integer('')
    touchy = P.Property('', serializer=dump, deserializer=lambda v, **_:
                        Touchy(v))
    ref = P.Instance('', P.HasProperties, required=False)

    @P.validator
    def _check(self):
        if Touchy.armed == ('validate', self.touchy.node):
            raise Touchy.error


class ListNode(Node):
    many = P.List('', P.Instance('', P.HasProperties), required=False)


class TupleNode(Node):
    many = P.Tuple('', P.Instance('', P.HasProperties), required=False)


class DictNode(Node):
    many = P.Dictionary('', key_prop=P.String(''),
                        value_prop=P.Instance('', P.HasProperties),
                        required=False)


class UnionNode(Node):
    many = P.Union('', [P.Integer(''), P.Instance('', P.HasProperties)],
                   required=False)


class SetNode(Node):
    many = P.Set('', P.Instance('', P.HasProperties), required=False)


KINDS = {'list': ListNode, 'tuple': TupleNode, 'dict': DictNode,
         'union': UnionNode, 'set': SetNode}


def wrap(kind, nodes):
    if not nodes:
        return None
    if kind == 'list':
        return list(nodes)
    if kind == 'tuple':
        return tuple(nodes)
    if kind == 'dict':
        return {'k%d' % i: node for i, node in enumerate(nodes)}
    if kind == 'union':
        return nodes[0]
    return set(nodes)


class Graph(object):
    """spec: per node (valid?, ref or None, tuple of targets)."""

    def __init__(self, ctx, kind, spec):
        self.ctx = ctx
        self.kind = kind
        self.spec = list(spec)
        self.nodes = [KINDS[kind](touchy=Touchy(i)) for i in range(len(spec))]
        for idx in range(len(spec)):
            self.wire(idx)

    def wire(self, idx):
        valid, ref, many = self.spec[idx]
        node = self.nodes[idx]
        node.num = 1 if valid else P.undefined
        node.ref = P.undefined if ref is None else self.nodes[ref]
        value = wrap(self.kind, [self.nodes[j] for j in many])
        node.many = P.undefined if value is None else value

    # -- oracle -----------------------------------------------------------
    def succ(self, idx):
        _, ref, many = self.spec[idx]
        return ([] if ref is None else [ref]) + list(many)

    def reach(self, idx):
        seen, todo = {idx}, [idx]
        while todo:
            for nxt in self.succ(todo.pop()):
                if nxt not in seen:
                    seen.add(nxt)
                    todo.append(nxt)
        return seen

    def cyclic(self, idx):
        """Is there a cycle that the node reaches?"""
        return any(mid in self.reach(nxt) for mid in self.reach(idx)
                   for nxt in self.succ(mid))

    def tree(self, idx):
        valid, ref, many = self.spec[idx]
        out = {'__class__': type(self.nodes[idx]).__name__, 'touchy': idx}
        if valid:
            out['num'] = 1
        if ref is not None:
            out['ref'] = self.tree(ref)
        if many:
            subs = [self.tree(j) for j in many]
            if self.kind == 'dict':
                out['many'] = {'k%d' % i: s for i, s in enumerate(subs)}
            elif self.kind == 'union':
                out['many'] = subs[0]
            elif self.kind == 'set':
                out['many'] = sorted(subs, key=repr)
            else:
                out['many'] = subs
        return out

    def alike(self, one, two):
        """Greatest bisimulation: may the nodes be equal at all?"""
        size = len(self.spec)
        rel = {(i, j) for i in range(size) for j in range(size)
               if self.spec[i][0] == self.spec[j][0] and
               (self.spec[i][1] is None) == (self.spec[j][1] is None) and
               len(self.spec[i][2]) == len(self.spec[j][2])}
        stable = False
        while not stable:
            stable = True
            for i, j in list(rel):
                good = i == j or (
                    (self.spec[i][1] is None or
                     (self.spec[i][1], self.spec[j][1]) in rel) and
                    self.match(self.spec[i][2], self.spec[j][2], rel))
                if not good:
                    rel.discard((i, j))
                    stable = False
        return (one, two) in rel

    def match(self, one, two, rel):
        if self.kind == 'set':
            return any(all(pair in rel for pair in zip(one, perm))
                       for perm in itertools.permutations(two))
        return all(pair in rel for pair in zip(one, two))

    # -- operations -------------------------------------------------------
    def faulty(self, what, idx, spot, func):
        """Run func with user code of node `spot` raising."""
        for error in (Halt, Boom):
            Touchy.armed, Touchy.error = (what, spot), error
            try:
                out = core.attempt(func)
            finally:
                Touchy.armed = None
            if out[0] == core.ERR and isinstance(out[1], error):
                continue
            self.survived(out, what, idx, spot)

    def survived(self, out, what, idx, spot):
        self.ctx.check(spot != idx or what == 'serialize' and isinstance(
            out[1], P.SelfReferenceError),
                       '%s of node %d swallowed the error of its own code' % (
                           what, idx))

    def validate(self, idx, spot=None):
        func = self.nodes[idx].validate
        if spot is not None:
            self.faulty('validate', idx, spot, func)
            return
        bad = [j for j in self.reach(idx) if not self.spec[j][0]]
        out = core.attempt(func)
        if not bad:
            got = core.expect_ok(self.ctx, out, 'validate node %d' % idx)
            self.ctx.check(got is True, 'validate returned %r' % (got,))
            return
        err = core.expect(self.ctx, out, P.ValidationError,
                          'validate node %d' % idx)
        # a Union reports the member's problem as its own
        culprits = [t.instance for t in err.error_tuples]
        missing = [t.instance for t in err.error_tuples
                   if t.reason == 'missing']
        near = [self.nodes[j] for j in self.reach(idx)
                if any(k in bad for k in self.reach(j))]
        known = [self.nodes[j] for j in bad]
        self.ctx.check(culprits and all(
            any(c is k for k in near) for c in culprits) and all(
                any(c is k for k in known) for c in missing) and (
                    missing or self.kind == 'union'),
                       'validate node %d blames a valid instance' % idx)
        if idx in bad:
            self.ctx.check(any(c is self.nodes[idx] for c in missing),
                           'validate node %d misses its own problem' % idx)

    def serialize(self, idx, spot=None):
        func = self.nodes[idx].serialize
        if spot is not None:
            self.faulty('serialize', idx, spot, func)
            return
        out = core.attempt(func)
        self.judge(out, idx, 'serialize')
        if out[0] != core.ERR:
            got = self.sort(out[1])
            self.ctx.check(got == self.tree(idx), lambda: 'serialize node %d: '
                           '%s, expected %s' % (idx, core.show(got),
                                                core.show(self.tree(idx))))

    def sort(self, data):
        if self.kind != 'set':
            return data
        out = dict(data)
        if 'ref' in out:
            out['ref'] = self.sort(out['ref'])
        if 'many' in out:
            # in the order of self.tree, whatever the order of the keys
            out['many'] = sorted((self.sort(d) for d in out['many']),
                                 key=lambda d: d['touchy'])
            want = sorted(out['many'], key=lambda d: repr(
                self.tree(d['touchy'])))
            out['many'] = want
        return out

    def judge(self, out, idx, what):
        if self.cyclic(idx):
            core.expect(self.ctx, out, P.SelfReferenceError,
                        '%s node %d, which reaches a cycle' % (what, idx))
        else:
            core.expect_ok(self.ctx, out, '%s node %d' % (what, idx))

    def copy(self, idx, spot=None):
        func = lambda: P.copy(self.nodes[idx])
        if spot is not None:
            self.faulty('serialize', idx, spot, func)
            return
        out = core.attempt(func)
        self.judge(out, idx, 'copy')
        if out[0] != core.ERR:
            dup = out[1]
            self.ctx.check(all(dup is not node for node in self.nodes),
                           'copy returned a node of the graph')
            self.ctx.check(self.sort(dup.serialize()) == self.tree(idx),
                           'copy of node %d' % idx)
            self.ctx.check(P.equal(dup, self.nodes[idx]) is True and
                           P.equal(self.nodes[idx], dup) is True,
                           'copy of node %d is not equal to it' % idx)

    def equal(self, one, two, spot=None):
        func = lambda: P.equal(self.nodes[one], self.nodes[two])
        if spot is not None:
            # compared only as far as the instances agree
            for error in (Halt, Boom):
                Touchy.armed, Touchy.error = ('equal', spot), error
                out = core.attempt(func)
                Touchy.armed = None
                if out[0] == core.ERR:
                    core.expect(self.ctx, out, error, 'failing equal')
            return
        what = 'equal(node %d, node %d)' % (one, two)
        got = core.expect_ok(self.ctx, core.attempt(func), what)
        if one == two:
            self.ctx.check(got is True, what + ' is %r' % (got,))
            return
        alike = self.alike(one, two)
        if self.cyclic(one) or self.cyclic(two):
            self.ctx.check(got is False or got is True and alike,
                           what + ' is %r, but they differ' % (got,))
        else:
            self.ctx.check(got is alike, what + ' is %r' % (got,))

    def rewire(self, idx, new):
        self.spec[idx] = new
        self.wire(idx)

    def unchanged(self):
        for idx, (valid, ref, many) in enumerate(self.spec):
            node = self.nodes[idx]
            self.ctx.check(node.num == (1 if valid else None), 'number')
            self.ctx.check(node.ref is (None if ref is None
                                        else self.nodes[ref]), 'reference')
            real = node.many
            if self.kind == 'dict' and real is not None:
                real = [real[k] for k in sorted(real)]
            elif self.kind == 'union' and real is not None:
                real = [real]
            want = [self.nodes[j] for j in many]
            self.ctx.check(len(real or ()) == len(want) and all(
                any(r is w for w in want) for r in (real or ())),
                           'references of node %d changed' % idx)


def operations(size, faults=True):
    """(label, function of the graph)"""
    out = []
    for idx in range(size):
        out += [('validate %d' % idx, lambda g, i=idx: g.validate(i)),
                ('serialize %d' % idx, lambda g, i=idx: g.serialize(i)),
                ('copy %d' % idx, lambda g, i=idx: g.copy(i))]
        out += [('equal %d %d' % (idx, two),
                 lambda g, i=idx, j=two: g.equal(i, j)) for two in range(size)]
    if not faults:
        return out
    for idx, spot in itertools.product(range(size), repeat=2):
        out += [('validate %d, failing at %d' % (idx, spot),
                 lambda g, i=idx, s=spot: g.validate(i, s)),
                ('serialize %d, failing at %d' % (idx, spot),
                 lambda g, i=idx, s=spot: g.serialize(i, s)),
                ('copy %d, failing at %d' % (idx, spot),
                 lambda g, i=idx, s=spot: g.copy(i, s))]
        out += [('equal %d %d, failing at %d' % (idx, two, spot),
                 lambda g, i=idx, j=two, s=spot: g.equal(i, j, s))
                for two in range(size) if two != idx]
    return out


def node_specs(kind, size, few):
    """Every way to wire one node."""
    refs = [None] + list(range(size))
    if few:
        many = [()] + [(j,) for j in range(size)]
    else:
        longest = 1 if kind == 'union' else 2
        many = [()]
        for length in range(1, longest + 1):
            if kind == 'set':
                many += list(itertools.combinations(range(size), length))
            else:
                many += list(itertools.product(range(size), repeat=length))
    return [(valid, ref, m) for valid in (True, False) for ref in refs
            for m in many]


def canonical(spec):
    """Is the spec the least of its renumberings?"""
    size = len(spec)

    def code(perm):
        out = [None] * size
        for idx, (valid, ref, many) in enumerate(spec):
            out[perm[idx]] = (valid, -1 if ref is None else perm[ref],
                              tuple(perm[j] for j in many))
        return out
    mine = code(list(range(size)))
    return all(mine <= code(perm)
               for perm in itertools.permutations(range(size)))


def run_one(ctx, kind, spec, seq, ops):
    graph = Graph(ctx, kind, spec)
    ctx.trace = ['%s graph %s' % (kind, spec)]
    for num in seq:
        label, func = ops[num]
        ctx.trace.append(label)
        func(graph)
        ctx.step()
    graph.unchanged()
    ctx.traces += 1


def pairs(kind, size, few, part, parts):
    """Every graph, every sequence of two operations."""
    def run(ctx):
        full = operations(size)
        plain = operations(size, faults=False)
        extra = [('rewire 0 to %s' % (new,),
                  lambda g, n=new: g.rewire(0, n))
                 for new in ((True, None, ()), (True, 0, ()),
                             (False, size - 1, ()))]
        ops = full + extra
        count = 0
        for spec in itertools.product(node_specs(kind, size, few),
                                      repeat=size):
            if not canonical(spec):
                continue
            count += 1
            if count % parts != part:
                continue
            ctx.state((kind, spec))
            for first in range(len(ops)):
                for second in range(len(plain)):
                    core.guarded(ctx, lambda: run_one(
                        ctx, kind, spec, (first, second), ops))
                    if ctx.full():
                        return
        ctx.sample('all %d %s graphs over %d nodes' % (count, kind, size))
    return run


def sweeps(kind, size, few, part, parts, faults):
    """Every graph, every operation followed by all others in turn."""
    def run(ctx):
        ops = operations(size, faults)
        plain = len(operations(size, False))
        count = 0
        for spec in itertools.product(node_specs(kind, size, few),
                                      repeat=size):
            if not canonical(spec):
                continue
            count += 1
            if count % parts != part:
                continue
            ctx.state((kind, spec))
            if ctx.quick:
                starts = [()]
            else:
                starts = [(i,) for i in range(len(ops))]
            for start in starts:
                rest = list(range(plain))
                for seq in (rest, rest[::-1]):
                    core.guarded(ctx, lambda: run_one(
                        ctx, kind, spec, start + tuple(seq), ops))
                    if ctx.full():
                        return
            if ctx.quick:
                # every failing operation once, each followed by the plain ones
                bad = list(range(plain, len(ops)))
                seq = []
                for num in bad:
                    seq += [num, num % plain]
                if faults:
                    core.guarded(ctx, lambda: run_one(
                        ctx, kind, spec, seq, ops))
        ctx.sample('all %d %s graphs over %d nodes' % (count, kind, size))
    return run


def chains(ctx):
    """Longer cycles and chains of every length up to 12."""
    for kind, length, back in itertools.product(
            KINDS, range(1, 7 if ctx.quick else 13), (None, 0, 'mid', 'last')):
        target = {None: None, 0: 0, 'mid': length // 2,
                  'last': length - 1}[back]
        for by_ref in (True, False):
            for bad in (None, length - 1):
                spec = []
                for idx in range(length):
                    nxt = idx + 1 if idx + 1 < length else target
                    spec.append((idx != bad, nxt if by_ref else None,
                                 () if by_ref or nxt is None else (nxt,)))

                def go():
                    graph = Graph(ctx, kind, spec)
                    for _ in range(2):
                        for idx in {0, length // 2, length - 1}:
                            graph.validate(idx)
                            graph.serialize(idx)
                            graph.copy(idx)
                            graph.equal(0, idx)
                            graph.equal(idx, length - 1)
                            ctx.step(5)
                    graph.unchanged()
                    ctx.state((kind, length, back, by_ref, bad))
                core.case(ctx, '%s chain of %d, back to %s, bad %s' % (
                    kind, length, back, bad), go)
                if ctx.full():
                    return


class NumFirst(P.HasProperties):
    num = P.Integer('')
    left = P.Instance('', P.HasProperties, required=False)
    right = P.Instance('', P.HasProperties, required=False)


class NumLast(P.HasProperties):
    left = P.Instance('', P.HasProperties, required=False)
    right = P.Instance('', P.HasProperties, required=False)
    num = P.Integer('')


def bisimilar(spec):
    """The pairs of nodes no path of references tells apart."""
    size = len(spec)
    rel = {(i, j) for i in range(size) for j in range(size)
           if spec[i][0] == spec[j][0]}
    stable = False
    while not stable:
        stable = True
        for i, j in list(rel):
            for a, b in zip(spec[i][1:], spec[j][1:]):
                if (a is None) != (b is None) or (
                        a is not None and (a, b) not in rel):
                    rel.discard((i, j))
                    stable = False
                    break
    return rel


def twins(cls, size, width, part, parts):
    """Equality of every two nodes of larger graphs of plain references."""
    targets = [None] + list(range(size))
    wires = [(num,) + refs for num in (1, 2)
             for refs in itertools.product(targets, repeat=width)]

    def least(spec):
        """Is the spec the least of its renumberings?"""
        def code(perm):
            out = [None] * size
            for idx, (num, *refs) in enumerate(spec):
                out[perm[idx]] = (num,) + tuple(
                    -1 if r is None else perm[r] for r in refs)
            return out
        mine = code(range(size))
        return all(mine <= code(perm)
                   for perm in itertools.permutations(range(size)))

    def one(ctx, spec):
        nodes = [cls(num=num) for num, *_ in spec]
        for node, (_, *refs) in zip(nodes, spec):
            for name, ref in zip(('left', 'right'), refs):
                if ref is not None:
                    setattr(node, name, nodes[ref])
        rel = bisimilar(spec)
        reach = [{i} for i in range(size)]
        for _ in range(size):
            for i in range(size):
                for ref in spec[i][1:]:
                    if ref is not None:
                        reach[i] |= reach[ref]
        cyclic = [any(ref is not None and mid in reach[ref]
                      for mid in reach[i] for ref in spec[mid][1:])
                  for i in range(size)]
        for _ in range(2):
            for i, j in itertools.product(range(size), repeat=2):
                got = P.equal(nodes[i], nodes[j])
                ctx.step()
                what = 'equal(node %d, node %d) is %r' % (i, j, got)
                if i == j:
                    ctx.check(got is True, what)
                elif (i, j) not in rel:
                    ctx.check(got is False, what + ', but they differ')
                elif not cyclic[i] and not cyclic[j]:
                    ctx.check(got is True, what)
        ctx.state((cls.__name__, spec))

    def run(ctx):
        count = 0
        for spec in itertools.product(wires, repeat=size):
            count += 1
            if count % parts != part or not least(spec):
                continue
            if not core.case(ctx, '%s %s' % (cls.__name__, spec),
                             one, ctx, spec):
                return
    return run


class Stop(Exception):
    """The backup error of a decorated method."""


class FalsyValue(object):
    def __bool__(self):
        return False


FALSY = FalsyValue()

# name -> (backup, what a repeated call gives for (node, args, kwargs))
BACKUPS = {
    'number': (7, lambda node, *a, **k: ('got', 7)),
    'zero': (0, lambda node, *a, **k: ('got', 0)),
    'none': (None, lambda node, *a, **k: ('got', None)),
    'false': (False, lambda node, *a, **k: ('got', False)),
    'falsy': (FALSY, lambda node, *a, **k: ('got', FALSY)),
    'error': (Stop('again'), lambda node, *a, **k: ('raised', Stop)),
    'function': (lambda self, *args, **kwargs: (self.num, args, kwargs),
                 lambda node, *a, **k: ('got', (node.num, a, k))),
    'function error': (lambda self, *args, **kwargs: Stop('again'),
                       lambda node, *a, **k: ('raised', Stop)),
}


def _raiser(self, *args, **kwargs):
    raise Stop('again')


BACKUPS['raiser'] = (_raiser, lambda node, *a, **k: ('raised', Stop))


def guarded(ctx, part, parts):
    """Methods decorated with stop_recursion_with, on every small graph."""
    def build(backup, alike, mutual):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            stop = P.stop_recursion_with(backup)
            other = P.stop_recursion_with(backup)

        class Walker(P.HasProperties):
            num = P.Integer('')
            many = P.List('', P.Instance('', P.HasProperties), default=list)

            @stop
            def walk(self, *args, **kwargs):
                """Walk the graph."""
                return self.body('back' if mutual else 'walk', args, kwargs)

            @other
            def back(self, *args, **kwargs):
                return self.body('walk', args, kwargs)

            def body(self, name, args, kwargs):
                log.append(self.idx)
                if self.idx in armed:
                    raise Touchy.error
                out = []
                for sub in self.many:
                    try:
                        out.append(('got', getattr(sub, name)(
                            *args, **kwargs)))
                    except Stop:
                        out.append(('raised', Stop))
                return self.idx, out

        if alike:
            Walker.__eq__ = lambda self, oth: isinstance(oth, Walker)
            Walker.__ne__ = lambda self, oth: not self == oth
            Walker.__hash__ = lambda self: 1
        return Walker

    log, armed = [], set()

    def oracle(nodes, spec, again, idx, args, kwargs, seen, bad, order,
               mutual, name='walk'):
        if (name, idx) in seen:
            return again(nodes[idx], *args, **kwargs)
        order.append(idx)
        if idx in bad:
            raise Boom
        return ('got', (idx, [
            oracle(nodes, spec, again, sub, args, kwargs, seen | {(name, idx)},
                   bad, order, mutual,
                   'back' if mutual and name == 'walk' else 'walk') for sub in spec[idx]]))

    calls = [((), {}), ((1, None), {'key': []})]
    for size in (1, 2, 3):
        subs = [c for n in range(3) for c in itertools.product(
            range(size), repeat=n)]
        if size == 3 and ctx.quick:
            subs = [c for c in subs if len(set(c)) == len(c)]
        for (label, (backup, again)), (alike, mutual) in itertools.product(
                BACKUPS.items(), [(False, False), (True, False),
                                  (False, True)]):
            if size == 3 and label not in (
                    'number', 'function', 'error') and ctx.quick:
                continue
            cls = build(backup, alike, mutual)

            def one(spec):
                nodes = [cls(num=5 + i) for i in range(size)]
                for i, node in enumerate(nodes):
                    node.__dict__['idx'] = i
                    node.many = [nodes[j] for j in spec[i]]
                for bad, Touchy.error in [(set(), None)] + [
                        ({i}, e) for i in range(size) for e in (Boom, Halt)] \
                        + [(set(), None)]:
                    armed.clear()
                    armed.update(bad)
                    for start, (args, kwargs) in itertools.product(
                            range(size), calls):
                        del log[:]
                        got = core.attempt(
                            lambda: nodes[start].walk(*args, **kwargs))
                        order = []
                        ctx.step()
                        try:
                            want = oracle(nodes, spec, again, start, args,
                                          kwargs, frozenset(), bad, order,
                                          mutual)
                        except Boom:
                            ctx.check(got[0] == core.ERR and isinstance(
                                got[1], Touchy.error), 'the error of the method is '
                                'lost: %r' % (got,))
                        else:
                            ctx.check(got[0] == 'ok' and repr(
                                got[1]) == repr(want[1]), lambda:
                                'node %d gives %s, expected %s' % (
                                    start, core.show(got), core.show(want)))
                        ctx.same(log, order, 'nodes visited')
                armed.clear()
                ctx.state((size, label, alike, mutual, spec))

            ctx.check(cls.walk.__name__ == 'walk' and
                      cls.walk.__doc__ == 'Walk the graph.',
                      'the decorated method lost its name')
            for count, spec in enumerate(itertools.product(
                    subs, repeat=size)):
                if count % parts != part:
                    continue
                if not core.case(ctx, 'backup %s, alike %s, mutual %s, edges %s' % (
                        label, alike, mutual, spec), one, spec):
                    return


def scenarios(tier):
    quick = tier == 'quick'
    for kind in KINDS:
        yield ('one node %s' % kind, pairs(kind, 1, False, 0, 1))
        few = quick
        parts = 2 if quick else 12
        for part in range(parts):
            yield ('two nodes %s %d' % (kind, part),
                   pairs(kind, 2, few, part, parts) if kind in (
                       'list', 'union') or not quick else
                   sweeps(kind, 2, few, part, parts, True))
    parts = 8 if quick else 24
    for part in range(parts):
        yield ('three nodes list %d' % part,
               sweeps('list', 3, True, part, parts, True))
    if not quick:
        for kind in ('dict', 'union'):
            for part in range(parts):
                yield ('three nodes %s %d' % (kind, part),
                       sweeps(kind, 3, True, part, parts, False))
    yield ('chains', chains)
    for part in range(4):
        yield ('decorated methods %d' % part, lambda ctx, part=part: guarded(
            ctx, part, 4))
    for cls in (NumFirst, NumLast):
        plans = [(4, 1, 1), (3, 2, 4)] if quick else [
            (5, 1, 8), (3, 2, 4), (4, 2, 24)]
        for size, width, parts in plans:
            for part in range(parts):
                yield ('twins %s %d nodes %d references %d' % (
                    cls.__name__, size, width, part),
                       twins(cls, size, width, part, parts))
