"""P16: identified instances, flat serialization and pointers."""
import collections
import copy
import itertools
import json

import properties as P
from properties.extras import HasUID, Pointer

from mc import core, sizes

PROPERTY = 'P16'
BOUNDS = ('every directed graph over 2 nodes (3 edge slots each: instance, list '
          'of up to 2, pointer) and over 3 nodes (instance x list slots), every '
          'root, node classes mixed, values defined or not; 10 kinds of holders '
          'for the edges; every deserialization flag, registry state (free, '
          'taken, partly registered), missing entry and root choice; the graphs '
          'of 2 nodes again with instances that are false or all equal; histories '
          'of 3 (quick) / 4 (thorough) operations over creations, renames, '
          'deletions, loads and round trips; pointers over every combination of '
          'load, uid property, checks and loaders')
ASSUMPTIONS = ['whether the previous identifier of a renamed or deleted '
               'instance is free again is unspecified',
               'instances a failed deserialization built stay unspecified']

UIDS = ('a', 'b', 'c')
FREE = '(a uid nobody uses)'


NATURE = []      # how the instances of the next worlds behave


def empty(self):
    return 0


def always(self, other):
    return True


def world(link=None):
    """A fresh family of classes sharing one registry."""
    class Base(HasUID):
        if 'empty' in NATURE:
            __len__ = empty
        if 'equal' in NATURE:
            __eq__ = always
            __hash__ = empty
        _REGISTRY = dict()
        _INSTANCES = dict()
        val = P.Integer('', required=False)

    class Plain(P.HasProperties):
        _REGISTRY = Base._REGISTRY
        inner = P.Instance('', Base, required=False)

    class Node(Base):
        inst = P.Instance('', Base, required=False)
        many = P.List('', P.Instance('', Base), required=False)
        ptr = Pointer('', Base, required=False)
        num = P.Integer('', required=False, default=7)
        via = (link(Base, Plain) if link else
               P.Integer('', required=False))

    class Sub(Node):
        more = P.String('', required=False, default='m')
    return collections.namedtuple('World', 'Base Plain Node Sub')(
        Base, Plain, Node, Sub)


class Graph(object):
    """Nodes with edges; enough to predict everything."""

    def __init__(self, nodes):
        # list of dicts: cls, val, inst (index/None), many (tuple), ptr
        self.nodes = nodes

    def build(self, wld):
        objs = []
        for uid, node in zip(UIDS, self.nodes):
            objs.append(getattr(wld, node['cls'])(uid=uid))
        for obj, node in zip(objs, self.nodes):
            if node['val'] is not None:
                obj.val = node['val']
            if node['inst'] is not None:
                obj.inst = objs[node['inst']]
            if node['many'] is not None:
                obj.many = [objs[i] for i in node['many']]
            if node['ptr'] is not None:
                kind, idx = node['ptr']
                obj.ptr = objs[idx] if kind == 'obj' else UIDS[idx]
        return objs

    def reach(self, root, pointers=True):
        seen, todo = [], [root]
        while todo:
            cur = todo.pop()
            if cur in seen:
                continue
            seen.append(cur)
            node = self.nodes[cur]
            if node['inst'] is not None:
                todo.append(node['inst'])
            todo += list(node['many'] or ())
            if pointers and node['ptr'] and node['ptr'][0] == 'obj':
                todo.append(node['ptr'][1])
        return seen

    def entry(self, idx, include=True):
        node = self.nodes[idx]
        out = {'uid': UIDS[idx], 'num': 7}
        if include:
            out['__class__'] = node['cls']
        if node['cls'] == 'Sub':
            out['more'] = 'm'
        if node['val'] is not None:
            out['val'] = node['val']
        if node['inst'] is not None:
            out['inst'] = UIDS[node['inst']]
        if node['many'] is not None:
            out['many'] = [UIDS[i] for i in node['many']]
        if node['ptr'] is not None:
            out['ptr'] = UIDS[node['ptr'][1]]
        return out

    def flat(self, root, include=True):
        out = {UIDS[i]: self.entry(i, include) for i in self.reach(root)}
        out['__root__'] = UIDS[root]
        return out


def check_rebuilt(ctx, graph, root, got, wld, trusted, what):
    """`got` is the graph from `root`, each node once."""
    seen = {}

    def visit(idx, obj, top):
        if idx in seen:
            ctx.check(seen[idx] is obj, '%s: two objects for %s' % (
                what, UIDS[idx]))
            return
        seen[idx] = obj
        node = graph.nodes[idx]
        ctx.check(not any(o is obj for i, o in seen.items() if i != idx),
                  '%s: one object for two identifiers' % what)
        full = trusted or top
        cls = getattr(wld, node['cls'] if trusted else
                      ('Node' if top else 'Base'))
        ctx.check(type(obj) is cls, '%s: class of %s is %s, expected %s' % (
            what, UIDS[idx], type(obj).__name__, cls.__name__))
        ctx.same((obj.uid, obj.val), (UIDS[idx], node['val']),
                 what + ' values')
        ctx.check(wld.Base.load(UIDS[idx]) is obj,
                  '%s: %s is not the registered instance' % (what, UIDS[idx]))
        if not full:
            return
        ctx.same(obj.num, 7, what)
        if node['cls'] == 'Sub' and trusted:
            ctx.same(obj.more, 'm', what)
        if node['inst'] is None:
            ctx.same(obj.inst, None, what + ' inst')
        else:
            visit(node['inst'], obj.inst, False)
        if node['many'] is None:
            ctx.check(obj.many in (None, []), what + ' many')
        else:
            ctx.same(len(obj.many), len(node['many']), what + ' many')
            for one, item in zip(node['many'], obj.many):
                visit(one, item, False)
        want = None if node['ptr'] is None else UIDS[node['ptr'][1]]
        ctx.same(obj.ptr, want, what + ' ptr')
    visit(root, got, True)


def round_trip(ctx, graph, root, label):
    wld, other = world(), world()
    objs = graph.build(wld)
    flat = objs[root].serialize()
    want = graph.flat(root)
    if dict(flat) != want:
        ctx.fail('%s: serialize gave %s, expected %s' % (
            label, core.show(dict(flat)), core.show(want)))
    bare = objs[root].serialize(include_class=False)
    if dict(bare) != graph.flat(root, False):
        ctx.fail('%s: serialize without class gave %s' % (
            label, core.show(dict(bare))))
    flat = json.loads(json.dumps(flat))
    for trusted in (True, False):
        if not trusted:
            other = world()
        given = copy.deepcopy(flat)
        got = other.Node.deserialize(given, trusted=trusted)
        if given != flat:
            ctx.fail('%s: deserialize changed its input to %s' % (
                label, core.show(given)))
        check_rebuilt(ctx, graph, root, got, other, trusted,
                      '%s trusted=%s' % (label, trusted))
        if trusted:
            again = got.serialize()
            lost = set(graph.reach(root)) - set(graph.reach(root, False))
            if not lost and dict(again) != dict(flat):
                ctx.fail('%s: the rebuilt graph serializes to %s' % (
                    label, core.show(dict(again))))
            out = core.attempt(other.Node.deserialize, given, trusted=True)
            core.expect(ctx, out, ValueError, '%s: identifiers in use' % label)
    # the originals are untouched and still registered
    for idx, obj in enumerate(objs):
        ctx.check(wld.Base.load(UIDS[idx]) is obj, label + ': original')
    out = core.attempt(wld.Node.deserialize, flat, trusted=True)
    core.expect(ctx, out, ValueError, '%s: identifiers in use' % label)
    ctx.step(5)
    ctx.state(core.canon(want))


def nodes_of(count, manys, ptrs):
    insts = [None] + list(range(count))
    return [dict(cls='Node', val=None, inst=i, many=m, ptr=p)
            for i in insts for m in manys for p in ptrs]


def graphs2(part, parts):
    def run(ctx):
        manys = [None, (), (0,), (1,), (0, 1), (1, 1)]
        ptrs = [None, ('obj', 0), ('obj', 1), ('uid', 1)]
        options = nodes_of(2, manys, ptrs)
        for num, (one, two) in enumerate(itertools.product(options, repeat=2)):
            if num % parts != part:
                continue
            graph = Graph([dict(one, val=1), dict(two, cls='Sub')])
            label = 'graph %s / %s' % (edges(one), edges(two))
            if not core.case(ctx, label, round_trip, ctx, graph, 0, label):
                return
    return run


def natures(nature):
    """The graphs again, of instances that are false or all equal."""
    def run(ctx):
        options = nodes_of(2, [None, (), (1, 0)], [None, ('obj', 1)])
        NATURE.append(nature)
        try:
            for one, two in itertools.product(options, repeat=2):
                graph = Graph([dict(one, val=1), dict(two, cls='Sub')])
                for root in (0, 1):
                    label = '%s instances: root %d of graph %s / %s' % (
                        nature, root, edges(one), edges(two))
                    if root and two['inst'] is None and not two['many']:
                        continue
                    if not core.case(ctx, label, round_trip, ctx, graph, root,
                                     label):
                        return
            holders(ctx) if nature == 'empty' else None
            plain_root(ctx)
            flags(ctx)
        finally:
            NATURE.remove(nature)
    return run


def edges(node):
    return 'inst=%s many=%s ptr=%s' % (node['inst'], node['many'], node['ptr'])


def graphs3(part, parts):
    def run(ctx):
        manys = ([None, (0, 1), (1, 2), (2, 0)] if ctx.quick else
                 [None, (0,), (1,), (2,), (0, 1), (1, 2), (2, 0), (0, 1, 2)])
        options = nodes_of(3, manys, [None])
        for num, trio in enumerate(itertools.product(options, repeat=3)):
            if num % parts != part:
                continue
            nodes = [dict(trio[0]), dict(trio[1], cls='Sub', val=2),
                     dict(trio[2], val=3)]
            graph = Graph(nodes)
            label = 'graph ' + ' / '.join(edges(n) for n in trio)
            if not core.case(ctx, label, round_trip, ctx, graph, num % 3,
                             label):
                return
    return run


# -- holders of edges -------------------------------------------------------
HOLDERS = collections.OrderedDict([
    ('list', (lambda B, Q: P.List('', P.Instance('', B)),
              lambda o, W: [o, o], lambda v: list(v))),
    ('observed list', (lambda B, Q: P.List('', P.Instance('', B),
                                           observe_mutations=True),
                       lambda o, W: [o, o], lambda v: list(v))),
    ('tuple', (lambda B, Q: P.Tuple('', P.Instance('', B)),
               lambda o, W: (o,), lambda v: list(v))),
    ('set', (lambda B, Q: P.Set('', P.Instance('', B)),
             lambda o, W: {o}, lambda v: list(v))),
    ('dictionary', (lambda B, Q: P.Dictionary(
        '', value_prop=P.Instance('', B)), lambda o, W: {'k': o, 'l': o},
        lambda v: [v['k'], v['l']])),
    ('nested list', (lambda B, Q: P.List('', P.List('', P.Instance('', B))),
                     lambda o, W: [[o], [o]],
                     lambda v: [v[0][0], v[1][0]])),
    ('union', (lambda B, Q: P.Union('', [P.Integer(''), P.Instance('', B)]),
               lambda o, W: o, lambda v: [v])),
    ('pointer', (lambda B, Q: Pointer('', B, load=True),
                 lambda o, W: o, lambda v: [v])),
    ('list of pointers', (lambda B, Q: P.List('', Pointer('', B)),
                          lambda o, W: [o, o.uid], lambda v: list(v))),
    ('plain instance', (lambda B, Q: P.Instance('', Q),
                        lambda o, W: W.Plain(inner=o), lambda v: [v.inner])),
    ('list of plain', (lambda B, Q: P.List('', P.Instance('', Q)),
                       lambda o, W: [W.Plain(inner=o), W.Plain(inner=o)],
                       lambda v: [x.inner for x in v])),
])


def holders(ctx):
    """Each kind of container carries references; targets self or other."""
    for name, (link, wrap, unwrap) in HOLDERS.items():
        for target, also in itertools.product((0, 1), (False, True)):
            def go():
                wld, new = world(link), world(link)
                one, two = wld.Node(uid='a'), wld.Sub(uid='b', val=5)
                objs = (one, two)
                one.via = wrap(objs[target], wld)
                if also:
                    one.inst = two
                    two.via = wrap(one, wld)
                flat = one.serialize()
                reached = {'a'} | ({'b'} if target or also else set())
                ctx.check(set(flat) == reached | {'__root__'},
                          'entries %s' % sorted(flat))
                given = copy.deepcopy(flat)
                got = new.Node.deserialize(given, trusted=True)
                ctx.check(given == flat, 'the input was changed to %s' %
                          core.show(given))
                pointing = 'pointer' in name

                def same_node(item, uid):
                    if isinstance(item, str) and pointing:
                        ctx.same(item, uid, 'pointer')
                    else:
                        ctx.check(item is new.Base.load(uid) and
                                  item is not None,
                                  '%s: not the registered %s' % (name, uid))
                ctx.check(got is new.Base.load('a'), 'root')
                for item in unwrap(got.via):
                    same_node(item, 'ab'[target])
                if also:
                    ctx.check(got.inst is new.Base.load('b'), 'inst')
                    ctx.check(type(got.inst) is new.Sub, 'class')
                    for item in unwrap(got.inst.via):
                        same_node(item, 'a')
                    ctx.same(got.inst.val, 5, 'value')
                ctx.step(3)
                ctx.state((name, target, also))
            core.case(ctx, '%s to %s%s' % (name, 'ab'[target],
                                           ' and back' if also else ''), go)


def plain_root(ctx):
    """Identified instances below an ordinary instance."""
    for shape in range(4):
        def go():
            wld, new = world(), world()
            one, two = wld.Node(uid='a'), wld.Sub(uid='b', val=5)
            if shape & 1:
                one.inst = two
            if shape & 2:
                one.many = [one, two]
            hold = wld.Plain(inner=one)
            data = hold.serialize()
            want = {'__class__': 'Plain', 'inner': one.serialize()}
            ctx.check(dict(data) == want, 'plain: %s' % core.show(data))
            given = copy.deepcopy(data)
            got = new.Plain.deserialize(given, trusted=True)
            ctx.check(given == data, 'the input was changed')
            graph = Graph([
                dict(cls='Node', val=None, inst=1 if shape & 1 else None,
                     many=(0, 1) if shape & 2 else None, ptr=None),
                dict(cls='Sub', val=5, inst=None, many=None, ptr=None)])
            check_rebuilt(ctx, graph, 0, got.inner, new, True, 'plain root')
            ctx.state(shape)
            ctx.step(3)
        core.case(ctx, 'plain root shape %d' % shape, go)


# -- deserialization flags and registries -------------------------------------
def flags(ctx):
    """a -> b -> c; entries missing, taken, invalid, of other classes."""
    chain = Graph([dict(cls='Node', val=1, inst=1, many=None, ptr=None),
                   dict(cls='Sub', val=None, inst=2, many=None, ptr=None),
                   dict(cls='Node', val=3, inst=None, many=None, ptr=None)])
    base = chain.flat(0)
    for trusted, strict, checked in itertools.product((False, True), repeat=3):
        kwargs = dict(trusted=trusted, strict=strict, assert_valid=checked)
        for root in (None, 'a', 'b', 'c', 'nobody'):
            for missing in (None, 'b', 'c'):
                for ready in itertools.chain.from_iterable(
                        itertools.combinations('abc', n) for n in range(4)):
                    for kind in ('Node', 'Base'):
                        label = 'flags %s root=%s missing=%s registered=%s ' \
                            'called on %s' % (kwargs, root, missing, ready,
                                              kind)
                        core.case(ctx, label, one_flag, ctx, base, kwargs,
                                  root, missing, ready, kind, label)
                        if ctx.full():
                            return


def one_flag(ctx, base, kwargs, root, missing, ready, kind, label):
    wld = world()
    old = {uid: wld.Sub(uid=uid) for uid in ready}
    data = copy.deepcopy(base)
    data.pop(missing, None)
    given = copy.deepcopy(data)
    call = dict(kwargs)
    if root is not None:
        call['root'] = root
    out = core.attempt(getattr(wld, kind).deserialize, given, **call)
    ctx.check(given == data, '%s: the input was changed to %s' % (
        label, core.show(given)))
    ctx.step()
    ctx.state(label)
    trusted, strict = kwargs['trusted'], kwargs['strict']
    start = 'abc'.find(root or 'a')
    first = root or 'a'
    # model: walk the chain
    result = None
    if first == 'nobody':
        result = ValueError
    chain = []
    cur, cls = first, kind
    while result is None:
        if cur not in data:
            if cur in ready:
                chain.append((cur, None))
                break
            result = ValueError
            break
        if cur in ready:
            result = ValueError
            break
        entry = data[cur]
        told = entry['__class__']
        made = told if trusted else cls
        if strict and told != made:
            result = ValueError
            break
        if strict and made == 'Base' and set(entry) - {
                '__class__', 'uid', 'val'}:
            result = ValueError
            break
        chain.append((cur, made))
        if made == 'Base' or 'inst' not in entry:
            break
        cur, cls = entry['inst'], 'Base'
    if result:
        core.expect(ctx, out, result, label)
    else:
        obj = core.expect_ok(ctx, out, label)
        for uid, made in chain:
            if made is None:
                ctx.check(obj is old[uid], '%s: not the registered instance %s'
                          % (label, uid))
            else:
                ctx.check(type(obj).__name__ == made, '%s: class of %s: %s' % (
                    label, uid, type(obj).__name__))
                ctx.same((obj.uid, obj.val), (uid, data[uid].get('val')),
                         label)
                ctx.check(wld.Base.load(uid) is obj, label + ': registration')
            nxt = getattr(obj, 'inst', None)
            if uid != chain[-1][0]:
                ctx.check(nxt is not None, '%s: %s refers to nothing' % (
                    label, uid))
            obj = nxt
    for uid, obj in old.items():
        ctx.check(wld.Base.load(uid) is obj, '%s: %s is registered to another '
                  'instance' % (label, uid))
        ctx.same((obj.uid, obj.val, obj.inst), (uid, None, None), label)
    ctx.outcome(result and result.__name__)


def validity(ctx):
    """assert_valid looks at the whole graph; bad values are refused."""
    for where, what, checked in itertools.product(
            'ab', ('required', 'bad', 'validator', 'none'), (False, True)):
        def go():
            class Base(HasUID):
                _REGISTRY, _INSTANCES = dict(), dict()

            class Node(Base):
                need = P.Integer('', max=8)
                inst = P.Instance('', Base, required=False)

                @P.validator
                def seven(self):
                    if self.need == 7:
                        raise P.ValidationError('seven')
            data = {'__root__': 'a'}
            for uid in 'ab':
                data[uid] = {'__class__': 'Node', 'uid': uid, 'need': 1}
            data['a']['inst'] = 'b'
            if what == 'required':
                del data[where]['need']
            elif what == 'bad':
                data[where]['need'] = 'x'
            elif what == 'validator':
                data[where]['need'] = 7
            given = copy.deepcopy(data)
            out = core.attempt(Node.deserialize, given, trusted=True,
                               assert_valid=checked)
            ctx.check(given == data, 'input changed')
            if what == 'bad' or (checked and what != 'none'):
                core.expect(ctx, out, ValueError, '%s at %s' % (what, where))
            else:
                core.expect_ok(ctx, out, '%s at %s' % (what, where))
            ctx.state((where, what, checked))
            ctx.step()
        core.case(ctx, 'validity %s at %s, assert_valid=%s' % (
            what, where, checked), go)
    for where, extra, strict, trusted in itertools.product(
            'abc', ('none', 'unknown', 'of the subclass', 'class'),
            (False, True), (False, True)):
        core.case(ctx, 'strict=%s trusted=%s, %s at %s' % (
            strict, trusted, extra, where), exact, ctx, where, extra, strict,
                  trusted)
    for kind, bad in itertools.product(
            ('lower', 'plain', 'strip'), ('unknown', 'value', 'both', 'late')):
        core.case(ctx, '%s identifier, %s' % (kind, bad), unborn, ctx, kind,
                  bad)
    for count in (1, 2, 3):
        for refs in itertools.product(range(count), repeat=2 * count):
            for strict in (False, True):
                core.case(ctx, 'required references %s%s' % (
                    refs, ' of strict unions' if strict else ''),
                          required_refs, ctx, count, refs, strict)
    for bad in (None, 5, 'a', [], ['a'], [('__root__', 'a')]):
        core.case(ctx, 'deserialize %r' % (bad,), lambda: core.expect(
            ctx, core.attempt(world().Node.deserialize, bad), ValueError,
            'deserialize %r' % (bad,)))
    for bad in ({}, {'a': {'uid': 'a'}}, {'__root__': 'z'},
                {'__root__': 'a', 'a': 5}, {'__root__': 'a', 'a': None},
                {'__root__': 'a', 'a': [1]},
                {'__root__': 'a', 'a': {'uid': 'a', 'inst': 'q'}},
                {'__root__': 'a', 'a': {'uid': 'a', 'many': ['q']}}):
        core.case(ctx, 'deserialize %r' % (bad,), lambda: core.expect(
            ctx, core.attempt(world().Node.deserialize, dict(bad)),
            ValueError, 'deserialize %r' % (bad,)))


def exact(ctx, where, extra, strict, trusted):
    """`strict` looks at every entry that is used."""
    class Node(HasUID):
        _REGISTRY, _INSTANCES = dict(), dict()
        val = P.Integer('', required=False)

    class Sub(Node):
        more = P.Integer('', required=False)

    class Link(Node):
        inst = P.Instance('', Node, required=False)

    class Chain(Node):
        inst = P.Instance('', Link, required=False)
    data = {'__root__': 'a'}
    for uid, cls in zip('abc', ('Chain', 'Link', 'Node')):
        data[uid] = {'__class__': cls, 'uid': uid, 'val': 1}
    data['a']['inst'], data['b']['inst'] = 'b', 'c'
    if extra == 'unknown':
        data[where]['other'] = 1
    elif extra == 'of the subclass':
        data[where]['more'] = 1
    elif extra == 'class':
        data[where]['__class__'] = 'Sub'
    given = copy.deepcopy(data)
    out = core.attempt(Chain.deserialize, given, strict=strict,
                       trusted=trusted)
    ctx.step()
    ctx.state((where, extra, strict, trusted))
    ctx.check(given == data, 'input changed')
    if strict and extra != 'none' and not (extra == 'class' and trusted):
        core.expect(ctx, out, ValueError, '%s at %s' % (extra, where))
    elif extra == 'class' and trusted:
        if where == 'c':
            got = core.expect_ok(ctx, out, 'a subclass')
            ctx.check(type(got.inst.inst) is Sub, 'class')
        else:
            # a Sub has no property inst; no Sub is a Link
            ctx.check(out[0] == core.ERR or (
                where == 'a' and not strict and type(out[1]) is Sub),
                      'a Sub at %s gave %s' % (where, core.show(out[1])))
    else:
        got = core.expect_ok(ctx, out, '%s at %s' % (extra, where))
        ctx.same((got.val, got.inst.val, got.inst.inst.val), (1, 1, 1), 'val')


def unborn(ctx, kind, bad):
    """An instance that could not be made leaves its identifier free."""
    options = {'lower': dict(change_case='lower'), 'plain': {},
               'strip': dict(strip=' ')}[kind]

    class Node(HasUID):
        _REGISTRY, _INSTANCES = dict(), dict()
        uid = P.String('', default=lambda: 'generated', **options)
        val = P.Integer('', required=False)

    class Late(Node):
        def __init__(self, **kwargs):
            super(Late, self).__init__(**kwargs)
            if bad == 'late':
                raise ValueError('late')
    given = {'lower': 'Ab', 'plain': 'Ab', 'strip': ' Ab '}[kind]
    want = {'lower': 'ab', 'plain': 'Ab', 'strip': 'Ab'}[kind]
    more = {'unknown': {'nope': 1}, 'value': {'val': 'x'}, 'late': {},
            'both': {'nope': 1, 'val': 'x'}}[bad]
    for items in itertools.permutations([('uid', given)] + list(more.items())):
        for cls in (Node, Late):
            if cls is Node and bad == 'late':
                continue
            Node._INSTANCES.clear()
            ctx.step()
            out = core.attempt(cls, **collections.OrderedDict(items))
            core.expect(ctx, out, (ValueError, AttributeError), str(items))
            if bad == 'late':
                continue        # it was complete when it failed
            ctx.check(Node.load(want) is None and Node.load(given) is None,
                      '%s: the failed instance is registered' % (items,))
            obj = core.expect_ok(ctx, core.attempt(Node, uid=given),
                                 'the identifier of a failed instance')
            ctx.check(obj.uid == want and Node.load(want) is obj, 'registered')
    ctx.state((kind, bad))


def required_refs(ctx, count, refs, strict):
    """A complete graph is valid although no part of it is on its own."""
    class Node(HasUID):
        _REGISTRY, _INSTANCES = dict(), dict()

    class Link(Node):
        other = P.Union('', [Node], strict_instances=True) if strict \
            else P.Instance('', Node)
        many = P.List('', P.Instance('', Node), required=False)

        @P.validator
        def looks(self):
            if self.other.uid is None or not self.many:
                raise P.ValidationError('unfinished')
    names = 'abc'[:count]
    for where, broken in itertools.product(names, (None,) + tuple(names)):
        Link._INSTANCES.clear()
        data = {'__root__': where}
        for num, uid in enumerate(names):
            data[uid] = {'__class__': 'Link', 'uid': uid,
                         'other': names[refs[2 * num]],
                         'many': [names[refs[2 * num + 1]]]}
        if broken:
            data[broken]['many'] = []
        reach, todo = set(), [where]
        while todo:
            uid = todo.pop()
            if uid not in reach:
                reach.add(uid)
                num = names.index(uid)
                todo.append(names[refs[2 * num]])
                if uid != broken:
                    todo.append(names[refs[2 * num + 1]])
        given = copy.deepcopy(data)
        out = core.attempt(Node.deserialize, given, trusted=True,
                           assert_valid=True)
        what = 'references %s from %s, broken %s' % (refs, where, broken)
        ctx.step()
        ctx.state(what)
        ctx.check(given == data, what + ': input changed')
        if broken in reach:
            core.expect(ctx, out, ValueError, what)
            continue
        got = core.expect_ok(ctx, out, what)
        ctx.check(got.validate(), what)
        ctx.same(set(Link._INSTANCES) & set(names), reach, what)


# -- histories -----------------------------------------------------------------
class Histories(core.System):
    """Creation, renaming and loading in one registry."""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.wld = world()
        self.objs = []          # (object, identifier or None, value)
        self.loose = set()      # former identifiers
        self.saved = None

    def owner(self, uid):
        for obj, own, _ in self.objs:
            if own == uid:
                return obj
        return None

    def make(self, uid, cls='Node', **kwargs):
        if len(self.objs) > 3:
            return
        out = core.attempt(getattr(self.wld, cls), uid=uid, **kwargs)
        bad = 'bad' in kwargs.values() or 'nope' in kwargs
        if self.owner(uid) or bad:
            kinds = (ValueError, AttributeError) if bad else ValueError
            core.expect(self.ctx, out, kinds, '%s(uid=%r, **%r)' % (
                cls, uid, kwargs))
            return
        if uid in self.loose and out[0] == core.ERR:
            core.expect(self.ctx, out, ValueError, 'former identifier')
            return
        obj = core.expect_ok(self.ctx, out, '%s(uid=%r)' % (cls, uid))
        self.loose.discard(uid)
        self.objs.append([obj, uid, kwargs.get('val')])

    def auto(self):
        if len(self.objs) > 3:
            return
        obj = self.wld.Base()
        self.ctx.check(isinstance(obj.uid, str) and obj.uid and
                       not self.owner(obj.uid) and obj.uid not in self.loose,
                       'generated identifier %r' % (obj.uid,))
        self.objs.append([obj, obj.uid, None])

    def rename(self, idx, uid):
        if idx >= len(self.objs):
            return
        entry = self.objs[idx]
        out = core.attempt(setattr, entry[0], 'uid', uid)
        holder = self.owner(uid)
        if holder is not None and holder is not entry[0]:
            core.expect(self.ctx, out, ValueError, 'rename to a taken %r' %
                        uid)
            return
        if not isinstance(uid, str):
            core.expect(self.ctx, out, ValueError, 'rename to %r' % (uid,))
            return
        if uid in self.loose and out[0] == core.ERR:
            core.expect(self.ctx, out, ValueError, 'former identifier')
            return
        core.expect_ok(self.ctx, out, 'rename to %r' % uid)
        if entry[1] not in (None, uid):
            self.loose.add(entry[1])
        self.loose.discard(uid)
        entry[1] = uid

    def remove(self, idx):
        if idx >= len(self.objs):
            return
        entry = self.objs[idx]
        del entry[0].uid
        if entry[1]:
            self.loose.add(entry[1])
        entry[1] = None

    def save(self, idx):
        if idx < len(self.objs) and self.objs[idx][1] is not None:
            obj, uid, val = self.objs[idx]
            if type(obj) is not self.wld.Node:
                return
            data = obj.serialize()
            want = {'__class__': 'Node', 'uid': uid, 'num': 7}
            if val is not None:
                want['val'] = val
            want = {'__root__': uid, uid: want}
            self.ctx.check(dict(data) == want, 'serialize: %s' %
                           core.show(dict(data)))
            self.saved = want

    def restore(self):
        if self.saved is None or len(self.objs) > 3:
            return
        uid = self.saved['__root__']
        given = copy.deepcopy(self.saved)
        out = core.attempt(self.wld.Base.deserialize, given, trusted=True)
        self.ctx.check(given == self.saved, 'the input was changed')
        if self.owner(uid):
            core.expect(self.ctx, out, ValueError, 'identifier in use')
            return
        if uid in self.loose and out[0] == core.ERR:
            core.expect(self.ctx, out, ValueError, 'former identifier')
            return
        obj = core.expect_ok(self.ctx, out, 'deserialize')
        self.loose.discard(uid)
        self.ctx.check(all(obj is not o[0] for o in self.objs), 'new object')
        self.objs.append([obj, uid, self.saved[uid].get('val')])

    def bystander(self):
        """Deserializing a document naming a registered instance."""
        data = {'__root__': FREE, FREE: {
            '__class__': 'Node', 'uid': FREE, 'inst': 'a'}}
        if self.owner(FREE) or FREE in self.loose or len(self.objs) > 3:
            return
        out = core.attempt(self.wld.Node.deserialize, data)
        if self.owner('a'):
            obj = core.expect_ok(self.ctx, out, 'deserialize')
            self.ctx.check(obj.inst is self.owner('a'), 'the registered one')
            self.objs.append([obj, FREE, None])
        elif 'a' not in self.loose:
            core.expect(self.ctx, out, ValueError, 'unknown identifier')
            # what is left of it is unspecified
            self.loose.add(FREE)
        else:
            self.loose.add(FREE)

    def ops(self):
        out = []
        for uid in ('a', 'b'):
            out.append(('Node(%s)' % uid, lambda s, u=uid: s.make(u)))
        out += [
            ('Sub(a, val=1)', lambda s: s.make('a', 'Sub', val=1)),
            ('Base(b)', lambda s: s.make('b', 'Base')),
            ('Node(a, val=bad)', lambda s: s.make('a', val='bad')),
            ('Node(b, nope=1)', lambda s: s.make('b', nope=1)),
            ('Base()', lambda s: s.auto()),
            ('save', lambda s: s.save(0)),
            ('restore', lambda s: s.restore()),
            ('bystander', lambda s: s.bystander()),
            ('del uid 0', lambda s: s.remove(0)),
        ]
        for idx in (0, 1):
            for uid in ('a', 'b', 'c', 5):
                out.append(('uid of %d = %r' % (idx, uid),
                            lambda s, i=idx, u=uid: s.rename(i, u)))
        return out

    def check(self):
        for obj, uid, val in self.objs:
            self.ctx.same((obj.uid, obj.val), (uid, val), 'state')
            if uid is not None:
                self.ctx.check(self.wld.Node.load(uid) is obj,
                               'load(%r) is not its instance' % uid)
        for uid in ('a', 'b', 'c', 'x', FREE):
            if not self.owner(uid) and uid not in self.loose:
                self.ctx.check(self.wld.Base.load(uid) is None,
                               'load(%r) finds something' % uid)

    def key(self):
        return (tuple((type(o).__name__, u if u in UIDS + (FREE,) else
                       u and 'auto', v) for o, u, v in self.objs),
                tuple(sorted(u for u in self.loose if u in UIDS)),
                core.canon(self.saved))


def histories(part, parts):
    def run(ctx):
        core.explore(ctx, Histories, 3 if ctx.quick else 4, part=(part, parts))
    return run


def frontier(ctx):
    core.explore(ctx, Histories, 1, extend=4 if ctx.quick else 7,
                 max_states=800 if ctx.quick else 8000)


def generated(ctx):
    """Generated identifiers never repeat, whatever the class."""
    wld = world()
    seen = {}
    for num in range(60 if ctx.quick else 600):
        obj = (wld.Base, wld.Node, wld.Sub)[num % 3]()
        ctx.check(obj.uid not in seen, 'identifier generated twice')
        seen[obj.uid] = obj
        ctx.step()
    for uid, obj in seen.items():
        ctx.check(wld.Node.load(uid) is obj, 'load')
    other = world()
    for uid in seen:
        ctx.check(other.Base.load(uid) is None, 'registries are separate')
        other.Base(uid=uid)
        ctx.check(wld.Base.load(uid) is seen[uid], 'registries are separate')


# -- pointers --------------------------------------------------------------------
def pointers(ctx):
    """Every combination of pointer options, target class and input."""
    for load, uid_prop, guard, loader in itertools.product(
            (None, False, True), ('uid', 'code'), (False, True),
            ('none', 'found', 'missing', 'wrong')):
        for nature, hollow in itertools.product(
                ('uid class', 'plain class', 'object'), (False, True)):
            label = 'pointer load=%s uid_prop=%s check=%s loader=%s on %s%s' \
                % (load, uid_prop, guard, loader,
                   'false ' if hollow else '', nature)
            core.case(ctx, label, one_pointer, ctx, load, uid_prop, guard,
                      loader, nature, hollow, label)


def one_pointer(ctx, load, uid_prop, guard, loader, nature, hollow, label):
    calls = []
    members = {'__len__': empty} if hollow else {}
    if nature == 'uid class':
        base = HasUID
        members.update(_REGISTRY=dict(), _INSTANCES=dict())
    elif nature == 'plain class':
        base = P.HasProperties
        members['_REGISTRY'] = dict()
    else:
        base = object
    if nature != 'object':
        members['code'] = P.String('', change_case='upper', required=False)
        if nature == 'plain class':
            members['uid'] = P.String('', change_case='lower', required=False)

    if guard:
        def validate_uid(cls, value):
            calls.append(('check', value))
            if value.lower() == 'no':
                raise P.ValidationError('refused')
            return True
        members['validate_uid'] = classmethod(validate_uid)
    box = {}
    if loader != 'none':
        def loads(cls, value):
            calls.append(('load', value))
            return box.get('found') if loader == 'found' else (
                box.get('wrong') if loader == 'wrong' else None)
        members['load'] = classmethod(loads)
    Target = type('Target', (base,), members)
    box['found'] = Target()
    box['wrong'] = type('Wrong', (P.HasProperties,), dict(
        {'__len__': empty} if hollow else {}, _REGISTRY=dict()))()
    kwargs = {}
    if load is not None:
        kwargs['load'] = load
    if uid_prop != 'uid':
        kwargs['uid_prop'] = uid_prop

    class Holder(P.HasProperties):
        _REGISTRY = dict()
        ptr = Pointer('', Target, required=False, **kwargs)
    prop = Holder._props['ptr']
    Child = type('Child', (Target,), {})
    child = Child()
    registered = Target(uid='Known') if nature == 'uid class' else None

    def changed(text):
        if nature == 'object':
            return text
        if uid_prop == 'code':
            return text.upper()
        return text.lower() if nature == 'plain class' else text

    for given in (box['found'], child, box['wrong'], None, 5, 'Some', 'no', '',
                  'Known', b'x', ['Some'], 0, False, [], b'', Target):
        hold = Holder()
        del calls[:]
        out = core.attempt(setattr, hold, 'ptr', given)
        ctx.step()
        ctx.state((label, core.show(type(given)), core.show(given)[:12]))
        what = '%s: %s' % (label, core.show(given))
        if isinstance(given, str):
            text = changed(given)
            want = text
            if guard and text.lower() == 'no':
                core.expect(ctx, out, P.ValidationError, what)
                ctx.check(hold.ptr is None, what + ' was stored')
                continue
            if load:
                if loader == 'found':
                    want = box['found']
                elif loader == 'wrong':
                    core.expect(ctx, out, P.ValidationError, what)
                    ctx.check(hold.ptr is None, what + ' was stored')
                    continue
                elif loader == 'none' and nature == 'uid class' and \
                        text == 'Known':
                    want = registered
            core.expect_ok(ctx, out, what)
            got = hold.ptr
            ctx.check(got is want if not isinstance(want, str)
                      else (isinstance(got, str) and got == want),
                      '%s gave %s, expected %s' % (what, core.show(got),
                                                   core.show(want)))
            if guard:
                ctx.check(('check', text) in calls, what + ': not checked')
            if not load:
                ctx.check(not any(c[0] == 'load' for c in calls),
                          what + ': loaded though not asked')
            ctx.check(hold.validate(), what + ' validates')
            bare = core.expect_ok(ctx, core.attempt(
                prop.validate, None, given), what + ' outside of an instance')
            ctx.check(bare is want if not isinstance(want, str) else
                      bare == want, '%s outside of an instance gave %s' % (
                          what, core.show(bare)))
            if isinstance(want, str) and (not load or loader in (
                    'none', 'missing')):
                back = core.attempt(Holder.deserialize, hold.serialize())
                same = core.expect_ok(ctx, back, what + ' round trip')
                ctx.same(same.ptr, want, what + ' round trip')
        elif given is None:
            pass
        elif given is box['found'] or given is child:
            core.expect_ok(ctx, out, what)
            ctx.check(hold.ptr is given, what + ' gave another object')
            ctx.check(hold.validate(), what + ' validates')
        elif nature == 'object' and given is Target:
            pass
        elif nature == 'object':
            # Target is an ordinary class: only its instances
            core.expect(ctx, out, Exception, what)
        else:
            core.expect(ctx, out, ValueError, what)
            ctx.check(hold.ptr is None, what + ' was stored')
    prop = Holder._props['ptr']
    ctx.same((prop.load, prop.uid_prop), (bool(load), uid_prop), 'options')


def pointer_json(ctx):
    """Pointers to and from JSON."""
    wld = world()

    class Kid(P.HasProperties):
        _REGISTRY = dict()
        name = P.String('', required=False)

    class Holder(P.HasProperties):
        _REGISTRY = Kid._REGISTRY
        ptr = Pointer('', Kid, required=False)
        uid = Pointer('', wld.Node, required=False)
    for value in ('text', '', {'__class__': 'Kid', 'name': 'n'}, {'name': 'n'},
                  {}, 5, None, ['a']):
        def go():
            out = core.attempt(Holder.deserialize, {'ptr': value})
            ctx.step()
            ctx.state(core.canon(value))
            if isinstance(value, str):
                ctx.same(core.expect_ok(ctx, out, 'text').ptr, value, 'text')
            elif isinstance(value, dict):
                obj = core.expect_ok(ctx, out, 'dict')
                ctx.check(type(obj.ptr) is Kid, 'class')
                ctx.same(obj.ptr.name, value.get('name'), 'name')
                data = obj.serialize()
                want = dict(value, __class__='Kid')
                ctx.check(dict(data) == {'__class__': 'Holder', 'ptr': want},
                          'serialize: %s' % core.show(data))
            else:
                core.expect(ctx, out, (ValueError, TypeError), 'other')
        core.case(ctx, 'pointer from %r' % (value,), go)


def pointer_options(ctx):
    """Pointers pass the options of loading on, like plain instances."""
    given = []

    def own(value, **kwargs):
        given.append(kwargs)
        return None if value == 'drop' else 'own'

    class Kid(P.HasProperties):
        _REGISTRY = dict()
        name = P.String('', required=False)
        num = P.Integer('')

    class SubKid(Kid):
        more = P.Integer('', required=False)

    class Holder(P.HasProperties):
        _REGISTRY = Kid._REGISTRY
        ptr = Pointer('', Kid, required=False)
        inst = P.Instance('', Kid, required=False)
        both = P.Union('', [Pointer('', Kid), P.Integer('')], required=False)
        many = P.List('', Pointer('', Kid), required=False)
        table = P.Dictionary('', value_prop=Pointer('', Kid), required=False)
        custom = Pointer('', Kid, required=False, deserializer=own)
    kids = [dict(data, **({'__class__': name} if name else {}))
            for name in (None, 'Kid', 'SubKid', 'Holder', 'Unknown')
            for data in ({}, {'num': 1}, {'num': 1, 'more': 2},
                         {'name': 'n', 'num': 1, 'extra': 3}, {'num': 'x'})]
    for place, trusted, strict, valid, kid in itertools.product(
            ('ptr', 'both', 'many', 'table', 'custom'), (False, True),
            (False, True), (False, True), kids + ['text', None, 5]):
        def go():
            wrap, bare = {
                'many': (lambda v: [v, v], lambda v: list(v or [])),
                'table': (lambda v: {'k': v}, lambda v: list((v or {}).values())),
            }.get(place, (lambda v: v, lambda v: [v]))
            flags = dict(trusted=trusted, strict=strict, assert_valid=valid)
            del given[:]
            out = core.attempt(Holder.deserialize, {place: wrap(kid)}, **flags)
            ctx.step()
            if place == 'custom':
                obj = core.expect_ok(ctx, out, 'own conversion')
                ctx.same(obj.custom, 'own', 'own conversion')
                ctx.same(len(given), 1, 'calls')
                ctx.same({k: given[0].get(k) for k in ('trusted', 'strict')},
                         dict(trusted=trusted, strict=strict), 'options')
                return
            if kid is None:
                # refused like any assignment of None, or left undefined
                if out[0] == 'ok':
                    ctx.check(all(v is None for v in bare(getattr(
                        out[1], place))), 'nothing')
                else:
                    core.expect(ctx, out, ValueError, 'nothing')
                return
            if isinstance(kid, str):
                obj = core.expect_ok(ctx, out, 'text')
                ctx.check(all(v == 'text' for v in bare(getattr(obj, place))),
                          'text')
                return
            if kid == 5:
                if place == 'both':
                    ctx.same(core.expect_ok(ctx, out, 'number').both, 5,
                             'number')
                else:
                    core.expect(ctx, out, (ValueError, TypeError), 'number')
                return
            # the same data for a plain instance, or the class itself
            usual = core.attempt(Kid.deserialize, kid, trusted=trusted,
                                 strict=strict)
            if usual[0] == 'ok' and not isinstance(usual[1], Kid):
                core.expect(ctx, out, ValueError, 'another class')
            elif usual[0] == 'ok':
                if valid and core.attempt(usual[1].validate)[0] != 'ok':
                    core.expect(ctx, out, ValueError, 'not valid')
                    return
                obj = core.expect_ok(ctx, out, 'a pointer from %s' % kid)
                for val in bare(getattr(obj, place)):
                    ctx.check(type(val) is type(usual[1]), lambda: 'from %s '
                              'a %s' % (kid, type(val).__name__))
                    ctx.same(core.canon(val.serialize()),
                             core.canon(usual[1].serialize()), 'values')
            else:
                # a union falls back to the value itself, which it refuses
                core.expect(ctx, out, (ValueError, TypeError), 'bad data')
        key = (place, trusted, strict, valid, core.show(kid))
        ctx.state(key)
        if not core.case(ctx, key, go):
            return


def scenarios(tier):
    yield ('many', lambda ctx: sizes.counted(ctx, sizes.identified))
    quick = tier == 'quick'
    for part in range(4 if quick else 8):
        yield ('graphs of 2 nodes %d' % part,
               graphs2(part, 4 if quick else 8))
    parts = 4 if quick else 16
    for part in range(parts):
        yield ('graphs of 3 nodes %d' % part, graphs3(part, parts))
    yield ('holders', holders)
    yield ('plain root', plain_root)
    yield ('flags', flags)
    yield ('false instances', natures('empty'))
    yield ('equal instances', natures('equal'))
    yield ('validity', validity)
    parts = 4 if quick else 16
    for part in range(parts):
        yield ('histories %d' % part, histories(part, parts))
    yield ('frontier', frontier)
    yield ('generated', generated)
    yield ('pointers', pointers)
    yield ('pointer json', pointer_json)
    yield ('pointer options', pointer_options)
