"""Values nested to every depth up to a bound, in every kind of holder."""
import copy
import json
import pickle
import sys

import properties as P

from . import core

DEEP = list(range(1, 17)) + [20, 24, 32, 40]


class Leaf(P.HasProperties):
    val = P.Integer('')


HOLD = {
    'instance': (lambda cls: P.Instance('', cls), lambda v: v, lambda v: v),
    'list': (lambda cls: P.List('', cls), lambda v: [v], lambda v: v[0]),
    'tuple': (lambda cls: P.Tuple('', cls), lambda v: (v,), lambda v: v[0]),
    'set': (lambda cls: P.Set('', cls), lambda v: {v}, lambda v: list(v)[0]),
    'dict': (lambda cls: P.Dictionary('', value_prop=cls),
             lambda v: {'k': v}, lambda v: v['k']),
    'union': (lambda cls: P.Union('', [P.Integer(''), cls]),
              lambda v: v, lambda v: v),
    'lists': (lambda cls: P.List('', P.List('', cls)), lambda v: [[v]],
              lambda v: v[0][0]),
}
CHAINS = {name: (name,) for name in HOLD}
CHAINS['all in turn'] = tuple(HOLD)
CHAINS['two in turn'] = ('dict', 'instance')


class Chain(object):
    """Classes that hold one another, the last one being a leaf."""

    def __init__(self, name, depth):
        self.names = [CHAINS[name][i % len(CHAINS[name])]
                      for i in range(depth)]
        self.seen = []
        seen = self.seen
        cls = Leaf
        self.classes = [Leaf]
        for level, kind in enumerate(self.names):
            def inspect(self, level=level):
                seen.append(level)
                return True
            cls = type(str('Level%d' % level), (P.HasProperties,), {
                'val': P.Integer(''), 'held': HOLD[kind][0](cls),
                'inspect': P.validator(inspect)})
            # found by their pickles
            cls.__module__ = __name__
            setattr(sys.modules[__name__], cls.__name__, cls)
            self.classes.append(cls)

    def make(self, vals=None):
        depth = len(self.names)
        vals = vals or list(range(depth + 1))
        inst = Leaf(val=vals[0])
        for level, kind in enumerate(self.names):
            inst = self.classes[level + 1](
                val=vals[level + 1], held=HOLD[kind][1](inst))
        return inst

    def nodes(self, inst):
        """From the leaf to the outermost."""
        out = [inst]
        for kind in reversed(self.names):
            out.append(HOLD[kind][2](out[-1].held))
        return out[::-1]

    def same(self, inst, vals):
        nodes = self.nodes(inst)
        return ([n.val for n in nodes] == vals and
                [type(n) for n in nodes] == self.classes)


def matrix(ctx, judge, skip=()):
    for name in CHAINS:
        if name in skip:
            continue
        for depth in DEEP:
            if ctx.quick and depth in (7, 9, 11, 13, 14, 15, 24):
                continue
            if not core.case(ctx, '%s, %d levels' % (name, depth), judge, ctx,
                             Chain(name, depth), depth):
                return
            ctx.step()
            ctx.state((name, depth))


def validity(ctx, chain, depth):
    """P07: a problem at any level is found."""
    inst = chain.make()
    nodes = chain.nodes(inst)
    ctx.check(inst.validate() is True, 'validate')
    # every level is asked
    ctx.check(set(chain.seen) == set(range(depth)),
              lambda: 'class validators of levels %s ran' % sorted(
                  set(chain.seen)))
    for level, node in enumerate(nodes):
        good = node.val
        del node.val
        for start in {depth, (level + depth) // 2, level}:
            core.expect(ctx, core.attempt(nodes[start].validate),
                        P.ValidationError, 'level %d is missing its value, '
                        'seen from level %d' % (level, start))
        if level:
            ctx.check(nodes[level - 1].validate() is True, 'levels below')
        node.val = good
        ctx.check(inst.validate() is True, 'after the repair')
        ctx.step(3)


def trip(ctx, chain, depth):
    """P08: every level survives."""
    inst = chain.make()
    vals = list(range(depth + 1))
    text = json.dumps(inst.serialize())
    ctx.check(all('"Level%d"' % i in text for i in range(depth)) and
              '"Leaf"' in text, 'class names')
    for kw in ({}, {'trusted': True}, {'strict': True},
               {'assert_valid': True}):
        back = chain.classes[-1].deserialize(json.loads(text), **kw)
        ctx.check(chain.same(back, vals), 'came back changed')
        ctx.check(json.dumps(back.serialize()) == text, 'serializes again')
        ctx.step()
    bare = inst.serialize(include_class=False)
    ctx.check('Level' not in json.dumps(bare), 'names without classes')
    ctx.check(chain.same(chain.classes[-1].deserialize(bare), vals),
              'without class names')
    for level in range(depth + 1):
        data = json.loads(text)
        spot = data
        for _ in range(depth - level):
            spot = spot['held']
            while not ('__class__' in spot if isinstance(
                    spot, dict) else False):
                spot = spot['k'] if isinstance(spot, dict) else spot[0]
        spot['val'] = 'spoiled'
        core.expect(ctx, core.attempt(chain.classes[-1].deserialize, data),
                    ValueError, 'level %d is spoiled' % level)
        ctx.step()


def copies(ctx, chain, depth):
    """P10: differences at any level count; copies share nothing."""
    inst, twin = chain.make(), chain.make()
    ctx.check(P.equal(inst, twin) is True, 'twins')
    nodes = chain.nodes(twin)
    dup = P.copy(inst)
    ctx.check(P.equal(inst, dup) is True, 'a copy')
    ctx.check(not {id(n) for n in chain.nodes(dup)} & {
        id(n) for n in chain.nodes(inst)}, 'a copy shares an instance')
    for level, node in enumerate(nodes):
        node.val = -1
        for start in {depth, (depth + level) // 2, level}:
            ctx.check(P.equal(chain.nodes(inst)[start], nodes[start]) is False
                      and P.equal(nodes[start], chain.nodes(inst)[start])
                      is False, 'level %d differs' % level)
        node.val = level
        if level:
            ctx.check(P.equal(nodes[level - 1], chain.nodes(inst)[level - 1])
                      is True, 'levels below')
        ctx.step()
    ctx.check(P.equal(inst, twin) is True, 'twins again')


def clones(ctx, chain, depth):
    """P28: pickles and deep copies of every level."""
    inst = chain.make()
    vals = list(range(depth + 1))
    for name, clone in (('deepcopy', copy.deepcopy), (
            'pickle', lambda v: pickle.loads(pickle.dumps(v, 2)))):
        dup = clone(inst)
        ctx.check(chain.same(dup, vals), '%s changed' % name)
        ctx.check(not {id(n) for n in chain.nodes(dup)} & {
            id(n) for n in chain.nodes(inst)}, '%s shares' % name)
        for node in chain.nodes(dup):
            node.val = -3
            core.expect(ctx, core.attempt(setattr, node, 'val', 'bad'),
                        ValueError, '%s: bad value' % name)
        ctx.check(chain.same(inst, vals), '%s is tied' % name)
        ctx.check(dup.validate() is True, 'validate')
        ctx.step()


# -- containers in containers --------------------------------------------------
WRAP = {
    'list': (lambda p: P.List('', p), lambda v: [v], list),
    'tuple': (lambda p: P.Tuple('', p), lambda v: (v,), tuple),
    'dict': (lambda p: P.Dictionary('', value_prop=p), lambda v: {'k': v},
             dict),
    'union': (lambda p: P.Union('', [P.Boolean(''), p]), lambda v: v, None),
}
NESTS = {name: (name,) for name in WRAP}
NESTS['all in turn'] = ('list', 'dict', 'union', 'tuple')


def nested(ctx, judge):
    for name in NESTS:
        for depth in DEEP[:8 if ctx.quick else 11]:
            kinds = [NESTS[name][i % len(NESTS[name])] for i in range(depth)]
            prop = P.Integer('', min=0)
            for kind in kinds:
                prop = WRAP[kind][0](prop)
            cls = type('Nest', (P.HasProperties,), {'p': prop})

            def wrap(value, kinds=kinds):
                for kind in kinds:
                    value = WRAP[kind][1](value)
                return value
            if not core.case(ctx, '%s, %d levels' % (name, depth), judge, ctx,
                             cls, wrap):
                return
            ctx.step()
            ctx.state((name, depth))


def stored(ctx, cls, wrap):
    """P03: items are checked and stored at every level."""
    inst = cls(p=wrap(5))
    ctx.check(inst.p == wrap(5) and core.canon(inst.p) == core.canon(wrap(5)),
              'stored %s' % (inst.p,))
    kept = inst.p
    for bad in ('x', -1, None, [], {}):
        core.expect(ctx, core.attempt(setattr, inst, 'p', wrap(bad)),
                    ValueError, 'innermost %r' % (bad,))
        core.expect(ctx, core.attempt(cls, p=wrap(bad)), ValueError,
                    'constructed with innermost %r' % (bad,))
        ctx.check(inst.p is kept, 'a refused value changed the instance')
    # the caller's containers stay apart
    mine = wrap(6)
    inst.p = mine
    spot, hold, seen = mine, inst.p, []
    while isinstance(spot, (list, dict, tuple)):
        key = 'k' if isinstance(spot, dict) else 0
        if not isinstance(spot, tuple):
            ctx.check(hold is not spot, 'a container is shared')
            seen.append((spot, key))
        spot, hold = spot[key], hold[key]
    for spot, key in reversed(seen):
        spot[key] = 'changed'
    ctx.check(inst.p == wrap(6), 'changed from outside')


def saved(ctx, cls, wrap):
    """P08: the innermost value survives."""
    inst = cls(p=wrap(5))
    back = cls.deserialize(json.loads(json.dumps(inst.serialize())))
    ctx.check(core.canon(back.p) == core.canon(wrap(5)), 'came back %s' % (
        back.p,))
    for bad in ('x', -1, [], {}):
        data = json.loads(json.dumps({'p': wrap(bad)}))
        core.expect(ctx, core.attempt(cls.deserialize, data),
                    (ValueError, TypeError), 'innermost %r' % (bad,))


def compared(ctx, cls, wrap):
    """P10: the innermost value counts."""
    inst, twin, other = cls(p=wrap(5)), cls(p=wrap(5)), cls(p=wrap(6))
    ctx.check(P.equal(inst, twin) is True and P.equal(inst, P.copy(inst)) is
              True, 'equal')
    ctx.check(P.equal(inst, other) is False and P.equal(other, inst) is False,
              'different')
