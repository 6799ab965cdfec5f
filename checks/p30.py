"""P30: instances are handled through the methods of their own class."""
import itertools
import json

import properties as P

from mc import core
from checks import p29

PROPERTY = 'P30'
BOUNDS = ('classes overriding every subset of __init__ (taking positional '
          'arguments), serialize, deserialize and validate, in the class the '
          'property names, a class it extends or a subclass of it x 15 ways '
          'to hold instances x contents of one or two: assignment, '
          'serialization with keywords, loading with keywords, copies, '
          'validation and its repair; constructors that prepare, refuse or '
          'never call the inherited one x ways to construct; properties, '
          'listeners and class validators that subclasses override and '
          'extend by super.')
ASSUMPTIONS = ['own methods follow the contract of those they override']

OVER = ('init', 'serialize', 'deserialize', 'validate')


class Inst(p29.Leaf):
    """Instance('', Inner) where Inner overrides methods."""

    def __init__(self, over, place):
        self.over = over
        self.place = place
        self.log = []
        self.bad = [] if 'init' in over else ['x']
        self.name = 'instances with own %s in the %s' % (
            '/'.join(over) or 'nothing', place)
        log = self.log

        def __init__(self, num=None, **kwargs):
            log.append(('init', None))
            if num is not None:
                kwargs['num'] = num
            kwargs.setdefault('note', 'made')
            super(owner[0], self).__init__(**kwargs)

        def serialize(self, **kwargs):
            log.append(('serialize', kwargs))
            data = super(owner[0], self).serialize(**kwargs)
            data['num'] = 'n%d' % data['num']
            return data

        def deserialize(cls, value, **kwargs):
            log.append(('deserialize', kwargs))
            value = dict(value)
            if isinstance(value.get('num'), str):
                value['num'] = int(value['num'][1:])
            return super(owner[0], cls).deserialize(value, **kwargs)

        def validate(self):
            log.append(('validate', self))
            if self.num == 13:
                raise P.ValidationError('Bad luck', 'unlucky', 'num', self)
            return super(owner[0], self).validate()

        body = {'num': P.Integer(''), 'note': P.String('', required=False)}
        methods = {}
        for name in over:
            methods['__init__' if name == 'init' else name] = {
                'init': __init__, 'serialize': serialize,
                'deserialize': classmethod(deserialize),
                'validate': validate}[name]
        owner = [None]
        if place == 'class':
            self.cls = self.made = type('Inner', (P.HasProperties,), dict(
                body, **methods))
            owner[0] = self.cls
        elif place == 'base':
            base = type('Base', (P.HasProperties,), dict(body, **methods))
            owner[0] = base
            self.cls = self.made = type('Inner', (base,), {})
        elif place == 'mixin':
            mixin = type('Mixin', (P.HasProperties,), methods)
            plain = type('Plain', (P.HasProperties,), body)
            owner[0] = mixin
            self.cls = self.made = type('Inner', (mixin, plain), {})
        else:
            self.cls = type('Inner', (P.HasProperties,), body)
            self.made = type('Sub', (self.cls,), methods)
            owner[0] = self.made
        self.values = [1, 2]

    def make(self, **kwargs):
        return P.Instance('', self.cls, **kwargs)

    def raw(self, label, pool):
        if self.place == 'subclass':
            return self.made(num=label)
        return {'num': label} if 'init' not in self.over else label

    @property
    def note(self):
        return 'made' if 'init' in self.over else None

    def seen(self, cls, num, note):
        return (cls.__name__, [('num', ('int', num)), (
            'note', ('str', note) if note else ('NoneType', None))])

    def want(self, label):
        return self.seen(self.made, label, self.note)

    def same(self, one, two):
        return one == two

    def json(self, label, include_class=True):
        num = ('str', 'n%d' % label) if 'serialize' in self.over else (
            'int', label)
        out = [(('str', 'num'), num)]
        if self.note:
            out.append((('str', 'note'), ('str', self.note)))
        if include_class:
            out.append((('str', '__class__'), ('str', self.made.__name__)))
        return ('dict', sorted(out, key=repr))

    def loads(self):
        """Can the class of the property read what was written?"""
        return 'serialize' not in self.over or (
            'deserialize' in self.over and self.place != 'subclass')

    def after(self, label):
        return self.seen(self.cls, label, self.note)


def ways():
    skip = ('Dictionary key', 'optional')
    return [h for h in p29.holders() if h.name not in skip]


def as_is(leaf, holder, labels):
    """Dictionaries cannot be items of a set."""
    if holder.name == 'Set':
        return [leaf.made(num=l) for l in labels]
    return [leaf.raw(l, {}) for l in labels]


def setup(leaf, holder, labels):
    cls, log = p29.owner(leaf, holder)
    inst = cls()
    setattr(inst, holder.write, holder.build(as_is(leaf, holder, labels)))
    return cls, inst


def instances(val):
    if isinstance(val, P.HasProperties):
        if 'num' in val._props:
            return [val]
        return [i for n in val._props for i in instances(getattr(val, n))]
    if isinstance(val, dict):
        val = list(val.values())
    if isinstance(val, (list, tuple, set)):
        return [i for item in val for i in instances(item)]
    return []


def told(ctx, leaf, name, minimum):
    calls = [kws for what, kws in leaf.log if what == name]
    ctx.check(name not in leaf.over or len(calls) >= minimum,
              lambda: 'own %s was called %d times, not %d' % (
                  name, len(calls), minimum))
    return calls


def convert(ctx, leaf, holder, labels):
    cls, inst = setup(leaf, holder, labels)
    have = p29.view(getattr(inst, holder.read))
    want = holder.shape([leaf.want(l) for l in labels])
    ctx.check(have == want, lambda: 'holds %s, not %s' % (have, want))
    save = {'save_dynamic': True} if not holder.owned else {}
    for more in ({}, {'include_class': False}, {'mine': 3}):
        kwargs = dict(more, **save)
        del leaf.log[:]
        data = inst.serialize(**kwargs)
        named = more.get('include_class', True)
        want = holder.jshape([leaf.json(l, named) for l in labels])
        if not named and holder.name == 'nested':
            want = (want[0], want[1][1:])
        want = p29.order_free(holder, want)
        have = p29.order_free(holder, p29.view(data.get(holder.save)))
        ctx.check(have == want, lambda: 'serialized as %s, not %s' % (
            have, want))
        for kws in told(ctx, leaf, 'serialize', len(labels)):
            ctx.check((kws.get('include_class'), kws.get('mine'), kws.get(
                'save_dynamic')) == (named, more.get('mine'), bool(save)),
                      lambda: 'serialize was given %s' % kws)
    if holder.name == 'dynamic':
        return
    data = json.loads(json.dumps(inst.serialize()))
    if not leaf.loads():
        return
    for more in ({}, {'trusted': True}, {'mine': 4}):
        if leaf.place == 'subclass' and (
                more.get('trusted') or 'Union' in holder.name):
            continue        # the class is chosen as P09 and P13 say
        del leaf.log[:]
        back = cls.deserialize(data, **more)
        have = p29.view(getattr(back, holder.read))
        want = holder.shape([leaf.after(l) for l in labels])
        ctx.check(have == want, lambda: 'loaded as %s, not %s' % (have, want))
        if leaf.place == 'subclass':
            continue
        for kws in told(ctx, leaf, 'deserialize', len(labels)):
            ctx.check((kws.get('trusted'), kws.get('mine')) == (
                more.get('trusted', False), more.get('mine')),
                      lambda: 'deserialize was given %s' % kws)
        told(ctx, leaf, 'init', len(labels))
    dup = P.copy(inst)
    have = p29.view(getattr(dup, holder.read))
    want = holder.shape([leaf.want(l) for l in labels])
    ctx.check(have == want or (
        leaf.place == 'subclass' and holder.name == 'last of Union'), lambda: 'copied as %s, not %s' % (have, want))
    ctx.check(not set(map(id, instances(getattr(dup, holder.read)))) &
              set(map(id, instances(getattr(inst, holder.read)))),
              'the copy shares instances')


def check_valid(ctx, leaf, holder, labels):
    if not holder.owned:
        return
    _, inst = setup(leaf, holder, labels)
    held = instances(getattr(inst, holder.read))
    ctx.check(len(held) == len(labels), 'holds %s' % held)
    del leaf.log[:]
    ctx.check(inst.validate() is True, 'valid')
    if 'validate' not in leaf.over:
        return
    asked = {id(who) for what, who in leaf.log if what == 'validate'}
    ctx.check(asked == set(map(id, held)), 'validate of not every instance '
              'was called')
    for one in held:
        old, one.num = one.num, 13
        err = core.expect(ctx, core.attempt(inst.validate), P.ValidationError,
                          'validation with a refusing instance')
        if 'Union' not in holder.name:
            ctx.check(any(t.reason == 'unlucky' and t.instance is one
                          for t in err.error_tuples),
                      lambda: 'records %s' % (err.error_tuples,))
        ctx.check('Bad luck' in str(err), 'message %s' % err)
        one.num = old
        ctx.check(inst.validate() is True, 'valid after the repair')


def held_instances(ctx, holder_name):
    for place in ('class', 'base', 'mixin', 'subclass'):
        for size in range(len(OVER) + 1):
            for over in itertools.combinations(OVER, size):
                for holder in ways():
                    if holder.name != holder_name:
                        continue
                    leaf = Inst(over, place)
                    todo = [c for count in holder.counts for c in
                            itertools.product(leaf.values, repeat=count)]
                    for labels in todo:
                        for func in (convert, check_valid):
                            if not core.case(ctx, '%s in %s: %s %s' % (
                                    leaf.name, holder.name, func.__name__,
                                    labels), func, ctx, leaf, holder, labels):
                                return
                            ctx.step(4)
                        ctx.state((over, place, labels))


# -- constructors --------------------------------------------------------------------
def constructors(ctx):
    """Instances are set up before __init__ runs, whatever it does."""
    heard = []

    def base(style):
        body = {
            'num': P.Integer('', default=5), 'own': P.List('', P.Integer(''),
                                                           default=list),
            'txt': P.String('', required=False),
            'fix': P.GettableProperty('', default=3),
            'hear': P.observer('num')(lambda self, change: heard.append(
                change['value'])),
        }

        def early(self, *args, **kwargs):
            self.seen = (self.num, self.own, self.txt, self.fix)
            self.num = 6
            self.own.append(1)
            super(owner[0], self).__init__(**kwargs)
            self.args = args

        def late(self, *args, **kwargs):
            super(owner[0], self).__init__(**kwargs)
            self.seen = (5 if 'num' in kwargs else self.num, list(self.own),
                         None, self.fix)
            self.args = args

        def never(self, *args, **kwargs):
            self.seen = (self.num, list(self.own), self.txt, self.fix)
            self.args = args
            for key, val in kwargs.items():
                setattr(self, key, val)

        def doubled(self, *args, **kwargs):
            super(owner[0], self).__init__(**kwargs)
            self.seen = (5, [], None, self.fix)
            super(owner[0], self).__init__(**kwargs)
            self.args = args

        def filtered(self, *args, **kwargs):
            self.seen = (self.num, list(self.own), self.txt, self.fix)
            mine, rest = P.filter_props(type(self), kwargs)
            super(owner[0], self).__init__(**mine)
            self.args = args
            self.rest = rest

        init = {'early': early, 'late': late, 'never': never,
                'doubled': doubled, 'filtered': filtered}.get(style)
        if init:
            body['__init__'] = init
        owner = [None]
        owner[0] = type('Made', (P.HasProperties,), body)
        return owner[0]

    def judge(style, deep, kwargs, args, via):
        cls = base(style)
        if deep:
            cls = type('Sub', (cls,), {'more': P.Integer('', default=1)})
        del heard[:]
        bad = kwargs.get('num') == 'x' or (
            'zzz' in kwargs and style in ('early', 'late', 'doubled'))
        if via == 'call':
            got = core.attempt(lambda: cls(*args, **kwargs))
        elif via == 'instance':
            holder = type('Holder', (P.HasProperties,), {
                'p': P.Instance('', cls)})()

            def assign():
                holder.p = dict(kwargs)
                return holder.p
            got = core.attempt(assign)
        else:
            got = core.attempt(lambda: cls.deserialize(dict(kwargs)))
            bad = kwargs.get('num') == 'x'
        if bad:
            core.expect(ctx, got, (ValueError, AttributeError),
                        'construction')
            return
        inst = core.expect_ok(ctx, got, 'construction')
        ctx.check(type(inst) is cls, 'class')
        seen = inst.seen
        ctx.check(seen[0] == 5 and seen[3] == 3 and seen[2] is None,
                  'the constructor saw %s' % (seen,))
        num = kwargs.get('num', 6 if style == 'early' else 5)
        own = kwargs.get('own', [1] if style == 'early' else [])
        ctx.check((inst.num, inst.own, inst.txt, inst.fix) == (
            num, own, kwargs.get('txt'), 3), 'holds %s' % (
                (inst.num, inst.own, inst.txt, inst.fix),))
        if via != 'load':
            times = {'early': 1, 'doubled': 2 if 'num' in kwargs else 0
                     }.get(style, 0)
            if style != 'doubled' and 'num' in kwargs:
                times += 1
            ctx.check(len(heard) == times, 'told %s' % heard)
        else:
            ctx.check(heard == [], 'loading told %s' % heard)
        if via == 'call':
            ctx.check(inst.args == args, 'arguments')
        other = cls()
        ctx.check(other.own is not inst.own, 'shares a default')
        inst.num = 9
        ctx.check(other.num != 9, 'shares values')
        ctx.check(inst.validate() is True, 'valid')
        dup = P.copy(inst)
        ctx.check(dup.num == 9 and type(dup) is cls, 'copied')

    options = [{}, {'num': 8}, {'own': [4]}, {'num': 8, 'own': [4],
                                              'txt': 'a'}, {'num': 'x'},
               {'num': 8, 'zzz': 1}]
    for style in ('early', 'late', 'never', 'doubled', 'filtered'):
        for deep in (False, True):
            for kwargs in options:
                for args in ((), (1, 'a')):
                    for via in ('call', 'instance', 'load'):
                        if args and via != 'call':
                            continue
                        if not core.case(ctx, '%s%s(%s, %s) by %s' % (
                                style, ' sub' if deep else '', args, kwargs,
                                via), judge, style, deep, kwargs, args, via):
                            return
                        ctx.step(3)
                        ctx.state((style, deep, repr(kwargs), args, via))


# -- members ---------------------------------------------------------------------------
def members(ctx):
    """Methods used as listeners and validators, overridden and extended."""
    def judge(levels, kinds):
        log = []

        def listener(level, kind, owner):
            def func(self, change=None):
                log.append((level, kind))
                if kinds[level] == 'extend':
                    up = getattr(super(owner[0], self), kind)
                    up(change) if kind != 'check' else up()
                return True
            return func
        cls = P.HasProperties
        for level in range(levels):
            body, owner = {}, [None]
            if level == 0:
                body['num'] = P.Integer('', default=1)
            if kinds[level] != 'skip':
                for kind, deco in (
                        ('valid', P.validator('num')),
                        ('set', P.observer('num')),
                        ('change', P.observer('num', change_only=True)),
                        ('check', P.validator)):
                    func = listener(level, kind, owner)
                    func.__name__ = kind
                    body[kind] = func \
                        if kinds[level] == 'plain' else deco(func)
            cls = type('C%d' % level, (cls,), body)
            owner[0] = cls
        inst = cls()
        del log[:]
        inst.num = 2
        # the nearest member decides; extending ones go on upwards
        chain = []
        pos = levels - 1
        while pos >= 0:
            if kinds[pos] != 'skip':
                chain.append(pos)
                if kinds[pos] != 'extend':
                    break
            pos -= 1
        active = kinds[chain[0]] != 'plain'
        for kind in ('valid', 'change', 'set'):
            have = [lev for lev, k in log if k == kind]
            ctx.check(have == (chain if active else []),
                      '%s: told %s, expected %s' % (kind, have, chain))
        order = [k for _, k in log]
        ctx.check(order == sorted(order, key=['valid', 'change', 'set'].index),
                  'order %s' % order)
        del log[:]
        inst.validate()
        have = [lev for lev, k in log if k == 'check']
        ctx.check(have == (chain if active else []),
                  'check: called %s, expected %s' % (have, chain))

    choices = ('decorate', 'extend', 'plain', 'skip')
    for levels in (1, 2, 3, 4) if not ctx.quick else (1, 2, 3):
        for kinds in itertools.product(choices, repeat=levels):
            if kinds[0] in ('extend', 'skip', 'plain'):
                continue        # nothing above to extend
            if not core.case(ctx, 'members %s' % (kinds,), judge, levels,
                             kinds):
                return
            ctx.step(2)
            ctx.state(kinds)


def scenarios(tier):
    for holder in ways():
        yield ('instances in %s' % holder.name,
               lambda ctx, h=holder.name: held_instances(ctx, h))
    yield 'constructors', constructors
    yield 'members', members
