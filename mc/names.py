"""Property names of every kind; nothing may depend on what a name is."""
import json

import properties as P

from . import core

NAMES = ['p', 'P', 'x1', 'camelCase', 'UPPER', 'trailing_', 'double__under',
         'name', 'value', 'values', 'items', 'keys', 'get', 'pop', 'update',
         'doc', 'default', 'prop', 'props', 'instance', 'kwargs',
         'args', 'key', 'val', 'obj', 'state', 'trusted', 'strict', 'include_class',
         'save_dynamic', 'assert_valid', 'registry', 'root', 'mode',
         'previous', 'names', 'func', 'copy', 'uid', 'undefined',
         'everything', 'other', 'reset', 'load', 'info', 'class_info',
         'required', 'meta', 'tag', 'terms', 'error', 'from_json', 'to_json',
         'class', 'for', 'None', 'True', '1', 'with space', 'a.b', 'a-b',
         'a\tb', '\xe9', '\u65e5\u672c', 'n' * 200, 'change', 'change_only',
         'validators', 'observers', 'serializer', 'index', 'count', 'append',
         'length', 'shape', 'min', 'max', 'Root', 'HasProperties', 'int',
         'list', 'str', 'type', 'object', 'isinstance', 'get_x', 'set_x',
         'x_', 'x__', 'pp', 'p2', 'q']


# names of parameters of the constructor: see the findings of P23
PARAMETERS = ['self', 'cls']


def parameter(ctx, judge, name):
    try:
        judge(ctx, name)
    except TypeError as err:
        ctx.check('multiple values' not in str(err), 'a property called %r '
                  'cannot be given by keyword: %s' % (name, err),
                  key='parameter-name')
        raise


def named(ctx, judge, params=False):
    for name in PARAMETERS if params else []:
        core.case(ctx, 'a property called %r' % name, parameter, ctx, judge,
                  name)
    for name in NAMES:
        if not core.case(ctx, 'a property called %r' % name, judge, ctx, name):
            return
        ctx.step()
        ctx.state(name)


def make(*names, **more):
    name = names[0]
    body = {name: P.Integer('the number', default=1, min=0),
            'zz': P.List('', P.Integer(''), default=list)}
    body.update(more)
    return type('Named', (P.HasProperties,), body)


def state(ctx, name):
    """P01"""
    cls = make(name)
    one, two = cls(), cls()
    setattr(one, name, 5)
    ctx.check((getattr(one, name), getattr(two, name)) == (5, 1), 'assigned')
    core.expect(ctx, core.attempt(setattr, one, name, -1), ValueError, 'bad')
    ctx.check(getattr(one, name) == 5 and one.zz == [], 'kept')
    delattr(one, name)
    ctx.check(getattr(one, name) is None, 'deleted')
    core.expect(ctx, core.attempt(one.validate), P.ValidationError, 'missing')
    one._reset(name)
    ctx.check(getattr(one, name) == 1, 'reset')
    one._reset()
    ctx.check(one.validate() is True and P.equal(one, two) is True, 'valid')


def heard(ctx, name):
    """P05"""
    log = []

    def hear(tag):
        return lambda self, change: log.append(
            (tag, change['name'], change['previous'], change['value'],
             change['mode']))
    cls = make(name, on1=P.observer(name)(hear('set')),
               on2=P.observer(name, change_only=True)(hear('change')),
               on3=P.validator(name)(hear('valid')),
               on4=P.observer(P.everything)(hear('all')))
    inst = cls()
    P.observer(inst, name, hear('own'))
    P.observer(inst, [name, 'zz'], hear('both'))
    setattr(inst, name, 5)
    have = sorted(log, key=repr)
    want = sorted([(tag, name, 1, 5, mode) for tag, mode in (
        ('valid', 'validate'), ('change', 'observe_change'),
        ('set', 'observe_set'), ('all', 'observe_set'), ('own', 'observe_set'),
        ('both', 'observe_set'))], key=repr)
    ctx.check(have == want and log[0][0] == 'valid' and log[1][0] == 'change',
              lambda: 'told %s' % log)
    del log[:]
    inst.zz = [1]
    ctx.check([l[:2] for l in log] == [('all', 'zz'), ('both', 'zz')],
              lambda: 'another property told %s' % log)


def trip(ctx, name):
    """P08"""
    cls = make(name)
    inst = cls()
    setattr(inst, name, 7)
    data = inst.serialize()
    ctx.check(data == {'__class__': 'Named', name: 7, 'zz': []},
              lambda: 'serialized %s' % data)
    ctx.check(inst.serialize(include_class=False) == {name: 7, 'zz': []},
              'serialized without class')
    for kwargs in ({}, {'strict': True}, {'trusted': True},
                   {'strict': True, 'trusted': True, 'assert_valid': True}):
        back = cls.deserialize(json.loads(json.dumps(data)), **kwargs)
        ctx.check(getattr(back, name) == 7 and back.zz == [],
                  'loaded with %s' % kwargs)
    dup = P.copy(inst)
    ctx.check(getattr(dup, name) == 7 and P.equal(dup, inst), 'copied')
    both = P.filter_props(cls, {name: 1, 'zzz': 2})
    ctx.check(both == ({name: 1}, {'zzz': 2}), 'filtered')
    outer = type('Outer', (P.HasProperties,), {name: P.Instance('', cls)})
    nest = outer()
    setattr(nest, name, inst)
    back = outer.deserialize(json.loads(json.dumps(nest.serialize())))
    ctx.check(getattr(getattr(back, name), name) == 7, 'nested')


def keyword(ctx, name):
    """P23"""
    cls = make(name)
    inst = cls(**{name: 4})
    ctx.check(getattr(inst, name) == 4, 'constructed')
    inst = cls(**{name: 4, 'zz': [1]})
    ctx.check(getattr(inst, name) == 4 and inst.zz == [1], 'constructed')
    core.expect(ctx, core.attempt(lambda: cls(**{name: -4})), ValueError, 'bad')
    core.expect(ctx, core.attempt(lambda: cls(**{name: 4, 'zzz': 1})),
                AttributeError, 'unknown')
    core.expect(ctx, core.attempt(lambda: cls(**{name + 'y': 4})),
                AttributeError, 'unknown')


def blame(ctx, name):
    """P26"""
    cls = make(name, need=P.List('', P.Instance('', P.HasProperties),
                                 required=False))
    inst = cls()
    err = core.expect(ctx, core.attempt(setattr, inst, name, 'x'),
                      P.ValidationError, 'bad')
    ctx.check([(t.prop, t.instance is inst) for t in err.error_tuples] == [
        (name, True)] and name in str(err), 'blames %s' % err)
    delattr(inst, name)
    err = core.expect(ctx, core.attempt(inst.validate), P.ValidationError, '')
    ctx.check([(t.prop, t.reason) for t in err.error_tuples] == [
        (name, 'missing')] and name in str(err), 'blames %s' % err)
    err = core.expect(ctx, core.attempt(lambda: cls(**{name: 'x'})),
                      P.ValidationError, 'bad')
    ctx.check([t.prop for t in err.error_tuples] == [name], 'blames %s' % err)


def default(ctx, name):
    """P11"""
    cls = make(name)
    sub = type('Sub', (cls,), {'_defaults': {name: 6}})
    low = type('Low', (sub,), {'_defaults': {'zz': [3]}})
    func = type('Func', (low,), {'_defaults': {name: lambda: 9}})
    ctx.check([getattr(c(), name) for c in (cls, sub, low, func)] == [
        1, 6, 6, 9] and low().zz == [3], 'defaults')
    core.expect(ctx, core.attempt(type, 'Bad', (cls,), {
        '_defaults': {name: -1}}), AttributeError, 'invalid default')


def member(ctx, name):
    """P12"""
    cls = make(name)
    for kind, want in ((P.String('', default='s'), 's'), (None, None),
                       (property(lambda self: 3), 3), (8, 8)):
        sub = type('Sub', (cls,), {name: kind})
        low = type('Low', (sub,), {})
        for each in (sub, low):
            ctx.check(getattr(each(), name) == want, 'redefined as %r' % kind)
            ctx.check((name in each._props) is isinstance(kind, P.String),
                      'listed')
    both = type('Both', (type('Mix', (P.HasProperties,), {
        name: P.Integer('', default=77)}), cls), {})
    ctx.check(getattr(both(), name) == 77, 'the first base decides')


def alias(ctx, name):
    """P17"""
    cls = make('pnew', **{str(name): P.Renamed('pnew', warn=False)})
    inst = cls(**{name: 4})
    ctx.check((inst.pnew, getattr(inst, name)) == (4, 4), 'constructed')
    setattr(inst, name, 5)
    ctx.check((inst.pnew, getattr(inst, name)) == (5, 5), 'assigned')
    ctx.check(cls.deserialize({name: 6}).pnew == 6, 'loaded')
    delattr(inst, name)
    ctx.check((inst.pnew, getattr(inst, name)) == (None, None), 'deleted')
    cls = make(name, pold=P.Renamed(name, warn=False))
    inst = cls(pold=4)
    ctx.check((inst.pold, getattr(inst, name)) == (4, 4), 'renamed to it')

    def body(self):
        return self.zz and self.zz[0]
    body.__name__ = str(name)
    cls = make('pnew', **{name: P.Integer('')(body)})
    inst = cls(zz=[3])
    ctx.check(getattr(inst, name) == 3, 'dynamic')
    inst.zz = [4]
    ctx.check(getattr(inst, name) == 4, 'dynamic')
    data = inst.serialize(save_dynamic=True, include_class=False)
    ctx.check(data == {'pnew': 1, 'zz': [4], name: 4}, 'saved %s' % data)
    ctx.check(cls.deserialize(data).zz == [4], 'loaded')


def linked(ctx, name):
    """P14"""
    cls = make(name)
    one, two, three = cls(), cls(), cls()
    tie = P.link((one, name), (two, name))
    way = P.directional_link((two, name), (three, name))
    setattr(one, name, 5)
    ctx.check([getattr(i, name) for i in (one, two, three)] == [5] * 3, 'link')
    setattr(two, name, 6)
    ctx.check([getattr(i, name) for i in (one, two, three)] == [6] * 3, 'back')
    tie.unlink()
    setattr(one, name, 7)
    ctx.check([getattr(i, name) for i in (one, two, three)] == [7, 6, 6],
              'unlinked')
    way.unlink()


def compared(ctx, name):
    """P10"""
    cls = make(name)
    one, two = cls(), cls()
    ctx.check(P.equal(one, two) is True, 'equal')
    setattr(one, name, 2)
    ctx.check(P.equal(one, two) is False and P.equal(two, one) is False,
              'different')
    setattr(two, name, 2)
    ctx.check(P.equal(one, two) is True, 'equal again')
    delattr(two, name)
    ctx.check(P.equal(one, two) is False and P.equal(two, one) is False,
              'undefined')
    dup = P.copy(one)
    ctx.check(P.equal(dup, one) is True and dup is not one, 'copied')
    one.zz.append(4)
    ctx.check(dup.zz == [], 'shared')
