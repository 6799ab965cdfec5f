"""The core of properties at work, without the optional packages.

Run as a program: prints what every operation gives, as JSON.  The arguments
are the packages that cannot be imported; nothing else of /verif is imported.
"""
import collections
import copy
import datetime
import io
import itertools
import json
import math
import pickle
import sys
import uuid
import warnings

warnings.simplefilter('ignore')

OPTIONAL = ('numpy', 'vectormath', 'png', 'traitlets')


class Missing(object):
    """Makes packages look as if they were not installed."""

    def __init__(self, names, error):
        self.names, self.error = names, error

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in self.names:
            raise self.error('no package named %s' % name)
        return None


def main(repo, missing, error):
    sys.meta_path.insert(0, Missing(missing, error))
    sys.path.insert(0, repo)
    import properties as P
    import properties.extras as X
    for name in missing:
        if name in sys.modules:
            raise SystemExit('%s was imported' % name)
    out = collections.OrderedDict()
    for label, thing in BATTERIES:
        for key, value in thing(P, X):
            out[label + ': ' + key] = value
    return out


def canon(val, P, depth=0):
    if depth > 8:
        return '...'
    if val is None or isinstance(val, (bool, int, str)):
        return [type(val).__name__, str(val)]
    if isinstance(val, (float, complex)):
        return [type(val).__name__, repr(val)]
    if isinstance(val, P.HasProperties):
        return [type(val).__name__, [
            [k, canon(getattr(val, k), P, depth + 1)] for k in val._props]]
    if isinstance(val, dict):
        return [type(val).__name__, [
            [canon(k, P, depth + 1), canon(v, P, depth + 1)]
            for k, v in val.items()]]
    if isinstance(val, (list, tuple)):
        return [type(val).__name__, [canon(v, P, depth + 1) for v in val]]
    if isinstance(val, (set, frozenset)):
        return [type(val).__name__, sorted(
            repr(canon(v, P, depth + 1)) for v in val)]
    text = repr(val)
    return [type(val).__name__, '' if ' at 0x' in text else text]


def attempt(P, func, *args, **kwargs):
    try:
        return ['ok', canon(func(*args, **kwargs), P)]
    except Exception as err:
        return ['raises', type(err).__name__, [
            [t.reason, t.prop] for t in getattr(err, 'error_tuples', [])]]


# -- names -------------------------------------------------------------------------
def names(P, X):
    for mod in (P, X):
        for name in sorted(vars(mod)):
            if name.startswith('_') or type(getattr(mod, name)) is type(P):
                continue
            yield '%s.%s' % (mod.__name__, name), 'there'


# -- values -------------------------------------------------------------------------
ODD = object()
VALUES = [None, True, False, 0, 1, -2, 3, 10 ** 20, 2 ** 53 + 1, 0.0, 1.0,
          1.5, -0.5, 1 + 5e-9, 2 - 1e-10, 1e-5,
          float('nan'), float('inf'), 1j, 2 + 0j, '', 'a', 'ab', 'AB', ' b ',
          '1', '1.5', '#fff', '#00FF00', 'red', 'b', 'now', '2001-02-03',
          '2001/02/03', '2001-02-03T04:05:06Z', 'http://a.com/b;c?d=e#f',
          b'a', [], [1], [1, 2], ['a'], [1, 2, 3], [[1], [2]], (), (1,),
          (1, 2, 3), (255, 0, 1), set(), {1}, {1, 2}, {'a'}, {}, {'a': 1},
          {'num': 5}, {'num': 'x'}, {'a': [1]}, ODD, len, int,
          '2001-03-25T02:30:00Z', datetime.datetime(2001, 3, 25, 2, 30),
          datetime.datetime(2001, 10, 28, 2, 30), datetime.datetime(1900, 7, 1),
          datetime.datetime(3000, 7, 1, 23, 59, 59), '1900/07/01',
          datetime.datetime(2000, 1, 2, 3, 4, 5), datetime.date(2000, 1, 1)]


def leaves(P, X):
    class Kid(P.HasProperties):
        num = P.Integer('a number', default=4)

    class Other(P.HasProperties):
        txt = P.String('text', default='')
    yield 'Property', lambda **k: P.Property('d', **k)
    yield 'Boolean', lambda **k: P.Boolean('d', **k)
    yield 'Boolean cast', lambda **k: P.Boolean('d', cast=True, **k)
    yield 'Integer', lambda **k: P.Integer('d', **k)
    yield 'Integer bounds', lambda **k: P.Integer('d', min=0, max=2, **k)
    yield 'Integer cast', lambda **k: P.Integer('d', cast=True, **k)
    yield 'Float', lambda **k: P.Float('d', **k)
    yield 'Float cast', lambda **k: P.Float('d', min=-1, cast=True, **k)
    yield 'Complex', lambda **k: P.Complex('d', **k)
    yield 'Complex cast', lambda **k: P.Complex('d', cast=True, **k)
    yield 'String', lambda **k: P.String('d', **k)
    yield 'String strip', lambda **k: P.String('d', strip=' ',
                                               change_case='upper', **k)
    yield 'String regex', lambda **k: P.String('d', regex='^a', **k)
    yield 'StringChoice', lambda **k: P.StringChoice('d', ['ab', 'c'], **k)
    yield 'StringChoice dict', lambda **k: P.StringChoice(
        'd', {'ab': ['a', '1'], 'c': 'red'}, **k)
    yield 'Color', lambda **k: P.Color('d', **k)
    yield 'DateTime', lambda **k: P.DateTime('d', **k)
    yield 'URL', lambda **k: X.URL('d', remove_parameters=True,
                                   remove_fragment=True, **k)
    yield 'Instance', lambda **k: P.Instance('d', Kid, **k)
    yield 'Instance of a class', lambda **k: P.Instance('d', dict, **k)
    yield 'Pointer', lambda **k: X.Pointer('d', Kid, **k)
    yield 'Union', lambda **k: P.Union('d', [P.Integer(''), P.Color(''),
                                             P.Boolean('')], **k)
    yield 'Union of classes', lambda **k: P.Union('d', [Other, Kid], **k)
    for name, held in (('anything', None), ('Integer', lambda: P.Integer('')),
                       ('Boolean', lambda: P.Boolean('')),
                       ('String', lambda: P.String('')), ('Kid', lambda: Kid),
                       ('lists', lambda: P.List('', P.Integer(''))),
                       ('Union', lambda: P.Union('', [P.Integer(''),
                                                      P.String('')]))):
        for cls in (P.Tuple, P.List, P.Set):
            for more in ({}, {'coerce': True}, {'min_length': 1,
                                                'max_length': 2}):
                yield ('%s of %s %s' % (cls.__name__, name, sorted(more)),
                       lambda cls=cls, held=held, more=more, **k: cls(
                           'd', *([held()] if held else []), **dict(more, **k)))
        yield 'Dictionary of %s' % name, lambda held=held, **k: P.Dictionary(
            'd', *([None, held()] if False else []), **dict(
                {'value_prop': held()} if held else {}, **k))
    yield 'Dictionary of texts', lambda **k: P.Dictionary(
        'd', key_prop=P.String(''), value_prop=P.Integer(''), **k)


def inputs(P, X):
    for label, make in leaves(P, X):
        prop = make()
        prop.name = 'p'
        cls = type('Host', (P.HasProperties,), {'p': make()})
        yield label + ' documented', [prop.sphinx(), prop.info,
                                      cls.__doc__]
        kept = []
        for value in VALUES:
            key = '%s <- %s' % (label, '' if ' at 0x' in repr(value)
                                else repr(value))
            yield key, attempt(P, lambda: prop.validate(None, value))
            inst = cls()
            got = attempt(P, lambda: setattr(inst, 'p', copy.deepcopy(value)))
            yield key + ' set', [got, canon(inst, P)]
            yield key + ' given', attempt(P, cls, p=value)
            yield key + ' from JSON', attempt(
                P, lambda: prop.deserialize(value))
            yield key + ' loaded', attempt(
                P, lambda: cls.deserialize({'p': value}))
            if got[0] == 'ok':
                kept.append(inst)
                yield key + ' to JSON', attempt(P, inst.serialize)
                yield key + ' valid', attempt(P, inst.validate)
                yield key + ' copied', attempt(P, P.copy, inst)
                yield key + ' its equal', attempt(
                    P, lambda: P.equal(inst, cls(p=value)))
                yield key + ' deleted', attempt(
                    P, lambda: (delattr(inst, 'p'), inst.p))
                inst.p = value
        for one, two in itertools.product(kept[:12], repeat=2):
            yield '%s: %s = %s' % (label, canon(one, P), canon(two, P)), \
                attempt(P, P.equal, one, two)


def defaults(P, X):
    for label, make in leaves(P, X):
        for value in VALUES:
            key = '%s default %s' % (label, '' if ' at 0x' in repr(value)
                                     else repr(value))

            def declare():
                cls = type('Host', (P.HasProperties,), {
                    'p': make(default=value)})
                return cls(), cls().validate()
            yield key, attempt(P, declare)


# -- containers that notify ---------------------------------------------------------
def mutations(P, X):
    class Host(P.HasProperties):
        l = P.List('', P.Integer(''), default=list, observe_mutations=True)
        s = P.Set('', P.Integer(''), default=set, observe_mutations=True)
        d = P.Dictionary('', value_prop=P.Integer(''), default=dict,
                         observe_mutations=True)

        @P.observer(['l', 's', 'd'])
        def told(self, change):
            log.append([change['name'], canon(change['value'], P)])
    log = []
    todo = {
        'l': [('append', 3), ('append', 'x'), ('extend', [1, 2]),
              ('insert', 0, 5), ('pop',), ('reverse',), ('sort',),
              ('remove', 2), ('clear',), ('__setitem__', 0, 9),
              ('__delitem__', 0), ('__iadd__', [4]), ('__imul__', 2),
              ('__add__', [4]), ('__mul__', 2), ('copy',)],
        's': [('add', 3), ('add', 'x'), ('update', {1, 2}), ('discard', 2),
              ('remove', 2), ('pop',), ('clear',), ('__ior__', {4}),
              ('__iand__', {2}), ('__or__', {7}), ('union', {8})],
        'd': [('__setitem__', 'k', 3), ('__setitem__', 'k', 'x'),
              ('update', {'m': 2}), ('pop', 'a'), ('popitem',), ('clear',),
              ('setdefault', 'z', 5), ('__delitem__', 'a'), ('copy',)]}
    for name, ops in todo.items():
        for one, two in itertools.product(ops, repeat=2):
            inst = Host(l=[1, 2], s={2}, d={'a': 1})
            del log[:]
            res = [attempt(P, lambda: getattr(getattr(inst, name), op[0])(
                *op[1:])) for op in (one, two)]
            yield '%s %s %s' % (name, one, two), [
                res, canon(inst, P), list(log), attempt(P, inst.validate)]


# -- everything else -----------------------------------------------------------------
def behaviour(P, X):
    class Base(P.HasProperties):
        """A class"""
        a = P.Integer('a number', default=1)
        b = P.Integer('another', default=2)
        old = P.Renamed('a')
        t = P.String('text', required=False)
        f = P.Float('optional', required=False)

        @P.Float('computed')
        def twice(self):
            return None if self.a is None else 2. * self.a

        @twice.setter
        def twice(self, value):
            self.a = int(value / 2)

        @P.validator('a')
        def positive(self, change):
            log.append(['valid', canon(change['value'], P)])
            if change['value'] == 13:
                raise P.ValidationError('thirteen', 'bad', 'a', self)

        @P.observer('a', change_only=True)
        def changed(self, change):
            log.append(['changed', canon(change['value'], P)])

        @P.observer(P.everything)
        def told(self, change):
            log.append(['set', change['name']])

        @P.validator
        def whole(self):
            log.append(['whole'])

    class Sub(Base):
        _defaults = {'a': 5, 't': 'sub'}
        kid = P.Instance('a kid', Base, default=Base)
        many = P.List('more', Base, default=list)
    log = []
    for cls in (Base, Sub):
        yield cls.__name__ + ' doc', cls.__doc__
        for name, step in (
                ('set', lambda i: setattr(i, 'a', 7)),
                ('same', lambda i: setattr(i, 'a', i.a)),
                ('refused', lambda i: setattr(i, 'a', 13)),
                ('bad', lambda i: setattr(i, 'a', 'x')),
                ('old', lambda i: setattr(i, 'old', 8)),
                ('twice', lambda i: setattr(i, 'twice', 8)),
                ('delete', lambda i: delattr(i, 'a')),
                ('undefined', lambda i: setattr(i, 'f', P.undefined)),
                ('reset', lambda i: i._reset('a')),
                ('validate', lambda i: i.validate()),
                ('serialize', lambda i: i.serialize()),
                ('serialize all', lambda i: i.serialize(
                    include_class=False, save_dynamic=True)),
                ('copy', P.copy), ('equal', lambda i: P.equal(i, cls())),
                ('deepcopy', copy.deepcopy),
                ('load', lambda i: cls.deserialize(
                    {'a': 3, 'old': 4, '__class__': 'Sub'}, trusted=True)),
                ('strict', lambda i: cls.deserialize(
                    {'a': 3, 'zzz': 4}, strict=True)),
                ('kid', lambda i: setattr(i, 'kid', {'a': 6})),
                ('many', lambda i: setattr(i, 'many', [{'a': 6}])),
                ('filter', lambda i: P.filter_props(i, {'a': 1, 'z': 2}))):
            for around in (None, P.listeners_disabled, P.validators_disabled,
                           P.observers_disabled):
                inst = cls()
                del log[:]
                if around is None:
                    got = attempt(P, step, inst)
                else:
                    with around():
                        got = attempt(P, step, inst)
                yield '%s %s %s' % (cls.__name__, name, around and
                                    around.__name__), [
                    got, canon(inst, P), list(log)]


def loading(P, X):
    class Low(P.HasProperties):
        a = P.Integer('', default=1)
        ok = P.Boolean('', default=True)

        @P.validator
        def fine(self):
            return self.ok

    class High(Low):
        need = P.String('')
        low = P.Instance('', Low, default=Low)
        both = P.Union('', [Low, P.List('', P.Integer(''))], required=False)
        now = P.DateTime('', required=False)

        def _error_hook(self, error_tuples):
            hooked.append([[t.reason, t.prop] for t in error_tuples])
    hooked = []
    datas = [{}, {'need': 'x'}, {'a': 2, 'need': 'x', 'ok': False},
             {'need': 'x', 'low': {'ok': False}}, {'need': 'x', 'zz': 1},
             {'need': 'x', '__class__': 'Low'},
             {'need': 'x', '__class__': 'High', 'low': {
                 '__class__': 'High', 'need': 'y'}},
             {'need': 'x', 'both': {'ok': False}},
             {'need': 'x', 'both': [1, 2]}, {'need': 'x', 'both': ['x']},
             {'need': 5}, {'a': 'x', 'need': 5}, [], None, 5]
    for cls in (Low, High):
        for data in datas:
            for trusted, strict, valid in itertools.product(
                    (False, True), repeat=3):
                def load():
                    made = cls.deserialize(
                        copy.deepcopy(data), trusted=trusted, strict=strict,
                        assert_valid=valid)
                    return [made, made.serialize(),
                            attempt(P, made.validate), P.equal(made, made)]
                del hooked[:]
                yield '%s %s %s' % (cls.__name__, data, (
                    trusted, strict, valid)), [attempt(P, load), list(hooked)]
            if isinstance(data, dict):
                del hooked[:]
                yield '%s from %s' % (cls.__name__, data), [
                    attempt(P, lambda: cls(**data)), attempt(
                        P, lambda: cls(**data).validate()), list(hooked)]
    for num, body in enumerate((
            lambda: {'a': 5}, lambda: {'_defaults': {'zz': 1}},
            lambda: {'a': P.Integer('', default='x')},
            lambda: {'_a': P.Integer('')}, lambda: {'_defaults': {'a': 'x'}},
            lambda: {'b': P.Renamed('zz')}, lambda: {'b': P.Renamed('a')},
            lambda: {'a': P.String('', default='s')},
            lambda: {'_doc_order': ['ok']},
            lambda: {'_doc_order': ['ok', 'a']}, lambda: {'_REGISTRY': {}})):
        def declare():
            made = type('Odd', (Low,), body())
            return [made(), made.__doc__, sorted(made._props)]
        yield 'class %d' % num, attempt(P, declare)
    for kwargs in ({'max': 1}, {'min': 5, 'max': 1}, {'min': 'x'},
                   {'cast': 5}, {'required': 5}, {'default': 'x'}, {'zz': 1},
                   {'serializer': 5}, {'error_hook': 5}):
        yield 'Integer(%s)' % kwargs, attempt(
            P, lambda: P.Integer('', **kwargs).info)
    for names in ('a', ['a', 'ok'], 'zz', 5, [5], P.everything):
        def watch():
            low = Low()
            P.observer(low, names, lambda i, c: hooked.append(c['name']))
            low.a, low.ok = 3, False
            return list(hooked)
        del hooked[:]
        yield 'observing %s' % (names if names is not P.everything
                                else 'everything'), attempt(P, watch)


def connections(P, X):
    class End(P.HasProperties):
        a = P.Integer('', default=0)
        b = P.Float('', default=0.5)
        c = P.String('', required=False)
    for now, only, change in itertools.product((False, True), (False, True), (
            None, lambda v: v + 1)):
        one, two, three = End(a=4), End(), End()
        res = []
        tie = P.directional_link((one, 'a'), (two, 'a'), update_now=now,
                                 change_only=only, transform=change)
        P.directional_link((two, 'a'), (three, 'b'))
        for step in ('set', 'same', 'bad', 'target', 'unlink', 'relink'):
            if step == 'unlink':
                tie.unlink()
            elif step == 'relink':
                tie.relink()
            elif step == 'target':
                two.a = 77
            else:
                res.append(attempt(P, setattr, one, 'a', {
                    'set': 6, 'same': 6, 'bad': 'x'}[step]))
            if step in ('unlink', 'relink'):
                one.a += 1
            res.append([canon(i, P) for i in (one, two, three)])
        yield 'directional %s %s %s' % (now, only, change is not None), res
    one, two, three = End(a=4), End(), End()
    tie = P.link((one, 'a'), (two, 'a'), (three, 'a'), update_now=True)
    res = []
    for i, end in enumerate((one, two, three, one)):
        end.a = 10 + i
        res.append([canon(e, P) for e in (one, two, three)])
    tie.unlink()
    one.a = 1
    yield 'link', [res, two.a]
    for bad in ((one, 'a'), (one, 'zz'), (5, 'a'), (one,), [one, 'a'],
                (one, 5)):
        yield 'refused link %s' % (canon(bad, P),), attempt(
            P, lambda: P.directional_link((one, 'a'), bad) and None)


def extras(P, X):
    class Only(X.Singleton):
        a = P.Integer('', default=1)
    one, two = Only('x'), Only('x')
    one.a = 4
    yield 'singleton', [one is two, two.a, Only('y').a, one.serialize(),
                        attempt(P, Only.deserialize, one.serialize())]

    class Tip(X.HasUID):
        num = P.Integer('', default=1)

    class Node(X.HasUID):
        num = P.Integer('', default=1)
        nxt = X.Pointer('', Tip, required=False)
    first = Node(nxt=Tip(num=2))
    text = json.dumps(first.serialize())
    for trusted in (False, True):
        ids = [str(uuid.uuid4()) for _ in '12']
        again = text.replace(str(first.uid), ids[0]).replace(
            str(first.nxt.uid), ids[1])
        back = Node.deserialize(json.loads(again), trusted=trusted)
        yield 'uid %s' % trusted, [
            [str(back.uid), str(getattr(
                back.nxt, 'uid', back.nxt))] == ids, back.num,
            type(back.nxt).__name__, getattr(back.nxt, 'num', None),
            back.serialize() == json.loads(again),
            attempt(P, back.validate), attempt(P, setattr, first, 'nxt', 5),
            attempt(P, lambda: Node.deserialize(json.loads(again)) and None)[:2]]

    class Work(X.BaseTask):
        class Input(X.BaseInput):
            n = P.Integer('', default=2)

        class Output(X.BaseOutput):
            m = P.Integer('')

        def run(self, input_obj):
            self.report({'progress': 0.5, 'message': 'half'})
            if input_obj.n < 0:
                raise X.PermanentTaskFailure('negative')
            return self.Output(m=2 * input_obj.n)
    for num in (3, -1, 'x', None):
        yield 'task %s' % num, attempt(
            P, lambda: Work()({} if num is None else {'n': num}))
    out = io.BytesIO()
    cls = type('Filed', (P.HasProperties,), {
        'f': P.File('', mode='rb'), 'u': P.Uuid(''), 'g': P.Gettable(
            '', default=6) if hasattr(P, 'Gettable') else P.GettableProperty(
                '', default=6)})
    inst = cls(f=io.BytesIO(b'abc'))
    yield 'file', [inst.f.read().decode(), inst.g, len(str(inst.u)),
                   attempt(P, setattr, inst, 'f', 5), attempt(
                       P, setattr, inst, 'g', 5)]
    out.close()


class Saved(object):
    pass


def pickles(P, X):
    global Saved

    class Saved(P.HasProperties):
        a = P.Integer('', default=1)
        l = P.List('', P.Integer(''), default=list)
        s = P.Set('', P.String(''), default=set)
        when = P.DateTime('', required=False)
        c = P.Color('', default='red')
    Saved.__qualname__ = 'Saved'
    Saved.__module__ = __name__
    for kwargs in ({}, {'a': 5}, {'l': [1, 2]}, {'s': {'a'}},
                   {'when': '2001-02-03'}):
        for proto in (0, 1, 2, pickle.HIGHEST_PROTOCOL):
            inst = Saved(**kwargs)
            back = pickle.loads(pickle.dumps(inst, proto))
            back.a = 9
            yield 'protocol %d %s' % (proto, kwargs), [
                canon(inst, P), canon(back, P), attempt(
                    P, setattr, back, 'a', 'x')]


def maths(P, X):
    """Arrays and vectors, where they are offered."""
    if not hasattr(P, 'Array'):
        return
    import numpy as np
    for label, make in (
            ('Array', lambda: P.Array('', shape=('*',), dtype=(int, float))),
            ('Array 2', lambda: P.Array('', shape=('*', 2))),
            ('Vector3', lambda: P.Vector3('')),
            ('Vector2', lambda: P.Vector2('')),
            ('Vector3Array', lambda: P.Vector3Array('')),
            ('Vector2Array', lambda: P.Vector2Array(''))):
        cls = type('Host', (P.HasProperties,), {'p': make()})
        for value in VALUES + ['X', 'zero', ['X', 'Y'], [[1., 2.]],
                               [[1, 2, 3]], np.zeros((2, 2)), [1., 2.]]:
            def work():
                inst = cls(p=value)
                return [np.asarray(inst.p).tolist(), inst.validate(),
                        json.dumps(inst.serialize()),
                        P.equal(inst, P.copy(inst))]
            yield '%s <- %s' % (label, '' if ' at 0x' in repr(value)
                                else repr(value)), attempt(P, work)


def images(P, X):
    """Images, where they are offered."""
    if not hasattr(P, 'ImagePNG'):
        return
    import png
    data = io.BytesIO()
    png.Writer(2, 1, greyscale=True).write(data, [[0, 255]])
    cls = type('Host', (P.HasProperties,), {'p': P.ImagePNG('')})
    for label, value in (('image', io.BytesIO(data.getvalue())),
                         ('junk', io.BytesIO(b'junk')), ('text', 'text'),
                         ('none', None)):
        def work():
            inst = cls(p=value)
            saved = inst.serialize()
            back = cls.deserialize(json.loads(json.dumps(saved)))
            return [saved, back.p.read() == data.getvalue(), inst.validate()]
        yield label, attempt(P, work)


def modules(P, X):
    """Parts of the library imported on their own."""
    import importlib
    for name in ('math', 'images', 'basic', 'base', 'base.containers',
                 'handlers', 'link', 'utils', 'extras.uid', 'extras.task',
                 'extras.web', 'extras.singleton'):
        try:
            importlib.import_module('properties.' + name)
            yield name, 'there'
        except ImportError:
            yield name, 'missing'
    space = {}
    exec('from properties import *', space)
    yield 'star', sorted(k for k in space if not k.startswith('_') and
                         type(space[k]) is not type(P))


BATTERIES = [('modules', modules), ('names', names), ('values', inputs), ('defaults', defaults),
             ('mutations', mutations), ('behaviour', behaviour),
             ('loading', loading), ('links', connections), ('extras', extras), ('pickles', pickles),
             ('arrays', maths), ('images', images)]

if __name__ == '__main__':
    sys.dont_write_bytecode = True
    missing = [name for name in sys.argv[3:]]
    json.dump(main(sys.argv[1], missing, {
        'absent': ModuleNotFoundError, 'broken': ImportError}[sys.argv[2]]),
              sys.stdout)
