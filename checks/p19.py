"""P19: generated documentation and property descriptions."""
import builtins
import itertools
import uuid

import numpy as np

import properties as P
from properties.extras import Pointer, URL

from mc import core

PROPERTY = 'P19'
BOUNDS = ('every subset of 9 properties (required, optional, immutable, '
          'dynamic, renamed; three private ones) x private flag x 12 '
          'declared orders; private flags and orders of two and three bases; every placement of 5 properties in a base class, a '
          'subclass or both x flags and orders of both classes; every default '
          'of an alphabet x every level; 60 property configurations with the '
          'facts their description must state; every way to tag')
ASSUMPTIONS = ['defaults shown are those of the property declaration',
               'the order of a class whose first ordered base does not list '
               'exactly its properties, but whose next one does, is '
               'unspecified']

HEADS = ['Required Properties', 'Optional Properties', 'Other Properties',
         'Private Properties']


class Doc(object):
    """Parsed class documentation."""

    def __init__(self, ctx, text, own):
        ctx.check(isinstance(text, str), 'documentation is %r' % (text,))
        ctx.check(text.startswith(own), 'the own text is gone: %r' % text)
        text = text[len(own):]
        self.sections = {}
        self.lines = {}
        self.order = []
        head = None
        for line in text.split('\n'):
            if line.startswith('**') and line.rstrip().endswith(':**'):
                head = line.strip('*: ')
                ctx.check(head in HEADS, 'unknown section %r' % head)
                ctx.check(head not in self.sections, 'section twice: %r' %
                          head)
                self.sections[head] = []
                self.order.append(head)
            elif line.startswith('* **'):
                name = line[4:].split('**')[0]
                ctx.check(head is not None, 'entry before any section')
                self.sections[head].append(name)
                ctx.check(name not in self.lines, '%s is listed twice' % name)
                self.lines[name] = line[2:]
            else:
                ctx.check(not line.strip(), 'stray line %r' % line)
        ctx.check(all(self.sections.values()), 'empty section')
        ctx.same(self.order, [h for h in HEADS if h in self.sections],
                 'order of the sections')


def expect_doc(ctx, cls, own, order, kinds, label, doc_private):
    """`order` lists all documented names; kinds: name -> section index."""
    doc = Doc(ctx, cls.__doc__, own)
    want = {}
    for name in order:
        want.setdefault(HEADS[kinds[name]], []).append(name)
    if doc.sections != want:
        ctx.fail('%s: documented %s, expected %s' % (
            label, doc.sections, want))
    for name, line in doc.lines.items():
        check_line(ctx, cls._props[name], name, line, label)
        member = cls.__dict__.get(name)
        if member is not None:
            ctx.same(member.__doc__, line, '%s: doc of member %s' % (
                label, name))


def check_line(ctx, prop, name, line, label):
    """Name, type, doc text, description and default, in that order."""
    ctx.check(line.startswith('**%s**' % name), '%s: line %r' % (label, line))
    pos = 0
    parts = [prop.sphinx_class(), ': ' + prop.doc]
    if prop.info:
        parts.append(', ' + prop.info)
    for part in parts:
        found = line.find(part, pos)
        ctx.check(found >= 0, '%s: %r is not in %r' % (label, part, line))
        pos = found + len(part)
    rest = line[pos:]
    ctx.same(rest, shown_default(prop), '%s: default shown in %r' % (
        label, line))


def shown_default(prop):
    if not isinstance(prop, P.Property):
        return ''
    value = prop.default
    text = None
    if callable(value):
        value = value()
        text = 'new instance of %s' % type(value).__name__
    if value is None or value is P.undefined:
        return ''
    if hasattr(value, '__len__') and len(value) == 0:
        return ''
    return ', Default: %s' % (text or '{}'.format(value))


def members():
    """name -> (section, function making the class member)."""
    def dynamic():
        def c_dyn(self):
            return 1
        return P.Integer('dynamic doc')(c_dyn)
    return {
        'z_req': (0, lambda: P.Integer('required doc', min=1)),
        'd_req': (0, lambda: P.String('second required', default='d')),
        'b_opt': (1, lambda: P.List('optional doc', P.Integer(''),
                                    required=False)),
        'y_imm': (2, lambda: P.GettableProperty('immutable doc', default=4)),
        'c_dyn': (2, dynamic),
        'a_ren': (2, lambda: P.Renamed('z_req')),
        '_priv': (3, lambda: P.Float('private doc')),
        '_opt': (3, lambda: P.List('private list', P.Integer(''),
                                   required=False)),
        '_imm': (3, lambda: P.GettableProperty('private immutable')),
    }


def shapes(part, parts):
    def run(ctx):
        table = members()
        names = list(table)
        for bits in range(part, 1 << len(names), parts):
            chosen = [n for i, n in enumerate(names) if bits >> i & 1]
            if 'a_ren' in chosen and 'z_req' not in chosen:
                continue
            for num, (private, mode) in enumerate(itertools.product(
                    (None, False, True), range(12))):
                own = ('', 'Own text.\n\nMore')[(num + bits) % 2]
                label = 'class of %s, private=%s, order %d, own=%r' % (
                    chosen, private, mode, own)
                if not core.case(ctx, label, one_shape, ctx, table, chosen,
                                 private, mode, own, label):
                    return
    return run


def make_order(mode, documented):
    """(given?, value, resulting order or None if it must be refused)"""
    base = sorted(documented)
    back = base[::-1]
    swap = base[1:] + base[:1]
    if mode == 0:
        return False, None, base
    if mode == 1:
        return True, None, base
    if mode == 2:
        return True, back, back
    if mode == 3:
        return True, tuple(swap), swap
    if mode == 4:
        return True, back[1:], None if base else []
    if mode == 5:
        return True, back + ['zip'], None
    if mode == 6:
        return True, back + back[:1], None if base else []
    if mode == 7:
        return True, back[:-1] + back[:1], (None if len(base) > 1 else base)
    if mode == 8:
        return True, 5, None
    if mode == 9:
        return True, 'ab', None
    if mode == 10:
        return True, {n: 1 for n in back}, None
    return True, iter(back), None


def one_shape(ctx, table, chosen, private, mode, own, label):
    documented = [n for n in chosen if n[0] != '_' or private]
    given, order, want = make_order(mode, documented)
    body = {}
    if own:
        body['__doc__'] = own
    for name in chosen:
        body[name] = table[name][1]()
    if private is not None:
        body['_doc_private'] = private
    if given:
        body['_doc_order'] = order
    body['_REGISTRY'] = dict()
    out = core.attempt(type(P.HasProperties), 'Shape', (P.HasProperties,),
                       body)
    ctx.step()
    ctx.state(label)
    if want is None:
        core.expect(ctx, out, (AttributeError, TypeError), label)
        return
    cls = core.expect_ok(ctx, out, label)
    kinds = {n: table[n][0] for n in chosen}
    expect_doc(ctx, cls, own, want, kinds, label, private)
    ctx.same(cls().__doc__, cls.__doc__, label)


# -- inheritance ---------------------------------------------------------------
def hierarchy(part, parts):
    def run(ctx):
        table = members()
        names = ['z_req', 'b_opt', 'y_imm', '_priv']
        orders = (None, 'back', 'none')
        for num, (where, bpriv, spriv, border, sorder) in enumerate(
                itertools.product(itertools.product(range(4), repeat=4),
                                  (None, False, True), (None, False, True),
                                  (None, 'back'), orders)):
            if num % parts != part:
                continue
            label = 'placed %s, private %s/%s, order %s/%s' % (
                dict(zip(names, where)), bpriv, spriv, border, sorder)
            if not core.case(ctx, label, one_hierarchy, ctx, table, names,
                             where, bpriv, spriv, border, sorder, label):
                return
    return run


def one_hierarchy(ctx, table, names, where, bpriv, spriv, border, sorder,
                  label):
    base = {'__doc__': 'Base text.', '_REGISTRY': dict()}
    sub = {'__doc__': 'Sub text.'}
    for name, place in zip(names, where):
        if place & 1:
            base[name] = table[name][1]()
        if place & 2:
            # the subclass turns it into something else
            sub[name] = P.Boolean('redeclared', required=name == 'b_opt')
    kinds_b = {n: table[n][0] for n, p in zip(names, where) if p & 1}
    kinds_s = dict(kinds_b)
    kinds_s.update({n: (3 if n[0] == '_' else (0 if n == 'b_opt' else 1))
                    for n, p in zip(names, where) if p & 2})
    show_b = bool(bpriv)
    show_s = bool(bpriv if spriv is None else spriv)
    doc_b = sorted(n for n in kinds_b if n[0] != '_' or show_b)
    doc_s = sorted(n for n in kinds_s if n[0] != '_' or show_s)
    for body, flag in ((base, bpriv), (sub, spriv)):
        if flag is not None:
            body['_doc_private'] = flag
    want_b, want_s = doc_b, doc_s
    if border:
        base['_doc_order'] = want_b = doc_b[::-1]
        if sorted(want_b) == doc_s:
            want_s = want_b
    if sorder == 'back':
        sub['_doc_order'] = want_s = doc_s[::-1]
    elif sorder == 'none':
        sub['_doc_order'] = None
        want_s = doc_s
    meta = type(P.HasProperties)
    Base = meta('Base', (P.HasProperties,), base)
    Sub = meta('Sub', (Base,), sub)

    class Leaf(Sub):
        """Leaf text."""
    expect_doc(ctx, Base, 'Base text.', want_b, kinds_b, label, show_b)
    expect_doc(ctx, Sub, 'Sub text.', want_s, kinds_s, label, show_s)
    if sorder != 'none':
        expect_doc(ctx, Leaf, 'Leaf text.', want_s, kinds_s, label, show_s)
    ctx.step(3)
    ctx.state(label)


def several_bases(ctx):
    """The private flag of a class with several bases is the one of its
    first base (left to right) which has any."""
    meta = type(P.HasProperties)
    for count in (2, 3):
        for flags in itertools.product((None, False, True), repeat=count):
            for own in (None, False, True):
                def go():
                    bases, kinds = [], {}
                    for num, flag in enumerate(flags):
                        body = {'_REGISTRY': dict(),
                                'p%d' % num: P.Integer('public'),
                                '_q%d' % num: P.Integer('private')}
                        kinds['p%d' % num], kinds['_q%d' % num] = 0, 3
                        if flag is not None:
                            body['_doc_private'] = flag
                        bases.append(meta('B%d' % num, (P.HasProperties,),
                                          body))
                    body = {} if own is None else {'_doc_private': own}
                    cls = meta('Joined', tuple(bases), body)
                    given = [f for f in (own,) + flags if f is not None]
                    shown = bool(given and given[0])
                    label = 'flags %s, own %s' % (flags, own)
                    expect_doc(ctx, cls, '', sorted(
                        n for n in kinds if n[0] != '_' or shown), kinds,
                        label, shown)
                    ctx.step()
                    ctx.state(label)
                core.case(ctx, 'flags %s, own %s' % (flags, own), go)


def base_orders(ctx):
    """The order comes from the first base that has one, if it still lists
    exactly the documented properties; otherwise it is alphabetical."""
    meta = type(P.HasProperties)
    names = ('a', 'b', 'c')
    for count in (2, 3):
        for kinds in itertools.product(
                ('none', 'back', 'swap', 'fewer', 'other'), repeat=count):
            for extra, own in itertools.product(
                    (False, True), (None, 'own', 'reset', 'tuple')):
                def go():
                    bases, orders = [], []
                    for num, kind in enumerate(kinds):
                        have = {'fewer': names[:2], 'other': names + (
                            'x%d' % num,)}.get(kind, names)
                        body = {n: P.Integer('') for n in have}
                        body['_REGISTRY'] = dict()
                        order = {'back': ['c', 'b', 'a'],
                                 'swap': ('b', 'a', 'c'),
                                 'fewer': ['b', 'a'],
                                 'other': ['x%d' % num, 'b', 'c', 'a']}.get(
                                     kind)
                        if order:
                            body['_doc_order'] = order
                        orders.append(order)
                        bases.append(meta('B%d' % num, (P.HasProperties,),
                                          body))
                    body = {'extra': P.Integer('')} if extra else {}
                    all_names = sorted({n for b in bases for n in b._props} |
                                       set(body))
                    if own in ('own', 'tuple'):
                        body['_doc_order'] = all_names[1:] + all_names[:1]
                        if own == 'tuple':
                            body['_doc_order'] = tuple(body['_doc_order'])
                    elif own == 'reset':
                        body['_doc_order'] = None
                    cls = meta('Joined', tuple(bases), body)
                    ctx.step()
                    ctx.state((kinds, extra, own))
                    fit = [o is not None and sorted(o) == all_names
                           for o in orders]
                    given = [i for i, o in enumerate(orders) if o is not None]
                    if own in ('own', 'tuple'):
                        want = list(body['_doc_order'])
                    elif own == 'reset' or not any(fit):
                        want = all_names
                    elif fit[given[0]]:
                        want = list(orders[given[0]])
                    else:
                        return
                    label = 'orders %s, extra %s, own %s' % (kinds, extra, own)
                    expect_doc(ctx, cls, '', want, dict.fromkeys(all_names, 0),
                               label, False)

                    class Leaf(cls):
                        pass
                    if own != 'reset':
                        expect_doc(ctx, Leaf, '', want,
                                   dict.fromkeys(all_names, 0), label, False)
                core.case(ctx, 'orders %s, %s, own %s' % (kinds, extra, own),
                          go)


def surroundings(ctx):
    """The documentation is complete whether or not IPython is running."""
    def one(flag):
        builtins.__IPYTHON__ = flag
        try:
            class Thing(P.HasProperties):
                """Text"""
                _REGISTRY = dict()
                num = P.Integer('a number', default=3)
                txt = P.String('a text', required=False)
                own = OwnType('mine')
                lst = P.List('', OwnType('inner'))
                mix = P.Union('both', [P.Integer(''), P.Color('')])

                @P.Float('a view')
                def dyn(self):
                    return 1.0
            doc = Doc(ctx, Thing.__doc__, 'Text')
        finally:
            del builtins.__IPYTHON__
        ctx.same(doc.sections, {HEADS[0]: ['lst', 'mix', 'num', 'own'],
                                HEADS[1]: ['txt'], HEADS[2]: ['dyn']},
                 'sections')
        for name, line in doc.lines.items():
            prop = Thing._props[name]
            ctx.check('()' not in line, line)
            if flag:
                ctx.check(line.startswith('**%s**' % name) and ': %s, %s' % (
                    prop.doc, prop.info) in line, line)
                ctx.check(line.endswith(shown_default(prop)), line)
            else:
                check_line(ctx, prop, name, line, 'flag off')
        ctx.step()
        ctx.state(flag)
    for flag in (True, False, 0, 1):
        core.case(ctx, '__IPYTHON__ = %s' % flag, one, flag)

    def places():
        for module, want in (('properties.basic', 'properties'),
                             ('properties.extras.web', 'properties'),
                             ('properties', 'properties'),
                             ('propertiesext.things', 'propertiesext.things'),
                             ('my.properties', 'my.properties'),
                             ('mine', 'mine'), ('a.b.c', 'a.b.c')):
            kind = type(P.Integer)('Special', (P.Integer,), {
                '__module__': module})
            prop = kind('doc')
            for given in (prop, P.List('', prop), P.Union('', [prop])):
                ctx.check(':class:`Special <%s.Special>`' % want in
                          given.sphinx_class(), lambda: '%s of module %s is '
                          'referred to by %s' % (
                              type(given).__name__, module,
                              given.sphinx_class()))
                ctx.step()
            inst = type(P.HasProperties)('Target', (P.HasProperties,), {
                '__module__': module, '_REGISTRY': dict()})
            ctx.check(':class:`Target <%s.Target>`' % module in
                      P.Instance('', inst).sphinx_class(), 'instance class')
            ctx.state(module)
    core.case(ctx, 'modules', places)


def bad_flags(ctx):
    for bad in ('yes', 1, 0, None, [], 'True'):
        core.case(ctx, '_doc_private = %r' % (bad,), lambda: core.expect(
            ctx, core.attempt(type(P.HasProperties), 'Bad',
                              (P.HasProperties,), {'_doc_private': bad}),
            AttributeError, '_doc_private = %r' % (bad,)))


# -- defaults ---------------------------------------------------------------------
def default_texts(ctx):
    table = [
        (P.Integer, (), [0, 5, -1]), (P.Float, (), [0.0, 2.5]),
        (P.Boolean, (), [True, False]), (P.String, (), ['', 'text', 'a b']),
        (P.List, (P.Integer(''),), [[], [1, 2]]),
        (P.Tuple, (P.Integer(''),), [(), (1,)]),
        (P.Dictionary, (), [{}, {'a': 1}]),
        (P.Property, (), [0, '', None.__class__, 7, [], {}]),
        (P.StringChoice, (['a', 'b'],), ['a']),
        (P.Vector3, (), [[1, 2, 3], 'x']),
        (P.Union, ([P.Integer(''), P.String('')],), [0, '', 'x', 3]),
        (P.Color, (), ['red', (1, 2, 3)]),
    ]

    def nothing():
        for ptype in (P.Property, P.GettableProperty):
            cls = type(P.HasProperties)('C', (P.HasProperties,), {
                'p': ptype('the doc', default=lambda: None),
                '_REGISTRY': dict()})
            line = Doc(ctx, cls.__doc__, '').lines['p']
            ctx.check('Default' not in line, 'default shown: %r' % line)
            ctx.step()
    core.case(ctx, 'default giving None', nothing)
    for ptype, args, values in table:
        for value in values:
            for called, required, undefined in itertools.product(
                    (False, True), (True, False), (False, True)):
                def go():
                    if isinstance(value, type):
                        return
                    give = P.undefined if undefined else (
                        (lambda: value) if called else value)
                    prop = ptype('the doc', *args, default=give,
                                 required=required)
                    cls = type(P.HasProperties)('C', (P.HasProperties,), {
                        'p': prop, '_REGISTRY': dict()})
                    doc = Doc(ctx, cls.__doc__, '')
                    ctx.same(doc.sections,
                             {HEADS[0 if required else 1]: ['p']}, 'sections')
                    line = doc.lines['p']
                    check_line(ctx, prop, 'p', line, 'default')
                    empty = undefined or (hasattr(value, '__len__') and
                                          len(value) == 0)
                    if empty:
                        ctx.check('Default' not in line, 'default shown: %r' %
                                  line)
                    elif called:
                        ctx.check(line.endswith(
                            ', Default: new instance of %s' %
                            type(value).__name__), line)
                    else:
                        ctx.check(line.endswith(', Default: %s' % (value,)
                                                if not isinstance(value, tuple)
                                                else 'Default: ' + str(value)),
                                  line)
                    ctx.step()
                    ctx.state((ptype.__name__, core.show(value), called,
                               required, undefined))
                core.case(ctx, 'default %s %r callable=%s' % (
                    ptype.__name__, value, called), go)


# -- descriptions -----------------------------------------------------------------
class Some(P.HasProperties):
    _REGISTRY = dict()
    num = P.Integer('', required=False)


class OwnType(P.Integer):
    class_info = 'my own description'


def described():
    """(label, property, facts in the description, types named)."""
    I = P.Integer
    yield 'Integer', P.Integer('d'), ['integer'], ['Integer']
    yield 'Integer min', P.Integer('d', min=3), ['integer', '3'], ['Integer']
    yield 'Integer max', P.Integer('d', max=17), ['integer', '17'], ['Integer']
    yield ('Integer range', P.Integer('d', min=-4, max=17),
           ['integer', '-4', '17'], ['Integer'])
    yield 'Integer zero', P.Integer('d', min=0, max=0), ['[0, 0]'], []
    yield ('Float range', P.Float('d', min=0.5, max=2), ['float', '0.5', '2'],
           ['Float'])
    yield 'Complex', P.Complex('d'), ['complex'], ['Complex']
    yield 'Boolean', P.Boolean('d'), ['boolean'], ['Boolean']
    yield 'String', P.String('d'), ['string'], ['String']
    yield ('String regex', P.String('d', regex='^ab+$'), ['string', '^ab+$'],
           ['String'])
    yield ('choice', P.StringChoice('d', ['one', 'two']), ['"one"', '"two"'],
           ['StringChoice'])
    yield ('choice of synonyms', P.StringChoice('d', {
        'one': ['uno', 'ein'], 'two': 'dos'}), ['"one"', '"two"'],
           ['StringChoice'])
    yield 'Color', P.Color('d'), ['color'], ['Color']
    yield 'DateTime', P.DateTime('d'), ['datetime'], ['DateTime']
    yield 'Uuid', P.Uuid('d'), ['unique ID'], ['Uuid']
    yield 'File', P.File('d', mode='r'), ['file'], ['File']
    yield 'URL', URL('d'), ['URL'], ['URL']
    yield 'Image', P.ImagePNG('d'), ['PNG'], ['ImagePNG']
    yield 'Property', P.Property('d'), [], ['Property']
    yield 'Instance', P.Instance('d', Some), ['instance', 'Some'], ['Some']
    yield 'Pointer', Pointer('d', Some), ['Some', 'uid'], ['Some']
    yield ('Pointer prop', Pointer('d', Some, uid_prop='num'),
           ['Some', 'num'], ['Some'])
    yield ('Union', P.Union('d', [I('', min=3), P.String('')]),
           ['integer', '3', ' or ', 'string'], ['Integer', 'String'])
    yield ('Union of any', P.Union('d', [P.Property(''), P.String('')]),
           ['any value', ' or ', 'string'], ['Property', 'String'])
    for name, kind in (('tuple', P.Tuple), ('list', P.List), ('set', P.Set)):
        yield name, kind('d', I('')), [name, 'integer'], ['Integer', name]
        yield name + ' of any', kind('d'), [name], []
        yield (name + ' min', kind('d', I('', max=8), min_length=2),
               [name, 'integer', '8', '>= 2'], ['Integer'])
        yield (name + ' max', kind('d', I(''), max_length=7),
               [name, 'between 0 and 7'], ['Integer'])
        yield (name + ' both', kind('d', I(''), min_length=2, max_length=7),
               [name, 'between 2 and 7'], ['Integer'])
        yield (name + ' fixed', kind('d', I(''), min_length=4, max_length=4),
               [name, 'of 4'], ['Integer'])
        yield (name + ' nested', kind('d', P.List('', P.String(''))) if
               name != 'set' else kind('d', P.Tuple('', P.String(''))),
               [name, 'string'], ['String'])
        yield name + ' of Some', kind('d', Some), [name, 'Some'], ['Some']
    yield ('dict', P.Dictionary('d', key_prop=P.String(''),
                                value_prop=I('')),
           ['dictionary', 'keys: a unicode string', 'values: an integer'], [])
    yield ('dict keys', P.Dictionary('d', key_prop=P.Color('')),
           ['dictionary', 'keys: a', 'color'], [])
    yield ('dict values', P.Dictionary('d', value_prop=Some),
           ['dictionary', 'values: an instance of Some'], [])
    yield 'dict any', P.Dictionary('d'), ['dictionary'], []
    yield 'Array', P.Array('d'), ['int', 'float', 'shape'], ['Array']
    yield ('Array 2d', P.Array('d', shape=('*', 3), dtype=bool),
           ['bool', '*', '3'], ['Array'])
    yield ('Array any', P.Array('d', shape=None, dtype=int),
           ['int', 'any shape'], ['Array'])
    yield ('Array two shapes', P.Array('d', shape={('*',), (2, 5)},
                                       dtype=float),
           ['float', '(2, 5)', ' or '], ['Array'])
    for vec in ('Vector2', 'Vector3'):
        yield vec, getattr(P, vec)('d'), [vec[-1]], [vec]
        yield (vec + ' length', getattr(P, vec)('d', length=2.5), [vec[-1]],
               [vec])
        yield vec + 'Array', getattr(P, vec + 'Array')('d'), [vec[-1]], [
            vec + 'Array']
    yield 'String plain', P.String('d'), ['!match', '!pattern'], []
    yield ('String unicode', P.String('d', unicode=True), ['unicode string'],
           [])
    yield ('String not unicode', P.String('d', unicode=False),
           ['string', '!unicode', '!match'], [])
    yield ('String both', P.String('d', unicode=False, regex='a+'),
           ['string', '!unicode', 'matches', '"a+"'], [])
    yield ('choice described', P.StringChoice('d', ['one', 'two'],
                                              descriptions={
                                                  'one': 'the first',
                                                  'two': 'the second'}),
           ['"one" (the first)', '"two" (the second)'], [])
    yield ('three described', P.StringChoice('d', ['one', 'two', 'six'],
                                             descriptions={
                                                 'one': 'the first', 'two': 's',
                                                 'six': 'the sixth'}),
           ['"one" (the first)', '"two" (s)', '"six" (the sixth)'], [])
    for count in range(1, 6):
        names = ['c%d' % i for i in range(count)]
        yield ('%d choices' % count, P.StringChoice('d', names),
               ['"%s"' % n for n in names] + ['!None', '!()'], [])
    yield 'Integer plain', P.Integer('d'), ['!range', '!None', '!inf'], []
    yield 'Integer half', P.Integer('d', min=0), ['[0, inf]', '!None'], []
    yield 'Float half', P.Float('d', max=0), ['[-inf, 0]', '!None'], []
    for name, kind in (('tuple', P.Tuple), ('list', P.List), ('set', P.Set)):
        for limits in ({}, {'min_length': 0}, {'max_length': 0},
                       {'min_length': 3}, {'max_length': 3},
                       {'min_length': 0, 'max_length': 0},
                       {'min_length': 1, 'max_length': 3}):
            for item in (None, P.Property(''), I('', max=9)):
                args = () if item is None else (item,)
                facts = ['a ' + name, '!None', '!is )', '!()']
                facts += ['integer', '9'] if args and item.info else [
                    '!each', '!is ']
                if not limits:
                    facts.append('!length')
                else:
                    facts.append('length')
                    facts += [str(v) for v in limits.values()]
                yield ('%s %s of %s' % (name, limits, item and item.info),
                       kind('d', *args, **limits), facts, [])
    for key, val in itertools.product((None, P.Property(''), I('', max=9)),
                                      (None, P.Property(''), P.Color(''))):
        kwargs = {k: v for k, v in (('key_prop', key), ('value_prop', val))
                  if v is not None}
        facts = ['a dictionary', '!None', '!: )', '!: ;', '!()']
        facts += ['keys: an integer', '9'] if key and key.info else ['!keys']
        facts += ['values: a', 'color'] if val and val.info else ['!values']
        yield ('dict of %s and %s' % (key and key.info, val and val.info),
               P.Dictionary('d', **kwargs), facts, [])
    for param, frag in itertools.product((False, True), repeat=2):
        yield ('URL %s %s' % (param, frag), URL(
            'd', remove_parameters=param, remove_fragment=frag),
               ['URL', ('' if param else '!') + 'param',
                ('' if frag else '!') + 'fragment'], [])

    def view(self):
        return 1
    for make, fact in ((lambda: P.Integer('d', min=7), '7'),
                       (lambda: P.StringChoice('d', ['one', 'two']), '"two"'),
                       (lambda: P.List('d', P.Color('')), 'color')):
        yield ('dynamic ' + fact, make()(view), [make().info, 'dynamic'], [])
    yield 'own type', OwnType('d'), ['my own description'], ['OwnType']
    yield ('list of own type', P.List('d', OwnType('')),
           ['list', 'my own description'], ['OwnType'])


def descriptions(ctx):
    for label, prop, facts, kinds in described():
        def go():
            cls = type(P.HasProperties)('Cls', (P.HasProperties,), {
                'field': prop, '_REGISTRY': dict()})
            line = Doc(ctx, cls.__doc__, '').lines['field']
            check_line(ctx, prop, 'field', line, label)
            for fact in facts:
                if fact.startswith('!'):
                    ctx.check(fact[1:] not in prop.info, '%s: %r is in the '
                              'description %r' % (label, fact[1:], prop.info))
                    continue
                fact = fact.replace('*', '\\*') if '*' in fact else fact
                ctx.check(fact in prop.info or
                          fact.replace('\\*', '*') in prop.info,
                          '%s: %r is not in the description %r' % (
                              label, fact, prop.info))
            for kind in kinds:
                ctx.check(kind in prop.sphinx_class() or kind.lower() in
                          prop.sphinx_class(), '%s: %s is not in the type %r' %
                          (label, kind, prop.sphinx_class()))
            # error messages use the same description
            ctx.same(prop.name, 'field', 'name')
            ctx.step()
            ctx.state(label)
        core.case(ctx, 'description of ' + label, go)


# -- terms and tags ------------------------------------------------------------------
def terms(ctx):
    made = [
        (P.Integer, ('doc',), {}), (P.Integer, ('doc',), dict(min=1, max=3)),
        (P.String, (), dict(doc='doc', required=False)),
        (P.List, ('doc', P.Integer('')), dict(min_length=1)),
        (P.List, ('doc',), dict(prop=Some)),
        (P.Union, ('doc', [P.Integer(''), P.String('')]), dict(default=4)),
        (P.Instance, ('doc', Some), {}),
        (P.StringChoice, ('doc', ['a', 'b']), {}),
        (P.StringChoice, ('doc',), dict(choices=['a'], case_sensitive=True)),
        (P.Renamed, ('other',), dict(warn=False)),
        (P.GettableProperty, ('doc',), dict(default=3)),
        (P.Array, ('doc',), dict(shape=('*', 3), dtype=float)),
        (P.Uuid, ('doc',), {}), (Pointer, ('doc', Some), dict(load=True)),
        (OwnType, ('doc',), {}),
    ]
    tags = [((), {}), (({'a': 1},), {}), ((), {'b': 2}),
            (({'a': 1},), {'a': 2, 'c': None}), (({},), {}),
            (({'name': 'x'},), {'self_': 1})]
    for (ptype, args, kwargs), first, second in itertools.product(
            made, tags, tags):
        def go():
            given_args, given_kw = tuple(args), dict(kwargs)
            prop = ptype(*args, **kwargs)
            ctx.same(prop.terms.name, '', 'name before declaration')
            model = {}
            for pos, kw in (first, second):
                back = prop.tag(*pos, **kw)
                ctx.check(back is prop, 'tag gives another object')
                for item in pos:
                    model.update(item)
                model.update(kw)
                ctx.check(dict(prop.meta) == model, 'tags %r, expected %r' % (
                    prop.meta, model))
            got = prop.terms
            ctx.check(got.cls is ptype, 'class %r' % (got.cls,))
            ctx.check(got.args == given_args and got.kwargs == given_kw,
                      'arguments %r %r' % (got.args, got.kwargs))
            ctx.check(dict(got.meta) == model, 'tags in terms')
            cls = type(P.HasProperties)('Cls', (P.HasProperties,), {
                'other': P.Integer(''), 'field': prop, '_REGISTRY': dict()})
            got = cls._props['field'].terms
            ctx.same((got.name, got.cls is ptype, dict(got.meta)),
                     ('field', True, model), 'terms after declaration')
            ctx.check(got.args == given_args and got.kwargs == given_kw,
                      'arguments %r %r' % (got.args, got.kwargs))
            # the terms suffice to build the same property again
            again = got.cls(*got.args, **got.kwargs)
            again.name = 'field'
            ctx.same(again.sphinx(), prop.sphinx(), 'rebuilt from its terms')
            # tags are private to a property
            other = ptype(*args, **kwargs)
            ctx.same(dict(other.meta), {}, 'tags of another property')
            ctx.step(5)
            ctx.state((ptype.__name__, repr(first), repr(second), len(args)))
        if not core.case(ctx, 'terms of %s tagged %s %s' % (
                ptype.__name__, first, second), go):
            return
    for bad in (('a',), (1,), ([],), ({}, {}), (None,), (('a', 1),)):
        def go():
            prop = P.Integer('')
            core.expect(ctx, core.attempt(prop.tag, *bad), TypeError,
                        'tag(*%r)' % (bad,))
            ctx.same(dict(prop.meta), {}, 'tags')
        core.case(ctx, 'tag(*%r)' % (bad,), go)

    def dynamic():
        for first, second in itertools.product(tags, repeat=2):
            def view(self):
                return 1
            prop = P.Integer('doc', min=1)
            prop.tag(*first[0], **first[1])
            dyn = prop(view)
            model = {}
            for pos, kw in (first,):
                for item in pos:
                    model.update(item)
                model.update(kw)
            ctx.check(dict(dyn.meta) == model, 'dynamic tags %r' % dyn.meta)
            dyn.tag(*second[0], **second[1])
            for item in second[0]:
                model.update(item)
            model.update(second[1])
            ctx.check(dict(dyn.meta) == model, 'dynamic tags %r' % dyn.meta)
            wrapped = {}
            for item in first[0]:
                wrapped.update(item)
            wrapped.update(first[1])
            ctx.check(dict(prop.meta) == wrapped, lambda: 'tagging a dynamic '
                      'property tagged another: %r' % prop.meta)
            prop.tag(later=1)
            ctx.check(dict(dyn.meta) == model, 'dynamic tags %r' % dyn.meta)
            ctx.same((dyn.name, dyn.doc), ('view', 'doc'), 'dynamic')
            ctx.step()
    core.case(ctx, 'dynamic tags', dynamic)

    def renamed():
        class Thing(P.HasProperties):
            """Text"""
            _REGISTRY = dict()
            new = P.Integer('n')
            old = P.Renamed('new')
            said = P.Renamed('new', doc='own words')
        ctx.check('new' in Thing._props['old'].doc, 'names the new name')
        ctx.same(Thing._props['said'].doc, 'own words', 'own doc')
        doc = Doc(ctx, Thing.__doc__, 'Text')
        ctx.same(doc.sections, {HEADS[0]: ['new'], HEADS[2]: ['old', 'said']},
                 'sections')
    core.case(ctx, 'renamed', renamed)


def scenarios(tier):
    parts = 4 if tier == 'quick' else 4
    for part in range(parts):
        yield ('shapes %d' % part, shapes(part, parts))
    parts = 4
    for part in range(parts):
        yield ('hierarchy %d' % part, hierarchy(part, parts))
    yield ('flags', bad_flags)
    yield ('several bases', several_bases)
    yield ('orders of bases', base_orders)
    yield ('surroundings', surroundings)
    yield ('defaults', default_texts)
    yield ('descriptions', descriptions)
    yield ('terms', terms)
