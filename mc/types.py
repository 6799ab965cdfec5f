"""Catalogue of property types: configurations, input alphabets and oracles.

The oracle of every type is written from the documentation, independent of the
implementation: oracle(value) -> ('ok', coerced) | ('no',) | None (unspecified).
"""
import collections
import copy
import datetime
import fractions
import itertools
import math
import re

import numpy as np

import properties as P
from properties.extras import URL

from .css import CSS, LETTERS

NO = ('no',)
TOL = 1e-9


def ok(val):
    return ('ok', val)


def fresh(val):
    """Private copy of a mutable input, so that tampering is visible."""
    if isinstance(val, (list, dict, set, np.ndarray)):
        return copy.deepcopy(val)
    return val


class Odd(object):
    """An object no property type knows about."""

    def __repr__(self):
        return 'Odd()'


ODD = Odd()


class Truthless(object):
    """Object with a defined truth value."""

    def __init__(self, truth):
        self.truth = truth

    def __bool__(self):
        return self.truth

    def __repr__(self):
        return 'Truthless(%s)' % self.truth


class Spec(object):
    """One property configuration with its inputs and oracle."""

    def __init__(self, name, make, values, oracle, idempotent=None, sample=None):
        self.name = name
        self.make = make            # **kwargs -> Property
        self.values = values
        self.oracle = oracle
        # coerced value -> bool: must re-validation leave it unchanged?
        self.idempotent = idempotent or (lambda val: True)

    def accepted(self):
        out = []
        for val in self.values:
            res = self.oracle(val)
            if res is not None and res[0] == 'ok':
                out.append((val, res[1]))
        return out

    def rejected(self):
        return [v for v in self.values if self.oracle(v) == NO]


NAN = float('nan')
INF = float('inf')
COMMON = [None, True, False, 0, 1, 1.0, 1.5, '', 'a', '1', b'a', [], [1], (),
          (1,), {}, {'a': 1}, set(), ODD]


# -- boolean ------------------------------------------------------------------
def boolean_specs():
    vals = COMMON + [np.bool_(True), np.bool_(False), 'True', 'yes', 2, -1, 0.0,
                     1j, NAN, Truthless(True), Truthless(False), np.int64(1)]

    def strict(val):
        if isinstance(val, (bool, np.bool_)):
            return ok(bool(val))
        return NO

    def cast(val):
        return ok(bool(val))

    yield Spec('Boolean', lambda **k: P.Boolean('d', **k), vals, strict)
    yield Spec('Bool', lambda **k: P.Bool('d', **k), vals, strict)
    yield Spec('Boolean(cast=False)',
               lambda **k: P.Boolean('d', cast=False, **k), vals, strict)
    yield Spec('Boolean(cast=True)',
               lambda **k: P.Boolean('d', cast=True, **k), vals, cast)


# -- numbers ----------------------------------------------------------------------
BOUNDS = [(None, None), (0, None), (None, 2), (0, 2), (1, 1), (-2, -1),
          (0, 0), (None, 0), (-3, 0), (100, 1000), (None, 2 ** 53),
          (-2 ** 31, 2 ** 31 - 1), (2 ** 63, None)]
NUMS = ([-4, -3, -2, -1, 0, 1, 2, 3, 7, 10 ** 20, -10 ** 20, True, False,
         0.0, -0.0, 1.0, 2.0, -1.0, -2.0, 3.0, 0.5, 1.5, -0.5, 2.5, 1e-3,
         1 + 1e-10, 1 + 1e-6, 2 + 1e-4, -1e-4, 1e300, NAN, INF, -INF,
         np.int64(1), np.int32(-2), np.uint8(2), np.float64(1.0),
         np.float64(0.5), np.float32(2.0), fractions.Fraction(2, 1),
         fractions.Fraction(1, 2), 10 ** 400, -10 ** 400,
         99, 100, 127, 128, 255, 256, 999, 1000, 32767, 32768, 65535, 65536,
         -128, -129, -32769, 10 ** 6, 2 ** 31 - 1, 2 ** 31, -2 ** 31,
         -2 ** 31 - 1, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63,
         -2 ** 63, 2 ** 64, 12345678901234567890, 0.1, 1 / 3, -1 / 3, 1e-300,
         5e-324, -5e-324, 1e16, 123456.789, -1e300, 1.7976931348623157e308,
         99.5, 1e6, 4294967296.0, np.int64(2 ** 62), np.float32(0.1),
         np.uint64(2 ** 63)])
TEXT = ['1', '-1', ' 2 ', '1.5', '3', 'nan', 'inf', '', 'x', '1+1j', '0x1',
        b'x']
JUNK = [None, [], [1], (), (1,), {}, set(), ODD, np.array([1, 2]),
        datetime.datetime(2000, 1, 1)]


def is_real(val):
    return isinstance(val, (int, float, np.integer, np.floating,
                            fractions.Fraction))


def in_bounds(val, lo, hi):
    return not ((lo is not None and val < lo) or
                (hi is not None and val > hi))


def bounds_kw(lo, hi):
    kwargs = {}
    if lo is not None:
        kwargs['min'] = lo
    if hi is not None:
        kwargs['max'] = hi
    return kwargs


def integer_oracle(lo, hi, cast):
    def oracle(val):
        if isinstance(val, complex) or (
                isinstance(val, np.ndarray)):
            return NO if isinstance(val, complex) or val.size != 1 else None
        if is_real(val):
            if isinstance(val, (float, np.floating)) and not math.isfinite(val):
                return NO
            whole = int(val)
            if not cast and abs(val - whole) > TOL:
                # a hair below an integer is within tolerance of it, yet
                # truncates away: documentation does not settle that case
                if abs(val - round(val)) <= TOL:
                    return None
                return NO
            return ok(whole) if in_bounds(whole, lo, hi) else NO
        if cast and isinstance(val, (str, bytes)):
            try:
                whole = int(val)
            except ValueError:
                return NO
            return ok(whole) if in_bounds(whole, lo, hi) else NO
        return NO
    return oracle


def float_oracle(lo, hi, cast):
    def oracle(val):
        if isinstance(val, np.ndarray):
            return NO if val.size != 1 else None
        if is_real(val):
            try:
                num = float(val)
            except OverflowError:
                return NO
            if num != num and (lo is not None or hi is not None):
                return None         # nan against bounds: unspecified
            if abs(val) > 2 ** 53 and isinstance(val, int):
                if float(val) != val:
                    return None
            return ok(num) if in_bounds(num, lo, hi) else NO
        if cast and isinstance(val, (str, bytes)):
            try:
                num = float(val)
            except ValueError:
                return NO
            if num != num and (lo is not None or hi is not None):
                return None
            return ok(num) if in_bounds(num, lo, hi) else NO
        return NO
    return oracle


def complex_oracle(cast):
    def oracle(val):
        if isinstance(val, np.ndarray):
            return NO if val.size != 1 else None
        if is_real(val) or isinstance(val, (complex, np.complexfloating)):
            try:
                return ok(complex(val))
            except OverflowError:
                return NO
        if cast and isinstance(val, str):
            try:
                return ok(complex(val))
            except ValueError:
                return NO
        return NO
    return oracle


def number_specs(quick=True):
    bounds = BOUNDS if not quick else BOUNDS
    for lo, hi in bounds:
        for cast in (False, True):
            kwargs = bounds_kw(lo, hi)
            if cast:
                kwargs['cast'] = True
            yield Spec('Integer(%s)' % kwargs,
                       lambda kwargs=kwargs, **k: P.Integer('d', **dict(kwargs, **k)),
                       NUMS + TEXT + JUNK + [1 + 0j, 1j],
                       integer_oracle(lo, hi, cast))
    for lo, hi in bounds + [(0.5, 1.5), (-0.5, None), (None, 0.25)]:
        for cast in (False, True):
            kwargs = bounds_kw(lo, hi)
            if cast:
                kwargs['cast'] = True
            yield Spec('Float(%s)' % kwargs,
                       lambda kwargs=kwargs, **k: P.Float('d', **dict(kwargs, **k)),
                       NUMS + TEXT + JUNK + [1 + 0j, 1j, 0.25, -0.25],
                       float_oracle(lo, hi, cast))
    for cast in (False, True):
        kwargs = {'cast': True} if cast else {}
        yield Spec('Complex(%s)' % kwargs,
                   lambda kwargs=kwargs, **k: P.Complex('d', **dict(kwargs, **k)),
                   NUMS + TEXT + JUNK + [1 + 0j, 1j, -1 - 2j, complex(INF, 0),
                                         complex(0, NAN), np.complex128(1 + 1j),
                                         '1', 'j', '1+2j'],
                   complex_oracle(cast))


# -- strings ----------------------------------------------------------------------
class Text(str):
    """A string of a class of its own."""


def string_oracle(strip, case, regex, keep=False):
    def oracle(val):
        if not isinstance(val, str):
            return NO
        kind = type(val) if keep else str
        if regex is not None and re.search(regex, val) is None:
            return NO
        if strip:
            val = val.strip(strip)
        if case == 'upper':
            val = val.upper()
        elif case == 'lower':
            val = val.lower()
        if strip:
            val = val.strip(strip)
        return ok(kind(val))
    return oracle


def words(alphabet, maxlen):
    for size in range(maxlen + 1):
        for tup in itertools.product(alphabet, repeat=size):
            yield ''.join(tup)


def string_specs(maxlen=3):
    vals = list(words('aB ', maxlen)) + ['\u00e9\u00df', '\u0130', 'a\nb', '\t',
                                         'A_b-1', '\U0001f600', '\x00',
                                         'a\x00B', '\ud800', 'e\u0301',
                                         '\xa0a\xa0', '\u01c6', '\u0149b',
                                         '\ufeffa', '\u202eB', '\\', '"',
                                         '\\u0041', 'B' * 300, ' a' * 99,
                                         'a\r\n', '\u2028', 'null', '{}',
                                         'None', 'undefined', '%s', '{0}'] + [
        Text('aB'), Text(' a '), np.str_('Ba'),
        None, 5, 1.5, True, b'a', [], ['a'], (), {}, ODD, np.array(['a'])]
    for strip, case, regex, uni in itertools.product(
            ('', ' ', 'a', 'B ', 'A'), (None, 'upper', 'lower'),
            (None, '^[aB]', 'B$', '^a*$', ' '), (None, True, False)):
        if uni is not None and regex is not None:
            continue
        kwargs = {}
        if strip:
            kwargs['strip'] = strip
        if case:
            kwargs['change_case'] = case
        if regex is not None:
            kwargs['regex'] = regex
        if uni is not None:
            kwargs['unicode'] = uni
        orc = string_oracle(strip, case, regex, uni is False)

        def idem(val, regex=regex):
            return regex is None or re.search(regex, val) is not None
        yield Spec('String(%s)' % kwargs,
                   lambda kwargs=kwargs, **k: P.String('d', **dict(kwargs, **k)),
                   vals, orc, idempotent=idem)
    yield Spec('String(compiled regex)',
               lambda **k: P.String('d', regex=re.compile('^a', re.I), **k),
               vals, string_oracle_compiled)


def string_oracle_compiled(val):
    if not isinstance(val, str):
        return NO
    return ok(str(val)) if val[:1] in ('a', 'A') else NO


def choice_oracle(choices, sensitive):
    def oracle(val):
        if not isinstance(val, str):
            return NO
        for key, aliases in choices:
            for cand in [key] + list(aliases):
                if val == cand or (not sensitive and
                                   val.upper() == cand.upper()):
                    return ok(key)
        return NO
    return oracle


def choice_specs():
    sets = [
        ('list', lambda: ['ab', 'Cd'], [('ab', []), ('Cd', [])]),
        ('tuple', lambda: ('ab', 'Cd', 'e'), [('ab', []), ('Cd', []), ('e', [])]),
        ('set', lambda: {'ab', 'Cd'}, [('ab', []), ('Cd', [])]),
        ('dict', lambda: {'ab': ['x', 'Y'], 'Cd': 'z'},
         [('ab', ['x', 'Y']), ('Cd', ['z'])]),
        ('dict2', lambda: {'ab': (), 'Cd': {'q'}, 'e': ['f', 'g', 'h']},
         [('ab', []), ('Cd', ['q']), ('e', ['f', 'g', 'h'])]),
        ('dict3', lambda: {'a b': ['x  y', ' z', ''], 'Cd': ['e,f', 'q\n']},
         [('a b', ['x  y', ' z', '']), ('Cd', ['e,f', 'q\n'])]),
    ]
    base = ['ab', 'AB', 'Ab', 'aB', 'Cd', 'cd', 'CD', 'x', 'X', 'y', 'Y', 'z',
            'Z', 'q', 'Q', 'e', 'E', 'f', 'F', 'g', 'h', 'H', 'a', 'abc', '',
            ' ab', 'a b', 'A B', 'b', 'x  y', 'X  Y', 'x y', ' z', ' Z',
            'e,f', 'E,F', ',', ' ', '  ', 'q\n', 'Q\n', '\n', None, 1, [], ['ab'], ODD, b'ab', True]
    for label, make, table in sets:
        for sens in (False, True):
            yield Spec('StringChoice(%s,case_sensitive=%s)' % (label, sens),
                       lambda make=make, sens=sens, **k: P.StringChoice(
                           'd', choices=make(), case_sensitive=sens, **k),
                       base, choice_oracle(table, sens))
    both = [('ab', []), ('AB', [])]
    yield Spec('StringChoice(case variants,case_sensitive=True)',
               lambda **k: P.StringChoice('d', choices=['ab', 'AB'],
                                          case_sensitive=True, **k),
               base, choice_oracle(both, True))
    yield Spec('StringChoice(descriptions)',
               lambda **k: P.StringChoice('d', choices=['ab', 'Cd'],
                                          descriptions={'ab': 'one', 'Cd': 'two'},
                                          **k),
               base, choice_oracle([('ab', []), ('Cd', [])], False))


# -- colour -------------------------------------------------------------------------
def color_oracle(val):
    if isinstance(val, str):
        if val in CSS:
            return ok(CSS[val])
        if val in LETTERS:
            return ok(LETTERS[val])
        if val.lower() == 'random':
            return None
        body = val[1:] if val.startswith('#') else val
        if body.startswith('#'):
            return None
        if len(body) == 3:
            body = ''.join(c * 2 for c in body)
        if len(body) != 6 or any(c not in '0123456789abcdefABCDEF'
                                 for c in body):
            return NO               # names are those of the table, as is
        return ok(tuple(int(body[i:i + 2], 16) for i in (0, 2, 4)))
    if isinstance(val, (list, tuple)):
        if len(val) != 3:
            return NO
        if any(isinstance(v, bool) for v in val):
            return None
        if all(type(v) is int and 0 <= v <= 255 for v in val):
            return ok(tuple(val))
        return NO
    return NO


Rgb = collections.namedtuple('Rgb', ('red', 'green', 'blue'))


def color_specs(quick=True):
    vals = sorted(CSS) + sorted(LETTERS)
    comps = [-1, 0, 1, 128, 254, 255, 256, 1.0, None, '1']
    for tup in itertools.product(comps, repeat=3):
        vals.append(tup)
    for tup in itertools.product([0, 255, 256], repeat=3):
        vals.append(list(tup))
    vals += [Rgb(1, 2, 3), Rgb(1, 2, 256), Rgb(0, 0, 0)]
    vals += [(), (1,), (1, 2), (1, 2, 3, 4), [], [1, 2], [1, 2, 3, 4],
             None, 1, 255, 0xFFFFFF, 1.5, {}, set(), {1, 2, 3}, ODD, True,
             np.array([1, 2, 3])]
    for pre in ('', '#'):
        for body in words('0aF', 3):
            if body not in LETTERS:
                vals.append(pre + body)
        vals += [pre + b for b in (
            '000000', 'ffffff', 'FF0000', '00fF01', '12345', '1234567', '1234',
            'fffff', 'ggg', 'gggggg', '12345g', 'g12345', '+F+F+F', ' F F F',
            '-0-0-0', '0x0x0x', 'f f f', '\u0661\u0661\u0661', '0_0_0_', 'fffffff',
            'ffffffffff', '00', 'ff00')]
    vals += ['nosuchcolor', 'bluee', 'rgb', '##', '#', '', 'FF0000#', '#FFF#',
             'FFF ', ' FFF', 'FFF\n', '#FFF ', ' red', 'red ', '#red', 'Red',
             'RED', 'R', 'K', 'Blue', 'DarkBlue', 'darkBlue', '#random',
             'random ', ' random', 'rgb(1,2,3)', '0xFF0000', '0xFFF', 'FF,00',
             'FF 00 00', '#FF-000']
    yield Spec('Color', lambda **k: P.Color('d', **k), vals, color_oracle)


# -- datetime ----------------------------------------------------------------------
BAD_DATES = [
    ' 1999/01/01', '1999/01/01 ', '\n1999/01/01', '1999/01/01\n',
    ' 1999-01-01', '1995-08-12T18:00:00', '1995-08-12T18:00:00+00:00',
    '1995-08-12T18:00:00.5Z', '1995-08-12T18:00:00.000000Z',
    '1995-08-12 18:00:00Z', '1995-08-12 18:00:00', '12/08/1995', '08/12/1995',
    '12-08-1995', '1995-08-12T18:00Z', '1995-08-12T18Z',
    '1995-08-12T18:00:00Z ', ' 1995-08-12T18:00:00Z', '1995.08.12', '19950812',
    '1995-08-12Z', '1995/08/12T18:00:00Z', '1995 08 12', '1995/08/12 18:00',
    '95/08/12', '01995/08/12', '1995/08', '1995-08-12T25:00:00Z',
    '1995-08-12T18:60:00Z', '1995-W32-6', 'Sat Aug 12 1995']


def datetime_oracle(val):
    if isinstance(val, datetime.datetime):
        return ok(val)
    if not isinstance(val, str):
        return NO
    match = re.match(r'^(\d{4})/(\d\d)/(\d\d)\Z', val) or re.match(
        r'^(\d{4})-(\d\d)-(\d\d)\Z', val)
    if match:
        parts = [int(g) for g in match.groups()]
    else:
        match = re.match(
            r'^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)Z\Z', val)
        if not match:
            if val in BAD_DATES:
                return NO
            return NO if not re.search(r'\d', val) or len(val) < 8 else None
        parts = [int(g) for g in match.groups()]
        if parts[5] >= 60:
            return None
    try:
        return ok(datetime.datetime(*parts))
    except ValueError:
        return NO


def datetime_specs():
    vals = []
    for year, month, day in itertools.product(
            ('1999', '2000', '1900', '9999', '1000'),
            ('00', '01', '02', '04', '12', '13'),
            ('00', '01', '28', '29', '30', '31', '32')):
        vals.append('%s/%s/%s' % (year, month, day))
        vals.append('%s-%s-%s' % (year, month, day))
        vals.append('%s-%s-%sT18:05:09Z' % (year, month, day))
    for hour, minute, sec in itertools.product(
            ('00', '01', '12', '23', '24'), ('00', '30', '59', '60'),
            ('00', '01', '59')):
        vals.append('2001-03-04T%s:%s:%sZ' % (hour, minute, sec))
    vals += ['', 'x', 'now', 'today', None, 5, 1.5, [], {}, ODD, True,
             datetime.date(2000, 1, 1), b'2000/01/01',
             datetime.datetime(2000, 1, 2, 3, 4, 5),
             datetime.datetime(2000, 1, 2, 3, 4, 5, 6),
             datetime.datetime(2000, 1, 2, 3, 4, 5, tzinfo=datetime.timezone.utc),
             datetime.time(3, 4), datetime.timedelta(1), 946684800,
             datetime.datetime(1, 1, 1), datetime.datetime(9999, 12, 31, 23, 59, 59)]
    vals += BAD_DATES
    yield Spec('DateTime', lambda **k: P.DateTime('d', **k), vals,
               datetime_oracle)


# -- url ------------------------------------------------------------------------------
def url_specs():
    def build(scheme, netloc, path, params, query, frag):
        out = scheme + '://' + netloc + path
        if params:
            out += ';' + params
        if query:
            out += '?' + query
        if frag:
            out += '#' + frag
        return out

    good = list(itertools.product(
        ('http', 'https', 'ftp'), ('a.com', 'User:Pw@Host.ORG:80'),
        ('', '/', '/P/q'),
        ('', 'k=v'), ('', 'x=1&y=2'), ('', 'frag')))
    good = [g for g in good if not (g[3] and not g[2].strip('/'))]
    table = {build(*g): g for g in good}
    vals = list(table) + ['', 'a.com', '/p/q', 'http://', '//a.com', 'http:/a',
                          'mailto:x@y', 'x', 'file:///a', None, 5, [], ODD,
                          b'http://a.com']
    for rm_par, rm_frag in itertools.product((None, False, True), repeat=2):
        kwargs = {}
        if rm_par is not None:
            kwargs['remove_parameters'] = rm_par
        if rm_frag is not None:
            kwargs['remove_fragment'] = rm_frag

        def oracle(val, rm_par=rm_par, rm_frag=rm_frag):
            if not isinstance(val, str) or val not in table:
                return NO
            scheme, netloc, path, params, query, frag = table[val]
            return ok(build(scheme, netloc, path,
                            '' if rm_par else params,
                            '' if rm_par else query,
                            '' if rm_frag else frag))
        yield Spec('URL(%s)' % kwargs,
                   lambda kwargs=kwargs, **k: URL('d', **dict(kwargs, **k)),
                   vals, oracle)


def any_specs():
    yield Spec('Property', lambda **k: P.Property('d', **k),
               COMMON + [NAN, 1j, np.int64(3)], ok)


def primitive_specs(quick=True):
    for gen in (boolean_specs(), number_specs(quick),
                string_specs(3 if quick else 4),
                choice_specs(), color_specs(), datetime_specs(), url_specs(),
                any_specs()):
        for spec in gen:
            yield spec
