"""P20: array and vector properties: shapes, number types, scaling, JSON."""
import itertools
import json
import math

import numpy as np
import vectormath as vmath

import properties as P

from mc import core

PROPERTY = 'P20'
BOUNDS = ('16 shape specifications x 9 number-type options x coercion x every '
          'input shape of up to 3 dimensions with lengths 0..2 (quick) / 0..3 '
          '(thorough) x 8 number kinds as array, nested list and nested tuple, '
          'plus mixed and ragged lists; the four vector types x 4 lengths x '
          'every vector over a 4-number grid in 4 forms, every direction name '
          'in 3 letter cases, every array of up to 2 (quick) / 3 (thorough) '
          'rows mixing vectors and names; JSON round trips for every placement '
          'of special numbers in every shape of up to 4 elements; every '
          'sequence of 3 (quick) / 4 (thorough) assignments and changes of the '
          'assigned objects')
ASSUMPTIONS = ['complex, boolean and text entries of vectors are unspecified',
               'arrays of three (two) numbers of another shape given to a '
               'vector array may be taken as one row',
               'magnitudes whose squares overflow, nan and infinities are not '
               'scaled to a length',
               'complex arrays have no JSON form']

NAN, INF = float('nan'), float('inf')
KINDS = {int: 'ui', float: 'f', bool: 'b', complex: 'c'}


# -- arrays --------------------------------------------------------------------
SHAPES = [
    'default', None, ('*',), ('*', '*'), ('*', '*', '*'), (2,), (0,), (1,),
    ('*', 2), (2, '*'), (2, 1), (1, 2, '*'), ('*', 0, 2), (),
    {('*',), (2, 2)}, {('*', '*'), (2, '*', 1), ()},
]
DTYPES = ['default', int, float, bool, complex, (int, float), [bool, int],
          (bool, complex), (float, int, bool, complex)]


def array_prop(shape, dtype, coerce):
    kwargs = {}
    if shape != 'default':
        kwargs['shape'] = shape
    if dtype != 'default':
        kwargs['dtype'] = dtype
    if coerce is not None:
        kwargs['coerce'] = coerce
    return P.Array('doc', **kwargs)


def shape_ok(spec, shape):
    if spec is None:
        return True
    if spec == 'default':
        spec = ('*',)
    if not isinstance(spec, set):
        spec = {spec}
    return any(len(one) == len(shape) and all(
        want == '*' or want == got for want, got in zip(one, shape))
        for one in spec)


def kind_ok(dtype, kind):
    if dtype == 'default':
        dtype = (float, int)
    if not isinstance(dtype, (list, tuple)):
        dtype = (dtype,)
    return any(kind in KINDS[one] for one in dtype)


def fill(kind, count):
    """Python numbers of one kind; never all equal, never sorted."""
    base = [3, -1, 2, 0, 7, -4, 5]
    out = [base[i % 7] + i // 7 for i in range(count)]
    return {'i': out, 'u': [abs(v) for v in out],
            'f': [v + 0.5 for v in out], 'b': [bool(v % 2) for v in out],
            'c': [complex(v, 1) for v in out], 'U': [str(v) for v in out],
            'O': [None for _ in out]}[kind]


DTYPE_OF = {'i': 'int64', 'i4': 'int8', 'u': 'uint8', 'f': 'float64',
            'f4': 'float32', 'b': 'bool', 'c': 'complex128', 'U': 'U5',
            'O': 'object'}


def nest(flat, shape, typ):
    """Nested list or tuple of the numbers in the given shape."""
    if not shape:
        return flat[0]
    size = 1
    for dim in shape[1:]:
        size *= dim
    return typ(nest(flat[i * size:(i + 1) * size], shape[1:], typ)
               for i in range(shape[0]))


def count_of(shape):
    size = 1
    for dim in shape:
        size *= dim
    return size


def all_shapes(top):
    for ndim in range(4):
        for shape in itertools.product(range(top + 1), repeat=ndim):
            yield shape


def array_inputs(top):
    """(label, build, kind, shape, is_array, numbers)."""
    for shape in all_shapes(top):
        count = count_of(shape)
        for name, dtype in DTYPE_OF.items():
            kind = name[0]
            numbers = fill(kind, count)

            def make(numbers=numbers, dtype=dtype, shape=shape):
                return np.array(numbers, dtype=dtype).reshape(shape)
            yield ('%s array of shape %s' % (dtype, shape), make, kind, shape,
                   True, numbers)
        if not shape:
            continue
        for kind in 'ifbcUO':
            numbers = fill(kind, count)
            # what a nested list without entries can express
            cut = shape
            for i, dim in enumerate(shape):
                if dim == 0:
                    cut = shape[:i + 1]
                    break
            for typ in (list, tuple):
                yield ('%s of %s, shape %s' % (typ.__name__, kind, shape),
                       lambda n=numbers, s=shape, t=typ: nest(n, s, t),
                       'f' if not count else kind, cut, False, numbers)


MIXED = [
    ([1, 2.5], 'f'), ([True, 2], 'i'), ([True, 0.5], 'f'), ([1, 1j], 'c'),
    ([0.5, 1j, True], 'c'), ([[1, 2.5], [3, 4]], 'f'), ([1, None], 'O'),
    ([None], 'O'), ([{}], 'O'), ([1, 'a'], 'U'), (['x'], 'U'),
    ([np.float32(1.5), 2], 'f'), ([np.int8(1)], 'i'), ([np.bool_(True)], 'b'),
    ([np.array([1, 2]), np.array([3, 4])], 'i'),
    ((np.array([1., 2.]), [3, 4]), 'f'),
]
RAGGED = [[[1, 2], [3]], [1, [2]], [[1], 2], [[[1], [2]], [[3]]],
          ((1, 2), (3,)), [[], [1]]]
NOT_ARRAYS = [5, 1.5, True, 'x', '', {1, 2}, {1: 2}, b'12', object(), int,
              range(3), np.float64(1.5)]


def holder(prop):
    return type('Holder', (P.HasProperties,), {'p': prop})


def numbers_of(result):
    return np.ravel(result).tolist()


def check_array(ctx, cls, inst, case_input, want, coerce):
    label, make, kind, shape, is_array, numbers = case_input
    value = make()
    before = core.canon(value)
    out = core.attempt(setattr, inst, 'p', value)
    ctx.step()
    ctx.check(core.canon(value) == before,
              lambda: '%s: assigning changed it' % label)
    if not want:
        core.expect(ctx, out, ValueError, label)
        ctx.check(inst.p is None, 'a refused value was stored')
        return
    core.expect_ok(ctx, out, label)
    got = inst.p
    ctx.check(isinstance(got, np.ndarray), lambda: '%s: gave %s' % (
        label, type(got)))
    ctx.check(got.shape == tuple(shape), lambda: '%s: gave shape %s' % (
        label, got.shape))
    ctx.check(got.dtype.kind == kind or {got.dtype.kind, kind} == {'u', 'i'},
              lambda: '%s: gave number type %s' % (label, got.dtype))
    ctx.check(core.canon(numbers_of(got)) == core.canon(list(numbers)),
              lambda: '%s: gave numbers %s' % (label, numbers_of(got)))
    if coerce is False:
        ctx.check(got is value, '%s: not the object given' % label)
    elif is_array and got.size:
        # an own copy: a later change of the input does not reach it
        value[...] = np.array(9, dtype=value.dtype)
        ctx.check(core.canon(numbers_of(inst.p)) == core.canon(list(numbers)),
                  lambda: '%s: changing the array given changed the value'
                  % label)
    del inst.p


def arrays(ctx, top, part, parts):
    inputs = list(array_inputs(top))
    configs = list(itertools.product(SHAPES, DTYPES, (None, True, False)))
    for idx, (spec, dtype, coerce) in enumerate(configs):
        if idx % parts != part:
            continue
        if coerce is True and idx % 5:
            continue            # the default again
        cls = holder(array_prop(spec, dtype, coerce))
        inst = cls()
        config = 'shape=%s, dtype=%s, coerce=%s' % (spec, dtype, coerce)
        for item in inputs:
            want = (kind_ok(dtype, item[2]) and shape_ok(spec, item[3]) and
                    (coerce is not False or item[4]))

            def one():
                nonlocal inst
                try:
                    check_array(ctx, cls, inst, item, want, coerce)
                except core.Violation:
                    inst = cls()
                    raise
            if not core.case(ctx, (config, item[0]), one):
                return
            ctx.state((config, item[0]))
            ctx.outcome((item[2], want))
    ctx.sample('every input shape for every shape, type and coercion')


def odd_arrays(ctx):
    for spec, dtype, coerce in itertools.product(SHAPES, DTYPES, (True, False)):
        cls = holder(array_prop(spec, dtype, coerce))
        config = 'shape=%s, dtype=%s, coerce=%s' % (spec, dtype, coerce)
        for value, kind in MIXED:
            shape = np.shape(value)

            def one():
                inst = cls()
                out = core.attempt(setattr, inst, 'p', value)
                ctx.step()
                want = (kind_ok(dtype, kind) and shape_ok(spec, shape) and
                        coerce)
                if want:
                    core.expect_ok(ctx, out, config)
                    ctx.check(inst.p.dtype.kind == kind and
                              inst.p.shape == shape, 'wrong array')
                    ctx.check(np.array_equal(inst.p, np.array(value)),
                              'wrong numbers')
                else:
                    core.expect(ctx, out, ValueError, config)
                ctx.state((config, core.show(value)))
            if not core.case(ctx, (config, core.show(value)), one):
                return
        for value in RAGGED + NOT_ARRAYS:
            def one():
                inst = cls()
                core.expect(ctx, core.attempt(setattr, inst, 'p', value),
                            ValueError, config)
                ctx.check(inst.p is None, 'a refused value was stored')
                ctx.step()
                ctx.state((config, core.show(value)))
            if not core.case(ctx, (config, core.show(value)), one):
                return
    ctx.sample('mixed and ragged lists, values that are no arrays')


# -- vectors ---------------------------------------------------------------------
DIRECTIONS = {
    'zero': (0, 0, 0), 'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1),
    '-x': (-1, 0, 0), '-y': (0, -1, 0), '-z': (0, 0, -1),
    'east': (1, 0, 0), 'west': (-1, 0, 0), 'north': (0, 1, 0),
    'south': (0, -1, 0), 'up': (0, 0, 1), 'down': (0, 0, -1),
}
FLAT = [n for n in DIRECTIONS if n not in ('z', '-z', 'up', 'down')]
LENGTHS = [None, 1, 2.5, 1e-3]
GRID = [0, 1, -2.5, 4]
VECTORS = {
    'Vector3': (P.Vector3, vmath.Vector3, 3, False),
    'Vector2': (P.Vector2, vmath.Vector2, 2, False),
    'Vector3Array': (P.Vector3Array, vmath.Vector3Array, 3, True),
    'Vector2Array': (P.Vector2Array, vmath.Vector2Array, 2, True),
}
BAD_NAMES = ['', 'xx', 'w', '-', '+x', '- x', ' x', 'x ', 'nort', 'upp', 'zeros',
             '-up', '-east', '-zero', '1', 'xy', 'xyz', 'x,y']


def known_names(dim):
    return list(DIRECTIONS) if dim == 3 else FLAT


def unknown_names(dim):
    return [] if dim == 3 else [
        form(n) for n in DIRECTIONS if n not in FLAT
        for form in (str.lower, str.upper, str.title)]


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def check_rows(ctx, got, rows, length, label):
    """The stored rows have the given directions and the asked length."""
    if not rows:
        return
    data = np.asarray(got).reshape(len(rows), -1).tolist()
    for row, src in zip(data, rows):
        src = [float(v) for v in src]
        if length is None:
            ctx.check(row == src, lambda: '%s: gave %s for %s' % (
                label, row, src))
            continue
        norm = math.sqrt(sum(v * v for v in src))
        want = [v * length / norm for v in src]
        ctx.check(all(abs(a - b) <= 1e-9 * length for a, b in zip(row, want)),
                  lambda: '%s: %s scaled to length %s gave %s, expected %s' % (
                      label, src, length, row, want))


def vector_case(ctx, inst, name, length, value, rows, label):
    """Assign a value that stands for the given rows (None: refused)."""
    prop, cls, dim, many = VECTORS[name]
    before = core.canon(value)
    out = core.attempt(setattr, inst, 'p', value)
    ctx.step()
    ctx.check(core.canon(value) == before,
              lambda: '%s: assigning changed the input' % label)
    zero = length is not None and rows is not None and any(
        not any(row) for row in rows)
    if rows is None or zero:
        err = core.expect(ctx, out, ValueError, label)
        ctx.check(inst.p is None, '%s: a refused value was stored' % label)
        ctx.outcome((name, 'refused', zero))
        del err
        return
    core.expect_ok(ctx, out, label)
    got = inst.p
    ctx.check(type(got) is cls, lambda: '%s: gave a %s' % (label, type(got)))
    ctx.check(got.dtype.kind == 'f', '%s: number type' % label)
    ctx.check(got.shape == ((len(rows), dim) if many else (dim,)),
              lambda: '%s: gave shape %s' % (label, got.shape))
    check_rows(ctx, got, rows, length, label)
    if isinstance(value, np.ndarray) and value.size:
        value[...] = 77
        check_rows(ctx, inst.p, rows, length, label + ', input then changed')
    ctx.check(inst.validate() is True, 'the value does not validate')
    check_rows(ctx, inst.p, rows, length, label + ', validated again')
    ctx.outcome((name, 'accepted', length))
    del inst.p


def forms(row, dim):
    yield 'list', list(row)
    yield 'tuple', tuple(row)
    yield 'float array', np.array(row, dtype=float)
    if all(isinstance(v, int) for v in row):
        yield 'int array', np.array(row, dtype=int)
    yield 'vector', (vmath.Vector3 if dim == 3 else vmath.Vector2)(*row)


def vector_prop(name, length, **kwargs):
    if length is not None:
        kwargs['length'] = length
    return VECTORS[name][0]('doc', **kwargs)


def refresh(ctx, cls, box, key, func):
    def one():
        try:
            func(box[0])
        except core.Violation:
            box[0] = cls()
            raise
        ctx.state(key)
    return core.case(ctx, key, one)


def single_vectors(ctx, name):
    prop, vcls, dim, many = VECTORS[name]
    for length in LENGTHS:
        cls = holder(vector_prop(name, length))
        box = [cls()]
        run = lambda key, value, rows: refresh(
            ctx, cls, box, (length,) + key, lambda inst: vector_case(
                ctx, inst, name, length, value, rows, str((length,) + key)))
        for row in itertools.product(GRID, repeat=dim):
            for form, value in forms(row, dim):
                if not run((form, row), value, [row]):
                    return
        for text, full in DIRECTIONS.items():
            for spelled in (text, text.upper(), text.capitalize()):
                rows = [full[:dim]] if text in known_names(dim) else None
                if not run(('name', spelled), spelled, rows):
                    return
        for text in BAD_NAMES + unknown_names(dim):
            if not run(('bad name', text), text, None):
                return
        bad = [[], [1], list(range(dim + 1)), list(range(dim - 1)), 5, None, {},
               {1, 2, 3}, [[1] * dim, [2] * dim], [{}] * dim,
               [[1, 2]] * dim, np.zeros((2, dim)), np.zeros(dim + 1),
               np.zeros((dim, 2)), np.zeros((0, dim)), [1, None, 3][:dim], [10 ** 400] * dim, ['x'], [1, 'x', 2][:dim],
               object(), True]
        for value in bad:
            if value is None:
                continue
            if not run(('bad', core.show(value)), value, None):
                return
    # without coercion only the vector class itself
    cls = holder(vector_prop(name, None, coerce=False))

    def strict():
        inst = cls()
        own = vcls(*([1.] * dim))
        inst.p = own
        ctx.check(inst.p is own, 'an object of the class was replaced')
        for value in ([1.] * dim, tuple([1.] * dim), np.ones(dim), 'x', 'zero',
                      (vmath.Vector2 if dim == 3 else vmath.Vector3)()):
            core.expect(ctx, core.attempt(setattr, inst, 'p', value),
                        ValueError, 'without coercion: %s' % core.show(value))
            ctx.check(inst.p is own, 'a refused value was stored')
            ctx.step()
        ctx.state('strict')
    core.case(ctx, 'without coercion', strict)
    ctx.sample('%s: every vector of the grid in every form' % name)


def vector_arrays(ctx, name, rows_max, part=0, parts=1):
    prop, vcls, dim, many = VECTORS[name]
    some = [(1, 0, 0), (0, 0, 0), (-2.5, 4, 1), (3, 4, 12)]
    items = [tuple(r[:dim]) for r in some] + ['x', 'Zero', '-Y', 'SOUTH'] + (
        ['up', '-z'] if dim == 3 else ['down', 'Z']) + ['bogus']
    for num, length in enumerate(LENGTHS):
        if num % parts != part:
            continue
        cls = holder(vector_prop(name, length))
        box = [cls()]
        run = lambda key, value, rows: refresh(
            ctx, cls, box, (length,) + key, lambda inst: vector_case(
                ctx, inst, name, length, value, rows, str((length,) + key)))
        for count in range(1, rows_max + 1):
            for chosen in itertools.product(items, repeat=count):
                rows = []
                for item in chosen:
                    if isinstance(item, tuple):
                        rows.append(item)
                    elif item.lower() in known_names(dim):
                        rows.append(DIRECTIONS[item.lower()][:dim])
                    else:
                        rows = None
                        break
                fresh = [list(c) if isinstance(c, tuple) else c for c in chosen]
                # every row squeezes alike: mixed lists of names and vectors
                for form, value in (('list', fresh), ('tuple', tuple(chosen))):
                    if not run((form, chosen), value, rows):
                        return
                if all(isinstance(c, tuple) for c in chosen):
                    plain = np.array([[float(v) for v in c] for c in chosen])
                    for form, value in (
                            ('float array', plain.copy()),
                            ('vector array', vcls(plain.copy()))):
                        if not run((form, chosen), value, rows):
                            return
                    if all(isinstance(v, int) for c in chosen for v in c):
                        if not run(('int array', chosen),
                                   np.array(chosen, dtype=int), rows):
                            return
        if not run(('no rows', 0), np.zeros((0, dim)), []):
            return
        for text in BAD_NAMES + unknown_names(dim):
            for value in ([text], (text, 'x'), ['x', text]):
                if not run(('bad name', tuple(value)), value, None):
                    return
        bad = [5, 'x', 'zero', None, {}, object(), [None], 'xy', {'x'},
               {'x': 1}, range(dim), 1.5, True, b'xy', iter(['x']), [[1] * (dim + 1)] * 2,
               [[1] * (dim - 1)] * 4, np.zeros((2, dim + 1)),
               np.zeros((dim, 4)), np.zeros((2, 2, dim)), np.zeros(dim + 2),
               [[1] * dim, [1]], [[1] * dim, 5], [[1] * dim, None], ['x', 5],
               [{}, {}], [1, None, 3][:dim], [10 ** 400] * dim, [[['x']]], [[1] * dim, ['x'] * dim]]
        for value in bad:
            if value is None:
                continue
            if not run(('bad', core.show(value)), value, None):
                return
    # own shapes
    for shape in [(2, dim), (1, dim), ('*', dim), {(1, dim), (3, dim)}]:
        cls = holder(vector_prop(name, None, shape=shape))
        for count in range(0, 5):
            def one():
                inst = cls()
                value = np.arange(float(count * dim)).reshape(count, dim) + 1
                out = core.attempt(setattr, inst, 'p', value)
                ctx.step()
                if shape_ok(shape, (count, dim)):
                    core.expect_ok(ctx, out, 'shape %s' % (shape,))
                    ctx.check(inst.p.shape == (count, dim), 'shape')
                else:
                    core.expect(ctx, out, ValueError, '%s rows for %s' % (
                        count, shape))
                ctx.state((str(shape), count))
            core.case(ctx, (str(shape), count), one)
    cls = holder(vector_prop(name, None, coerce=False))

    def strict():
        inst = cls()
        own = vcls([[1.] * dim] * 2)
        inst.p = own
        ctx.check(inst.p is own, 'an object of the class was replaced')
        for value in ([[1.] * dim] * 2, np.ones((2, dim)), ['x'], ('x', 'y'),
                      (vmath.Vector2Array if dim == 3 else
                       vmath.Vector3Array)()):
            core.expect(ctx, core.attempt(setattr, inst, 'p', value),
                        ValueError, 'without coercion: %s' % core.show(value))
            ctx.check(inst.p is own, 'a refused value was stored')
            ctx.step()
        ctx.state('strict')
    core.case(ctx, 'without coercion', strict)
    ctx.sample('%s: every list of vectors and names' % name)


# -- JSON ------------------------------------------------------------------------
SPECIAL = {
    'float': [0.5, NAN, INF, -INF, -0.0, 5e-324, 1.7976931348623157e308, 1e22],
    'int': [0, -1, 2 ** 63 - 1, -2 ** 63, 7],
    'bool': [True, False],
}


def json_trips(ctx, kind, most):
    dtypes = {'float': [float, 'default', (int, float), (bool, float)],
              'int': [int, 'default', (int, float), [bool, int]],
              'bool': [bool, (bool, int), [float, bool]]}[kind]
    shapes = [s for s in all_shapes(4) if count_of(s) <= most and s]
    classes = {str(d): holder(array_prop(None, d, None)) for d in dtypes}
    for shape in shapes:
        count = count_of(shape)
        for values in itertools.product(SPECIAL[kind], repeat=count):
            arr = np.array(values, dtype=kind).reshape(shape)
            for dname, cls in classes.items():
                if count > 2 and dname != str(dtypes[0]) and values[0] != \
                        values[1]:
                    continue
                label = '%s as %s, dtype %s' % (values, shape, dname)

                def one():
                    trip(ctx, cls, arr, label, lossy=0 in shape[:-1])
                    ctx.state(label)
                if not core.case(ctx, label, one):
                    return
    ctx.sample('%s: every placement of special numbers' % kind)


def loaded_types(ctx):
    """Loaded numbers keep an allowed type, others take the first one."""
    kinds = (int, float, bool)
    options = [(k,) for k in kinds] + list(itertools.permutations(kinds, 2)) + \
        list(itertools.permutations(kinds, 3))
    values = [[1, 2, 3], [1.0, 2.0], [0, 1], [True, False], [1, 2.0],
              [True, 3], [[1, 2], [3, 4]], [[True], [False]], []]
    for option, value in itertools.product(options, values):
        for spelled in {0: option, 1: list(option)}.values():
            label = '%s with number types %s' % (value, [
                k.__name__ for k in option])

            def one():
                cls = holder(P.Array('doc', shape=None, dtype=spelled))
                out = core.attempt(cls.deserialize, {'p': value})
                ctx.step()
                core.expect_ok(ctx, out, label)
                got = out[1].p
                want = np.array(value)
                if not any(want.dtype.kind in KINDS[k] for k in option):
                    want = want.astype(option[0])
                ctx.check(isinstance(got, np.ndarray) and
                          got.dtype == want.dtype and
                          got.shape == want.shape and
                          np.array_equal(got, want), lambda: '%s: loaded as '
                          '%r' % (label, got))
                ctx.state(label)
            if not core.case(ctx, label, one):
                return
    ctx.sample('numbers loaded under every order of number types')


BIG = 10 ** 400


def foreign(ctx):
    """JSON data of others is loaded, or refused with the usual errors."""
    leaves = [1, 1.5, True, None, 'x', 'nan', '-inf', BIG, -BIG, 2 ** 70,
              {}, {'a': 1}, '1', '', []]
    values = leaves + [[a] for a in leaves] + \
        [list(ab) for n in (2, 3) for ab in itertools.product(leaves, repeat=n)
         if n == 2 or len({repr(x) for x in ab}) == 2] + \
        [[[a], [b]] for a in leaves for b in leaves] + \
        [[[1, a], [2, b]] for a in leaves for b in leaves] + \
        [[[1, 2, a], [2, 3, b]] for a in leaves for b in leaves]
    makers = {'array %s' % '/'.join(k.__name__ for k in kinds):
              lambda kinds=kinds: P.Array('doc', shape=None, dtype=kinds,
                                          required=False)
              for kinds in ((float,), (int,), (bool,), (complex,),
                            (float, int), (int, bool))}
    for name in VECTORS:
        makers[name] = lambda name=name: vector_prop(name, None)
    usual = (ValueError, TypeError, KeyError, AttributeError)
    for name, make in makers.items():
        cls = holder(make())
        for value in values:
            def one():
                label = '%s from the JSON data %s' % (name, core.show(value))
                before = core.canon(value)
                out = core.attempt(cls.deserialize, {'p': value})
                ctx.step()
                ctx.check(core.canon(value) == before,
                          lambda: label + ': changed the data')
                if out[0] == core.ERR:
                    core.expect(ctx, out, usual, label)
                elif value is None:
                    ctx.check(out[1].p is None, label)
                else:
                    ctx.check(isinstance(out[1].p, np.ndarray),
                              lambda: '%s gave %r' % (label, out[1].p))
                ctx.state((name, repr(value)))
            if not core.case(ctx, (name, repr(value)[:80]), one):
                return
        # a union that holds the value of another member
        both = holder(P.Union('doc', props=[
            make(), P.List('doc', P.Integer('doc'))]))
        single = holder(make())
        ints = [0, 1, -3, 2 ** 63, 2 ** 64, BIG, -BIG]
        for count in range(5):
            for value in itertools.product(ints, repeat=count):
                def shared():
                    value_ = list(value)
                    inst = both()
                    out = core.attempt(setattr, inst, 'p', value_)
                    if out[0] == core.ERR or isinstance(inst.p, np.ndarray):
                        return
                    label = '%s in a union of %s and a list' % (
                        core.show(value_), name)
                    data = json.loads(json.dumps(
                        inst.serialize(include_class=False)))
                    got = core.expect_ok(ctx, core.attempt(
                        both.deserialize, data), label).p
                    ctx.step(3)
                    # what the array property alone takes from the data is its
                    alone = core.attempt(single.deserialize, data)
                    if alone[0] == core.ERR:
                        ctx.check(isinstance(got, list) and got == value_,
                                  lambda: '%s came back as %s' % (
                                      label, core.show(got)))
                    ctx.state(('union', name, value))
                if not core.case(ctx, ('union', name, count), shared):
                    return


def trip(ctx, cls, value, label, lossy=False):
    key = 'empty-array' if lossy else None
    inst = cls()
    inst.p = value
    before = core.canon(inst.p)
    text = json.dumps(inst.serialize(include_class=False),
                      allow_nan=False)
    ctx.check(core.canon(inst.p) == before, 'serializing changed the value')
    back = core.expect_ok(ctx, core.attempt(
        cls.deserialize, json.loads(text)), label, key=key)
    ctx.step(2)
    got = back.p
    ctx.check(type(got) is type(inst.p) and got.shape == inst.p.shape and
              (not got.size or got.dtype.kind == inst.p.dtype.kind), lambda: '%s: came back as '
              '%r, was %r' % (label, got, inst.p), key=key)
    ctx.check(not got.size or core.canon(got) == core.canon(inst.p),
              lambda: '%s: came back as %r' % (label, got), key=key)
    ctx.check(P.equal(inst, back), '%s: not equal after the trip' % label,
              key=key)


def vector_trips(ctx):
    nums = [0.5, NAN, INF, -INF, -0.0]
    for name, (prop, vcls, dim, many) in VECTORS.items():
        cls = holder(vector_prop(name, None))
        for row in itertools.product(nums, repeat=dim):
            values = [[list(row)], [list(row), [1.5] * dim]] if many else \
                [list(row)]
            for value in values:
                label = '%s %s' % (name, value)

                def one():
                    trip(ctx, cls, value, label)
                    ctx.state(label)
                if not core.case(ctx, label, one):
                    return
        for length in LENGTHS[1:]:
            sized = holder(vector_prop(name, length))
            for row in itertools.product(GRID, repeat=dim):
                if not any(row):
                    continue
                value = [list(row)] if many else list(row)

                def one():
                    inst = sized(p=value)
                    text = json.dumps(inst.serialize(include_class=False),
                                      allow_nan=False)
                    back = sized.deserialize(json.loads(text))
                    ctx.check(np.allclose(back.p, inst.p, rtol=1e-12, atol=0),
                              'changed by the trip')
                    ctx.check(type(back.p) is vcls, 'class')
                    ctx.step(2)
                    ctx.state((name, length, row))
                if not core.case(ctx, (name, length, row), one):
                    return
    ctx.sample('vectors with special numbers and lengths through JSON')


# -- sequences of assignments ------------------------------------------------------
class Cell(core.System):
    """One property, its assigned objects, and changes of both."""

    def __init__(self, ctx, name, length):
        super().__init__(ctx)
        self.name = name
        self.length = length
        if name == 'Array':
            self.dim, self.many = 3, False
            self.cls = self.vcls = None
            cls = holder(P.Array('doc', dtype=float))
        else:
            prop, self.vcls, self.dim, self.many = VECTORS[name]
            cls = holder(vector_prop(name, length))
        self.inst = cls()
        self.other = cls()
        wrap = (lambda v: [v, v]) if self.many else (lambda v: v)
        self.wrap = wrap
        base = [3., 4., 0.][:self.dim]
        self.inputs = {
            'array': np.array(wrap(base)),
            'list': wrap(list(base)),
            'class': (self.vcls or np.array)(wrap(base)),
        }
        if self.many:
            self.inputs['list'] = [list(base), list(base)]
        self.now = {k: [base, base] if self.many else [base]
                    for k in self.inputs}
        self.model = None
        self.model_other = None

    def scaled(self, rows):
        if self.length is None:
            return [list(map(float, r)) for r in rows]
        return [[v * self.length / math.sqrt(sum(w * w for w in r)) for v in r]
                for r in rows]

    def ops(self):
        out = []
        for key in self.inputs:
            out.append(('assign ' + key, lambda s, k=key: s.assign(k)))
            out.append(('change ' + key, lambda s, k=key: s.change(k)))
        out.append(('assign bad', lambda s: s.bad()))
        out.append(('pass on', lambda s: s.pass_on()))
        out.append(('assign own value', lambda s: s.own()))
        out.append(('validate', lambda s: s.validate()))
        return out

    def assign(self, key):
        self.inst.p = self.inputs[key]
        self.model = self.scaled(self.now[key])

    def change(self, key):
        val = self.inputs[key]
        if isinstance(val, np.ndarray):
            val[...] = 2.
        elif self.many:
            for row in val:
                row[:] = [2.] * self.dim
        else:
            val[:] = [2.] * self.dim
        self.now[key] = [[2.] * self.dim] * (2 if self.many else 1)

    def bad(self):
        core.expect(self.ctx, core.attempt(setattr, self.inst, 'p', [[[]]]),
                    ValueError, 'a bad shape')

    def pass_on(self):
        if self.inst.p is not None:
            self.other.p = self.inst.p
            self.model_other = self.model

    def own(self):
        if self.inst.p is not None:
            self.inst.p = self.inst.p

    def validate(self):
        if self.model is not None:
            self.ctx.check(self.inst.validate(), 'validate')
        else:
            core.expect(self.ctx, core.attempt(self.inst.validate), ValueError,
                        'validating without a value')

    def check(self):
        for inst, model, what in ((self.inst, self.model, 'the value'),
                                  (self.other, self.model_other,
                                   'the value passed on')):
            if model is None:
                self.ctx.check(inst.p is None, what + ' should be undefined')
                continue
            rows = np.asarray(inst.p).reshape(len(model), -1).tolist()
            self.ctx.check(
                all(abs(a - b) < 1e-9 for r, m in zip(rows, model)
                    for a, b in zip(r, m)) and len(rows[0]) == len(model[0]),
                lambda: '%s is %s, expected %s' % (what, rows, model))
        for key, val in self.inputs.items():
            rows = np.asarray(val).reshape(len(self.now[key]), -1).tolist()
            self.ctx.check(rows == [list(r) for r in self.now[key]],
                           lambda: 'the input %s became %s' % (key, rows))

    def key(self):
        return (core.canon(self.model), core.canon(self.model_other),
                core.canon(self.now))


def scenarios(tier):
    quick = tier != 'thorough'
    top = 2 if quick else 3
    parts = 6 if quick else 16
    for i in range(parts):
        yield ('arrays %d' % i, lambda ctx, i=i: arrays(ctx, top, i, parts))
    yield 'odd arrays', odd_arrays
    for name in ('Vector3', 'Vector2'):
        yield name, lambda ctx, n=name: single_vectors(ctx, n)
    for name in ('Vector3Array', 'Vector2Array'):
        if quick:
            yield name, lambda ctx, n=name: vector_arrays(ctx, n, 2)
        else:
            for i in range(4):
                yield ('%s %d' % (name, i), lambda ctx, n=name, i=i:
                       vector_arrays(ctx, n, 3, i, 4))
    for kind in SPECIAL:
        yield ('JSON ' + kind, lambda ctx, k=kind: json_trips(
            ctx, k, 3 if quick else 4))
    yield 'JSON vectors', vector_trips
    yield 'JSON of others', foreign
    yield 'JSON number types', loaded_types
    for name in ['Array'] + list(VECTORS):
        for length in ([None] if name == 'Array' else [None, 2.5]):
            yield ('sequences %s %s' % (name, length),
                   lambda ctx, n=name, le=length: core.explore(
                       ctx, lambda c: Cell(c, n, le), 3 if quick else 4))
