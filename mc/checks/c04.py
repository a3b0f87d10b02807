"""C04: validation accepts exactly the conforming data."""
import datetime as dt
import itertools

import numpy as np

from .. import model, sut, values
from ..core import Skip, Space, Violation
from ..model import comp, leaf, lst

LEVEL = 'model_checking'
BOUNDS = ('every combination of constraint options over small limits x every '
          'value of an alphabet that hits, misses and exceeds each limit and '
          'contains every wrong type; arrays up to rank 3 with all shapes '
          'from sizes 0-3; schemas used directly, after a JSON round trip, '
          'nested in compilations and lists, and after save and load')
ASSUMPTIONS = ['no NaN together with value limits',
               'independent variables of arrays are '
               'one-dimensional',
               'the reference validator in mc/model.py states the documented '
               'constraints']


def verdict(func):
    """Run a validation; True if accepted, False if rejected as documented."""
    import dsch
    try:
        result = func()
    except dsch.exceptions.ValidationError:
        return False
    except dsch.exceptions.SubnodeValidationError:
        return False
    if result is not None:
        raise Violation('validation returned %r' % (result,))
    return True


def expect(got, expected, what):
    if got != expected:
        raise Violation('%s: %s, but must be %s' % (
            what, 'accepted' if got else 'rejected',
            'accepted' if expected else 'rejected'))


def run_direct(case, ctx):
    """Schema node and data nodes, for any value (in memory)."""
    import dsch
    desc, value = case
    expected = model.leaf_ok(desc, value)
    node = model.build(desc)
    again = dsch.schema.node_from_json(node.to_json())
    args = ([],) if desc[0] == 'Array' else ()
    for schema, tag in ((node, 'schema'), (again, 'reloaded schema')):
        expect(verdict(lambda: schema.validate(value, *args)), expected,
               tag + '.validate')
        ctx.step()
    if desc[0] == 'Scalar':
        # The data node converts to the required dtype on assignment.
        try:
            np.dtype(desc[1]['dtype']).type(value)
        except Exception:
            ctx.state((desc, model.canon(value)))
            return
        value = model.stored(desc, value)
        expected = model.leaf_ok(desc, value)
    for wrap, path in ((desc, ()), (comp({'o': values.BOOL, 'x': desc}),
                                    ('x',)),
                       (lst(desc), (1,)), (comp({'l': lst(comp(
                           {'x': desc}))}), ('l', 0, 'x'))):
        storage = dsch.create('::inmem::', model.build(wrap))
        if wrap[0] == 'List':
            storage.data.append()
            storage.data.append()
        elif 'l' in path:
            storage.data.l.append()
        expect(verdict(storage.validate), True, 'empty storage')
        if path == (1,) and expected:
            storage.data[0].value = value
        leaf_node = sut.node_at(storage.data, path)
        leaf_node.value = value
        expect(verdict(leaf_node.validate), expected, 'node.validate')
        expect(verdict(storage.data.validate), expected, 'tree validate')
        expect(verdict(storage.validate), expected, 'storage.validate')
        if path == (1,):
            storage.data[0].clear()
            expect(verdict(storage.validate), expected,
                   'storage.validate, empty first item')
        leaf_node.clear()
        expect(verdict(storage.validate), True, 'after clear')
        ctx.step(6)
    ctx.state((desc, model.canon(value)))


def run_stored(case, ctx):
    """All backends, before and after save and load (whole trees)."""
    import dsch
    desc, state = case[:2]
    expected = not model.invalid_paths(desc, state)
    for backend in case[2]:
        storage = sut.create(ctx, backend, desc)
        try:
            sut.fill(storage.data, desc, state)
        except Exception:
            if backend == 'hdf5' and not expected:
                continue   # hdf5 already refuses to hold some invalid data
            raise
        try:
            model.same(sut.observe(storage.data, desc), state, backend)
        except Violation:
            if backend == 'hdf5' and not expected:
                continue   # hdf5 converts some invalid data
            raise
        expect(verdict(storage.validate), expected, backend)
        expect(verdict(storage.data.validate), expected, backend)
        if backend != 'inmem':
            storage = sut.reload(ctx, storage)
            expect(verdict(storage.validate), expected,
                   backend + ' after load')
        ctx.step(2)
        ctx.state((backend, desc, model.canon(state)))


WRONG = [None, 0, 1, 1.0, 'x', b'x', True, (), [], [1], {}, object,
         np.bool_(True), np.int32(1), np.float64(1), np.array([1]),
         np.array(1), dt.date(2000, 1, 1), dt.datetime(2000, 1, 1),
         dt.time(1), dt.timedelta(1), np.str_('x'), np.bytes_(b'x'),
         bytearray(b'x'), np.array('x'), np.array([True]),
         np.array([1], dtype='int32'), 1j, np.datetime64('2000-01-01')]


def type_cases(tier):
    for desc in (values.BOOL, values.BYTES_, values.STRING, values.DATE,
                 values.TIME, values.DATETIME, values.I32, values.F64,
                 values.A1, values.A2, values.AB):
        for value in WRONG + values.two(desc):
            if value is not None:
                yield desc, value


def length_cases(tier):
    limits = (None, 0, 1, 2, 3)
    for kind, unit in (('String', 'a'), ('Bytes', b'a'), ('String', '\u20ac')):
        for lo, hi in itertools.product(limits, repeat=2):
            for n in (0, 1, 2, 3, 4, 5, 300):
                yield leaf(kind, min_length=lo, max_length=hi), unit * n
        for lo, hi in ((255, 256), (256, 256), (None, 1000), (300, None)):
            for n in (0, 254, 255, 256, 257, 299, 300, 1000, 1001):
                yield leaf(kind, min_length=lo, max_length=hi), unit * n


def scalar_cases(tier):
    for dtype in values.INTS + values.FLOATS:
        kind = np.dtype(dtype).kind
        limits = [None, 0, 5] + ([-3] if kind != 'u' else [])
        if kind == 'f':
            limits.append(0.5)
        vals = {0, 1, 4, 5, 6, 100} | (set() if kind == 'u' else
                                       {-4, -3, -2, -1})
        if kind == 'f':
            vals |= {0.25, 0.5, 0.75, float('inf'), float('-inf')}
        for lo, hi in itertools.product(limits, repeat=2):
            desc = leaf('Scalar', dtype=dtype, min_value=lo, max_value=hi)
            for v in sorted(vals):
                yield desc, np.dtype(dtype).type(v)
    for want, got in itertools.product(values.DTYPES, repeat=2):
        yield leaf('Scalar', dtype=want), np.dtype(got).type(1)
        yield leaf('Scalar', dtype=want, unit='V'), np.dtype(got).type(0)
        if 'complex' not in want + got:
            yield (leaf('Scalar', dtype=want, min_value=0, max_value=1),
                   np.dtype(got).type(1))
    yield leaf('Scalar', dtype='float64', max_value=0.1), np.float64(0.1)
    yield leaf('Scalar', dtype='int64', max_value=2**53), np.int64(2**53 + 1)
    yield leaf('Scalar', dtype='uint64', min_value=2**63), np.uint64(2**63)
    yield leaf('Scalar', dtype='uint64', min_value=2**63), np.uint64(2**63 - 1)


def array_cases(tier):
    dtypes = ['bool'] + values.DTYPES
    for want, got in itertools.product(dtypes, repeat=2):
        for shape in ((2,), (0,)):
            yield leaf('Array', dtype=want), values.array_of(got, shape)
    # The byte order is part of the data type, however it is written.
    for base in ('i4', 'i2', 'f8', 'u2', 'i1'):
        for order in '<>=|' if base == 'i1' else '<>=':
            for have, want in (('<', base), ('>', base), ('<', 'f4'),
                               ('>', 'f4')):
                for ndim in (1, 2):
                    yield (leaf('Array', dtype=order + base, ndim=ndim),
                           values.array_of('int16', (2,) * ndim).astype(
                               have + want))
    shapes = [sh for _, sh in values.arrays(3, (0, 1, 2, 3))]
    for ndim in range(5):
        for sh in shapes:
            if tier == 'quick' and len(sh) == 3 and 3 in sh:
                continue
            yield leaf('Array', dtype='int32', ndim=ndim), \
                values.array_of('int32', sh)
    dims = (None, 0, 1, 2)
    for n in (1, 2):
        limits = [None] + list(itertools.product(dims, repeat=n))
        for lo, hi in itertools.product(limits, repeat=2):
            for sh in shapes:
                if len(sh) == n or sh in ((2,), (1, 1)):
                    yield (leaf('Array', dtype='int32', ndim=n, min_shape=lo,
                                max_shape=hi), values.array_of('int32', sh))
    # The shape limits determine the number of dimensions, whatever is given.
    for ndim, size in itertools.product(range(5), (1, 2, 3)):
        for lo, hi in (((1,) * size, None), (None, (2,) * size),
                       ((1,) * size, (2,) * size), (None, (None,) * size)):
            for sh in shapes:
                if len(sh) == 3 and (0 in sh or 3 in sh):
                    continue
                yield (leaf('Array', dtype='int32', ndim=ndim, min_shape=lo,
                            max_shape=hi), values.array_of('int32', sh))
    for pos in range(3):
        lo = [None] * 3
        lo[pos] = 2
        for sh in itertools.product((1, 2, 3), repeat=3):
            yield (leaf('Array', dtype='int32', min_shape=tuple(lo)),
                   values.array_of('int32', sh))
            yield (leaf('Array', dtype='int32', max_shape=tuple(lo)),
                   values.array_of('int32', sh))
            yield (leaf('Array', dtype='int32', max_shape=(2, 3, 2),
                        min_shape=(2, 1, 2)), values.array_of('int32', sh))
    limits = (None, -1, 0, 2)
    for lo, hi in itertools.product(limits, repeat=2):
        for dtype in ('int32', 'float64', 'int8'):
            desc1 = leaf('Array', dtype=dtype, min_value=lo, max_value=hi)
            for n in range(4):
                for items in itertools.product((-2, -1, 0, 2, 3), repeat=n):
                    if n == 3 and dtype != 'int32':
                        continue
                    yield desc1, np.array(items, dtype=dtype)
            desc2 = leaf('Array', dtype=dtype, min_value=lo, max_value=hi,
                         ndim=2)
            for pos in range(4):
                for bad in (-2, -1, 2, 3):
                    arr = np.zeros((2, 2), dtype=dtype)
                    arr.flat[pos] = bad
                    yield desc2, arr
    # Elements that violate a limit are found next to any special values.
    nan, inf = float('nan'), float('inf')
    for lo, hi in itertools.product((None, -1, 0), (None, 0, 2)):
        for dtype in ('float64', 'float16'):
            for n in (2, 3):
                for items in itertools.product(
                        (-2., -0., 1., 3., nan, inf, -inf), repeat=n):
                    arr = np.array(items, dtype=dtype)
                    desc1 = leaf('Array', dtype=dtype, min_value=lo,
                                 max_value=hi)
                    rest = arr[~np.isnan(arr)]
                    if len(rest) < n and model.leaf_ok(desc1, rest):
                        continue   # NaN itself against limits is not defined
                    yield desc1, arr
    big = np.zeros(1000, dtype='int32')
    for pos in (0, 1, 499, 998, 999):
        arr = big.copy()
        arr[pos] = 7
        yield leaf('Array', dtype='int32', max_value=6), arr
        yield leaf('Array', dtype='int32', max_value=7), arr
        yield leaf('Array', dtype='int32', min_value=0), -arr
    for dtype in ('uint8', 'uint64', 'float32'):
        yield (leaf('Array', dtype=dtype, min_value=0, max_value=3),
               values.array_of(dtype, (3,)))
        yield (leaf('Array', dtype=dtype, max_value=0),
               np.zeros(3, dtype=dtype))


def depends_cases(tier):
    """Arrays that depend on independent variables."""
    t = leaf('Array', dtype='int32')
    u1 = leaf('Array', dtype='float64', depends_on='t')
    for a, b in itertools.product((0, 1, 2, 3), repeat=2):
        for order in (('t', 'u'), ('u', 't')):
            fields = {'t': t, 'u': u1}
            desc = comp({k: fields[k] for k in order})
            state = {'t': values.array_of('int32', (a,)),
                     'u': values.array_of('float64', (b,))}
            yield desc, state, sut.ALL
            yield lst(desc), [state, state], sut.ALL
    names = (('t', 's'), ('t', None), (None, 's'), ('s', 't'), ('t', 't'),
             (None, None))
    for dep in names:
        for n, m, h, w in itertools.product((1, 2, 3), repeat=4):
            if tier == 'quick' and 3 in (n, m) and (n, m) != (3, 2):
                continue
            desc = comp({'t': t, 's': t, 'u': leaf(
                'Array', dtype='float64', ndim=2, depends_on=dep)})
            state = {'t': values.array_of('int32', (n,)),
                     's': values.array_of('int32', (m,)),
                     'u': values.array_of('float64', (h, w))}
            yield desc, state, ('inmem',) if (n, h) != (2, 2) else sut.ALL
    # empty independent variables
    for dep in names:
        for n, m in itertools.product((None, 2), repeat=2):
            for h, w in itertools.product((1, 2), repeat=2):
                desc = comp({'u': leaf('Array', dtype='float64', ndim=2,
                                       depends_on=dep), 't': t, 's': t})
                state = {
                    't': None if n is None else values.array_of('int32', (n,)),
                    's': None if m is None else values.array_of('int32', (m,)),
                    'u': values.array_of('float64', (h, w))}
                yield desc, state, sut.ALL
                yield lst(desc), [state], sut.ALL
    for dep in itertools.product(('t', None), repeat=3):
        desc = comp({'t': t, 'u': leaf('Array', dtype='float64', ndim=3,
                                       depends_on=dep)})
        for sh in itertools.product((1, 2), repeat=3):
            yield desc, {'t': values.array_of('int32', (2,)),
                         'u': values.array_of('float64', sh)}, ('inmem',)
    # scalars and zero-dimensional arrays as independent variables
    for desc_t, value in (
            (values.I32, np.int32(0)), (values.I32, np.int32(2)),
            (leaf('Array', dtype='int32', ndim=0), np.array(2, 'int32'))):
        for sh in ((0,), (1,), (2,)):
            desc = comp({'t': desc_t, 'u': u1})
            state = {'t': value, 'u': values.array_of('float64', sh)}
            yield desc, state, sut.ALL
            yield lst(desc), [state], sut.ALL
        for sh in itertools.product((1, 2), repeat=2):
            yield (comp({'t': desc_t, 's': t, 'u': leaf(
                'Array', dtype='float64', ndim=2, depends_on=('t', 's'))}),
                   {'t': value, 's': values.array_of('int32', (2,)),
                    'u': values.array_of('float64', sh)}, sut.ALL)
    # empty dependent array, chains, and limits on top of the dependency
    desc = comp({'t': t, 'u': u1, 'v': leaf('Array', dtype='float64',
                                            depends_on='u', max_value=3)})
    for a, b, c in itertools.product((None, 2, 3), repeat=3):
        for scale in (1, 5):
            yield desc, {
                't': None if a is None else values.array_of('int32', (a,)),
                'u': None if b is None else values.array_of('float64', (b,)),
                'v': None if c is None else scale * np.ones(c)}, sut.ALL


def list_cases(tier):
    limits = (None, 0, 1, 2, 3)
    for lo, hi in itertools.product(limits, repeat=2):
        for n in range(5):
            item = values.BOOL
            yield lst(item, min_length=lo, max_length=hi), [True] * n, sut.ALL
            yield (lst(item, min_length=lo, max_length=hi),
                   [None] * n, sut.ALL)
            yield (comp({'x': item, 'l': lst(item, min_length=lo,
                                             max_length=hi)}),
                   {'x': None, 'l': [False] * n}, ('inmem', 'npz'))
            yield (lst(lst(item, min_length=lo, max_length=hi)),
                   [[True] * n, [False] * (n // 2)], ('inmem', 'mat'))
    for item, vals in ((comp({'x': values.BOOL}), ({'x': True}, {'x': None})),
                       (comp({}), ({},)),
                       (lst(values.STRING), (['a'], [None], [])),
                       (values.STRING, ('a', '', None))):
        for lo, hi in ((None, 1), (2, None), (1, 2), (2, 2), (None, 0)):
            for n in range(4):
                for items in itertools.product(vals, repeat=n):
                    desc = lst(item, min_length=lo, max_length=hi)
                    yield desc, list(items), ('inmem', 'hdf5', 'mat')
                    yield lst(desc), [list(items)], ('npz',)
    for n in (99, 100, 101, 256, 257):
        for gaps in (False, True):
            items = [None if gaps and i % 2 else np.int32(1)
                     for i in range(n)]
            for lo, hi in ((None, 100), (101, None), (None, 256), (257, 300)):
                yield (lst(values.I32, min_length=lo, max_length=hi), items,
                       ('inmem', 'npz'))
    for lo, hi in ((10, 11), (None, 12), (11, None)):
        for n in range(9, 14):
            yield (lst(values.I32, min_length=lo, max_length=hi),
                   [np.int32(1)] * n, sut.ALL)


def tree_cases(tier):
    """Every combination of valid, invalid and empty leaves."""
    p = leaf('String', max_length=2)
    q = leaf('Scalar', dtype='int32', min_value=0)
    a = leaf('Array', dtype='int32', max_value=5)

    def vals(desc):
        return {'String': ['ok', 'bad'], 'Scalar': [np.int32(1), np.int32(-1)],
                'Array': [np.array([5], 'int32'), np.array([1, 6], 'int32')]
                }[desc[0]]
    for pair in ((p, q), (a, p)):
        for k, desc in enumerate(values.shapes(*pair)):
            lengths = (0, 1, 2) if k in (0, 1, 3, 4) else (0, 1)
            if tier != 'quick' and k not in (7, 11, 12):
                lengths = (0, 1, 2)
            for n, state in enumerate(model.fills(desc, vals, lengths)):
                if n > 3000:
                    break
                yield desc, state, ('inmem', 'hdf5') if n % 2 else \
                    ('npz', 'mat')


def value_cases(tier):
    """Conforming special values are accepted on every backend."""
    for desc in (values.STRING, values.BYTES_, values.DATE, values.TIME,
                 values.DATETIME, values.BOOL):
        for value in values.leaf_values(desc):
            yield desc, value, sut.ALL
            yield lst(desc), [value, None], sut.ALL
    for dtype in values.DTYPES:
        yield leaf('Array', dtype=dtype), values.special_array(dtype), sut.ALL
        for value in values.scalar_values(dtype)[:6]:
            yield leaf('Scalar', dtype=dtype), value, sut.ALL
    for ndim, shape in values.arrays(3, (0, 1, 2)):
        yield (leaf('Array', dtype='int16', ndim=ndim),
               values.array_of('int16', shape), sut.ALL)
    for kind, unit in (('String', '\u20ac'), ('Bytes', b'\0')):
        for lo, hi in itertools.product((None, 0, 1, 3), repeat=2):
            for n in range(5):
                yield (leaf(kind, min_length=lo, max_length=hi), unit * n,
                       sut.ALL)


def dirty_cases(tier):
    """Options given as numpy objects or lists."""
    yield leaf('Array', dtype=np.dtype('int32')), values.array_of('int32', (2,))
    yield leaf('Array', dtype=np.dtype('int32')), values.array_of('int64', (2,))
    yield leaf('Scalar', dtype=np.dtype('float32')), np.float32(1)
    yield leaf('Scalar', dtype=np.dtype('float32')), np.float64(1)
    for v in (4, 5, 6):
        yield leaf('Scalar', dtype='int32', max_value=np.int32(5)), np.int32(v)
        yield (leaf('Array', dtype='int32', max_value=np.int64(5)),
               np.array([v], 'int32'))
        yield (leaf('Array', dtype='int32', max_shape=[5], min_shape=[5]),
               values.array_of('int32', (v,)))


def spaces(tier):
    def direct(name, gen):
        return Space(name, lambda: gen(tier), run_direct,
                     lambda c: '%s value=%s' % (c[0], model.short(c[1])))

    def stored(name, gen):
        return Space(name, lambda: gen(tier), run_stored,
                     lambda c: '%s data=%s %s' % (
                         model.short(c[0], 500), model.short(c[1]), c[2]))
    return [direct('types', type_cases), direct('lengths', length_cases),
            direct('scalars', scalar_cases), direct('arrays', array_cases),
            direct('options', dirty_cases),
            stored('depends', depends_cases), stored('lists', list_cases),
            stored('trees', tree_cases), stored('values', value_cases)]
