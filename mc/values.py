"""Value alphabets and schema shapes shared by the checks."""
import datetime as dt
import itertools

import numpy as np

from .model import comp, leaf, lst

INTS = ['int8', 'int16', 'int32', 'int64',
        'uint8', 'uint16', 'uint32', 'uint64']
FLOATS = ['float16', 'float32', 'float64']
COMPLEX = ['complex64', 'complex128']
DTYPES = INTS + FLOATS + COMPLEX

STRINGS = [
    'a', '', 'spam', ' ', 'a  ', '  a', 'a b', 'line\nbreak', 'tab\t\r\n',
    '\n', '0', '1.5', 'None', 'nan', 'True', 'q\'"\\', '[]', '{"a": 1}',
    'a.b', 'a/b', 'item_0', '\u00e4\u00f6\u20ac', '\U0001f600', 'e\u0301',
    '\u0391\u4e2d\u0416', '\xff', '\x01\x7f', '\u2028', '\ufeff', 'x' * 255,
    'x' * 256, '\u00e9' * 200, 'ab' * 2000]
BYTES = [
    b'a', b'', b'\0', b'a\0', b'\0a', b'\0\0\0', b' ', b'a ', b'abc',
    b'\xff', b'\x80\x81', bytes(range(256)), b'line\nbreak', b'\r\n',
    'ä€'.encode(), b'x' * 255, b'x' * 256, b'\0' * 300, bytes(1000) + b'z',
    b'PK\x03\x04', b'0', b'None']
BOOLS = [True, False]
DATES = [dt.date(2001, 2, 3), dt.date(1, 1, 1), dt.date(9999, 12, 31),
         dt.date(2000, 2, 29), dt.date(1970, 1, 1), dt.date(1969, 12, 31),
         dt.date(1582, 10, 15), dt.date(2023, 11, 30)]
TIMES = [dt.time(1, 2, 3, 4), dt.time(0), dt.time(23, 59, 59, 999999),
         dt.time(12, 30), dt.time(0, 0, 0, 1), dt.time(0, 0, 1),
         dt.time(0, 59), dt.time(20, 1, 0, 500000)]
DATETIMES = [
    dt.datetime(2001, 2, 3, 4, 5, 6, 7), dt.datetime(1, 1, 1),
    dt.datetime(9999, 12, 31, 23, 59, 59, 999999),
    dt.datetime(2000, 2, 29, 12), dt.datetime(1970, 1, 1, 0, 0, 0, 1),
    dt.datetime(1969, 12, 31, 23, 59), dt.datetime(2024, 3, 31, 2, 30),
    dt.datetime(2010, 10, 10, 10, 10, 10, 100000)]


def scalar_values(dtype):
    kind = np.dtype(dtype).kind
    if kind in 'iu':
        info = np.iinfo(dtype)
        vals = {0, 1, 7, 100, info.min, info.max, info.max - 1}
        vals |= {v for v in (-1, 128, 255, 256, 32768, 65535, 2**31, 2**32,
                             2**53 + 1, 2**63 - 1, 2**63 + 1, -2**53 - 1)
                 if info.min <= v <= info.max}
        return [np.dtype(dtype).type(v) for v in sorted(vals)]
    if kind == 'f':
        info = np.finfo(dtype)
        vals = [0.0, 1.0, -1.5, 0.1, 1 / 3, -0.0, np.nan, np.inf, -np.inf,
                float(info.max), float(info.min), float(info.tiny),
                float(info.smallest_subnormal), float(info.eps), 1e4]
        return [np.dtype(dtype).type(v) for v in vals]
    base = [0, 1, -1.5, 0.1, -0.0, np.nan, np.inf, -np.inf]
    return [np.dtype(dtype).type(complex(a, b))
            for a in base for b in (0.0, 1.0, -0.0, np.nan, np.inf)]


def array_of(dtype, shape, seed=1):
    """A deterministic array with distinct, non-trivial elements."""
    size = int(np.prod(shape))
    dtype = np.dtype(dtype)
    if dtype.kind == 'b':
        flat = np.array([(i * 5 + seed) % 3 == 0 for i in range(size)],
                        dtype=dtype)
    elif dtype.kind == 'c':
        flat = np.array([(i + seed) + 1j * (i - 2) for i in range(size)],
                        dtype=dtype)
    elif dtype.kind == 'f':
        flat = np.array([i * 1.25 + seed - 0.1 for i in range(size)],
                        dtype=dtype)
    else:
        flat = np.array([(i * 37 + seed) % 127 for i in range(size)],
                        dtype=dtype)
    return flat.reshape(shape)


def special_array(dtype):
    """All special values of the dtype in one array."""
    if np.dtype(dtype).kind == 'b':
        return np.array([True, False, False, True])
    return np.array(scalar_values(dtype), dtype=dtype)


def leaf_values(desc):
    """Default alphabet of a leaf description."""
    kind, cfg = desc
    if kind == 'Scalar':
        return scalar_values(cfg['dtype'])
    if kind == 'Array':
        ndim = cfg.get('ndim', 1)
        return [array_of(cfg['dtype'], (n,) * ndim) for n in (2, 1, 0, 3)]
    return {'Bool': BOOLS, 'Bytes': BYTES, 'String': STRINGS, 'Date': DATES,
            'Time': TIMES, 'DateTime': DATETIMES}[kind]


BOOL = leaf('Bool')
BYTES_ = leaf('Bytes')
STRING = leaf('String')
DATE = leaf('Date')
TIME = leaf('Time')
DATETIME = leaf('DateTime')
I32 = leaf('Scalar', dtype='int32')
F64 = leaf('Scalar', dtype='float64')
A1 = leaf('Array', dtype='int32')
A2 = leaf('Array', dtype='float64', ndim=2)
AB = leaf('Array', dtype='bool')
LEAVES = [BOOL, BYTES_, STRING, DATE, TIME, DATETIME, I32, F64, A1, A2, AB,
          leaf('Scalar', dtype='complex64'), leaf('Scalar', dtype='uint8'),
          leaf('Array', dtype='float32', ndim=0),
          leaf('Array', dtype='complex128', ndim=3)]

# Two typical values per kind, the second one longer or larger.
TWO = {
    'Bool': [True, False], 'Bytes': [b'a\0', b'bcd'],
    'String': ['a', '\u00e4bc'],
    'Date': DATES[:2], 'Time': TIMES[:2], 'DateTime': DATETIMES[:2]}


def two(desc):
    kind, cfg = desc
    if kind == 'Scalar':
        t = np.dtype(cfg['dtype']).type
        return [t(5), t(0)]
    if kind == 'Array':
        ndim = cfg.get('ndim', 1)
        return [array_of(cfg['dtype'], (2,) * ndim),
                array_of(cfg['dtype'], (3,) * ndim, 2)]
    return TWO[kind]


def one(desc):
    return two(desc)[:1]


def contexts(desc, value):
    """Yield (schema, data) with the value at various positions."""
    a, b = two(desc)
    yield 'top', desc, value
    yield 'field', comp({'x': desc}), {'x': value}
    yield 'fields', comp({'b': desc, 'x': desc, 'a': STRING, 'e': desc}), \
        {'b': a, 'x': value, 'a': 's', 'e': None}
    yield 'item', lst(desc), [value]
    yield 'items', lst(desc), [a, value, b]
    yield 'items_gap', lst(desc), [None, value, None]
    yield 'comp_comp', comp({'c': comp({'x': desc, 'y': desc}),
                             'x': desc}), \
        {'c': {'x': value, 'y': None}, 'x': a}
    yield 'comp_list', comp({'l': lst(desc), 'x': desc}), \
        {'l': [value], 'x': None}
    yield 'list_comp', lst(comp({'x': desc, 'y': STRING})), \
        [{'x': value, 'y': None}, {'x': None, 'y': 's'}]
    yield 'list_list', lst(lst(desc)), [[value], [], [b, value]]
    yield 'deep', comp({'c': lst(comp({'l': lst(desc)}))}), \
        {'c': [{'l': []}, {'l': [a, value]}]}


def configured(desc, variant=0, stamps=True):
    """The same schema with options that do not restrict its data.

    Variant 0 sets every option, the others only some of them.
    """
    kind = desc[0]
    if kind == 'Comp':
        names = sorted(desc[1])
        return comp({k: configured(v, variant, stamps) for k, v in desc[1].items()},
                    optionals={0: names, 1: names[:1], 2: names[-1:],
                               3: []}[variant])
    if kind == 'List':
        return lst(configured(desc[1], variant, stamps), **{
            0: {'min_length': 0, 'max_length': 10**6}, 1: {'min_length': 0},
            2: {'max_length': 10**6}, 3: {}}[variant])
    cfg = dict(desc[1])
    if kind in ('Date', 'Time', 'DateTime'):
        cfg['set_on_create'] = stamps and variant in (0, 2)
    elif kind in ('String', 'Bytes'):
        cfg.update({0: {'min_length': 0, 'max_length': 10**6},
                    1: {'max_length': 10**6}, 2: {'min_length': 0},
                    3: {}}[variant])
    elif kind in ('Scalar', 'Array'):
        if variant in (0, 1):
            cfg['unit'] = '\u00b5V'
        if np.dtype(cfg['dtype']).kind in 'iuf' and variant in (0, 2):
            cfg['min_value'] = -10**5
            cfg['max_value'] = 10**5
        if kind == 'Array':
            ndim = cfg.get('ndim', 1)
            if ndim and variant in (0, 3):
                cfg['min_shape'] = (0,) * ndim
            if ndim and variant in (0, 1):
                cfg['max_shape'] = (100,) * ndim
            if ndim and variant == 2:
                cfg['min_shape'] = cfg['max_shape'] = (None,) * ndim
    return (kind, cfg)


# Tree shapes for state enumeration. p, q are leaf descriptions.
def shapes(p, q):
    yield lst(p)
    yield comp({'a': p, 'b': q})
    yield lst(lst(p))
    yield lst(comp({'a': p, 'b': q}))
    yield comp({'l': lst(p), 'x': q})
    yield comp({'c': comp({'a': p, 'b': q}), 'x': p})
    yield comp({'c': comp({'l': lst(p)}), 'd': comp({'x': q})})
    yield lst(comp({'l': lst(p), 'x': q}))
    yield comp({'l': lst(comp({'a': p, 'b': q}))})
    yield comp({'l': lst(lst(p))})
    yield lst(comp({'c': comp({'a': p})}))
    yield lst(lst(lst(p)))
    yield comp({'l': lst(comp({'m': lst(p), 'c': comp({'x': q})}))})


def config_states(most, stamps=True):
    """Yield (schema, data) for schemas with all kinds of options."""
    from . import model
    falsy = {'Bool': [False], 'Bytes': [b''], 'String': [''],
             'Date': DATES[:1], 'Time': [dt.time(0)],
             'DateTime': DATETIMES[:1], 'Scalar': [np.int32(0)]}
    pairs = [(BOOL, BYTES_), (A1, STRING), (DATE, I32), (TIME, DATETIME)]
    for (p, q), variant in itertools.product(pairs, range(4)):
        for k, desc in enumerate([p, q] + list(shapes(p, q))):
            if k in (9, 13, 14):
                continue
            states = list(model.fills(
                desc, lambda d: (falsy.get(d[0]) or [np.zeros(0, 'int32')]) +
                two(d)[:1], (0, 1)))
            step = max(1, len(states) // most)
            for state in states[variant % step::step]:
                yield configured(desc, variant, stamps), state


NAMES = ['x', 'spam', 'data', 'dsch_data', 'schema', 'item_0', 'item_1',
         'file', 'args', 'kwds', 'self', 'name', 'allow_pickle', 'A', 'a',
         'a1', 'a_b', 'ab', 'None', 'True', 'class', 'x' * 31, 'y' * 32,
         'z' * 60, 'items', 'keys', 'dtype', 'shape', 'length', 'dsch_length',
         'list', 'dict', 'Bool', 'arr_0', 'n1', 'n10', 'n2', 'attrs',
         'parent_', 'T', 'group', 'value', 'path', 'key', 'dsch_schema']


def interleavings(a, b):
    """All interleavings of two sequences."""
    if not a or not b:
        yield list(a) + list(b)
        return
    for rest in interleavings(a[1:], b):
        yield [a[0]] + rest
    for rest in interleavings(a, b[1:]):
        yield [b[0]] + rest


def arrays(max_ndim, sizes):
    """All (ndim, shape) up to max_ndim with dimensions from sizes."""
    for ndim in range(max_ndim + 1):
        for shape in itertools.product(sizes, repeat=ndim):
            yield ndim, shape
