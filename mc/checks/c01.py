"""C01: saved data is loaded back bit-identically."""
import datetime as dt
import itertools

import numpy as np

from .. import model, sut, values
from ..core import Space, Violation
from ..model import comp, leaf, lst

LEVEL = 'model_checking'
BOUNDS = ('every value of the per-type alphabets at 11 tree positions; every '
          'filled/empty state of 13 tree shapes (depth <= 4) with lists of '
          'length 0-2; every dtype x rank 0-3 x dimension sizes 0,1,2,3; '
          'lists up to length 130; sizes around powers of two and ten up to '
          '140000; all backends; two save/load generations; '
          'odd: strings, names, dtypes, array subclasses and time zones that some format cannot '
          'represent are stored exactly or refused; schemas with four sets '
          'of options; pairs of similar field names')
ASSUMPTIONS = ['field names do not collide with node attributes',
               'data that a format cannot represent may be refused']


def roundtrip(ctx, backend, desc, state, via='fill'):
    import dsch
    storage = sut.create(ctx, backend, desc)
    schema_json = storage.schema_node.to_json()
    if via == 'fill':
        sut.fill(storage.data, desc, state, copy=False)
    else:
        storage.data.replace(sut.prune(state))
    sut.check_node(storage.data, desc, state, backend + ' before save')
    storage.save()
    ctx.step()
    for generation in (1, 2):
        first = sut.snapshot(ctx, storage)
        storage = dsch.load(first)
        ctx.step()
        if storage.schema_node.to_json() != schema_json:
            raise Violation('schema changed by save and load')
        sut.check_node(storage.data, desc, state,
                       '%s after load %d' % (backend, generation))
        storage.save()
        ctx.step()
    ctx.state((backend, model.canon(state)))


def run(case, ctx):
    backend, _, desc, state = case[:4]
    roundtrip(ctx, backend, desc, state, *case[4:])


def value_cases(tier):
    leaves = [values.BOOL, values.BYTES_, values.STRING, values.DATE,
              values.TIME, values.DATETIME]
    leaves += [leaf('Scalar', dtype=d) for d in values.DTYPES]
    for desc in leaves:
        for value in values.leaf_values(desc):
            ctxs = list(values.contexts(desc, value))
            if tier == 'quick' and desc[0] == 'Scalar':
                ctxs = [c for c in ctxs if c[0] in ('top', 'items',
                                                    'list_comp')]
            for ctxname, d, s in ctxs:
                for backend in sut.FILES:
                    yield backend, ctxname, d, s


def array_cases(tier):
    dtypes = ['bool'] + values.DTYPES
    sizes = (0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 5)
    ctxnames = ('top', 'items', 'comp_list', 'list_list')
    for ndim, shape in values.arrays(3, sizes):
        for dtype in dtypes:
            if tier == 'quick' and ndim == 3 and dtype not in (
                    'bool', 'int32', 'float16', 'complex128'):
                continue
            desc = leaf('Array', dtype=dtype, ndim=ndim)
            value = values.array_of(dtype, shape)
            if tier == 'quick':
                names = ('top',) if ndim > 2 else ('top', 'items')
            else:
                names = ctxnames
            for ctxname, d, s in values.contexts(desc, value):
                if ctxname in names:
                    for backend in sut.FILES:
                        yield backend, ctxname, d, s


def array_special_cases(tier):
    for dtype in ['bool'] + values.DTYPES:
        special = values.special_array(dtype)
        big = values.array_of(dtype, (3000,))
        base = values.array_of(dtype, (6, 4))
        variants = [
            ('special', special), ('big', big), ('strided', big[::7]),
            ('reversed', special[::-1]), ('fortran', np.asfortranarray(base)),
            ('transposed', base.T), ('slice', base[1:4, ::2]),
            ('broadcast', np.broadcast_to(special[:1], (5,))),
            ('tall', values.array_of(dtype, (300, 2))),
            ('wide', values.array_of(dtype, (2, 300))),
            ('cube', values.array_of(dtype, (4, 3, 5)).transpose(2, 0, 1)),
            ('rank4', values.array_of(dtype, (2, 1, 3, 1))),
            ('rank5', values.array_of(dtype, (1, 2, 1, 2, 2)))]
        for name, value in variants:
            desc = leaf('Array', dtype=dtype, ndim=value.ndim)
            for ctxname, d, s in values.contexts(desc, value):
                if ctxname in ('top', 'item', 'deep'):
                    for backend in sut.FILES:
                        yield backend, name + '/' + ctxname, d, s
    # shape constraints influence how the array is stored
    for mn, mx in itertools.product((None, (1,), (2,), (3,), (None,)),
                                    (None, (2,), (3,), (9,), (None,))):
        value = values.array_of('int32', (2 if mn != (3,) else 3,))
        if mx and mx[0] and len(value) > mx[0]:
            continue
        desc = leaf('Array', dtype='int32', min_shape=mn, max_shape=mx)
        for backend in sut.FILES:
            yield backend, 'limits', desc, value
    for mx in ((2, 3), (None, 3), (2, None), (None, None), (4, 4)):
        for mn in (None, (2, 3), (None, 1), (1, None)):
            desc = leaf('Array', dtype='int32', min_shape=mn, max_shape=mx)
            for backend in sut.FILES:
                yield backend, 'limits2', desc, values.array_of('int32',
                                                                (2, 3))


def tree_cases(tier):
    pairs = [(values.BOOL, values.STRING), (values.A1, values.BYTES_)]
    if tier != 'quick':
        pairs += [(values.STRING, values.A2), (values.DATE, values.I32),
                  (values.BYTES_, values.TIME)]
    for n, (p, q) in enumerate(pairs):
        for k, desc in enumerate(values.shapes(p, q)):
            if tier == 'quick' and n and k in (7, 11, 12):
                continue
            lengths = (0, 1, 2)
            if k == 12 or (k in (7, 11) and tier == 'quick'):
                lengths = (0, 1) if tier == 'quick' else (0, 1, 2)
            count = 0
            for state in model.fills(desc, values.one, lengths):
                count += 1
                if count > 4000:
                    break
                for backend in sut.FILES:
                    yield backend, 'tree%d' % k, desc, state


def replace_cases(tier):
    """The same states, but built with nested replace()."""
    for k, desc in enumerate(values.shapes(values.BOOL, values.STRING)):
        if k in (7, 12):
            continue
        for state in model.fills(desc, values.one, (0, 2)):
            for backend in sut.FILES:
                yield backend, 'replace%d' % k, desc, state, 'replace'


def length_cases(tier):
    lengths = list(range(0, 24)) + [99, 100, 101, 130]
    item = {
        'Bool': lambda i: i % 3 == 0, 'String': lambda i: 's%d' % i,
        'Bytes': lambda i: b'b%d' % i, 'Scalar': lambda i: np.int32(i * 7),
        'Array': lambda i: np.arange(i % 4, dtype='int32') + i}
    for desc in (values.BOOL, values.STRING, values.BYTES_, values.I32,
                 values.A1):
        for n in lengths:
            full = [item[desc[0]](i) for i in range(n)]
            gaps = [None if i % 5 == 4 or i == n - 1 else v
                    for i, v in enumerate(full)]
            for backend in sut.FILES:
                yield backend, 'len%d' % n, lst(desc), full
                yield backend, 'gaps%d' % n, lst(desc), gaps
    for n in (1, 2, 9, 10, 11, 12, 21):
        for backend in sut.FILES:
            yield (backend, 'comps', lst(comp({'x': values.I32,
                                               'l': lst(values.BOOL)})),
                   [{'x': np.int32(i), 'l': [True] * (i % 3)}
                    for i in range(n)])
            yield (backend, 'lists', lst(lst(values.I32)),
                   [[np.int32(10 * i + j) for j in range(i % 13)]
                    for i in range(n)])
    for n in (1, 2, 3, 12, 40):
        fields = ['f%d' % i for i in range(n)]
        for backend in sut.FILES:
            yield (backend, 'wide', comp({f: values.I32 for f in fields}),
                   {f: np.int32(i) for i, f in enumerate(fields)})
            yield (backend, 'wide', comp({f: values.STRING for f in fields}),
                   {f: f if i % 2 else None for i, f in enumerate(fields)})
    desc, state = values.I32, np.int32(3)
    for depth in range(8):
        for backend in sut.FILES:
            yield backend, 'depth', desc, state
        desc = comp({'c': desc}) if depth % 2 else lst(desc)
        state = {'c': state} if depth % 2 else [state]


def boundaries(upto):
    """Sizes around which representations and buffers change."""
    powers = [2 ** k for k in range(6, 24)] + [10 ** k for k in range(2, 7)]
    return sorted({n + d for n in powers if n <= upto for d in (-1, 0, 1)})


def size_cases(tier):
    """Sizes at and around powers of two and ten, and deep nesting."""
    more = tier != 'quick'
    text = ('abcdefghijklmnopqrstuvwxyz' * 4 + '\xe4')
    for n in boundaries(1100000 if more else 140000):
        string = (text * (n // len(text) + 1))[:n]
        data = (bytes(range(1, 252)) * (n // 251 + 1))[:n]
        for desc, value in ((values.STRING, string), (values.BYTES_, data),
                            (values.A1, np.arange(n, dtype='int32')),
                            (leaf('Array', dtype='bool'),
                             np.arange(n) % 3 == 0)):
            for backend in sut.FILES:
                yield backend, 'size%d' % n, desc, value
                yield (backend, 'size%d' % n, comp({'x': lst(desc)}),
                       {'x': [None, value]})
    for n in (127, 128, 129, 255, 256, 257, 1023) if more else (127, 256, 257, 700):
        for backend in sut.FILES:
            yield (backend, 'wide', comp({'f%d' % i: values.I32
                                          for i in range(n)}),
                   {'f%d' % i: np.int32(i) if i % 7 else None
                    for i in range(n)})
    for n in boundaries(1100 if more else 300):
        if n > 130:
            for backend in sut.FILES:
                yield (backend, 'long', lst(values.I32),
                       [np.int32(i) if i % 9 else None for i in range(n)])
                yield (backend, 'long', lst(comp({'a': values.STRING})),
                       [{'a': str(i) if i % 4 else None} for i in range(n)])
    for n in (999, 1000, 1001, 1025):
        for backend in sut.FILES:
            yield (backend, 'long', lst(values.BOOL),
                   [bool(i % 3) if i % 5 else None for i in range(n)])
    desc, state = values.I32, np.int32(3)
    for depth in range(1, 31):
        desc = comp({'c': desc}) if depth % 3 else lst(desc)
        state = {'c': state} if depth % 3 else [state]
        if depth >= 8 and (more or depth in (8, 9, 10, 11, 16, 17, 30)):
            for backend in sut.FILES:
                yield backend, 'deep', desc, state


def name_cases(tier):
    for name in values.NAMES:
        for backend in sut.FILES:
            yield backend, 'name', comp({name: values.STRING}), {name: 'v'}
            yield (backend, 'name', comp({name: lst(values.I32), 'o':
                                          values.BOOL}),
                   {name: [np.int32(4)], 'o': None})
            yield (backend, 'name', lst(comp({name: comp(
                {name: values.BOOL, 'zz': values.A1})})),
                   [{name: {name: True, 'zz': None}}])
    # Names that are easily mistaken for each other
    similar = ['V', 'v', ' V', 'V ', '\tV', 'V\n', ' ', '  ', 'V V', '\xb5V',
               '\u03bcV', '\xe9', 'e\u0301', '\xc5', '\u212b', 'e', '1', '01',
               '%', '%%', '%20', '\\', '\\\\', '"', "'", '-', '+', '_', 'V_',
               'V-', 'x' * 63, 'x' * 62 + 'y', '\u200bV', '\xdf', 'ss', '...',
               'V.npy', 'V.npy.npy', '\U0001f600', '\ufb01', 'fi', ':', '*',
               '?', '<V>', '|', '~', '#', '[0]', '(1,)', '{}', '@', '!', '=']
    for a, b in itertools.combinations(similar, 2):
        for backend in ('hdf5', 'npz') if not (a + b).isascii() else sut.FILES:
            if backend == 'mat' and not all(
                    n.isidentifier() and n[0] != '_' for n in (a, b)):
                continue
            if backend == 'npz' and '.' in a + b:
                continue    # cannot be represented
            desc = comp({a: values.STRING, b: values.STRING})
            yield backend, 'similar', desc, {a: 'v', b: 'w'}
            yield backend, 'similar', lst(desc), [{a: None, b: 'w'}]
    for a, b in itertools.combinations(values.NAMES[:24], 2):
        for backend in sut.FILES:
            yield (backend, 'names', comp({a: values.STRING,
                                           b: lst(values.STRING)}),
                   {a: 'v', b: ['w']})


def config_cases(tier):
    """The options of a schema do not change what is stored."""
    for desc in values.LEAVES:
        for variant in range(4):
            for value in values.two(desc) + [None]:
                for _, d, s in values.contexts(desc, value):
                    for backend in sut.FILES:
                        yield (backend, 'config',
                               values.configured(d, variant), s)
    falsy = {'Bool': [False, True], 'Bytes': [b'', b'a'],
             'String': ['', 'a'], 'Scalar': [np.int32(0), np.int32(1)],
             'Array': [np.zeros(0, 'int32'), np.zeros(1, 'int32'),
                       np.arange(2, dtype='int32')]}
    pairs = [(values.BOOL, values.BYTES_), (values.A1, values.STRING),
             (values.I32, values.A1)]
    for (p, q), variant in itertools.product(pairs, range(4)):
        for k, desc in enumerate(values.shapes(p, q)):
            if k in (7, 11, 12):
                continue
            states = list(model.fills(desc, lambda d: falsy[d[0]], (0, 1)))
            step = max(1, len(states) // (60 if tier == 'quick' else 1000))
            for state in states[::step]:
                for backend in sut.FILES:
                    yield (backend, 'config%d' % k,
                           values.configured(desc, variant), state)
    for size in range(4):
        arrays = {k: np.arange(size, dtype='int32') for k in 'tu'}
        arrays['v'] = np.arange(size * 2, dtype='int32').reshape(size, 2)
        for missing in ('', 't', 'u', 'v', 'tu', 'tv', 'tuv'):
            desc = comp({'t': values.A1, 'u': leaf(
                'Array', dtype='int32', depends_on='t'), 'v': leaf(
                    'Array', dtype='int32', ndim=2, depends_on=('u', None))},
                        optionals=['t'])
            state = {k: None if k in missing else a
                     for k, a in arrays.items()}
            for backend in sut.FILES:
                yield backend, 'depends', desc, state
                yield backend, 'depends', lst(desc), [state, state]


def mixed_cases(tier):
    """All leaf types side by side, each filled or empty."""
    fields = {'f%d' % i: d for i, d in enumerate(values.LEAVES)}
    desc = comp(fields)
    keys = list(fields)
    full = {k: values.two(d)[0] for k, d in fields.items()}
    for missing in range(len(keys) + 1):
        for combo in itertools.combinations(keys, missing):
            if 2 < missing < len(keys) - 1:
                continue
            state = {k: None if k in combo else v for k, v in full.items()}
            for backend in sut.FILES:
                yield backend, 'mixed', desc, state


# --------------------------------------------------- limits of the formats

class Refused(Exception):
    """The backend does not accept the value."""


def exact(value):
    """Like model.canon, but with all attributes of times and dtypes."""
    if isinstance(value, dict):
        return tuple((k, exact(value[k])) for k in sorted(value))
    if isinstance(value, list):
        return tuple(exact(v) for v in value)
    more = ()
    if isinstance(value, (np.ndarray, np.generic)):
        more = (value.dtype.str, value.dtype.kind)
        if value.dtype.char in 'gG':        # the bytes include padding
            return value.shape, tuple(repr(x) for x in value.ravel()), more
    elif isinstance(value, (dt.datetime, dt.time)):
        more = (repr(value.tzinfo), value.fold)
    return model.canon(value), more


def without_zone(value):
    """The value without the parts that known findings are about."""
    if isinstance(value, dict):
        return {k: without_zone(v) for k, v in value.items()}
    if isinstance(value, list):
        return [without_zone(v) for v in value]
    if isinstance(value, (dt.datetime, dt.time)):
        return value.replace(tzinfo=None, fold=0)
    return value


def only_dates(value):
    if isinstance(value, dict):
        return {k: only_dates(v) for k, v in value.items()}
    if isinstance(value, list):
        return [only_dates(v) for v in value]
    return value.date() if isinstance(value, dt.datetime) else value


def plain(value):
    """The value with the same elements, but without array subclasses."""
    if isinstance(value, dict):
        return {k: plain(v) for k, v in value.items()}
    if isinstance(value, list):
        return [plain(v) for v in value]
    if isinstance(value, np.ndarray) and not np.ma.is_masked(value):
        return np.asarray(value)
    return value


def run_odd(case, ctx):
    """Data is stored exactly or refused, but never silently changed."""
    import dsch
    backend, kind, desc, state = case
    try:
        storage = sut.create(ctx, backend, desc)
        sut.fill(storage.data, desc, state)
        storage.save()
        copy = sut.snapshot(ctx, storage)
    except Exception as err:
        ctx.outcome('refused: ' + type(err).__name__)
        return
    ctx.step(2)
    ctx.state((backend, model.short(desc), exact(state)))
    ctx.outcome('stored')
    try:
        got = sut.observe(dsch.load(copy, backend).data, desc)
    except dsch.exceptions.DschError as err:
        if kind == 'dtype' and backend == 'mat':
            ctx.finding('mat-array-dtypes', '%s cannot be loaded: %s' %
                        (model.short(desc), err))
        raise
    if exact(got) == exact(state):
        return
    if kind == 'subclass' and exact(got) == exact(plain(state)):
        return
    what = 'saved %s, loaded %s' % (model.short(state), model.short(got))
    if kind == 'zone' and exact(got) == exact(without_zone(state)):
        ctx.finding('time-zone', what)
    if kind == 'date' and exact(got) == exact(only_dates(state)):
        ctx.finding('date-time-of-day', what)
    if kind == 'dtype' and backend == 'mat':
        ctx.finding('mat-array-dtypes', what)
    raise Violation(what)


ODD_STRINGS = ['\0', 'a\0', '\0a', 'a\0b', 'a\0b\0', '\0\0', 'a\ud800',
               '\udfff', '\ud83d\ude00', 'a \0', '\n\0', '\x00\x01',
               'x' * 300 + '\0', '\U0010ffff', '\ufffe', '\x85', '\u200b']
ODD_NAMES = ['a.b', 'a.', '.a', '.', '..', '', '_', '_a', '__a__', '_schema',
             '1', '1a', 'a b', ' a', 'a ', 'a/b', '/a', 'a/', 'a[0]', 'a-b',
             '\xe4', 'a\n', 'a\0', '*', 'x' * 63, 'x' * 64, 'y' * 300, 'A.B.C',
             '__header__', '__version__', '__globals__', '_schema.npy', 'a.npy',
             'data.x', 'item_0.x', '"', "'", '\\', '%', 'a:b', 'dsch_schema',
             '\u4e2d', '\U0001f600', 'a;b', 'a=b', '-']
ODD_DTYPES = ['>i4', '>i2', '>u8', '>f4', '>f8', '>f2', '>c8', '>c16', 'S3',
              'U3', 'V4', 'longdouble', 'clongdouble', 'datetime64[s]',
              'datetime64[D]', 'timedelta64[ms]', '<i4', '|b1', 'int', 'float',
              'complex', 'q', 'l', 'intc', 'single', 'half', 'f', 'd']
MAT_DTYPES = ('S3', 'U3', 'V4', 'longdouble', 'clongdouble', 'datetime64[s]',
              'datetime64[D]', 'timedelta64[ms]')


def odd_cases(tier):
    zone = dt.timezone(dt.timedelta(hours=-3, minutes=30))
    for value in ODD_STRINGS:
        for _, d, s in values.contexts(values.STRING, value):
            for backend in sut.FILES:
                yield backend, 'string', d, s
    for desc, vals in (
            (values.DATETIME, [dt.datetime(2001, 2, 3, 4, 5, 6, 7, tzinfo=z,
                                           fold=f)
                               for z in (None, dt.timezone.utc, zone)
                               for f in (0, 1)]),
            (values.TIME, [dt.time(1, 2, 3, 4, tzinfo=z, fold=f)
                           for z in (None, dt.timezone.utc, zone)
                           for f in (0, 1)])):
        for value in vals:
            for ctxname, d, s in values.contexts(desc, value):
                if ctxname in ('top', 'field', 'items', 'list_comp'):
                    for backend in sut.FILES:
                        yield backend, 'zone', d, s
    for value in values.DATETIMES:
        for ctxname, d, s in values.contexts(values.DATE, value):
            if ctxname in ('top', 'field', 'items', 'list_comp'):
                for backend in sut.FILES:
                    yield backend, 'date', d, s
    for name in ODD_NAMES:
        for d, s in (
                (comp({name: values.STRING}), {name: 'v'}),
                (comp({name: values.A1, 'a': values.BOOL}),
                 {name: np.arange(2, dtype='int32'), 'a': True}),
                (comp({'x': values.BOOL, name: lst(values.I32)}),
                 {'x': None, name: [np.int32(4), None]}),
                (comp({'c': comp({name: comp({'y': values.BOOL})})}),
                 {'c': {name: {'y': True}}}),
                (lst(comp({name: values.BOOL, 'z': values.BOOL})),
                 [{name: True, 'z': None}, {name: None, 'z': False}])):
            for backend in sut.FILES:
                yield backend, 'name', d, s
    for dtype in ODD_DTYPES:
        for shape in ((), (3,), (2, 2), (0,), (1, 1, 2)):
            desc = leaf('Array', dtype=dtype, ndim=len(shape))
            size = int(np.prod(shape))
            if np.dtype(dtype).kind == 'V':
                value = np.frombuffer(bytes(range(4 * size)), 'V4')
                value = value.reshape(shape)
            elif np.dtype(dtype).kind in 'SU':
                value = np.array(['a', 'bc', '', 'def'][:size] or [],
                                 dtype=dtype).reshape(shape)
            else:
                value = (np.arange(1, size + 1).astype(dtype)
                         .reshape(shape))
                if np.dtype(dtype).kind in 'fc':
                    value = value / np.array(3, dtype=dtype)
                    value = np.array(value, dtype=dtype)
            kind = 'dtype' if dtype in MAT_DTYPES else 'order'
            for d, s in ((desc, value), (comp({'x': desc}), {'x': value}),
                         (lst(desc), [value, None])):
                for backend in sut.FILES:
                    yield backend, kind, d, s
    for dtype in ('longdouble', 'clongdouble', 'int', 'float', 'complex'):
        desc = leaf('Scalar', dtype=dtype)
        value = np.dtype(dtype).type(1)
        if np.dtype(dtype).kind != 'i':
            value = value / np.dtype(dtype).type(3)
        for d, s in ((desc, value), (lst(desc), [None, value])):
            for backend in sut.FILES:
                yield backend, 'dtype' if 'long' in dtype else 'order', d, s
    # Array subclasses: what distinguishes them is lost, but not the elements.
    for dtype in ('int32', 'float64', 'bool', 'uint8', 'complex64'):
        base = values.array_of(dtype, (2, 3))
        for value in (
                np.ma.array(base), np.ma.array(base, mask=base == base[0, 0]),
                np.ma.array(base[0], mask=[False, False, True]),
                np.ma.array(base[0], mask=[True, True, True]),
                np.ma.array(base[0], fill_value=1),
                np.ma.array(base[0, 0], mask=True),
                np.matrix(base), base.view(np.recarray),
                np.rec.array(base[1])):
            desc = leaf('Array', dtype=dtype, ndim=value.ndim)
            for d, s in ((desc, value), (comp({'x': desc}), {'x': value}),
                         (lst(desc), [value, None])):
                for backend in sut.FILES:
                    yield backend, 'subclass', d, s


def spaces(tier):
    def space(name, gen):
        return Space(name, lambda: gen(tier), run,
                     lambda c: '%s %s schema=%s data=%s' % (
                         c[0], c[1], model.short(c[2]), model.short(c[3])))
    return [space('values', value_cases), space('trees', tree_cases),
            space('replace', replace_cases), space('arrays', array_cases),
            space('special_arrays', array_special_cases),
            space('lengths', length_cases), space('sizes', size_cases),
            space('names', name_cases),
            space('mixed', mixed_cases), space('configs', config_cases),
            Space('odd', lambda: odd_cases(tier), run_odd,
                  lambda c: ' '.join(model.short(i) for i in c))]
