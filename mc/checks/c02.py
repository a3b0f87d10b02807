"""C02: operation histories behave like plain nested values."""
import datetime as dt
import itertools

import numpy as np

from .. import model, sut, values
from ..core import Skip, Space, Violation
from ..model import comp, leaf, lst
from ..values import (A1, A2, AB, BOOL, BYTES_, DATE, DATETIME, F64, I32,
                      STRING, TIME)

LEVEL = 'model_checking'
BOUNDS = ('all operation histories over per-schema alphabets of 6-20 '
          'operations up to depth 3 (leaves, lists; quick) / 4 (thorough), '
          'depth 2/3 for nested schemas, from several initial states, on all '
          'four backends, incl. save, reload and backend migration as '
          'operations; lists that already have up to 101 items; arrays within 124 combinations '
          'of shape limits; schemas with all kinds of options; up to 246 keys for '
          'parts of arrays and lists; arrays of 8 '
          'non-conforming dtypes and shapes on inmem and '
          'npz')
ASSUMPTIONS = ['assigned arrays have the dtype of the schema and respect its '
               'maximum shape except on inmem and npz (hdf5 casts / rejects others on assignment)',
               'the caller does not keep and modify arrays it has assigned']


def s(path, value):
    return ('set', path, value)


def r(path, value):
    return ('rep', path, value)


def leaf_alphabet(desc):
    """Operations on a single leaf at the top level."""
    vals = {
        'Bool': [True, False],
        'Bytes': [b'ab', b'a\0', b'', b'long value'],
        'String': ['a', '', '\u00e4\u20ac long', ' '],
        'Date': [values.DATES[0], dt.date(1, 1, 1)],
        'Time': [values.TIMES[0], dt.time(0)],
        'DateTime': [values.DATETIMES[0], dt.datetime(1, 1, 1)],
        'Scalar': [5, 0, np.float64(2.0)],
    }[desc[0]]
    ops = [s((), v) for v in vals[:2]] + [r((), v) for v in vals[2:]]
    ops += [('clr', (), None), ('reload', (), None), ('save', (), None),
            ('loadfrom', (), model.stored(desc, vals[-1])),
            ('loadfrom', (), None)]
    return ops


def array_alphabet(desc):
    ndim = desc[1].get('ndim', 1)
    dtype = desc[1]['dtype']
    v = [values.array_of(dtype, sh, i + 1) for i, sh in enumerate(
        [(3,) * ndim, (2,) * ndim, (0,) * ndim])]
    val = v[0].ravel()[2]
    ops = [s((), v[0]), r((), v[1]), s((), v[2]),
           ('rsz', (), (4,) * ndim), ('rsz', (), (1,) * ndim),
           ('seti', (), (slice(None), val)), ('clr', (), None),
           ('reload', (), None), ('loadfrom', (), v[1])]
    if ndim == 1:
        ops += [('seti', (), (0, val)), ('seti', (), (slice(1, 3), val)),
                ('rsz', (), (0,))]
    else:
        ops += [('seti', (), ((0, 1), val)), ('rsz', (), (2, 5)),
                ('seti', (), ((slice(None), 0), val)), ('rsz', (), (5, 2))]
    return ops


def list_alphabet(item):
    a, b = values.two(item)
    return [('app', (), a), ('app', (), b), ('app', (), None),
            r((), [b, a]), r((), []), r((), [None, a, None]),
            s((0,), b), r((1,), a), ('clr', (0,), None),
            ('clr', (1,), None), ('clr', (), None), ('reload', (), None),
            ('loadfrom', (), [a, None, b]), ('loadfrom', (), []),
            ('copyfrom', (0,), (1,))]


COMP = comp({'a': STRING, 'b': A1, 'c': comp({'x': BOOL, 'y': BYTES_}),
             'l': lst(I32)}, optionals=['b'])


def comp_alphabet():
    arr = values.array_of('int32', (2,))
    return [s(('a',), 'x'), r(('a',), 'long'), ('clr', ('a',), None),
            s(('b',), arr), ('rsz', ('b',), (3,)), ('clr', ('b',), None),
            r((), {'a': 'y', 'c': {'x': False}}), r((), {}),
            r(('c',), {'y': b'q'}), s(('c', 'x'), True),
            ('clr', ('c',), None), ('clr', (), None),
            ('app', ('l',), 3), ('app', ('l',), None),
            r(('l',), [1, 2]), ('clr', ('l',), None),
            s(('l', 0), 9), ('reload', (), None), ('save', (), None),
            ('loadfrom', ('c',), {'x': None, 'y': b'z'}),
            ('loadfrom', (), {'a': None, 'b': arr, 'c': {
                'x': True, 'y': None}, 'l': [np.int32(8), None]})]


LC = lst(comp({'x': STRING, 'l': lst(BOOL)}))


def list_comp_alphabet():
    return [('app', (), None), ('app', (), {'x': 'n'}),
            ('app', (), {'l': [True, False]}),
            r((), [{'x': 'q', 'l': [True]}, {}]), r((), []),
            s((0, 'x'), 'z'), ('clr', (0, 'x'), None),
            ('app', (0, 'l'), True), ('app', (1, 'l'), None),
            ('clr', (1, 'l'), None), ('clr', (0,), None),
            ('clr', (1,), None), ('clr', (), None),
            s((0, 'l', 0), False), ('reload', (), None),
            ('copyfrom', (1,), (0,)),
            ('loadfrom', (0,), {'x': None, 'l': [None, True]})]


LL = lst(lst(BYTES_))


def list_list_alphabet():
    return [('app', (), None), ('app', (), [b'a\0', b'']),
            ('app', (0,), b'q'), ('app', (1,), None), ('app', (0,), None),
            r((), [[b'x'], []]), r((0,), [b'1', b'22', b'333']),
            r((0,), []), s((0, 0), b'zz'), ('clr', (0, 1), None),
            ('clr', (0,), None), ('clr', (1,), None), ('clr', (), None),
            ('reload', (), None), ('copyfrom', (0,), (1,))]


CL = comp({'m': lst(comp({'v': A2, 't': TIME}, optionals=['t'])),
           'd': DATETIME})


def comp_list_alphabet():
    arr = values.array_of('float64', (2, 2))
    return [('app', ('m',), None), ('app', ('m',), {'v': arr}),
            s(('m', 0, 'v'), arr), ('rsz', ('m', 0, 'v'), (3, 1)),
            ('seti', ('m', 0, 'v'), ((slice(None), 0), 7.5)),
            s(('m', 1, 't'), dt.time(4)), ('clr', ('m', 0), None),
            ('clr', ('m',), None), r(('m',), [{'t': dt.time(1)}, {'v': arr}]),
            s(('d',), dt.datetime(2020, 1, 1)), ('clr', (), None),
            ('reload', (), None), ('save', (), None),
            r((), {'m': [], 'd': dt.datetime(2000, 1, 1)})]


def run(case, ctx):
    backend, desc, init, ops = case
    world = sut.World(ctx, backend, desc)
    for op in init:
        world.apply(op)
    for op in ops:
        world.apply(op)
    world.check('after the history')
    world.note()
    world.check_reloaded()
    world.check_reloaded('after second save and load')


def describe(case):
    return '%s %s init=%s ops=%s' % (
        case[0], model.short(case[1]), model.short(case[2]),
        model.short(case[3], 600))


def histories(desc, alphabet, depth, inits=((),), backends=sut.ALL):
    """All histories up to depth, shortest first."""
    for n in range(depth + 1):
        for init in inits:
            for ops in itertools.product(alphabet, repeat=n):
                names = [o[0] for o in ops]
                # Two reloads or saves in a row are covered by the final
                # checks of the shorter history.
                if any(a == b and a in ('reload', 'save')
                       for a, b in zip(names, names[1:])):
                    continue
                for backend in backends:
                    if backend == 'inmem' and (
                            'reload' in names or 'save' in names):
                        continue
                    yield backend, desc, init, ops


def misfit_cases(tier):
    """Arrays that do not conform to the schema are kept as they are."""
    for desc in (A1, A2, leaf('Array', dtype='float64', min_shape=(2, 2),
                              max_shape=(2, 2)),
                 leaf('Array', dtype='bool', max_shape=(3,), min_value=0)):
        arrays = [values.array_of(dtype, shape) for dtype, shape in (
            ('float64', (2,)), ('float64', (2, 2)), ('int32', ()),
            ('int8', (3,)), ('float32', (1, 2, 1)), ('int64', (0,)),
            ('bool', (2, 1)))] + [np.array(['a', 'bcd', ''])]
        ops = [s((), a) for a in arrays] + [
            ('seti', (), (Ellipsis, 1)), ('rsz', (), (3,)),
            ('rsz', (), (3, 1)), ('clr', (), None), ('reload', (), None),
            ('loadfrom', (), arrays[2]), ('loadfrom', (), arrays[3]),
            ('hop', (), 'inmem'), ('hop', (), 'npz')]
        for case in histories(desc, ops, 2 if tier == 'quick' else 3,
                              backends=('inmem', 'npz')):
            yield case


def hop_cases(tier):
    """Histories across backend migrations."""
    hops = [('hop', (), b) for b in sut.ALL] + [('reload', (), None)]
    for desc, alphabet, picks in (
            (COMP, comp_alphabet(), (0, 2, 3, 6, 9, 12, 13, 15)),
            (LC, list_comp_alphabet(), (0, 2, 3, 6, 8, 11)),
            (LL, list_list_alphabet(), (1, 3, 5, 9)),
            (CL, comp_list_alphabet(), (0, 1, 3, 5, 7))):
        ops = [alphabet[i] for i in picks]
        pre = [alphabet[i] for i in picks[1:4]]
        for h1, h2 in itertools.product(hops, repeat=2):
            for a in pre:
                for b in ops:
                    for start in sut.ALL:
                        if start == 'inmem' and h1[0] == 'reload':
                            continue
                        yield start, desc, (), (a, h1, b, h2)


def grown_cases(tier):
    """Histories that continue from lists with many items."""
    quick = tier == 'quick'
    for item in (I32, STRING, comp({'a': BOOL, 'l': lst(I32)}), lst(BYTES_),
                 A1):
        a, b = values.two(item) if item[0] not in ('List', 'Comp') \
            else (({'a': True, 'l': [1, None]}, {'l': [2]})
                  if item[0] == 'Comp' else ([b'q', None], [b'']))
        for n in (9, 10, 11, 23, 101):
            many = [(a, b, None)[i % 3] for i in range(n)]
            inits = [(r((), many),), (r((), many), ('reload', (), None)),
                     tuple(('app', (), v) for v in many)]
            ops = [('app', (), a), ('app', (), None), r((), many[2:]),
                   r((), many + [b]), r((n - 1,), b), r((1,), b),
                   ('clr', (n - 1,), None), ('clr', (n // 2,), None),
                   ('clr', (), None), ('copyfrom', (1,), (n - 1,)),
                   ('copyfrom', (n - 1,), (0,)), ('reload', (), None)]
            depth = 2 if n < 100 or not quick else 1
            if quick and item[0] in ('List', 'Comp', 'Array'):
                depth = 1
            for case in histories(lst(item), ops, depth, inits):
                yield case


def shape_cases(tier):
    """Arrays change their shape within all kinds of limits."""
    depth = 2 if tier == 'quick' else 3
    limits = {
        1: [None, (None,), (0,), (1,), (2,), (5,), (200,)],
        2: [None, (None, None), (None, 3), (2, None), (2, 3), (0, 0), (0, 3),
            (5, 200)],
        3: [None, (None, 2, None), (1, None, 3), (1, 2, 3), (4, 4, 4)]}
    shapes = {
        1: [(0,), (1,), (2,), (5,), (150,)],
        2: [(0, 0), (2, 3), (0, 3), (2, 1), (5, 3), (2, 150)],
        3: [(1, 2, 3), (4, 2, 3), (1, 2, 4), (0, 2, 0), (1, 1, 3)]}
    for ndim in (1, 2, 3):
        for low, high in itertools.product(limits[ndim], repeat=2):
            cfg = {'min_shape': low, 'max_shape': high}
            if not low and not high:
                cfg['ndim'] = ndim
            desc = leaf('Array', dtype='int32', **cfg)
            fit = [sh for sh in shapes[ndim]
                   if (not low or all(a is None or n >= a
                                      for a, n in zip(low, sh)))
                   and (not high or all(a is None or n <= a
                                        for a, n in zip(high, sh)))]
            ops = [s((), values.array_of('int32', sh, i + 1))
                   for i, sh in enumerate(fit)]
            # Completely fixed shapes cannot be resized on hdf5.
            if low != high or not low or None in low:
                ops += [('rsz', (), sh) for sh in fit]
            ops += [('reload', (), None), ('clr', (), None)]
            for case in histories(desc, ops, depth):
                yield case


# Keys for reading and changing parts of arrays and lists
INT_KEYS = [0, 1, 2, 3, 4, 7, -1, -2, -4, -5, np.int64(1)]
SLICE_KEYS = [slice(a, b, c) for a in (None, 0, 1, 3, -2) for b in (
    None, 0, 1, 2, 4, 9, -1) for c in (None, 1, 2, 3, -1, -2)]
MORE_KEYS = {
    0: [(), Ellipsis, (Ellipsis,)],
    1: [Ellipsis, (), (0,), (-1,), (slice(1, 3),), (Ellipsis, 1), [0, 2],
        [2, 0], [1], [1, 1], [-1], np.array([0, 3]),
        np.array([True, False, True, False]), [False] * 4, [True] * 4, [],
        (0, 0), 'x', None, 1.5],
    2: [Ellipsis, (), (0, 0), (1, 2), (-1, -1), (0, -3), (2, 0), (0, 3),
        (slice(None), 1), (1, slice(None)), (slice(0, 1), slice(1, 3)),
        (slice(None, None, 2), slice(None, None, 2)), (Ellipsis, 0),
        (0, Ellipsis), ([0, 1], 1), (slice(None), [0, 2]), [1, 0], [0],
        (slice(1, 1), slice(None)), (slice(None), -1), (0, 0, 0),
        np.array([[True, False, True], [False, False, True]]),
        np.array([True, False]), (1, slice(None, 2)), (slice(None), None)]}


def index_cases(tier):
    for backend in sut.ALL:
        for dtype in ('int32', 'float64', 'bool'):
            for ndim, shape in ((0, ()), (1, (4,)), (2, (2, 3)), (1, (0,)),
                                (2, (1, 1)), (2, (3, 0))):
                keys = MORE_KEYS[ndim] + (INT_KEYS + SLICE_KEYS
                                          if ndim else [])
                for k in range(len(keys)):
                    if tier == 'quick' and dtype != 'int32' and k % 3:
                        continue
                    for how in ('get', 'one', 'same', 'row'):
                        for loaded in (False, True):
                            if loaded and (backend == 'inmem' or
                                           dtype != 'int32'):
                                continue
                            yield (backend, dtype, shape, k, how, loaded)
        for item in ('Bool', 'List', 'Comp'):
            for size in (0, 1, 4):
                for k in range(len(INT_KEYS) + len(SLICE_KEYS)):
                    yield backend, item, (size,), k, 'list', False


def run_index(case, ctx):
    """Reading and changing parts behaves like NumPy and Python lists."""
    backend, kind, shape, k, how, loaded = case
    if how == 'list':
        run_list_index(case, ctx)
        return
    ndim = len(shape)
    desc = leaf('Array', dtype=kind, ndim=ndim)
    state = values.array_of(kind, shape)
    world = sut.World(ctx, backend, desc)
    world.apply(s((), state))
    if loaded:
        world.apply(('reload', (), None))
    key = (MORE_KEYS[ndim] + INT_KEYS + SLICE_KEYS)[k]
    node, expected = world.storage.data, state.copy()
    ctx.step()
    failed = None
    try:
        part = expected[key]
        if how != 'get':
            new = {'one': expected.dtype.type(1),
                   'same': np.array(np.ones_like(part)),
                   'row': np.ones(part.shape[-1:], dtype=kind)}[how]
            expected[key] = new
    except (IndexError, ValueError, TypeError, AttributeError) as err:
        failed = err
        expected = state
        new = np.ones((), dtype=kind)
    try:
        if how == 'get':
            got = node[key]
        else:
            node[key] = new
    except Exception as err:
        if failed is None and backend != 'hdf5':
            raise Violation('%s of [%r] raised %r' % (how, key, err))
        ctx.outcome('refused')
        expected = state    # not supported by h5py
    else:
        if failed is not None and backend != 'hdf5':
            raise Violation('%s of [%r] did not raise %r' % (
                how, key, failed))
        if failed is not None:
            raise Skip()    # h5py supports more
        if how == 'get':
            model.same(np.asarray(got), np.asarray(part), 'part %r' % (key,))
    world.state = expected
    world.check('after %s of [%r]' % (how, key))
    world.check_reloaded()
    world.note()


def run_list_index(case, ctx):
    backend, kind, (size,), k = case[:4]
    desc = lst({'Bool': BOOL, 'List': lst(I32),
                'Comp': comp({'a': STRING})}[kind])
    state = [{'Bool': i % 2 == 0, 'List': [np.int32(i)],
              'Comp': {'a': str(i)}}[kind] for i in range(size)]
    world = sut.World(ctx, backend, desc)
    sut.fill(world.storage.data, desc, state)
    world.state = state
    node = world.storage.data
    key = (INT_KEYS + SLICE_KEYS)[k]
    items = [node[i] for i in range(size)]
    ctx.step()
    if [x for x in node] != items or list(reversed(node)) != items[::-1]:
        raise Violation('iteration does not give the items')
    if any(x not in node for x in items) or None in node:
        raise Violation('"in" does not find the items')
    try:
        expected = items[key]
    except IndexError:
        try:
            node[key]
        except IndexError:
            pass
        else:
            raise Violation('[%r] did not raise' % (key,))
    else:
        got = node[key]
        if isinstance(key, slice):
            got = list(got)
            if len(got) != len(expected) or any(
                    a is not b for a, b in zip(got, expected)):
                raise Violation('[%r] does not give the items' % (key,))
        elif got is not expected:
            raise Violation('[%r] does not give the item' % (key,))
    world.check('after reading [%r]' % (key,))
    world.note()


def option_cases(tier):
    """Histories with schemas that have all kinds of options."""
    depth = 1 if tier == 'quick' else 2
    for desc, alphabet, init in (
            (COMP, comp_alphabet(), comp_alphabet()[-1]),
            (LC, list_comp_alphabet(),
             r((), [{'x': 'q', 'l': [True]}, {'x': 'r'}])),
            (LL, list_list_alphabet(), r((), [[b'a'], [b'b', b'c']])),
            (CL, comp_list_alphabet(), r((), [{'m': [{}, {}]}][0])),
            (A1, array_alphabet(A1), None), (A2, array_alphabet(A2), None),
            (lst(A1), list_alphabet(A1), None),
            (I32, leaf_alphabet(I32), None),
            (STRING, leaf_alphabet(STRING), None),
            (lst(BYTES_), list_alphabet(BYTES_), None)):
        inits = [()] + ([(init,), (init, ('reload', (), None))]
                        if init else [])
        for variant in (0, 1, 2, 3):
            for case in histories(
                    values.configured(desc, variant, stamps=False), alphabet,
                    depth + (init is None), inits):
                yield case


def spaces(tier):
    quick = tier == 'quick'
    out = []

    def add(name, desc, alphabet, depth, inits=((),)):
        if not quick:
            depth += 1
        out.append(Space(name, lambda: histories(desc, alphabet, depth,
                                                 inits), run, describe))
    for desc in (BOOL, BYTES_, STRING, DATE, TIME, DATETIME, I32):
        add('leaf_' + desc[0], desc, leaf_alphabet(desc), 3)
    add('array1', A1, array_alphabet(A1), 3)
    add('array2', A2, array_alphabet(A2), 2,
        ((), (s((), values.array_of('float64', (2, 3))),)))
    limited = leaf('Array', dtype='int16', min_shape=(0,), max_shape=(5,))
    add('array_limited', limited, array_alphabet(limited), 2)
    for item in (BOOL, STRING):
        add('list_' + item[0], lst(item), list_alphabet(item), 3)
    for item in (BYTES_, A1, I32, DATE):
        add('list_' + item[0], lst(item), list_alphabet(item), 2,
            ((), (r((), [values.two(item)[0]] * 3), ('reload', (), None))))
    full_comp = (('loadfrom', (), comp_alphabet()[-1][2]),)
    add('comp', COMP, comp_alphabet(), 2, ((), full_comp, full_comp + (
        ('reload', (), None),)))
    two_items = (r((), [{'x': 'q', 'l': [True]}, {'x': 'r'}]),)
    add('list_comp', LC, list_comp_alphabet(), 2, (
        (), two_items, two_items + (('reload', (), None),)))
    add('list_list', LL, list_list_alphabet(), 2, (
        (), (r((), [[b'a'], [b'b', b'c']]), ('reload', (), None))))
    add('comp_list', CL, comp_list_alphabet(), 2, (
        (), (comp_list_alphabet()[1], comp_list_alphabet()[1],
             ('reload', (), None))))
    out.append(Space('misfit', lambda: misfit_cases(tier), run, describe))
    out.append(Space('grown', lambda: grown_cases(tier), run, describe))
    out.append(Space('shapes', lambda: shape_cases(tier), run, describe))
    out.append(Space('index', lambda: index_cases(tier), run_index))
    out.append(Space('options', lambda: option_cases(tier), run, describe))
    out.append(Space('hops', lambda: hop_cases(tier), run, describe))
    return out
