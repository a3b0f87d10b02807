"""C12: the file layout is stable and readable without dsch."""
import itertools

import numpy as np

from .. import layout, model, sut, values
from ..core import Skip, Space, Violation, close_hdf5
from ..model import comp, leaf, lst

LEVEL = 'model_checking'
BOUNDS = ('every value of the per-type alphabets at 4 tree positions, every '
          'dtype x rank 0-3 x sizes 0-3, every filled/empty state of 13 tree '
          'shapes with lists of length 0-2, lists of up to 101 items, 48 '
          'field names; each file written by dsch is decoded by an '
          'independent reader (h5py, zipfile + NumPy, SciPy) that accounts '
          'for every object in it, and files encoded by an independent '
          'writer in 4-6 variants per format (entry order, compression, '
          'chunking, older versions) are loaded by dsch; the quick tier runs '
          'each tree state on one of the three backends and 1-2 variants, '
          'alternately; schemas with four sets of options')
ASSUMPTIONS = ['files of older versions contain no empty list items (they '
               'could not be loaded then either)']


def run(case, ctx):
    import dsch
    backend, desc, state, variants = case
    # Written by dsch, read without it.
    storage = sut.create(ctx, backend, desc)
    sut.fill(storage.data, desc, state)
    storage.save()
    compare(ctx, backend, storage, desc, state, 'saved')
    loaded = dsch.load(sut.snapshot(ctx, storage))
    loaded.save()
    compare(ctx, backend, loaded, desc, state, 'saved again')
    ctx.step(2)
    ctx.state((backend, model.canon(state)))
    # Written without dsch, read by it.
    for variant in variants:
        if variant == 'old' and layout.has_gap(desc, state):
            continue
        path = ctx.path(sut.EXT[backend])
        layout.ENCODE[backend](path, desc, state, variant)
        loaded = dsch.load(path)
        what = 'file in layout variant %r' % variant
        if loaded.schema_node.to_json() != model.to_json(desc):
            raise Violation('%s: wrong schema' % what)
        sut.check_node(loaded.data, desc, state, what)
        ctx.step()
        if variant in ('old', 'reversed', 'compressed'):
            loaded.save()
            again = dsch.load(sut.snapshot(ctx, loaded))
            sut.check_node(again.data, desc, state, what + ', saved')
            ctx.step()


def compare(ctx, backend, storage, desc, state, what):
    got = layout.DECODE[backend](sut.snapshot(ctx, storage))
    exp = layout.EXPECTED[backend](desc, state)
    # An empty list may have a length attribute or not.
    for key, item in exp.items():
        if item == ('group', {'dsch_length': 0}) and \
                got.get(key) == ('group', {}):
            got[key] = item
    if got == exp:
        return
    if set(got) != set(exp):
        raise Violation('%s: file contains %r, expected %r' % (
            what, sorted(set(got) - set(exp)), sorted(set(exp) - set(got))))
    for key in exp:
        if got[key] != exp[key]:
            raise Violation('%s: %r is %s, expected %s' % (
                what, key, model.short(got[key], 1000),
                model.short(exp[key], 1000)))


def variants(backend, n, tier):
    names = layout.VARIANTS[backend]
    if tier != 'quick':
        return names
    return (names[n % len(names)], names[(n // len(names) + 1) % len(names)])


def value_cases(tier):
    leaves = [values.BOOL, values.BYTES_, values.STRING, values.DATE,
              values.TIME, values.DATETIME]
    leaves += [leaf('Scalar', dtype=d) for d in values.DTYPES]
    n = 0
    for desc in leaves:
        for value in values.leaf_values(desc):
            for name, d, s in values.contexts(desc, value):
                if name in ('top', 'fields', 'items_gap', 'list_comp'):
                    if name != 'top' and tier == 'quick' and \
                            desc[0] == 'Scalar':
                        continue
                    for backend in sut.FILES:
                        n += 1
                        yield backend, d, s, variants(backend, n, tier)


def array_cases(tier):
    n = 0
    for ndim, shape in values.arrays(3, (0, 1, 2, 3)):
        for dtype in ['bool'] + values.DTYPES:
            if tier == 'quick' and ndim == 3 and dtype not in (
                    'bool', 'int32', 'float16', 'complex128'):
                continue
            desc = leaf('Array', dtype=dtype, ndim=ndim)
            value = values.array_of(dtype, shape)
            for backend in sut.FILES:
                n += 1
                yield backend, desc, value, variants(backend, n, tier)
                yield (backend, lst(comp({'x': desc})), [{'x': value}],
                       variants(backend, n + 1, tier))


def tree_cases(tier):
    n = 0
    for p, q in ((values.BOOL, values.STRING), (values.A1, values.BYTES_),
                 (values.DATE, values.F64)):
        for desc in values.shapes(p, q):
            for k, state in enumerate(itertools.islice(model.fills(
                    desc, values.one, (0, 1, 2)), 4000)):
                for b, backend in enumerate(sut.FILES):
                    if tier == 'quick' and k > 20 and (k + b) % 3:
                        continue
                    n += 1
                    names = variants(backend, n, tier)
                    if tier == 'quick':
                        names = names[:1]
                    yield backend, desc, state, names


def config_cases(tier):
    """The layout does not depend on the options of the schema."""
    n = 0
    for desc, state in values.config_states(6 if tier == 'quick' else 60):
        for backend in sut.FILES:
            n += 1
            names = variants(backend, n, tier)
            yield backend, desc, state, names


def misc_cases(tier):
    n = 0
    for name in values.NAMES:
        for desc, state in (
                (comp({name: values.STRING}), {name: 'v'}),
                (comp({name: lst(values.I32), 'o': comp({name: values.BOOL})}),
                 {name: [np.int32(4)], 'o': {name: False}})):
            if name in ('file', 'allow_pickle'):
                names = {'npz': ('zip', 'reversed')}
            else:
                names = {}
            for backend in sut.FILES:
                n += 1
                yield (backend, desc, state, names.get(
                    backend, variants(backend, n, tier)))
    for count in list(range(8, 14)) + [20, 99, 101]:
        for desc, state in (
                (lst(values.I32), [np.int32(i) for i in range(count)]),
                (comp({'l': lst(comp({'s': values.STRING}))}),
                 {'l': [{'s': 's%d' % i} for i in range(count)]}),
                (lst(values.STRING), [None if i % 3 else 'x'
                                      for i in range(count)])):
            for backend in sut.FILES:
                n += 1
                yield backend, desc, state, layout.VARIANTS[backend]
    fields = {'f%d' % i: d for i, d in enumerate(values.LEAVES)}
    full = {k: values.two(d)[0] for k, d in fields.items()}
    for k in [None] + list(fields):
        state = {f: None if f == k else v for f, v in full.items()}
        only = {f: v if f == k else None for f, v in full.items()}
        for backend in sut.FILES:
            for s in (state, only):
                yield backend, comp(fields), s, layout.VARIANTS[backend]
    # The schema is stored as it is.
    for desc, state in (
            (leaf('Scalar', dtype='float32', unit='\u00b5V', min_value=-1.5,
                  max_value=1e10), np.float32(2)),
            (leaf('Array', dtype='int64', max_shape=(None, 3), unit='"'),
             np.zeros((2, 3), 'int64')),
            (leaf('String', min_length=1, max_length=300), '\u20ac' * 3),
            (comp({'t': values.A1, 'a': leaf('Array', dtype='int32',
                                             depends_on='t')},
                  optionals=['t', 'a']),
             {'t': np.zeros(2, 'int32'), 'a': np.ones(2, 'int32')}),
            (lst(leaf('Date', set_on_create=True), min_length=0,
                 max_length=3), [values.DATES[0], None])):
        for backend in sut.FILES:
            yield backend, desc, state, layout.VARIANTS[backend]


# ----------------------------------------- after histories of operations

def run_history(case, ctx):
    """The layout does not depend on how the state was reached."""
    backend, desc, state, reload = case
    world = sut.world_in_state(ctx, backend, desc, state, reload)
    for op in sut.mutations(desc, state):
        try:
            world.apply(op)
        except Skip:
            continue
        world.storage.save(force=True)
        compare(ctx, backend, world.storage, desc, world.state,
                'after %r' % (op,))
    ctx.state((backend, model.canon(state), reload))


def history_cases(tier):
    for p, q in ((values.STRING, values.A1), (values.BYTES_, values.I32)):
        for desc in values.shapes(p, q):
            for k, state in enumerate(itertools.islice(
                    model.fills(desc, values.one, (0, 2)), 60)):
                for b, backend in enumerate(sut.FILES):
                    if tier == 'quick' and (k + b) % 3:
                        continue
                    yield backend, desc, state, bool(k % 2)


def describe(case):
    return '%s %s %s %s' % (case[0], model.short(case[1]),
                            model.short(case[2], 600), case[3])


def spaces(tier):
    return [Space('values', lambda: value_cases(tier), run, describe),
            Space('arrays', lambda: array_cases(tier), run, describe),
            Space('trees', lambda: tree_cases(tier), run, describe),
            Space('configs', lambda: config_cases(tier), run, describe),
            Space('misc', lambda: misc_cases(tier), run, describe),
            Space('histories', lambda: history_cases(tier), run_history,
                  describe)]
