"""C07: copies are exact, independent and only made between equal schemas."""
import itertools
import os

import numpy as np

from .. import model, sut, values
from ..core import Skip, Space, Violation
from ..model import comp, leaf, lst
from .c06 import pair_set

LEVEL = 'model_checking'
BOUNDS = ('all 4 x 4 backend pairs x {create_from, save_as, load_from} x '
          'filled/empty states of 13 tree shapes with lists of length 0 or 2 '
          '(at most 300 per shape, in quick every 7th of those of the larger '
          'shapes and 4 of the 16 pairs for non-boundary states) x {new, loaded, never saved} source x 4 earlier contents of '
          'the target; after each copy every node of each side is changed in '
          'turn; load_from between all pairs of nodes of a schema that '
          'contains equal and different sub-schemas; every value of the '
          'alphabets of all kinds and dtypes, arrays also non-contiguous, '
          'copied over every chain of three backends (quick: a third); load_from between all '
          'ordered pairs of a set of schemas that differ in single options, new '
          'or loaded (quick: one of the 4 combinations; all for equal ones); '
          'schemas with four sets of options')
ASSUMPTIONS = ['a schema does not contain itself']


def source_world(ctx, backend, desc, state, loaded):
    world = sut.world_in_state(ctx, backend, desc, state,
                               loaded is True and backend != 'inmem')
    if backend != 'inmem' and loaded is False:
        world.storage.save(force=True)
    return world


def copy(ctx, method, src, dst_backend, before):
    """Copy the whole storage; return the target's world."""
    import dsch
    desc = src.desc
    path = sut.new_path(ctx, dst_backend)
    if method == 'save_as':
        storage = src.storage.save_as(path)
    elif method == 'create_from':
        storage = dsch.create_from(path, src.storage)
    elif method == 'backend':
        if dst_backend == 'inmem':
            storage = src.storage.save_as(path, 'inmem')
        else:
            storage = dsch.create_from(ctx.path('.x'), src.storage,
                                       backend=dst_backend)
    else:
        storage = sut.create(ctx, dst_backend, desc, path)
        sut.fill(storage.data, desc, before)
        if method == 'load_from_loaded' and dst_backend != 'inmem':
            storage = sut.reload(ctx, storage)
        storage.data.load_from(src.storage.data)
    world = sut.World.__new__(sut.World)
    world.ctx, world.desc, world.backend = ctx, desc, dst_backend
    world.storage, world.state = storage, src.state
    return world


def run(case, ctx):
    src_backend, dst_backend, method, desc, state, loaded, before = case
    src = source_world(ctx, src_backend, desc, state, loaded)
    src_bytes = src_path = None
    if src_backend != 'inmem':
        src_path = src.storage.storage_path
        if src_backend != 'hdf5' or loaded != 'unsaved':
            src_bytes = sut.file_bytes(src_path)
    dst = copy(ctx, method, src, dst_backend, before)
    ctx.step()
    if src_path is not None:
        if src.storage.storage_path != src_path:
            raise Violation('copying has changed the path of the source')
        if dst_backend != 'inmem' and os.path.abspath(
                dst.storage.storage_path) == os.path.abspath(src_path):
            raise Violation('source and target use the same path')
        if src_bytes is None and src_backend != 'hdf5' and \
                os.path.exists(src_path):
            raise Violation('copying has created the source file')
    dst.check('copy')
    src.check('source after copying')
    if dst.storage.schema_hash() != model.to_hash(desc):
        raise Violation('the copy has a different schema')
    if src_bytes is not None and \
            sut.file_bytes(src.storage.storage_path) != src_bytes:
        raise Violation('copying has changed the source file')
    ctx.state((src_backend, dst_backend, model.canon(state)))
    # Independence, in both directions.
    for one, other in ((src, dst), (dst, src)):
        ops = sut.mutations(desc, one.state)
        for idx, op in enumerate(ops):
            try:
                one.apply(op)
            except sut.Skip:
                continue
            if len(ops) > 60 and idx % 8:
                continue
            model.same(sut.observe(other.storage.data, desc), other.state,
                       'other side after %r' % (op,))
        one.check('after modifications')
        other.check('after modifications of the other side')
    src.check_reloaded('source')
    dst.check_reloaded('target')


SHAPES = [(values.A1, values.STRING), (values.BYTES_, values.A2)]


def cases(tier):
    pairs = list(itertools.product(sut.ALL, repeat=2))
    for p, q in SHAPES:
        for desc in list(values.shapes(p, q)):
            states = list(itertools.islice(
                model.fills(desc, values.one, (0, 2)), 0, 300))
            if len(states) > 40 and tier == 'quick':
                # Deeper trees: boundary states and every 7th other one.
                states = [states[0], states[1], states[-1]] + states[2:-1:7]
            full = model.full(desc, lambda d: values.two(d)[1], 3)
            for idx, state in enumerate(states):
                for src, dst in pairs:
                    if (tier == 'quick' and idx > 1 and state is not
                            states[-1] and (sut.ALL.index(src) + idx) % 4 !=
                            sut.ALL.index(dst)):
                        continue
                    for loaded in (False, True, 'unsaved'):
                        if loaded == 'unsaved' and idx not in (0, 1, 5):
                            continue
                        if loaded and src == 'inmem':
                            continue
                        yield src, dst, 'save_as', desc, state, loaded, None
                    yield src, dst, 'load_from', desc, state, False, full
                    yield (src, dst, 'load_from_loaded', desc, state, True,
                           full)
            for src, dst in pairs:
                for method in ('create_from', 'backend'):
                    for state in (full, states[0]):
                        yield src, dst, method, desc, state, False, None


def leaf_cases():
    """Every value at the top and inside, between all backends."""
    for desc in values.LEAVES + [leaf('Date', set_on_create=True),
                                 leaf('DateTime', set_on_create=True),
                                 leaf('Time', set_on_create=True)]:
        vals = values.two(desc) + [None]
        for ctxname, d, s in (('top', desc, v) for v in vals):
            for src, dst in itertools.product(sut.ALL, repeat=2):
                for method in ('save_as', 'create_from', 'load_from'):
                    for before in vals if method == 'load_from' else vals[:1]:
                        yield src, dst, method, d, s, False, before
        for d, s in ((lst(desc), [vals[0], None]),
                     (comp({'x': desc, 'y': desc}),
                      {'x': None, 'y': vals[1]})):
            for src, dst in itertools.product(sut.ALL, repeat=2):
                yield src, dst, 'save_as', d, s, False, None


def config_cases(tier):
    """The options of the schema do not change what is copied."""
    n = 0
    for desc, state in values.config_states(4 if tier == 'quick' else 40):
        for src, dst in itertools.product(sut.ALL, repeat=2):
            n += 1
            if tier == 'quick' and n % 3:
                continue
            loaded = n % 2 and src != 'inmem'
            yield (src, dst, ('save_as', 'create_from', 'backend')[n // 3 % 3],
                   desc, state, loaded, None)
            full = model.full(desc, lambda d: values.two(d)[1], 2)
            yield src, dst, 'load_from', desc, state, loaded, full


def long_cases():
    """Lists with more than ten items and wide compilations."""
    item = comp({'n': values.I32, 'l': lst(values.STRING)})
    desc = comp({'l': lst(item), 'a': values.A1})
    state = {'l': [{'n': np.int32(i), 'l': [str(j) for j in range(i % 13)]}
                   if i % 5 else {'n': None, 'l': []}
                   for i in range(23)],
             'a': np.arange(5, dtype='int32')}
    short = {'l': [{'n': np.int32(7), 'l': ['x'] * 12}] * 2, 'a': None}
    for src, dst in itertools.product(sut.ALL, repeat=2):
        for a, b in ((state, short), (short, state)):
            for method in ('save_as', 'load_from', 'load_from_loaded'):
                yield src, dst, method, desc, a, method[-1] == 'd', b


# Invalid data is copied as well, copying does not validate.
def invalid_cases():
    for desc, state in (
            (leaf('String', max_length=1), 'too long'),
            (lst(values.BOOL, max_length=1), [True, False, None]),
            (comp({'s': leaf('Bytes', min_length=3), 'x': values.I32}),
             {'s': b'a', 'x': np.int32(1)}),
            (comp({'x': leaf('Scalar', dtype='int32', max_value=0)}),
             {'x': np.int32(1)}),
            (comp({'t': values.A1, 'a': leaf('Array', dtype='int32',
                                             depends_on='t')}),
             {'t': np.zeros(2, 'int32'), 'a': np.zeros(3, 'int32')})):
        for src, dst in itertools.product(sut.ALL, repeat=2):
            for method in ('save_as', 'create_from'):
                yield src, dst, method, desc, state, False, None


# Every value survives being copied between all backends, twice.
def run_value(case, ctx):
    import dsch
    backends, desc, value = case
    first = sut.create(ctx, backends[0], desc)
    try:
        sut.fill(first.data, desc, value)
    except ValueError:
        raise Skip()    # text that this backend cannot represent
    model.same(sut.observe(first.data, desc), value, 'source')
    stores = [first]
    for backend in backends[1:]:
        path = sut.new_path(ctx, backend)
        try:
            if backend == backends[0]:
                store = dsch.create(path, model.build(desc))
                store.data.load_from(stores[-1].data)
            else:
                store = stores[-1].save_as(path)
        except ValueError:
            model.same(sut.observe(stores[-1].data, desc), value, 'source')
            raise Skip()
        stores.append(store)
        ctx.step()
    for store, backend in zip(stores, backends):
        model.same(sut.observe(store.data, desc), value, backend)
    for store, backend in zip(stores, backends):
        if backend != 'inmem':
            model.same(sut.observe(sut.reload(ctx, store).data, desc), value,
                       backend + ' after load')
            ctx.step()
    ctx.state((backends, model.canon(value)))


def value_cases(tier):
    descs = [(d, v) for d in values.LEAVES + [leaf('Scalar', dtype=t)
                                              for t in values.DTYPES]
             for v in values.leaf_values(d)]
    for t in values.DTYPES + ['bool']:
        special = values.special_array(t)
        descs.append((leaf('Array', dtype=t), special))
        descs.append((leaf('Array', dtype=t), special[::-2]))
        grid = values.array_of(t, (2, 3))
        for item in (grid, np.asfortranarray(grid), grid[:, ::-1], grid[:0],
                     grid[:, 1:], np.broadcast_to(grid[:1], (2, 3))):
            descs.append((leaf('Array', dtype=t, ndim=2), item))
        descs.append((leaf('Array', dtype=t, ndim=0), special[0:1].reshape(())
                      ))
    chains = [(a, b, c) for a, b, c in itertools.product(sut.ALL, repeat=3)
              if b != a or tier != 'quick']
    for n, (desc, value) in enumerate(descs):
        for k, chain in enumerate(chains):
            if tier == 'quick' and (n + k) % 3:
                continue
            yield chain, desc, value


# ------------------------------------------------------- between nodes

MANY = comp({
    'a': values.A1, 'b': values.A1,
    'a2': leaf('Array', dtype='int32', unit='V'),
    'l': lst(values.A1), 'm': lst(values.A1),
    'k': lst(values.A1, max_length=9),
    'c': comp({'a': values.A1, 's': values.STRING}),
    'd': comp({'a': values.A1, 's': values.STRING}),
    'e': comp({'a': values.A1, 's': values.STRING}, optionals=['s']),
    'n': lst(comp({'a': values.A1, 's': values.STRING}))})


def many_state():
    arr = values.array_of
    return {'a': arr('int32', (2,)), 'b': None, 'a2': arr('int32', (4,), 5),
            'l': [arr('int32', (1,), 3), None],
            'm': [arr('int32', (3,), 4)] * 3, 'k': [],
            'c': {'a': arr('int32', (5,), 6), 's': None},
            'd': {'a': None, 's': 'd'},
            'e': {'a': arr('int32', (2,), 8), 's': 'e'},
            'n': [{'a': arr('int32', (2,), 9), 's': 'n'},
                  {'a': None, 's': None}]}


def related(a, b):
    return a[:len(b)] == b or b[:len(a)] == a


def run_nodes(case, ctx):
    import dsch
    src_backend, dst_backend, from_path, to_path = case
    state = many_state()
    src = sut.world_in_state(ctx, src_backend, MANY, state)
    if dst_backend is None:
        dst = src
    else:
        dst = sut.world_in_state(ctx, dst_backend, MANY, state)
    sdesc, sstate = model.lookup(MANY, state, from_path)
    ddesc, _ = model.lookup(MANY, state, to_path)
    compatible = model.to_json(sdesc) == model.to_json(ddesc)
    source = sut.node_at(src.storage.data, from_path)
    target = sut.node_at(dst.storage.data, to_path)
    ctx.step()
    try:
        target.load_from(source)
    except dsch.exceptions.IncompatibleNodesError:
        if compatible:
            raise Violation('copy between equal schemas refused')
    else:
        if not compatible:
            raise Violation('copy between different schemas accepted')
        dst.state = model.update(MANY, dst.state, to_path,
                                 lambda d, s: sstate)
    dst.check('target')
    src.check('source')
    ctx.state((src_backend, dst_backend, from_path, to_path))
    if compatible:
        # Change the source below from_path, then the target below to_path.
        for world, base, node in ((src, from_path, sstate),
                                  (dst, to_path, sstate)):
            for name, path, arg in sut.mutations(sdesc, node):
                try:
                    world.apply((name, base + path, arg))
                except sut.Skip:
                    continue
                for w in {id(src): src, id(dst): dst}.values():
                    model.same(sut.observe(w.storage.data, MANY), w.state,
                               'after %r' % ((name, base + path),))
    dst.check_reloaded('target')
    if dst is not src:
        src.check_reloaded('source')


def node_cases(tier):
    paths = [p for p, d, s in model.nodes(MANY, many_state())]
    for n, (a, b) in enumerate(itertools.product(paths, repeat=2)):
        for backend in sut.ALL:
            if a == b or not related(a, b):
                yield backend, None, a, b
        for k, (src, dst) in enumerate(itertools.product(sut.ALL, repeat=2)):
            if tier == 'quick' and a != b and (k + n) % 8:
                continue
            yield src, dst, a, b


# ------------------------------------------------------- incompatible

def run_incompatible(case, ctx):
    import dsch
    i, j, a, b, src_backend, dst_backend, origin = case
    # Schemas from files have lists instead of tuples, for example.
    load = dsch.schema.node_from_json
    src = sut.create(ctx, src_backend, load(model.to_json(a))
                     if origin in ('source', 'both') else a)
    dst = sut.create(ctx, dst_backend, load(model.to_json(b))
                     if origin in ('target', 'both') else b)
    sdata, ddata = (next(some_state(a)), next(some_state(b)))
    sut.fill(src.data, a, sdata)
    sut.fill(dst.data, b, ddata)
    ctx.step()
    try:
        dst.data.load_from(src.data)
    except dsch.exceptions.IncompatibleNodesError:
        if i == j:
            raise Violation('copy between equal schemas refused')
        sut.check_node(dst.data, b, ddata, 'target of refused copy')
    else:
        if i != j:
            raise Violation('copied from %s to %s' % (model.to_json(a),
                                                      model.to_json(b)))
        sut.check_node(dst.data, b, sdata, 'target')
    sut.check_node(src.data, a, sdata, 'source')
    ctx.state((i, j, src_backend, dst_backend))


def some_state(desc):
    """One non-empty state of any schema (values need not be valid)."""
    def build(d):
        if d[0] == 'Comp':
            return {k: build(x) for k, x in d[1].items()}
        if d[0] == 'List':
            return [build(d[1]), model.empty(d[1])]
        if d[0] == 'Array':
            cfg = model.config_of(d)
            shape = tuple(n or 2 for n in (
                cfg['max_shape'] or cfg['min_shape'] or
                (2,) * cfg['ndim']))
            return values.array_of(cfg['dtype'], shape)
        return values.two(d)[0]
    yield build(desc)


def incompatible_cases(tier):
    schemas = pair_set('quick')
    combos = list(itertools.product(sut.ALL, repeat=2))
    for (i, a), (j, b) in itertools.product(enumerate(schemas), repeat=2):
        picks = ([('inmem', 'inmem')] + [combos[(i * 7 + j) % 16]]
                 if tier == 'quick' else combos)
        for k, (src, dst) in enumerate(picks):
            for n, origin in enumerate(('new', 'source', 'target', 'both')):
                if i == j or tier != 'quick' or (i + j + k + n) % 4 == 0:
                    yield i, j, a, b, src, dst, origin


def describe(case):
    return ' '.join(model.short(c, 500) for c in case)


def spaces(tier):
    return [
        Space('storages', lambda: cases(tier), run, describe),
        Space('leaves', leaf_cases, run, describe),
        Space('values', lambda: value_cases(tier), run_value, describe),
        Space('configs', lambda: config_cases(tier), run, describe),
        Space('long', long_cases, run, describe),
        Space('invalid', invalid_cases, run, describe),
        Space('nodes', lambda: node_cases(tier), run_nodes, describe),
        Space('incompatible', lambda: incompatible_cases(tier),
              run_incompatible, describe)]
