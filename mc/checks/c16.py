"""C16: reading, inspecting, validating and copying out change nothing."""
import gc
import itertools
import os

import numpy as np

from .. import layout, model, sut, values
from ..core import Skip, Space, Violation, close_hdf5
from ..model import comp, leaf, lst

LEVEL = 'model_checking'
BOUNDS = ('sequences of up to 2 (quick: every second pair; thorough: all) '
          'of 20-27 read operations per node (value, parts, flags, trees, '
          'printing, hash, iteration, failing lookups, validation, copying out, ...) on 32 trees and states x '
          'all backends x {new, saved, loaded}, each followed by modifying '
          'operations, save and load; one walk over all sequences of 3 read '
          'operations per storage (quick: on 22 trees); all sequences of 3 '
          '(quick: a quarter of them; thorough: 4) '
          'ways of loading and dropping a file; foreign: files written '
          'without dsch in every variant of the layout, all single ways of '
          'loading and all pairs with one of 4')
ASSUMPTIONS = ['arrays that are handed out are not modified by the caller']


def norm(result):
    """Comparable form of the result of a read operation."""
    if isinstance(result, np.ndarray):
        return ('array', model.canon(result))
    if isinstance(result, (dict, list, tuple)):
        return model.canon(result)
    if type(result).__module__.startswith('dsch'):
        return 'node'
    if hasattr(result, '__array__') or isinstance(result, np.generic):
        return model.canon(np.asarray(result)[()])
    return repr(result)


def attempt(func):
    try:
        return 'ok', norm(func())
    except Exception as err:
        return 'error', type(err).__name__


def scribble(tree):
    """Change the containers of an exported tree, which belong to the
    caller."""
    if isinstance(tree, dict):
        for sub in tree.values():
            scribble(sub)
        tree.clear()
        tree['scribble'] = 1
    elif isinstance(tree, list):
        for sub in tree:
            scribble(sub)
        tree[:] = ['scribble'] * 3


def exported(func):
    tree = func()
    result = norm(tree)
    scribble(tree)
    return result


def copied(world, node, desc, backend):
    """Copy the node out into another storage."""
    other = sut.create(world.ctx, backend, desc)
    other.data.load_from(node)
    return other.data.data_tree(include_empty=True)


def saved_as(world, backend):
    other = world.storage.save_as(sut.new_path(world.ctx, backend))
    return other.data.data_tree(include_empty=True)


def pseudo(world, node, desc):
    import dsch
    with dsch.PseudoStorage(node, model.build(desc)) as store:
        return store.data.data_tree(include_empty=True)


def foreign(world, node, desc):
    """Copying into a node with another schema must fail."""
    other = sut.create(world.ctx, 'inmem', lst(lst(desc)))
    other.data.load_from(node)


COMMON = {
    'empty': lambda w, n, d: n.empty,
    'complete': lambda w, n, d: n.complete,
    'tree': lambda w, n, d: exported(n.data_tree),
    'tree_full': lambda w, n, d: exported(lambda: n.data_tree(True)),
    'node_tree': lambda w, n, d: exported(n.node_tree),
    'repr': lambda w, n, d: repr(n),
    'str': lambda w, n, d: str(n),
    'validate': lambda w, n, d: n.validate(),
    'hash': lambda w, n, d: hash(n) == hash(n),
    'eq': lambda w, n, d: (n == n, n != n, n == 5),
    'bool': lambda w, n, d: bool(n),
    'dir': lambda w, n, d: sorted(dir(n)),
    'parent': lambda w, n, d: n.parent is None,
    'schema': lambda w, n, d: (n.schema_node.to_json(),
                               n.schema_node.hash()),
    'missing': lambda w, n, d: n.no_such_field,
    'copied': lambda w, n, d: exported(lambda: copied(w, n, d, 'inmem')),
    'foreign': foreign,
}
MORE = {
    'copied_npz': lambda w, n, d: copied(w, n, d, 'npz'),
    'copied_hdf5': lambda w, n, d: copied(w, n, d, 'hdf5'),
    'pseudo': pseudo,
}
LEAF = {'value': lambda w, n, d: n.value}
ARRAY = {
    'all': lambda w, n, d: n[...],
    'unit': lambda w, n, d: n[()],
    'first': lambda w, n, d: n[0],
    'last': lambda w, n, d: n[-1],
    'step': lambda w, n, d: n[::2],
    'outside': lambda w, n, d: n[99],
    'array': lambda w, n, d: np.array(n.value) * 2,
}
LIST = {
    'len': lambda w, n, d: len(n),
    'iter': lambda w, n, d: [i.empty for i in n],
    'first': lambda w, n, d: n[0].empty,
    'last': lambda w, n, d: n[-1].empty,
    'slice': lambda w, n, d: len(n[0:2]),
    'outside': lambda w, n, d: n[99],
    'in': lambda w, n, d: n in n,
    'reversed': lambda w, n, d: [i.empty for i in reversed(n)],
}
COMP = {'fields': lambda w, n, d: [getattr(n, k).empty for k in d[1]],
        'has': lambda w, n, d: 'value' in dir(n)}
STORAGE = {
    's_validate': lambda w, n, d: w.storage.validate(),
    's_complete': lambda w, n, d: w.storage.complete,
    's_hash': lambda w, n, d: w.storage.schema_hash(),
    's_repr': lambda w, n, d: (repr(w.storage), str(w.storage)) and None,
    's_inmem': lambda w, n, d: saved_as(w, 'inmem'),
    's_npz': lambda w, n, d: saved_as(w, 'npz'),
    's_hdf5': lambda w, n, d: saved_as(w, 'hdf5'),
    's_mat': lambda w, n, d: saved_as(w, 'mat'),
    's_drop': lambda w, n, d: gc.collect() * 0,
}


def catalogue(desc, state, tier):
    """All read operations (name, path, function) in a state."""
    out = []
    for path, d, s in model.nodes(desc, state):
        table = dict(COMMON)
        if len(path) < 2:
            table.update(MORE)
        if model.is_leaf(d):
            table.update(LEAF)
            if d[0] == 'Array':
                table.update(ARRAY)
        else:
            table.update(LIST if d[0] == 'List' else COMP)
        out += [(name, path, func, d) for name, func in table.items()]
    out += [(name, (), func, desc) for name, func in STORAGE.items()]
    return out


def perform(world, read):
    name, path, func, desc = read
    world.ctx.step()
    return attempt(lambda: func(world, sut.node_at(world.storage.data, path),
                                desc))


def content_of(path):
    content = sut.file_bytes(path)
    if content and path.endswith('.h5'):
        # Set by the HDF5 library while the file is open for writing.
        content = content[:20] + b'-' + content[21:]
    return content


def start(ctx, backend, desc, state, how):
    """Storage in the given state: new, saved or loaded."""
    import dsch
    world = sut.world_in_state(ctx, backend, desc, state)
    if how != 'new':
        world.storage.save(force=True)
    if how == 'loaded':
        path = world.storage.storage_path
        world.storage = None
        gc.collect()
        before = content_of(path)
        world.storage = dsch.load(path, force=True)
    world.json = world.storage.schema_node.to_json()
    world.path = (None if backend == 'inmem' or how == 'new'
                  else world.storage.storage_path)
    world.bytes = content_of(world.path) if world.path else None
    # The HDF5 library may reserve space at the end while the file is open.
    world.closed = before if how == 'loaded' else world.bytes
    return world


def unchanged(world, what):
    world.check(what)
    if world.storage.schema_node.to_json() != world.json:
        raise Violation('%s: schema has changed' % what)
    if world.path and content_of(world.path) != world.bytes:
        raise Violation('%s: file has changed' % what)
    if world.backend in ('npz', 'mat') and not world.path and \
            os.path.exists(world.storage.storage_path):
        raise Violation('%s: file has been created' % what)


def stamped(desc):
    if desc[0] == 'Comp':
        return any(stamped(d) for d in desc[1].values())
    return stamped(desc[1]) if desc[0] == 'List' else \
        bool(desc[1].get('set_on_create'))


def mutations(desc, state):
    """Modifying operations with predictable results."""
    return [op for op in sut.mutations(desc, state)
            if op[0] != 'app' or not stamped(desc)]


def behaves(world, ops, what):
    """The storage can be modified and saved as if nothing had been read."""
    for op in ops:
        try:
            world.apply(op)
        except Skip:
            continue
        world.check('%s, %r' % (what, op))
    world.check_reloaded(what + ', modified, saved and loaded')


def dropped(world, what):
    """Drop the storage without saving: the file is still the same."""
    import dsch
    if not world.path:
        return
    path, desc, state = world.path, world.desc, world.state
    world.storage = None
    close_hdf5()
    if content_of(path) != world.closed:
        raise Violation('%s, dropped: file has changed' % what)
    loaded = dsch.load(path, force=True)
    sut.check_node(loaded.data, desc, state, what + ', dropped and loaded')


def run_sequences(case, ctx):
    backend, desc, state, how, index = case
    reads = catalogue(desc, state, ctx.tier)
    if index >= len(reads):
        raise Skip()
    first = reads[index]
    # The results that the operations have on their own.
    world = start(ctx, backend, desc, state, how)
    alone = {index: perform(world, first)}
    what = '%s%r' % first[:2]
    unchanged(world, what)
    behaves(world, mutations(desc, state), what)
    world = start(ctx, backend, desc, state, how)
    perform(world, first)
    dropped(world, what)
    # Pairs, all of them on one storage, since nothing may change at all.
    world = start(ctx, backend, desc, state, how)
    if perform(world, first) != alone[index]:
        raise Violation('%s: different result in another storage' % what)
    for n, second in enumerate(reads):
        if ctx.tier == 'quick' and (n + index) % 2:
            continue
        twin = perform(world, second)
        if perform(world, first) != alone[index]:
            raise Violation('%s: different result after %s%r' %
                            ((what,) + second[:2]))
        if perform(world, second) != twin:
            raise Violation('%s%r: different result after %s' %
                            (second[:2] + (what,)))
        if len(second[1]) == 0 or n % 12 == index % 12:
            unchanged(world, '%s, %s%r' % ((what,) + second[:2]))
    unchanged(world, what + ' and all others')
    behaves(world, mutations(desc, state), what + ' and all others')
    ctx.state((backend, model.canon(desc), model.canon(state), how, index))


def run_pairs(case, ctx):
    """Each pair of operations on a storage of its own."""
    backend, desc, state, how, index, part = case
    reads = catalogue(desc, state, ctx.tier)
    if index >= len(reads):
        raise Skip()
    ops = mutations(desc, state)
    first = reads[index]
    for n, second in enumerate(reads):
        if part is not None and (n + index) % 24 != part:
            continue
        world = start(ctx, backend, desc, state, how)
        what = '%s%r, %s%r' % (first[:2] + second[:2])
        perform(world, first)
        perform(world, second)
        unchanged(world, what)
        i = (n + index) % len(ops)
        behaves(world, ops[i:] + ops[:i], what)
        ctx.state((backend, model.canon(desc), model.canon(state), how,
                   index, n))


def run_walk(case, ctx):
    """One storage, on which every sequence of 3 read operations occurs."""
    backend, desc, state, how, part, parts = case
    world = start(ctx, backend, desc, state, how)
    reads = [r for r in catalogue(desc, state, ctx.tier)
             if not r[0].startswith(('s_', 'copied_', 'str', 'hash', 'eq',
                                     'bool', 'dir', 'parent'))]
    alone = [perform(world, r) for r in reads]
    for a in range(part, len(reads), parts):
        for b in range(len(reads)):
            for c in range(len(reads)):
                for i in (a, b, c):
                    if perform(world, reads[i]) != alone[i]:
                        raise Violation(
                            '%s%r: different result after %s%r and others' %
                            (reads[i][:2] + reads[a][:2]))
        unchanged(world, 'walk')
    behaves(world, mutations(desc, state), 'walk')
    ctx.state(case[:5])


def trees():
    """(schema, state) pairs."""
    p, q, r = values.STRING, values.A1, values.DATETIME
    for d in (values.A1, values.BYTES_, values.TIME, values.STRING,
              values.I32, leaf('Array', dtype='float32', ndim=2),
              values.BOOL, values.DATE):
        yield d, values.two(d)[0]
    yield p, None
    yield q, None
    # Invalid and incomplete data can be inspected as well.
    bounded = leaf('String', min_length=3)
    yield bounded, 'a'
    yield lst(bounded, min_length=2), ['abc']
    yield comp({'a': bounded, 'b': q}, optionals=['b']), \
        {'a': 'a', 'b': None}
    dep = comp({'x': leaf('Array', dtype='int32'),
                'y': leaf('Array', dtype='float64', depends_on=['x'])})
    yield dep, {'x': values.array_of('int32', (3,)),
                'y': values.array_of('float64', (3,))}
    yield dep, {'x': values.array_of('int32', (3,)),
                'y': values.array_of('float64', (2,))}
    stamp = leaf('DateTime', set_on_create=True)
    yield comp({'t': stamp, 'l': lst(stamp)}), \
        {'t': values.DATETIMES[0], 'l': [None, values.DATETIMES[1]]}
    yield comp({'t': stamp, 'l': lst(stamp)}), {'t': None, 'l': []}
    yield comp({'a': p, 'b': q}), {'a': None, 'b': None}
    yield comp({'a': p, 'b': q}), {'a': 'a', 'b': values.two(q)[0]}
    yield lst(p), ['a', None, '']
    yield lst(q), []
    yield lst(lst(r)), [[], [None, values.two(r)[0]]]
    d = comp({'l': lst(comp({'a': q})), 'x': p})
    yield d, {'l': [{'a': values.two(q)[0]}, {'a': None}], 'x': 'x'}
    yield comp({'c': comp({'l': lst(p)}), 'z': values.BYTES_}), \
        {'c': {'l': ['b']}, 'z': b''}
    # Arrays of another rank or dtype, kept by some backends only.
    for dtype, shape in (('float64', (3,)), ('float64', (1,)),
                         ('float64', (1, 2, 1)), ('float64', ()),
                         ('int8', (2, 2))):
        d = leaf('Array', dtype='float64', ndim=2, max_shape=(2, 2))
        yield d, values.array_of(dtype, shape)
    yield comp({'x': leaf('Array', dtype='int32', ndim=1),
                'y': leaf('Array', dtype='float32', ndim=1,
                          depends_on=['x'])}), \
        {'x': values.array_of('int64', (2,)),
         'y': values.array_of('float32', (2, 2))}
    yield leaf('Scalar', dtype='int32', max_value=3), np.int32(7)
    yield leaf('Bytes', max_length=2), b'abc'


def usable(desc, state, backend):
    """Whether the backend keeps such data."""
    return backend in ('inmem', 'npz') or not any(
        s is not None and d[0] == 'Array' and
        (s.ndim != d[1].get('ndim', 1) or s.dtype != np.dtype(d[1]['dtype']))
        for _, d, s in model.nodes(desc, state))


HOWS = [('inmem', 'new')] + [(b, h) for b in sut.FILES
                             for h in ('new', 'saved', 'loaded')]


def sequence_cases(tier):
    for n, (desc, state) in enumerate(trees()):
        for b, (backend, how) in enumerate(HOWS):
            if not usable(desc, state, backend) or \
                    tier == 'quick' and how == 'saved' and n % 2:
                continue
            for index in range(len(catalogue(desc, state, tier))):
                yield backend, desc, state, how, index


def pair_cases(tier):
    for n, (desc, state) in enumerate(trees()):
        for b, (backend, how) in enumerate(HOWS):
            if how == 'saved' or not usable(desc, state, backend):
                continue
            for index in range(len(catalogue(desc, state, tier))):
                yield backend, desc, state, how, index, \
                    (n * 7 + b) % 24 if tier == 'quick' else None


def walk_cases(tier):
    parts = 6
    for n, (desc, state) in enumerate(trees()):
        for b, (backend, how) in enumerate(HOWS):
            if not usable(desc, state, backend) or \
                    tier == 'quick' and (14 <= n < 24 or how == 'saved' or
                                         (n + b) % 2):
                continue
            for part in range(parts):
                if tier == 'quick' and part != n % parts:
                    continue
                yield backend, desc, state, how, part, parts


# ------------------------------------------------------------- loading

def use(storage):
    storage.complete
    storage.data.data_tree(include_empty=True)
    repr(storage.data)
    try:
        storage.validate()
    except Exception:
        pass


def loads(desc):
    """Ways to load a file: name -> function(ctx, path)."""
    import dsch
    good, other = model.to_hash(desc), '0' * 64
    schema = lambda: model.build(desc)
    wrong = lambda: model.build(lst(lst(desc)))

    def pseudo(ctx, path, schema, **kwargs):
        # It is not closed, because this would save the data again.
        store = dsch.PseudoStorage(path, schema, True, **kwargs)
        store.open()
        use(store.storage)

    def source(ctx, path, backend):
        dsch.load(path, force=True).save_as(sut.new_path(ctx, backend))

    def incompatible(ctx, path):
        target = sut.create(ctx, 'inmem', lst(lst(desc)))
        target.data.load_from(dsch.load(path, force=True).data)

    return {
        'load': lambda ctx, p: dsch.load(p),
        'force': lambda ctx, p: use(dsch.load(p, force=True)),
        'schema': lambda ctx, p: use(dsch.load(p, required_schema=schema(),
                                               force=True)),
        'hash': lambda ctx, p: dsch.load(p, required_schema_hash=good),
        'wrong': lambda ctx, p: dsch.load(p, required_schema=wrong()),
        'wronghash': lambda ctx, p: dsch.load(p, required_schema_hash=other,
                                              force=True),
        'pseudo': lambda ctx, p: pseudo(ctx, p, schema()),
        'pseudowrong': lambda ctx, p: pseudo(ctx, p, wrong()),
        'asinmem': lambda ctx, p: source(ctx, p, 'inmem'),
        'asnpz': lambda ctx, p: source(ctx, p, 'npz'),
        'ashdf5': lambda ctx, p: source(ctx, p, 'hdf5'),
        'incompatible': incompatible,
        'createover': lambda ctx, p: dsch.create(p, wrong()),
        'badbackend': lambda ctx, p: dsch.load(p, backend='nosuch'),
    }


NAMES = ['load', 'force', 'schema', 'hash', 'wrong', 'wronghash', 'pseudo',
         'pseudowrong', 'asinmem', 'asnpz', 'ashdf5', 'incompatible',
         'createover', 'badbackend']


def compare(ctx, path, content, variant, seq):
    """The file must not have changed; returns its content."""
    now = content_of(path)
    if now != content:
        what = '%s: file has changed' % (seq,)
        # The data still has to be the same, see below.
        if variant != 'sparse':
            raise Violation(what)
        ctx.finding('hdf5-missing-groups-created', what)
    return now


def run_loading(case, ctx):
    """Load a file in some ways, drop it each time; nothing changes."""
    import dsch
    backend, desc, state, seqs = case
    backend, _, variant = backend.partition(' ')
    if variant:
        path = ctx.path(sut.EXT[backend])
        layout.ENCODE[backend](path, desc, state, variant)
    else:
        world = sut.world_in_state(ctx, backend, desc, state)
        world.storage.save(force=True)
        path = world.storage.storage_path
        world.storage = None
    close_hdf5()
    content = content_of(path)
    table = loads(desc)
    for seq in seqs:
        for name in seq:
            ctx.step()
            try:
                table[name](ctx, path)
                ctx.outcome(name + ' ok')
            except Exception as err:
                ctx.outcome(name + ' ' + type(err).__name__)
                err.__traceback__ = None
            err = None
            if backend == 'hdf5':
                gc.collect()
            content = compare(ctx, path, content, variant, seq)
        names = sorted(os.listdir(ctx.dir))
        for name in names:
            if name != os.path.basename(path):
                if not name.startswith('f'):
                    raise Violation('%s has been created' % name)
                os.unlink(os.path.join(ctx.dir, name))
        close_hdf5()
        content = compare(ctx, path, content, variant, seq)
        loaded = dsch.load(path, force=True)
        sut.check_node(loaded.data, desc, state, 'after %s' % (seq,))
        loaded = None
        ctx.state((backend, model.canon(state), seq))


def loading_cases(tier):
    depth = 3 if tier == 'quick' else 4
    for n, (desc, state) in enumerate(trees()):
        for b, backend in enumerate(sut.FILES):
            if not usable(desc, state, backend):
                continue
            for m, first in enumerate(NAMES):
                if tier == 'quick' and (m + n + b) % 4:
                    continue
                seqs = [(first,) + rest for rest in
                        itertools.product(NAMES, repeat=depth - 1)]
                if tier == 'quick':
                    seqs = [s for i, s in enumerate(seqs)
                            if sum(map(NAMES.index, s)) % 4 == n % 4]
                yield backend, desc, state, seqs


def foreign_cases(tier):
    """Files that were written without dsch or by earlier versions."""
    seqs = [(a,) for a in NAMES] + [(a, b) for a in NAMES for b in
                                    ('load', 'force', 'pseudo', 'ashdf5')]
    for desc, state in trees():
        for backend in sut.FILES:
            if not usable(desc, state, backend):
                continue
            for variant in layout.VARIANTS[backend]:
                if variant == 'old' and layout.has_gap(desc, state):
                    continue
                yield backend + ' ' + variant, desc, state, seqs


def describe(case):
    return ' '.join(model.short(c, 300) for c in case)


def spaces(tier):
    return [Space('sequences', lambda: sequence_cases(tier), run_sequences,
                  describe),
            Space('pairs', lambda: pair_cases(tier), run_pairs, describe),
            Space('walk', lambda: walk_cases(tier), run_walk, describe),
            Space('foreign', lambda: foreign_cases(tier), run_loading,
                  describe),
            Space('loading', lambda: loading_cases(tier), run_loading,
                  describe)]
