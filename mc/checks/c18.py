"""C18: separate storages and nodes never affect each other."""
import atexit
import decimal
import gc
import itertools
import json
import locale
import os
import shutil
import signal
import sys
import threading
import time
import warnings

import numpy as np

from .. import core, model, sut, values
from ..core import Skip, Space, Violation
from ..model import comp, leaf, lst

LEVEL = 'model_checking'
BOUNDS = ('pairs: two storages of each of 16 tree shapes on each pair of '
          'backends, with one schema object or two, all modifying operations '
          'in alternation; histories: all sequences of up to 3 (thorough: 4) '
          'out of 13 operations on either of two storages; pseudo: all '
          'interleavings of two life cycles of 2 PseudoStorages; assign: one '
          'array assigned to two nodes in 6 ways at 6 pairs of positions, on '
          'all (pairs of) backends, then changed in one of them; calls: all '
          'pairs (thorough: triples) of 50 calls on one set of files or two '
          '(loading, PseudoStorage, copying; with matching and other schemas, '
          'valid and invalid data); process: all pairs (thorough: triples) '
          'of 21 succeeding and failing operations on each backend, after '
          'each of which the state of the process (working directory, '
          'environment, umask, signal handlers, settings of NumPy, warnings, '
          'open files...) is as before; threads: '
          'two threads with one storage each, every schedule with one '
          'preemption at any executed source line of dsch (thorough: and two '
          'preemptions at any two function entries; quick: one short script '
          'on two combinations of backends), scripts of 3-10 '
          'operations on 10 combinations of backends with the same schema '
          'object, equal ones or different ones (quick: 20 of 120 scripts and '
          'combinations, each source line at its first execution within an '
          'operation; thorough: at its first five)')
ASSUMPTIONS = ['threads are switched between source lines of dsch and not '
               'inside of the libraries it calls',
               'two storages do not use the same hdf5 file']


def schema_pair(desc_a, desc_b, shared):
    a = model.build(desc_a)
    return a, (a if shared else model.build(desc_b))


def check_schema(schema, desc, what):
    if schema.to_json() != model.to_json(desc):
        raise Violation('%s: the schema object has changed' % what)
    if model.build(desc).to_json() != model.to_json(desc):
        raise Violation('%s: new schema objects are different' % what)


# ------------------------------------------------------------ histories

def run_pairs(case, ctx):
    desc, backends, shared, states = case
    schemas = schema_pair(desc, desc, shared)
    worlds = [sut.World(ctx, b, desc, s) for b, s in zip(backends, schemas)]
    for world, other, state in zip(worlds, worlds[::-1], states):
        sut.fill(world.storage.data, desc, state)
        world.state = state
        world.check('filled')
        other.check('other one filled')
    queues = [list(sut.mutations(desc, s)) for s in states]
    turn = 0
    while queues[0] or queues[1]:
        turn = 1 - turn
        if not queues[turn]:
            continue
        world, other = worlds[turn], worlds[1 - turn]
        op = queues[turn].pop(0)
        try:
            world.apply(op)
        except Skip:
            continue
        world.check('after %r' % (op,))
        other.check('after %r on the other storage' % (op,))
    for world in worlds:
        world.check_reloaded()
        for other in worlds:
            other.check('after save and load')
    for s in schemas:
        check_schema(s, desc, 'pair')
    ctx.state((model.canon(desc), backends, shared, model.canon(states)))


def pair_cases(tier):
    p, q = values.STRING, values.A1
    descs = list(values.shapes(p, q)) + list(values.shapes(q, values.TIME))
    descs += [q, p, values.BYTES_, lst(values.BOOL)]
    for n, desc in enumerate(descs):
        full = model.full(desc, lambda d: values.two(d)[0], 1)
        full2 = model.full(desc, lambda d: values.two(d)[1], 2)
        none = model.empty(desc)
        for b, backends in enumerate(itertools.product(sut.ALL, repeat=2)):
            for shared in (True, False):
                for m, states in enumerate(((full, none), (full, full2),
                                            (full, full), (none, none))):
                    if tier == 'quick' and (n + b + m + shared) % 2:
                        continue
                    yield desc, backends, shared, states


D = comp({'a': values.A1, 'l': lst(comp({'s': values.STRING}))})
ARR = values.array_of('int32', (3,))
HISTORY_OPS = [
    ('set', ('a',), values.two(values.A1)[0]), ('set', ('a',), ARR),
    ('seti', ('a',), ((0,), 100)), ('rsz', ('a',), (4,)),
    ('app', ('l',), None), ('app', ('l',), {'s': 'x'}),
    ('set', ('l', 0, 's'), 'spam'), ('clr', ('l',), None), ('clr', (), None),
    ('rep', (), {'a': ARR, 'l': [{'s': 'y'}]}), ('reload', (), None),
    ('hop', (), 'npz'), ('other', (), None)]


def start_history(ctx, backends, shared):
    schemas = schema_pair(D, D, shared)
    worlds = [sut.World(ctx, b, D, s) for b, s in zip(backends, schemas)]
    state = {'a': values.two(values.A1)[1], 'l': [{'s': 'old'}]}
    sut.fill(worlds[0].storage.data, D, state)
    worlds[0].state = state
    return worlds, schemas


def run_history(case, ctx):
    backends, shared, seq = case
    worlds, schemas = start_history(ctx, backends, shared)
    kept = []
    for who, index in seq:
        op = HISTORY_OPS[index]
        world, other = worlds[who], worlds[1 - who]
        if op[0] == 'other':   # copy from the other storage
            world.storage.data.load_from(other.storage.data)
            world.state = other.state
            ctx.step()
        elif op[0] in ('reload', 'hop'):
            if op[0] == 'hop' and op[2] == world.backend:
                op = ('hop', (), 'inmem')
            old = world.storage
            kept.append((old, world.state))
            world.apply(op)
        else:
            world.apply(op)
        world.check('after %r' % (op,))
        other.check('after %r on the other storage' % (op,))
        for old, state in kept:
            sut.check_node(old.data, D, state, 'storage left behind')
    for world in worlds:
        world.check_reloaded()
    for world in worlds:
        world.check('in the end')
    for s in schemas:
        check_schema(s, D, 'history')
    ctx.state(case)


def history_cases(tier):
    steps = [(who, n) for who in (0, 1) for n in range(len(HISTORY_OPS))]
    pairs = list(itertools.product(sut.ALL, repeat=2))
    for depth in range(4 if tier == 'quick' else 5):
        for seq in itertools.product(range(len(steps)), repeat=depth):
            for n, (backends, shared) in enumerate(itertools.product(
                    pairs, (True, False))):
                if depth > 2 and (sum(seq) + seq[0] * 7 + n) % (
                        16 if depth == 3 and tier == 'quick' else
                        32 if depth == 4 else 1):
                    continue
                yield backends, shared, tuple(steps[i] for i in seq)


# --------------------------------------------------------------- assign

A_DESC = comp({'a': values.A1, 'b': values.A1, 'l': lst(values.A1),
               'c': comp({'a': values.A1}), 'o': leaf('Array', dtype='int32',
                                                      ndim=2)})
HOW = ('both', 'value', 'slice', 'tree', 'copy', 'item')


def assign(how, node, source, array):
    """Assign the data of one node to another one."""
    if how == 'both':
        node.value = array
    elif how == 'value':
        node.value = source.value
    elif how == 'slice':
        node.value = source[:]
    elif how == 'tree':
        node.replace(source.data_tree())
    elif how == 'item':
        node.replace(source[::1])
    else:
        node.load_from(source)


def run_assign(case, ctx):
    """One array is assigned to several nodes, then changed in one of them."""
    backends, how, nodes, op = case
    worlds = [sut.World(ctx, b, A_DESC) for b in backends]
    array = np.arange(3, dtype='int32')
    refs = []
    for n, (world, name) in enumerate(zip(worlds * 2, nodes)):
        data = world.storage.data
        if name == 'l':
            if n and how in ('value', 'slice', 'item'):
                data.l.append(source.value)
            else:
                data.l.append(array if n == 0 or how == 'both' else
                              source.data_tree())
            node = data.l[-1]
        elif name == 'r':
            data.replace({'c': {'a': array if n == 0 or how == 'both'
                                else source.value}})
            node = data.c.a
        else:
            node = getattr(data, name)
            if n == 0:
                node.value = array
            else:
                assign(how, node, source, array)
        if n == 0:
            source = node
        refs.append(node)
        ctx.step()
    expected = [np.arange(3, dtype='int32') for _ in refs]
    for who, node in enumerate(refs):
        if op == 'item':
            node[0] = 50 + who
            expected[who][0] = 50 + who
        elif op == 'all':
            node[...] = 60 + who
            expected[who][...] = 60 + who
        elif op == 'resize':
            node.resize((2,))
            expected[who] = expected[who][:2]
            node[1] = 70 + who
            expected[who][1] = 70 + who
        elif op == 'clear':
            node.clear()
            expected[who] = None
        else:
            node.value = np.array([who, 8], 'int32')
            node[1] = 80 + who
            expected[who] = np.array([who, 80 + who], 'int32')
        ctx.step()
        for other, exp in zip(refs, expected):
            model.same(sut.observe(other, values.A1), exp,
                       '%s %s: %s of node %d' % (backends, how, op, who))
        if op in ('item', 'all'):
            # The other ones still accept changes.
            refs[-1 - who][2] = 90 + who
            expected[-1 - who][2] = 90 + who
            for other, exp in zip(refs, expected):
                model.same(sut.observe(other, values.A1), exp, 'again')
    for world in worlds:
        if world.backend != 'inmem':
            sut.reload(ctx, world.storage)
    for other, exp in zip(refs, expected):
        model.same(sut.observe(other, values.A1), exp, 'after saving')
    ctx.state(case)


def assign_cases(tier):
    pairs = list(itertools.product(sut.ALL, repeat=2)) + [
        (b,) for b in sut.ALL]
    for backends in pairs:
        for how in HOW:
            for nodes in (('a', 'b'), ('a', 'l'), ('l', 'b'), ('l', 'l'),
                          ('r', 'a'), ('a', 'r')):
                for op in ('item', 'all', 'resize', 'clear', 'set'):
                    yield backends, how, nodes, op


# --------------------------------------------------------------- pseudo

def run_pseudo(case, ctx):
    """Two PseudoStorages used in turn: open, write, close, twice each."""
    import dsch
    kinds, order = case
    desc = D
    schema = model.build(desc)
    host = dsch.create('::inmem::', dsch.schema.Compilation(
        {'m': schema, 'o': schema}))
    targets = [ctx.path(sut.EXT[k]) if k in sut.EXT else
               (host.data.m, host.data.o)[n] for n, k in enumerate(kinds)]
    stores = [dsch.PseudoStorage(t, schema, defer_open=True)
              for t in targets]
    states = [model.empty(desc), model.empty(desc)]
    where = [0, 0]
    for who in order:
        store = stores[who]
        step = where[who] % 3
        if step == 0:
            store.open()
        elif step == 1:
            store.data.a.value = ARR + where[who] + 10 * who
            store.data.l.append({'s': '%d%d' % (who, where[who])})
            states[who] = {
                'a': ARR + where[who] + 10 * who,
                'l': states[who]['l'] + [{'s': '%d%d' % (who, where[who])}]}
        else:
            store.close()
        where[who] += 1
        ctx.step()
        for n in (0, 1):
            is_open = where[n] % 3 > 0
            if (stores[n].data is not None) != is_open:
                raise Violation('%r: PseudoStorage %d open: %r' %
                                (order, n, not is_open))
            if is_open:
                if stores[n].schema_node.to_json() != model.to_json(desc):
                    raise Violation('%r: wrong schema' % (order,))
                sut.check_node(stores[n].data, desc, states[n],
                               '%r: PseudoStorage %d' % (order, n))
            elif stores[n].storage is not None or \
                    stores[n].schema_node is not None:
                raise Violation('%r: PseudoStorage %d is not closed' %
                                (order, n))
    for n in (0, 1):
        if isinstance(targets[n], str):
            loaded = dsch.load(targets[n])
            sut.check_node(loaded.data, desc, states[n], 'file %d' % n)
        else:
            sut.check_node(targets[n], desc, states[n], 'node %d' % n)
    check_schema(schema, desc, 'pseudo')
    ctx.state(case)


def pseudo_cases(tier):
    life = [0] * 6
    orders = list(map(tuple, values.interleavings(life, [1] * 6)))
    kinds = list(itertools.product(('npz', 'hdf5', 'mat', 'node'), repeat=2))
    for i, order in enumerate(orders):
        for n, pair in enumerate(kinds):
            if tier == 'quick' and (i + n) % 4:
                continue
            yield pair, order


# ---------------------------------------------------------------- calls

C_DESC = comp({'a': leaf('Array', dtype='int32', max_value=80),
               's': leaf('String', min_length=2),
               'l': lst(comp({'x': values.F64}), max_length=2)})
C_ALT = comp({'a': values.A1, 'l': lst(comp({'x': values.F64}))},
             optionals=['a'])
C_GOOD = {'a': ARR, 's': 'abc', 'l': [{'x': np.float64(0.5)}, {'x': None}]}
C_BAD = {'a': ARR + np.int32(100), 's': 'x', 'l': [{'x': None}] * 3}
C_OLD = {'a': None, 'l': [{'x': np.float64(1.5)}]}


class Calls:
    """Files of one backend and calls on them that leave them as they are;
    all of them have the same result whenever they are made."""

    FILES = {'good': (C_DESC, C_GOOD), 'bad': (C_DESC, C_BAD),
             'old': (C_ALT, C_OLD)}
    NAMES = ([(f, name) for f in ('good', 'bad', 'old') for name in (
        'load', 'force', 'required', 'other', 'hash', 'otherhash', 'pseudo',
        'pseudoother', 'pseudoalt', 'pseudohash', 'pseudowrongalt', 'create',
        'backend', 'saveas', 'copy')] +
        [('good', 'dirty'), ('old', 'dirty'), ('none', 'load'),
         ('none', 'pseudo'), ('none', 'new')])

    def __init__(self, ctx, backend):
        self.ctx, self.backend, self.live = ctx, backend, []
        self.paths = {'none': ctx.path(sut.EXT[backend])}
        for name, (desc, state) in self.FILES.items():
            storage = sut.create(ctx, backend, desc)
            sut.fill(storage.data, desc, state)
            storage.save(force=True)
            self.paths[name] = storage.storage_path
        storage = None
        core.close_hdf5()

    def call(self, index):
        import dsch
        file_, name = self.NAMES[index]
        path = self.paths[file_]
        desc, state = self.FILES.get(file_, (C_DESC, None))
        good, other = model.build(desc), model.build(
            C_ALT if desc is C_DESC else C_DESC)
        valid = file_ != 'bad'
        expected = 'ok' if valid else 'SubnodeValidationError'
        kept = False
        try:
            if name == 'load':
                if file_ == 'none':
                    expected = 'FileNotFoundError'
                result = dsch.load(path)
            elif name == 'force':
                expected = 'ok'
                result = dsch.load(path, force=True)
            elif name == 'required':
                result = dsch.load(path, required_schema=good)
            elif name == 'other':
                expected = 'InvalidSchemaError'
                result = dsch.load(path, required_schema=other)
            elif name == 'hash':
                result = dsch.load(path, required_schema_hash=good.hash())
            elif name == 'otherhash':
                expected = 'InvalidSchemaError'
                result = dsch.load(path, required_schema_hash=other.hash(),
                                   force=True)
            elif name.startswith('pseudo'):
                args = {'pseudo': (good, None), 'pseudoother': (other, None),
                        'pseudoalt': (other, [good]),
                        'pseudohash': (other, ['0' * 64, good.hash()]),
                        'pseudowrongalt': (other, ['0' * 64])}[name]
                if valid and name in ('pseudoother', 'pseudowrongalt'):
                    expected = 'InvalidSchemaError'
                pseudo = dsch.PseudoStorage(path, args[0], True, args[1])
                try:
                    pseudo.open()
                    if file_ == 'none':
                        desc, state = C_DESC, model.empty(C_DESC)
                    sut.check_node(pseudo.data, desc, state, 'PseudoStorage')
                    if pseudo.schema_node.to_json() != model.to_json(desc):
                        raise Violation('PseudoStorage: wrong schema')
                    result = pseudo.storage
                finally:
                    if pseudo.data is not None:
                        pseudo.close()
                if file_ == 'none':
                    os.unlink(path)
                result = None
            elif name == 'create':
                expected = 'FileExistsError'
                result = dsch.create(path, good)
            elif name == 'new':
                result = dsch.create('::inmem::', good)
                state = model.empty(desc)
            elif name == 'backend':
                expected = 'ok'
                result = dsch.load(path, backend=self.backend, force=True)
            elif name == 'saveas':
                expected = 'ok'
                result = dsch.load(path, force=True).save_as('::inmem::')
            elif name == 'copy':
                expected = 'ok'
                result = dsch.create('::inmem::', good)
                result.data.load_from(dsch.load(path, force=True).data)
            elif name == 'dirty':
                # Changed in memory, but not saved.
                result = dsch.load(path, force=True)
                state = {k: v for k, v in state.items()}
                if state['a'] is not None:
                    result.data.a[0] = 77
                    state['a'] = state['a'].copy()
                    state['a'][0] = 77
                if 's' in state:
                    result.data.s.value = state['s'] = 'dirty'
                result.data.l.append({'x': 2.5})
                state['l'] = state['l'] + [{'x': np.float64(2.5)}]
                kept = True
        except Violation:
            raise
        except Exception as err:
            got = type(err).__name__
            result = None
        else:
            got = 'ok'
            if result is not None:
                sut.check_node(result.data, desc, state, '%s %s' % (
                    file_, name))
                if result.schema_hash() != model.to_hash(desc):
                    raise Violation('%s %s: wrong schema' % (file_, name))
                result.complete, repr(result.data)
                self.keep(result, desc, state, kept)
        if got != expected:
            raise Violation('%s %s: got %s, expected %s' %
                            (file_, name, got, expected))
        self.ctx.step()

    def keep(self, storage, desc, state, kept):
        """Keep some storages to see whether they are affected later on."""
        if self.backend == 'hdf5' and storage.storage_path != '::inmem::':
            return
        self.live.append((storage, desc, state))
        if len(self.live) > (4 if kept else 3):
            self.live.pop(0)

    def check(self, what):
        for storage, desc, state in self.live:
            sut.check_node(storage.data, desc, state,
                           '%s: storage loaded before' % what)


def call_indices(backend):
    """Changing a loaded hdf5 storage changes the file (known finding)."""
    return [i for i, (_, name) in enumerate(Calls.NAMES)
            if backend != 'hdf5' or name != 'dirty']


def run_calls(case, ctx):
    backends, first, seconds, depth = case
    worlds = [Calls(ctx, b) for b in backends]
    one, two = worlds[0], worlds[-1]
    for second in seconds:
        for third in (call_indices(one.backend) if depth == 3 else (first,)):
            what = [Calls.NAMES[i] for i in (first, second, third)]
            try:
                one.call(first)
                two.call(second)
                one.call(third)
            except Violation as err:
                raise Violation('calls %r: %s' % (what, err))
            for world in worlds:
                world.check('calls %r' % (what,))
            ctx.state((backends, first, second, third))
            if 'hdf5' in backends:
                gc.collect(1)


def calls_cases(tier):
    """One set of files or two."""
    sets = [(b,) for b in sut.FILES] + [
        (a, b) for a in sut.FILES for b in sut.FILES]
    for n, backends in enumerate(sets):
        for first in call_indices(backends[0]):
            seconds = call_indices(backends[-1])
            if tier == 'quick':
                yield backends, first, seconds, 2
            else:
                for second in seconds:
                    yield backends, first, [second], 3


# -------------------------------------------------------------- process

def process_state():
    """State that all parts of a program share."""
    mask = os.umask(0o22)
    os.umask(mask)
    return {'working directory': os.getcwd(),
            'environment': dict(os.environ), 'umask': mask,
            'error handling of NumPy': np.geterr(),
            'print options of NumPy': repr(np.get_printoptions()),
            'recursion limit': sys.getrecursionlimit(),
            'warning filters': list(warnings.filters),
            'locale': locale.setlocale(locale.LC_ALL),
            'standard streams': (sys.stdout, sys.stderr, sys.stdin),
            'module path': list(sys.path),
            'trace function': (sys.gettrace(), sys.getprofile()),
            'excepthook': sys.excepthook,
            'default encoders': json.dumps({'a': [1.5, 'ä']}),
            'decimal context': repr(decimal.getcontext()),
            'signal handlers': [signal.getsignal(n) for n in (
                signal.SIGINT, signal.SIGTERM, signal.SIGPIPE,
                signal.SIGXFSZ, signal.SIGUSR1)],
            'exit functions': atexit._ncallbacks(),
            'threads': threading.active_count(),
            'open files': open_files()}


class Unused(Warning):
    """Never used, but configured, so that the filters are special."""


def configure():
    """Settings that no library would make by itself."""
    if warnings.filters[0][2] is not Unused:
        warnings.simplefilter('default', Unused)
    np.seterr(under='warn')


def light_state():
    """The parts of it that take no time to compare."""
    mask = os.umask(0o22)
    os.umask(mask)
    return (('working directory', os.getcwd()), ('umask', mask),
            ('error handling of NumPy', tuple(np.geterr().items())),
            ('recursion limit', sys.getrecursionlimit()),
            ('warning filters', list(warnings.filters)),
            ('showwarning', warnings.showwarning),
            ('locale', locale.setlocale(locale.LC_ALL)),
            ('standard streams', (sys.stdout, sys.stderr, sys.stdin)),
            ('environment', dict(os.environ)),
            ('module path', list(sys.path)),
            ('excepthook', sys.excepthook))


def open_files():
    out = []
    for name in os.listdir('/proc/self/fd'):
        try:
            out.append(os.readlink('/proc/self/fd/' + name))
        except OSError:
            pass
    return sorted(n for n in out if n.startswith(os.getcwd()))


def check_process(before, what):
    after = process_state()
    for key, value in before.items():
        if after[key] != value:
            raise Violation('%s: %s has changed from %s to %s' % (
                what, key, model.short(value), model.short(after[key])))


P_SCHEMA = C_DESC


def fresh(ext, state=C_GOOD):
    """A new storage in the subdirectory, filled, not saved."""
    import dsch
    path = 'sub/f%d%s' % (len(os.listdir('sub')), ext)
    storage = dsch.create(path if ext else '::inmem::',
                          model.build(P_SCHEMA))
    sut.fill(storage.data, P_SCHEMA, state)
    return storage


def op_saved(ext):
    storage = fresh(ext)
    if ext:
        storage.save()
    return storage


def op_save_odd(ext):
    """Data that no backend can store."""
    storage = fresh(ext)
    storage.data.a.value = np.array([object(), None, 'x'])
    return op_force(storage, ext)


def op_force(storage, ext):
    if ext:
        storage.save(force=True)
    storage.data.validate()


def op_load(ext, how):
    import dsch
    storage = op_saved(ext)
    path = storage.storage_path if ext else storage
    del storage
    gc.collect(0)
    if not ext:
        return path.save_as('::inmem::')
    if how == 'truncated':
        os.truncate(path, os.path.getsize(path) // 2)
    elif how == 'noise':
        with open(path, 'r+b') as file_:
            file_.write(bytes(range(64)))
    elif how == 'empty':
        os.truncate(path, 0)
    elif how == 'directory':
        os.unlink(path)
        os.mkdir(path)
    elif how == 'gone':
        os.unlink(path)
    kwargs = {'other': {'required_schema': model.build(C_ALT)},
              'hash': {'required_schema_hash': 'x'},
              'backend': {'backend': 'nothing'}}.get(how, {})
    return dsch.load(path, **kwargs)


def op_no_directory(ext):
    storage = fresh(ext)
    if not ext:
        raise FileNotFoundError
    os.unlink(storage.storage_path) if os.path.exists(
        storage.storage_path) else None
    os.rename('sub', 'away')
    try:
        storage.save()
    finally:
        os.rename('away', 'sub')


def op_create_there(ext):
    import dsch
    storage = op_saved(ext)
    return dsch.create(storage.storage_path, model.build(P_SCHEMA))


def op_create_nowhere(ext):
    import dsch
    return dsch.create('missing/a' + ext, model.build(P_SCHEMA))


def op_save_as(ext):
    storage = op_saved(ext)
    for n, name in enumerate(('.npz', '.h5', '.mat')):
        storage.save_as('sub/s%d%s' % (len(os.listdir('sub')), name))
    return storage.save_as('missing/a.npz')


def op_pseudo(ext, bad):
    import dsch
    path = 'sub/p%d%s' % (len(os.listdir('sub')), ext or '.npz')
    with dsch.PseudoStorage(path, model.build(P_SCHEMA)) as pseudo:
        sut.fill(pseudo.data, P_SCHEMA, C_GOOD)
        if bad == 'raise':
            raise KeyError('x')
        if bad:
            pseudo.data.s.value = 'x'
    return dsch.PseudoStorage(path, model.build(C_ALT))


def op_assign(ext):
    storage = fresh(ext)
    storage.data.a.resize((1000,))
    storage.data.a[...] = 2.5
    storage.data.l.append({'x': 1e400 - 1e400})
    storage.data.a.value = [[1], [2, 3]]


def op_inspect(ext):
    storage = op_saved(ext)
    repr(storage.data), storage.schema_hash(), storage.complete
    storage.data.replace({'a': 'abc', 'unknown': 1})


P_OPS = [
    ('save', lambda ext: op_force(fresh(ext), ext)),
    ('save invalid', lambda ext: op_force(fresh(ext, C_BAD), ext)),
    ('save odd', op_save_odd), ('save without directory', op_no_directory),
    ('create again', op_create_there), ('create nowhere', op_create_nowhere),
    ('save_as', op_save_as), ('assign', op_assign), ('inspect', op_inspect),
] + [('load ' + how, lambda ext, how=how: op_load(ext, how)) for how in (
    'good', 'truncated', 'noise', 'empty', 'directory', 'gone', 'other',
    'hash', 'backend')] + [
    ('PseudoStorage %s' % bad, lambda ext, bad=bad: op_pseudo(ext, bad))
    for bad in (False, True, 'raise')]


def warm_up(ctx):
    """Let the libraries initialise themselves, without using dsch."""
    if not WARM:
        import h5py
        import scipy.io
        path = ctx.path('.mat')
        scipy.io.savemat(path, {'a': np.arange(3), 's': {'t': ['x']}})
        scipy.io.loadmat(path)
        path = ctx.path('.npz')
        np.savez(path, a=np.arange(3))
        np.load(path).close()
        with h5py.File(ctx.path('.h5'), 'w') as file_:
            file_['a'] = np.arange(3)
        json.loads('[1]')
        WARM.append(True)


WARM = []


def run_process(case, ctx):
    """Whatever happens to a storage, the process is left as it was."""
    ext, names = case
    warm_up(ctx)
    top = os.path.join(ctx.dir, 'process%d' % ctx._files)
    ctx._files += 1
    os.mkdir(top)
    home = os.getcwd()
    ops = dict(P_OPS)
    try:
        os.chdir(top)
        os.mkdir('sub')
        configure()
        before = process_state()
        for name in names:
            try:
                ops[name](ext)
            except Violation:
                raise
            except Exception as err:
                ctx.outcome('%s: %s' % (name, type(err).__name__))
            gc.collect(1)
            check_process(before, '%s after %s (%s)' % (
                ext or 'inmem', name, ' after '.join(names)))
            ctx.step()
    finally:
        os.chdir(home)
        core.close_hdf5()
        shutil.rmtree(top)
    ctx.state(case)


def process_cases(tier):
    for ext in ('', '.npz', '.h5', '.mat'):
        for seq in itertools.product([n for n, _ in P_OPS],
                                     repeat=2 if tier == 'quick' else 3):
            yield ext, seq


# -------------------------------------------------------------- threads

class Scheduler:
    """Run two functions in threads according to a plan.

    The plan is a list of (thread, point): the thread runs until it reaches
    its point-th source line (or call) in dsch, then the next entry follows;
    after the last entry, the threads run to their ends one after another.
    Without a plan, the threads run one after another and the points are
    listed (each line at its first executions within each operation).
    """

    def __init__(self, plan, events, repeats=1):
        self.plan = None if plan is None else list(plan)
        self.events = events
        self.repeats = repeats
        self.visits = [{}, {}]
        self.points = [[], []]
        self.own = {}
        self.counts = [0, 0]
        self.done = [False, False]
        self.gates = [threading.Semaphore(0), threading.Semaphore(0)]
        self.errors = [None, None]
        self.beat = 0
        self.free = False
        self.place = os.getcwd(), dict(os.environ)
        self.prefix = os.path.join(core.REPO, 'dsch') + os.sep

    def trace(self, me, operation):
        """Start tracing in thread me, if one of its points is still to
        come (or if points are counted)."""
        if self.plan is not None and not any(n == me for n, _ in self.plan):
            sys.settrace(None)
            return
        prefix, own = self.prefix, self.own

        def line(frame, event, arg):
            if event == 'line':
                self.point(me, operation, frame)
            return line

        def call(frame, event, arg):
            name = frame.f_code.co_filename
            hit = own.get(name)
            if hit is None:
                hit = own[name] = os.path.realpath(name).startswith(prefix)
            if not hit:
                return None
            if self.events == 'call':
                self.point(me, operation, frame)
                return None
            return line
        sys.settrace(call)

    def point(self, me, operation, frame):
        """A source line is about to be executed in thread me."""
        self.beat += 1
        self.counts[me] += 1
        if self.plan is None:
            key = (operation, frame.f_code.co_filename, frame.f_lineno)
            times = self.visits[me][key] = self.visits[me].get(key, 0) + 1
            if times <= self.repeats:
                self.points[me].append(self.counts[me])
        elif self.plan and not self.free and \
                self.plan[0] == (me, self.counts[me]):
            self.plan.pop(0)
            if not any(n == me for n, _ in self.plan):
                sys.settrace(None)
            self.switch(me)

    def switch(self, me):
        other = 1 - me
        if os.getcwd() != self.place[0] or dict(os.environ) != self.place[1]:
            raise Violation('working directory or environment of the process '
                            'have changed while another thread is running')
        if self.done[other]:
            return
        self.gates[other].release()
        while not self.gates[me].acquire(timeout=0.05):
            if self.free:
                return

    def body(self, me, func):
        while not self.gates[me].acquire(timeout=0.05):
            if self.free:
                break
        try:
            func(lambda operation: self.trace(me, operation))
        except BaseException as err:
            sys.settrace(None)
            self.errors[me] = err
        finally:
            sys.settrace(None)
            self.done[me] = True
            self.beat += 1
            self.gates[1 - me].release()

    def run(self, funcs):
        threads = [threading.Thread(target=self.body, args=(n, f),
                                    daemon=True)
                   for n, f in enumerate(funcs)]
        for t in threads:
            t.start()
        first = self.plan[0][0] if self.plan else 0
        self.gates[first].release()
        end = time.monotonic() + 60
        beat, since = None, 0
        for t in threads:
            while t.is_alive():
                t.join(0.2)
                if not t.is_alive():
                    break
                now = time.monotonic()
                if self.beat != beat:
                    beat, since = self.beat, now
                elif now - since > 3:
                    # The running thread waits for the other one: go on
                    # without controlling the order.
                    self.free = True
                if now > end:
                    raise Violation('threads do not terminate')
        for err in self.errors:
            if err is not None:
                if isinstance(err, Violation):
                    raise err
                raise Violation('raised %r in a thread' % err)


T_DESC = comp({
    'a': values.A1, 's': leaf('String', max_length=3),
    'l': lst(comp({'t': values.TIME, 'x': values.I32}), max_length=2),
    'd': leaf('Array', dtype='float64', depends_on=['a'])},
    optionals=['s'])


# Another schema with the same fields.
T_OTHER = comp({
    'e': values.BOOL, 's': leaf('String', min_length=3),
    'l': lst(comp({'x': values.I32, 't': values.TIME}), min_length=1),
    'a': leaf('Array', dtype='int32', unit='V', max_value=20),
    'd': leaf('Array', dtype='float64', unit='A')}, optionals=['e', 'd'])


def script(n):
    """Operations of thread n; the threads use different data."""
    a = values.array_of('int32', (3 + n,), n)
    d = values.array_of('float64', (3 + n,), n)
    t = values.TIMES
    item = {'t': t[n], 'x': values.scalar_values('int32')[n]}
    return [
        [('set', ('a',), a), ('set', ('d',), d), ('read', (), None),
         ('seti', ('a',), ((0,), 100)), ('rsz', ('d',), (2 + 2 * n,)),
         ('read', (), None), ('reload', (), None)],
        [('rep', (), {'a': a, 's': 'ab%d' % n, 'l': [item] * (n + 1)}),
         ('read', (), None), ('app', ('l',), item), ('read', (), None),
         ('clr', ('l',), None), ('set', ('s',), 'too long'[n * 4:]),
         ('read', (), None), ('rep', ('l',), [item]), ('save', (), None)],
        [('loadfrom', (), {'a': a, 's': 'v%d' % n, 'l': [item, {
            't': None, 'x': None}], 'd': d}), ('hop', (), 'inmem'),
         ('read', (), None), ('set', ('l', 1, 't'), t[n + 2]),
         ('hop', (), 'npz'), ('read', (), None), ('hop', (), 'hdf5'),
         ('read', (), None), ('reload', (), None)],
        # Different parts are present in the two files.
        [('rep', (), [{'a': a, 's': 'abc', 'l': [item]},
                      {'a': a, 'd': d, 'l': [{'t': t[2]},
                                             item]}][n]),
         ('reload', (), None), ('read', (), None), ('clr', ('a',), None),
         ('reload', (), None)],
        # Short, for schedules with several switches.
        [('set', ('s',), 'ab%d' % n), ('read', (), None),
         ('reload', (), None)],
    ]


def reads(storage, desc):
    """Results of inspecting a storage."""
    import dsch
    out = [repr(storage.data), storage.schema_hash(), storage.complete,
           storage.schema_node.to_json(),
           storage.data.schema_node.hash(), storage.data.empty,
           model.canon(storage.data.data_tree()),
           dsch.schema.node_from_json(model.to_json(desc)).hash()]
    for func in (storage.validate, lambda: storage.save()):
        try:
            func()
            out.append(None)
        except AttributeError:
            out.append('no save')
        except (dsch.exceptions.ValidationError,
                dsch.exceptions.SubnodeValidationError) as err:
            out.append(str(err))
    return out


def threads_scenario(ctx, backends, shared, number):
    """Returns the two thread functions and a final check."""
    worlds, results = [None, None], [[], []]
    descs = (T_DESC, T_OTHER if shared == 'different' else T_DESC)
    schemas = schema_pair(*descs, shared is True)

    def thread(n):
        ops = [(name, path, arg if name != 'loadfrom' else
                {k: arg.get(k) for k in descs[n][1]})
               for name, path, arg in script(n)[number]]

        def func(trace):
            trace('create')
            world = worlds[n] = sut.World(ctx, backends[n],
                                          descs[n], schemas[n])
            for number, op in enumerate(ops):
                trace((number, op[0]) if op[0] != 'read' else 'read')
                if op[0] == 'read':
                    results[n].append(reads(world.storage, descs[n]))
                else:
                    try:
                        world.apply(op)
                    except Skip:
                        pass
                sys.settrace(None)
        return func
    return [thread(0), thread(1)], worlds, results, list(
        zip(schemas, descs))


def run_threads(case, ctx):
    backends, shared, number, events, bound, repeats, part, parts = case
    import dsch
    for name in sut.ALL:
        dsch.create(sut.new_path(ctx, name), model.build(values.BOOL), name)

    def execute(plan):
        ctx._files = 100
        for name in os.listdir(ctx.dir):
            os.unlink(os.path.join(ctx.dir, name))
        funcs, worlds, results, schemas = threads_scenario(
            ctx, backends, shared, number)
        sched = Scheduler(plan, events, repeats)
        configure()
        before = light_state()
        sched.run(funcs)
        for (name, old), (_, new) in zip(before, light_state()):
            if old != new:
                raise Violation('switched at %r: %s of the process changed '
                                'from %s to %s' % (plan, name,
                                                   model.short(old),
                                                   model.short(new)))
        for n, world in enumerate(worlds):
            world.check('in the end')
        if plan is None or plan[0][1] % 8 == 0:
            for s, d in schemas:
                check_schema(s, d, 'threads')
        funcs = worlds = None
        return sched.points, results
    points, alone = execute(None)
    plans = []
    for first in (0, 1):
        for i in points[first]:
            if bound == 1:
                plans.append([(first, i)])
            else:
                plans += [[(first, i), (1 - first, j)]
                          for j in points[1 - first]]
    for plan in plans[part::parts]:
        _, results = execute(plan)
        if results != alone:
            raise Violation('switched at %r: results differ from those of '
                            'each storage on its own: %s' %
                            (plan, model.short([
                                (a, b) for x, y in zip(results, alone)
                                for a, b in zip(x, y) if a != b], 1500)))
        ctx.step()
        ctx.state((case[:4], tuple(plan)))
        if 'hdf5' in backends:
            gc.collect()
    ctx.outcome('%d+%d points' % tuple(map(len, points)))


def thread_cases(tier):
    combos = [(b, b) for b in sut.ALL] + [
        ('inmem', 'npz'), ('npz', 'hdf5'), ('mat', 'inmem'),
        ('hdf5', 'mat'), ('mat', 'npz'), ('hdf5', 'inmem')]
    parts = 32
    for c, backends in enumerate(combos):
        for m, shared in enumerate((True, False, 'different')):
            for number in range(4):
                if tier == 'quick' and (
                        (c + number * 3 + m * 2) % 9 if number < 3 else
                        (c + m) % 3):
                    continue
                for part in range(parts):
                    yield backends, shared, number, 'line', 1, \
                        1 if tier == 'quick' else 5, part, parts
    for c, backends in enumerate(combos):
        if tier == 'quick' and c not in (1, 4):
            continue
        for part in range(64):
            yield backends, ('different', True)[c % 2], 4, 'call', 2, 1, \
                part, 64
    if tier != 'quick':
        parts = 400
        for c, backends in enumerate(combos):
            for number in range(4):
                if (c + number) % 3:
                    continue
                for part in range(parts):
                    yield backends, ('different', True)[c % 2], number, \
                        'call', 2, 1, part, parts


def describe(case):
    return ' '.join(model.short(c, 600) for c in case)


def spaces(tier):
    return [Space('pairs', lambda: pair_cases(tier), run_pairs, describe),
            Space('pseudo', lambda: pseudo_cases(tier), run_pseudo, describe),
            Space('histories', lambda: history_cases(tier), run_history,
                  describe),
            Space('assign', lambda: assign_cases(tier), run_assign, describe),
            Space('calls', lambda: calls_cases(tier), run_calls, describe),
            Space('process', lambda: process_cases(tier), run_process,
                  describe),
            Space('threads', lambda: thread_cases(tier), run_threads,
                  describe)]
