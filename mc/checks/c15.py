"""C15: a truncated, torn or unreadable file is never taken for valid different data."""
import gc
import itertools
import os
import shutil

import h5py
import numpy as np

from .. import events, faults, model, sut, values
from ..core import Skip, Space, Violation, close_hdf5
from ..model import comp, leaf, lst

LEVEL = 'fault_enumeration'
BOUNDS = ('every prefix (all lengths from 0) of the files saved for 14 '
          'schemas and data on all three file backends; every operation '
          'that a save performs on the file system (open, write, truncate, '
          'rename, ...) as the last one of the process, each write also '
          'stopped after 1, half and all but one of its bytes (thorough: '
          'after every byte of writes up to 600 bytes, else 64 positions), '
          'for new files on all backends and over an older file for npz and '
          'mat; for these two also every operation refused once while the '
          'saving process goes on; every aligned block of 16, 64 and 512 '
          '(thorough: 1 to 4096) bytes of an npz file and the first 4 or 16 '
          '(thorough: 1 to 32) bytes of every structural object of an hdf5 '
          'file zeroed; every operation (open, read) by which a load reads a '
          'file refused once or from then on, or reading 1, half or all but '
          'one of the bytes; at every source line that dsch executes during a '
          'load (quick: at its first execution), the file is replaced or '
          '(npz, mat) overwritten or cut by another process; '
          'KeyboardInterrupt at every source line of a save; loading with '
          'and without force and by PseudoStorage')
RULE = ('an evaluation is one attempt to load a damaged file with dsch; the '
        'damaged file is made by cutting a saved file after k bytes, for '
        'every k, or by stopping the saving process at its k-th operation on '
        'the file, or refusing that operation, for every k; it is counted '
        'as distinct and non-trivial by '
        'its backend and content')
ASSUMPTIONS = ['an interrupted process leaves what it has written (no '
               'reordering of writes by the operating system)',
               'mat and hdf5 files have no checksums, so that zeroed blocks '
               'are checked for npz files and the structural objects of hdf5 '
               'files only; damage of an hdf5 dataset may be reported when '
               'it is read',
               'hdf5 changes existing files in place, so that interrupted '
               'saves over existing hdf5 files are not covered, except that '
               'any prefix of the file is rejected',
               'the HDF5 library clears its consistency flag when a file '
               'that was not closed is opened']


def cases_data():
    """(schema, data, earlier data) to be saved."""
    t = lambda d: values.two(d)
    for d in (values.STRING, values.A1, values.BYTES_, values.DATE,
              values.I32):
        yield d, t(d)[0], t(d)[1]
    yield values.STRING, None, 'a'
    fields = {'a': values.A1, 's': values.STRING, 'i': values.I32}
    yield (comp(fields), {k: t(d)[0] for k, d in fields.items()},
           {k: t(d)[1] for k, d in fields.items()})
    yield (comp(fields), {k: None for k in fields},
           {k: t(d)[1] for k, d in fields.items()})
    yield (comp(fields), {k: t(d)[0] for k, d in fields.items()},
           {k: None for k in fields})
    yield lst(values.I32), [np.int32(i) for i in range(4)], \
        [np.int32(7)] * 9
    yield lst(values.STRING), ['x', None, 'yy'], []
    desc = comp({'l': lst(comp({'a': values.BYTES_, 'd': values.DATETIME})),
                 'c': comp({'t': values.TIME, 'b': values.BOOL}),
                 'z': values.F64})
    yield desc, model.full(desc, lambda d: t(d)[0], 2), \
        model.full(desc, lambda d: t(d)[1], 1)
    desc = lst(lst(values.A1))
    yield desc, model.full(desc, lambda d: t(d)[0], 2), []
    fields = {'f%d' % i: d for i, d in enumerate(values.LEAVES)}
    yield (comp(fields), {k: t(d)[0] for k, d in fields.items()},
           {k: t(d)[1] for k, d in fields.items()})


def outcome(path, desc, states, how='force', modified=False, lazy=False):
    """Load a damaged file. Returns what happened.

    With lazy, reading the data after loading may raise as well.
    """
    import dsch
    before = sut.file_bytes(path)
    where = os.listdir(os.path.dirname(path))
    result = None
    pseudo = None
    try:
        if how == 'pseudo':
            pseudo = dsch.PseudoStorage(path, model.build(desc),
                                        defer_open=True)
            pseudo.open()
            storage = pseudo.storage
        else:
            storage = dsch.load(path, force=how == 'force')
    except Exception:
        if pseudo is not None and (pseudo.data, pseudo.storage,
                                   pseudo.schema_node) != (None,) * 3:
            raise Violation('PseudoStorage is open after failing')
        result = 'error'
    else:
        if storage.schema_node.to_json() != model.to_json(desc):
            raise Violation('loaded with a different schema')
        try:
            tree = storage.data.data_tree(include_empty=True)
        except Exception:
            if not lazy:
                raise
            tree, result = None, 'error when reading'
        for name, state in states.items() if result is None else ():
            if model.canon(tree) == model.canon(
                    model.tree(desc, state, True)):
                result = name
        if result is None:
            raise Violation('loaded with different data: %s' %
                            model.short(tree, 1000))
        storage = pseudo = None
    if sut.file_bytes(path) != before and not modified:
        gc.collect()
        if sut.file_bytes(path) != before:
            raise Violation('loading (%s) has modified the file' % result)
    if os.listdir(os.path.dirname(path)) != where:
        raise Violation('loading (%s) has created files' % result)
    return result


def saved(ctx, backend, desc, state):
    storage = sut.create(ctx, backend, desc)
    sut.fill(storage.data, desc, state)
    storage.save()
    path = storage.storage_path
    storage = None
    close_hdf5()
    return path


CHUNK = 256


def run_prefix(case, ctx):
    backend, desc, state, chunk = case
    content = sut.file_bytes(saved(ctx, backend, desc, state))
    if len(content) > 200 * CHUNK:
        raise RuntimeError('file is too large for the enumeration')
    first = chunk * CHUNK
    if first >= len(content):
        raise Skip()
    for size in range(first, min(first + CHUNK, len(content))):
        path = ctx.path(sut.EXT[backend])
        with open(path, 'wb') as file_:
            file_.write(content[:size])
        hows = ['force']
        if size % 16 == 5 or size > len(content) - 8 or \
                ctx.tier != 'quick':
            hows = ['force', 'pseudo', 'normal', 'force']
        ctx.state((backend, size, content[:size]))
        for how in hows:
            try:
                result = outcome(path, desc, {'complete': state}, how)
            except Violation as err:
                raise Violation('first %d of %d bytes (%s): %s' %
                                (size, len(content), how, err))
            ctx.step()
            ctx.outcome(backend + ' ' + result)
        os.unlink(path)


def prefix_cases(tier):
    for desc, state, _ in cases_data():
        for backend in sut.FILES:
            for chunk in range(200):
                yield backend, desc, state, chunk


def run_torn(case, ctx):
    backend, desc, state, old = case
    def target():
        storage = sut.create(ctx, backend, desc)
        if old is not None:
            sut.fill(storage.data, desc, old)
            storage.save()
            storage.data.clear()
        sut.fill(storage.data, desc, state)
        return storage
    def count():
        storage = target()
        faults.arm(faults.COUNT, ctx.dir)
        storage.save()
        return faults.disarm()[0]
    status, ops = faults.in_child(count)
    if status:
        raise Violation('save failed: %r' % (ops,))
    for n, (kind, size) in enumerate(ops):
        shorts = [0]
        if kind == 'write':
            some = (1, size // 2, size - 1)
            if ctx.tier != 'quick':
                some = range(1, size, 1 if size <= 600 else size // 64)
            shorts += [s for s in some if 0 < s < size]
        for short in sorted(set(shorts)):
            for name in os.listdir(ctx.dir):
                os.unlink(os.path.join(ctx.dir, name))
            ctx._files = 0
            def crash():
                storage = target()
                faults.arm(faults.CRASH, ctx.dir, n, short)
                storage.save()
            status, result = faults.in_child(crash)
            if status != faults.CRASHED:
                raise Violation('save failed: %r (%r)' % (result, status))
            path = os.path.join(ctx.dir, 'f1' + sut.EXT[backend])
            if not os.path.exists(path):
                ctx.outcome('%s no file' % backend)
                continue
            states = {'complete': state}
            if old is not None:
                states['old'] = old
            ctx.state((backend, sut.file_bytes(path)))
            for how in ('force', 'pseudo', 'normal'):
                try:
                    result = outcome(path, desc, states, how,
                                     backend == 'hdf5')
                except Violation as err:
                    raise Violation(
                        'interrupted at operation %d of %d (%s, %d of %d '
                        'bytes), %s: %s' % (n, len(ops), kind, short, size,
                                            how, err))
                ctx.step()
                ctx.outcome('%s %s' % (backend, result))


def run_refused(case, ctx):
    """The saving process goes on after one operation has been refused."""
    backend, desc, state, old, error = case

    def target():
        storage = sut.create(ctx, backend, desc)
        if old is not None:
            sut.fill(storage.data, desc, old)
            storage.save()
            storage.data.clear()
        sut.fill(storage.data, desc, state)
        return storage

    def attempt(n):
        storage = target()
        faults.arm(faults.FAIL_ONCE if n is not None else faults.COUNT,
                   ctx.dir, n or 0, 0, error)
        try:
            storage.save()
        except Exception:
            if n is None:
                raise
        return faults.disarm()[0]
    status, ops = faults.in_child(lambda: attempt(None))
    if status:
        raise Violation('save failed: %r' % (ops,))
    states = {'complete': state}
    if old is not None:
        states['old'] = old
    for n, (kind, size) in enumerate(ops):
        for name in os.listdir(ctx.dir):
            os.unlink(os.path.join(ctx.dir, name))
        ctx._files = 0
        status, result = faults.in_child(lambda: attempt(n))
        if status:
            raise Violation('save process failed: %r' % (result,))
        path = os.path.join(ctx.dir, 'f1' + sut.EXT[backend])
        if not os.path.exists(path):
            ctx.outcome('%s no file' % backend)
            continue
        ctx.state((backend, sut.file_bytes(path)))
        for how in ('force', 'pseudo'):
            try:
                result = outcome(path, desc, states, how)
            except Violation as err:
                raise Violation('operation %d of %d (%s, %d bytes) refused, '
                                '%s: %s' % (n, len(ops), kind, size, how,
                                            err))
            ctx.step()
            ctx.outcome('%s %s' % (backend, result))


def refused_cases(tier):
    for desc, state, old in cases_data():
        for backend in ('npz', 'mat'):
            for o in (None, old):
                for error in (('EIO',) if tier == 'quick' else
                              ('EIO', 'ENOSPC')):
                    yield backend, desc, state, o, error


def run_lost(case, ctx):
    """Parts of the file have never reached the disk (npz has checksums)."""
    backend, desc, state, block = case
    path = saved(ctx, backend, desc, state)
    content = sut.file_bytes(path)
    places = (objects(path, content) if backend == 'hdf5' else
              range(0, len(content), block))
    for first in places:
        damaged = bytearray(content)
        damaged[first:first + block] = bytes(len(content[first:first + block]))
        if damaged == content:
            continue
        path = ctx.path(sut.EXT[backend])
        with open(path, 'wb') as file_:
            file_.write(damaged)
        ctx.state((backend, first, bytes(damaged)))
        for how in ('force', 'pseudo'):
            try:
                result = outcome(path, desc, {'complete': state}, how,
                                 backend == 'hdf5', backend == 'hdf5')
            except Violation as err:
                raise Violation('without bytes %d to %d of %d (%s): %s' %
                                (first, first + block, len(content), how,
                                 err))
            ctx.step()
            ctx.outcome('%s lost %s' % (backend, result))
        if backend == 'hdf5':
            close_hdf5()
        os.unlink(path)


def objects(path, content):
    """Beginnings of the objects that describe the structure of an HDF5 file,
    all of which are recognized by a signature or version number."""
    places = set()
    for signature in (b'TREE', b'SNOD', b'HEAP', b'GCOL'):
        at = content.find(signature)
        while at >= 0:
            places.add(at)
            at = content.find(signature, at + 1)
    with h5py.File(path, 'r') as file_:
        places.add(h5py.h5o.get_info(file_.id).addr)

        def visit(name, item):
            places.add(h5py.h5o.get_info(item.id).addr)
        file_.visititems(visit)
    return sorted(places)


def lost_cases(tier):
    for desc, state, _ in cases_data():
        for block in (16, 64, 512) if tier == 'quick' else \
                (1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 4096):
            yield 'npz', desc, state, block
        for block in (4, 16) if tier == 'quick' else (1, 2, 4, 8, 16, 32):
            yield 'hdf5', desc, state, block


def run_reads(case, ctx):
    """The operating system refuses to read parts of the file."""
    backend, desc, state, mode, how = case
    import dsch
    path = saved(ctx, backend, desc, state)
    content = sut.file_bytes(path)
    where = sorted(os.listdir(ctx.dir))

    def use():
        if how == 'pseudo':
            pseudo = dsch.PseudoStorage(path, model.build(desc))
            storage = pseudo.storage
        else:
            storage = dsch.load(path, force=how == 'force')
        return (storage.schema_node.to_json(),
                storage.data.data_tree(include_empty=True))

    def attempt(n, short):
        faults.arm(mode if n is not None else faults.READ_COUNT, ctx.dir,
                   n or 0, short, 'EIO')
        try:
            json, tree = use()
        except Exception:
            result = 'error'
        else:
            result = 'complete'
        ops, injected = faults.disarm()
        if n is None:
            return ops
        if result != 'error':
            same(json, tree, 'loaded with refused reads')
        elif not injected or mode == faults.READ_SHORT and backend != 'hdf5':
            raise Violation('loading failed')
        if result != 'error' or backend != 'hdf5':
            same(*use(), 'loaded again')
        return result if injected else 'not hit'

    def same(json, tree, what):
        if json != model.to_json(desc):
            raise Violation(what + ': different schema')
        if model.canon(tree) != model.canon(model.tree(desc, state, True)):
            raise Violation('%s: different data: %s' %
                            (what, model.short(tree, 1000)))

    status, ops = faults.in_child(lambda: attempt(None, 0))
    if status:
        raise Violation('load failed: %r' % (ops,))
    if not ops:
        raise RuntimeError('nothing has been read')
    for n, (kind, size) in enumerate(ops):
        shorts = [0]
        if mode == faults.READ_SHORT:
            shorts = sorted({k for k in (1, size // 2, size - 1)
                             if kind == 'read' and 0 < k < size})
        for short in shorts:
            status, result = faults.in_child(lambda: attempt(n, short))
            if not status and sut.file_bytes(path) != content and \
                    backend != 'hdf5':
                status, result = 1, 'the file has been modified'
            if not status and sorted(os.listdir(ctx.dir)) != where:
                status, result = 1, 'files have been created or removed'
            if status:
                raise Violation('operation %d of %d (%s, %d bytes) refused '
                                '(or %d bytes read): %s (status %d)' %
                                (n, len(ops), kind, size, short, result,
                                 status))
            if backend == 'hdf5' and sut.file_bytes(path) != content:
                # An HDF5 file that is in use is marked as such.
                status, message = faults.in_child(lambda: same(
                    *use(), 'loaded without refused reads'))
                if status:
                    raise Violation('operation %d of %d (%s) refused: %s' %
                                    (n, len(ops), kind, message))
                with open(path, 'wb') as file_:
                    file_.write(content)
            ctx.step()
            ctx.outcome('%s reads %s' % (backend, result))
            if result != 'not hit':
                ctx.state((backend, model.canon(state), mode, how, n, short))


def reads_cases(tier):
    for desc, state, _ in cases_data():
        for backend in sut.FILES:
            for mode in (faults.READ_ONCE, faults.READ_ALL,
                         faults.READ_SHORT):
                for how in ('force', 'normal', 'pseudo'):
                    if tier == 'quick' and how == 'normal':
                        continue
                    yield backend, desc, state, mode, how


def run_changing(case, ctx):
    """Another process changes the file at any source line of a load."""
    backend, desc, state, desc2, state2, kind, how = case
    import dsch
    first = sut.file_bytes(saved(ctx, backend, desc, state))
    second = sut.file_bytes(saved(ctx, backend, desc2, state2))
    path, other = ctx.path(sut.EXT[backend]), ctx.path(sut.EXT[backend])

    def event():
        if kind == 'replace':
            os.replace(other, path)
        elif kind == 'cut':
            os.truncate(path, len(first) // 2)
        else:
            with open(path, 'wb') as file_:
                file_.write(second)
        return True

    def use():
        if how == 'pseudo':
            pseudo = dsch.PseudoStorage(path, model.build(desc))
            storage = pseudo.storage
        else:
            storage = dsch.load(path, force=how == 'force')
        return (storage.schema_node.to_json(),
                storage.data.data_tree(include_empty=True))
    expected = [(model.to_json(d), model.canon(model.tree(d, s, True)))
                for d, s in ((desc, state), (desc2, state2))]
    n, total = 0, 1
    while n <= total:
        for name, content in ((path, first), (other, second)):
            with open(name, 'wb') as file_:
                file_.write(content)
        done = events.Happened(use, n or None, event,
                               1 if ctx.tier == 'quick' else 4)
        if not n:
            total = done.count
        elif not done.fired:
            raise Skip()
        result = 'error'
        if done.error is None:
            json, tree = done.result
            for m, known in enumerate(expected):
                if (json, model.canon(tree)) == known:
                    result = ('old', 'new')[m]
            if result == 'error':
                raise Violation('changed (%s) at line %d of %d: schema %s '
                                'with data %s' % (kind, n, total, json,
                                                  model.short(tree, 800)))
            if result == 'new' and how == 'pseudo' and \
                    expected[0][0] != expected[1][0]:
                raise Violation('PseudoStorage has accepted another schema')
        if not n and result != 'old':
            raise Violation('load failed: %r' % done.error)
        ctx.step()
        ctx.outcome('%s %s %s' % (backend, kind, result))
        ctx.state((case, n))
        done = None
        if backend == 'hdf5':
            close_hdf5()
        n += 1


def changing_cases(tier):
    data = list(cases_data())
    for n, (desc, state, old) in enumerate(data):
        following = data[(n + 1) % len(data)]
        for backend in sut.FILES:
            for kind in ('replace', 'cut', 'rewrite'):
                if kind != 'replace' and backend == 'hdf5':
                    continue
                for how in ('force', 'normal', 'pseudo'):
                    if tier == 'quick' and how == 'normal':
                        continue
                    yield backend, desc, state, desc, old, kind, how
                    yield (backend, desc, state, following[0], following[1],
                           kind, how)


def run_stopped(case, ctx):
    """The user interrupts a save at any source line."""
    backend, desc, state, old = case
    states = {'complete': state}
    if old is not None:
        states['old'] = old

    def stop():
        raise KeyboardInterrupt()
    n, total = 0, 1
    while n <= total:
        storage = sut.create(ctx, backend, desc)
        if old is not None:
            sut.fill(storage.data, desc, old)
            storage.save()
            storage.data.clear()
        sut.fill(storage.data, desc, state)
        done = events.Happened(storage.save, n or None, stop,
                               1 if ctx.tier == 'quick' else 4)
        if not n:
            total = done.count
        if done.error is not None and not n:
            raise Violation('save failed: %r' % done.error)
        what = 'interrupted at line %d of %d: ' % (n, total)
        path = storage.storage_path
        ctx.step()
        ctx.state((backend, done.error is None,
                   sut.file_bytes(path) if os.path.exists(path) else None))
        sut.check_node(storage.data, desc, state, what + 'memory')
        if os.path.exists(path):
            copy = sut.snapshot(ctx, storage)
            for how in ('force', 'pseudo'):
                try:
                    result = outcome(copy, desc, states, how,
                                     backend == 'hdf5')
                except Violation as err:
                    raise Violation('%s%s: %s' % (what, how, err))
                ctx.outcome('%s interrupted %s' % (backend, result))
                if backend == 'hdf5':
                    copy = sut.snapshot(ctx, storage)
        storage.save()
        result = outcome(sut.snapshot(ctx, storage), desc,
                         {'complete': state}, 'force', backend == 'hdf5')
        if result != 'complete':
            raise Violation(what + 'saving again: ' + result)
        storage = done = None
        if backend == 'hdf5':
            close_hdf5()
        for name in os.listdir(ctx.dir):
            os.unlink(os.path.join(ctx.dir, name))
        n += 1


def torn_cases(tier):
    for desc, state, old in cases_data():
        for backend in sut.FILES:
            yield backend, desc, state, None
            if backend != 'hdf5':
                yield backend, desc, state, old


def describe(case):
    return ' '.join(model.short(c, 600) for c in case)


def spaces(tier):
    return [Space('prefixes', lambda: prefix_cases(tier), run_prefix,
                  describe),
            Space('torn', lambda: torn_cases(tier), run_torn, describe),
            Space('refused', lambda: refused_cases(tier), run_refused,
                  describe),
            Space('lost', lambda: lost_cases(tier), run_lost, describe),
            Space('stopped', lambda: torn_cases(tier), run_stopped,
                  describe),
            Space('changing', lambda: changing_cases(tier), run_changing,
                  describe),
            Space('reads', lambda: reads_cases(tier), run_reads, describe)]
