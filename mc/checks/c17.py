"""C17: a save that cannot be written is reported and can be repeated."""
import itertools
import os
import resource
import shutil
import signal

import numpy as np

from .. import faults, model, sut, values
from ..core import Skip, Space, Violation
from ..model import comp, leaf, lst
from .c15 import cases_data

LEVEL = 'fault_enumeration'
BOUNDS = ('14 schemas and data x 3 file backends x {new file, older file}: '
          'every operation that save() performs on the file system (open, '
          'write, truncate, close, rename, ...) refused once or from then on '
          'with ENOSPC or EIO, every write shortened, every pair of two '
          'refused saves in a row (2 schemas; thorough: all); a file size '
          'limit at every 32nd byte (thorough: every byte); the directory '
          'missing, removed, replaced by a file or read-only, the file '
          'read-only or replaced by a directory; each operation of creating '
          'and saving, of save_as and of closing a PseudoStorage refused '
          'once or from then on')
RULE = ('an evaluation is one save() under one injected fault (k-th '
        'operation, error, once or persistent; or file size limit; or '
        'obstacle), followed by the comparison of the data in memory and a '
        'repeated save and load; it is distinct and non-trivial by backend, '
        'data and fault, if the fault was hit during the save')
ASSUMPTIONS = ['files that are kept open (hdf5) are not removed while in use',
               'an error when closing a file is reported to the saving '
               'process by the operating system (it is injected as such)']


def build(ctx, backend, desc, state, old):
    storage = sut.create(ctx, backend, desc)
    if old is not None:
        sut.fill(storage.data, desc, old)
        storage.save()
        storage.data.clear()
    sut.fill(storage.data, desc, state)
    return storage


def clean(ctx):
    for name in os.listdir(ctx.dir):
        path = os.path.join(ctx.dir, name)
        if os.path.isdir(path):
            shutil.rmtree(path)
        else:
            os.unlink(path)
    ctx._files = 0


def modified(desc, state):
    """Another state and the operation that leads to it."""
    for path, d, s in model.nodes(desc, state):
        if model.is_leaf(d) and s is not None:
            value = values.two(d)[1]
            return path, model.update(
                desc, state, path,
                lambda d, s: model.stored(d, value)), value
    return None, state, None


def after(ctx, storage, desc, state, what):
    """The fault is gone: data is intact and can be saved."""
    import dsch
    sut.check_node(storage.data, desc, state, 'memory after ' + what)
    hdf5 = storage.storage_path.endswith('.h5')
    lost = None
    if hdf5:
        # The HDF5 library may refuse to use the file again.
        if not failing_save(storage):
            try:
                complete(ctx, storage, desc, state, 'second save')
            except Violation as err:
                lost = str(err)
        sut.check_node(storage.data, desc, state, 'memory after second save')
        path = ctx.path('.h5')
        storage.save_as(path)
        sut.check_node(dsch.load(path).data, desc, state,
                       'saved elsewhere after ' + what)
        storage.save_as(ctx.path('.npz'))
    else:
        storage.save()
    sut.check_node(storage.data, desc, state, 'memory after second save')
    if hdf5:
        return lost
    complete(ctx, storage, desc, state, 'saved again after ' + what)
    path, other, value = modified(desc, state)
    if path is not None:
        sut.node_at(storage.data, path).value = sut.fresh(value)
        storage.save()
        complete(ctx, storage, desc, other, 'third save after ' + what)


def expect_ok(result):
    status, message = result
    if status:
        raise Violation('failed with status %d: %s' % (status, message))
    return message


def count_ops(ctx, backend, desc, state, old):
    def count():
        storage = build(ctx, backend, desc, state, old)
        faults.arm(faults.COUNT, ctx.dir)
        storage.save()
        return faults.disarm()[0]
    ops = expect_ok(faults.in_child(count))
    clean(ctx)
    return ops


def failing_save(storage):
    try:
        storage.save()
    except Exception:
        return True
    return False


def complete(ctx, storage, desc, state, what):
    """save() did not raise, so the file must be complete."""
    import dsch
    path = sut.snapshot(ctx, storage)
    try:
        loaded = dsch.load(path)
    except Exception as exc:
        raise Violation('%s did not raise, but the file cannot be loaded: %r'
                        % (what, exc))
    sut.check_node(loaded.data, desc, state, what + ' did not raise')


LOST = 'lost by second save: '


def run_fault(case, ctx):
    backend, desc, state, old, mode, error = case
    import dsch
    ops = count_ops(ctx, backend, desc, state, old)
    finding = None
    for n, (kind, size) in enumerate(ops):
        shorts = [0]
        if mode == faults.SHORT:
            if kind != 'write':
                continue
            shorts = sorted({s for s in (1, size // 2, size - 1)
                             if 0 < s < size})
        if mode == faults.FAIL_ALL and kind in ('close', 'unlink', 'rename'):
            continue
        for short in shorts:
            what = '%s at operation %d of %d (%s, %d bytes)' % (
                (error if mode != faults.SHORT else 'short write'), n,
                len(ops), kind, size)
            def attempt():
                storage = build(ctx, backend, desc, state, old)
                faults.arm(mode, ctx.dir, n, short, error)
                failed = failing_save(storage)
                seen, injected = faults.disarm()
                if not injected:
                    return 'not hit'
                if not failed:
                    # It has coped with the fault: the file is complete.
                    complete(ctx, storage, desc, state, 'saved with ' + what)
                lost = after(ctx, storage, desc, state, what)
                if lost:
                    return LOST + lost
                return 'refused' if failed else 'complete'
            status, result = faults.in_child(attempt)
            clean(ctx)
            if status:
                raise Violation('%s: %s (status %d)' % (what, result,
                                                        status))
            ctx.step()
            if result.startswith(LOST):
                finding, result = '%s: %s' % (what, result), LOST
            ctx.outcome('%s %s %s' % (backend, kind, result))
            if result != 'not hit':
                ctx.state((backend, model.canon(state), old is None, mode,
                           error, n, short))
    if finding:
        ctx.finding('hdf5-second-save-loses-data', finding)


def fault_cases(tier):
    for desc, state, old in cases_data():
        for backend in sut.FILES:
            for o in (None, old):
                for mode, error in ((faults.FAIL_ONCE, 'EIO'),
                                    (faults.FAIL_ALL, 'ENOSPC'),
                                    (faults.FAIL_ONCE, 'ENOSPC'),
                                    (faults.SHORT, 'EIO'),
                                    (faults.FAIL_ALL, 'EDQUOT')):
                    if tier == 'quick' and (mode, error) in (
                            (faults.FAIL_ONCE, 'ENOSPC'),
                            (faults.FAIL_ALL, 'EDQUOT')):
                        continue
                    yield backend, desc, state, o, mode, error


def run_double(case, ctx):
    """Two refused saves, with a change in between, then a good one."""
    backend, desc, state, old, second = case
    ops = count_ops(ctx, backend, desc, state, old)
    limit = len(ops) + 4
    for first in range(len(ops)):
        def attempt():
            storage = build(ctx, backend, desc, state, old)
            faults.arm(faults.FAIL_ONCE, ctx.dir, first, 0, 'EIO')
            failed = failing_save(storage)
            _, injected = faults.disarm()
            if not failed:
                complete(ctx, storage, desc, state, 'first save')
            path, other, value = modified(desc, state)
            if path is not None:
                sut.node_at(storage.data, path).value = sut.fresh(value)
            faults.arm(faults.FAIL_ALL, ctx.dir, second, 0, 'ENOSPC')
            failed = failing_save(storage)
            _, injected = faults.disarm()
            if not failed:
                complete(ctx, storage, desc, other, 'second save')
            lost = after(ctx, storage, desc, other, 'two refused saves')
            if lost:
                raise Violation(lost)
            return injected
        status, result = faults.in_child(attempt)
        clean(ctx)
        if status:
            raise Violation('refused at operations %d and %d: %s '
                            '(status %d)' % (first, second, result, status))
        ctx.step()
        if result:
            ctx.state((backend, model.canon(state), old is None, first,
                       second))


def double_cases(tier):
    data = list(cases_data())
    for n, (desc, state, old) in enumerate(data):
        if tier == 'quick' and n not in (6, 11):
            continue
        for backend in sut.FILES:
            for o in (None, old):
                for second in range(24 if tier == 'quick' else 60):
                    yield backend, desc, state, o, second


def run_limit(case, ctx):
    """The size of files is limited, as on a full disk."""
    backend, desc, state, old, part, parts, step = case
    import dsch
    storage = build(ctx, backend, desc, state, None)
    storage.save()
    path = storage.storage_path
    storage = None
    size = os.path.getsize(path)
    clean(ctx)
    limits = list(range(0, size + 2 * step, step))
    for limit in limits[part::parts]:
        def attempt():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            storage = build(ctx, backend, desc, state, old)
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            failed = failing_save(storage)
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            what = 'save with limit of %d bytes' % limit
            if not failed:
                complete(ctx, storage, desc, state, what)
            elif limit >= 2 * size + 2**16:
                raise Violation('save() failed below the limit')
            lost = after(ctx, storage, desc, state, what)
            if lost:
                raise Violation(lost)
            return failed
        status, result = faults.in_child(attempt)
        clean(ctx)
        if status:
            raise Violation('limit of %d bytes: %s (status %d)' %
                            (limit, result, status))
        ctx.step()
        ctx.outcome('%s %s' % (backend, 'refused' if result else 'saved'))
        if result:
            ctx.state((backend, model.canon(state), old is None, limit))


def limit_cases(tier):
    parts = 4
    for n, (desc, state, old) in enumerate(cases_data()):
        for backend in sut.FILES:
            for o in (None, old):
                if tier == 'quick' and o is not None and n % 2:
                    continue
                step = 32 if tier == 'quick' else 1
                if backend == 'hdf5':
                    step *= 8
                elif n > 8:
                    step *= 2
                for part in range(parts):
                    yield backend, desc, state, o, part, parts, step


# ------------------------------------------------------------ obstacles

def nobody():
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)


def obstacle_missing(base, path):
    """The directory does not exist."""
    os.rmdir(base)
    yield
    os.mkdir(base)


def obstacle_replaced(base, path):
    """The directory is a file."""
    if os.path.exists(path):
        os.unlink(path)
    os.rmdir(base)
    with open(base, 'wb'):
        pass
    yield
    os.unlink(base)
    os.mkdir(base)


def obstacle_removed(base, path):
    """The directory of an existing file has been removed."""
    os.unlink(path)
    os.rmdir(base)
    yield
    os.mkdir(base)


def obstacle_directory(base, path):
    """There is a directory at the path."""
    if os.path.exists(path):
        os.unlink(path)
    os.mkdir(path)
    yield
    os.rmdir(path)


def obstacle_readonly_dir(base, path):
    """The directory is read-only."""
    os.chmod(base, 0o555)
    nobody()
    yield


def obstacle_readonly_file(base, path):
    """The file is read-only."""
    os.chmod(path, 0o444)
    os.chmod(base, 0o555)
    nobody()
    yield


OBSTACLES = {'missing': (obstacle_missing, False),
             'replaced': (obstacle_replaced, None),
             'removed': (obstacle_removed, True),
             'directory': (obstacle_directory, None),
             'readonly_dir': (obstacle_readonly_dir, False),
             'readonly_file': (obstacle_readonly_file, True)}


def run_obstacle(case, ctx):
    backend, desc, state, old, name, loaded = case
    import dsch
    func, needs_file = OBSTACLES[name]
    base = os.path.join(ctx.dir, 'dir')
    os.mkdir(base)
    path = os.path.join(base, 'file' + sut.EXT[backend])

    def attempt():
        storage = dsch.create(path, model.build(desc))
        if old is not None:
            sut.fill(storage.data, desc, old)
            storage.save()
            if loaded:
                storage = dsch.load(path)
            storage.data.clear()
        sut.fill(storage.data, desc, state)
        before = sut.file_bytes(path)
        os.chmod(os.path.dirname(ctx.dir), 0o755)
        os.chmod(os.path.dirname(os.path.dirname(ctx.dir)), 0o755)
        os.chmod(ctx.dir, 0o755)
        steps = func(base, path)
        next(steps)
        for _ in range(2):
            if not failing_save(storage):
                raise Violation('save() did not raise')
            sut.check_node(storage.data, desc, state, 'memory')
        if name == 'readonly_file' and sut.file_bytes(path) != before:
            raise Violation('file has been changed')
        if name.startswith('readonly'):
            # As this cannot be undone here, use another place.
            return 'refused'
        list(steps)
        after(ctx, storage, desc, state, 'obstacle')
        return 'refused'
    status, result = faults.in_child(attempt)
    if status:
        raise Violation('%s: %s (status %d)' % (name, result, status))
    ctx.step()
    ctx.state(case)


def obstacle_cases(tier):
    for desc, state, old in cases_data():
        for backend in ('npz', 'mat'):
            for name, (_, needs_file) in OBSTACLES.items():
                for o in (None, old):
                    if (needs_file is True and o is None) or (
                            needs_file is False and o is not None):
                        continue
                    for loaded in (False, True):
                        if loaded and o is None:
                            continue
                        yield backend, desc, state, o, name, loaded


# ----------------------------------------------- other ways to save data

def start_close(ctx, path, backend, desc, state, old, how):
    """Prepare a PseudoStorage; return what saves it and its storage."""
    import dsch
    if old is not None:
        storage = dsch.create(path, model.build(desc))
        sut.fill(storage.data, desc, old)
        storage.save()
        if backend == 'hdf5':
            storage.close()
    pseudo = dsch.PseudoStorage(path, model.build(desc), defer_open=True)
    if how == 'exit':
        pseudo.__enter__()
        finish = lambda: pseudo.__exit__(None, None, None)
    else:
        pseudo.open()
        finish = pseudo.close
    pseudo.data.clear()
    sut.fill(pseudo.data, desc, state)
    return pseudo, finish


def after_close(ctx, pseudo, storage, path, desc, state, backend, what):
    """Closing has been refused: the data is not lost."""
    if backend == 'hdf5':
        return   # The HDF5 library may have closed the file anyway.
    if pseudo.data is not None:
        pseudo.close()
        complete_file(ctx, path, desc, state, 'closed again after ' + what)
    sut.check_node(storage.data, desc, state, 'memory after ' + what)
    storage.save()
    complete_file(ctx, path, desc, state, 'saved again after ' + what)


def complete_file(ctx, path, desc, state, what):
    import dsch
    copy = ctx.path(os.path.splitext(path)[1])
    if not os.path.exists(path):
        raise Violation('%s: no error, but there is no file' % what)
    shutil.copyfile(path, copy)
    try:
        loaded = dsch.load(copy)
    except Exception as exc:
        raise Violation('%s: no error, but the file cannot be loaded: %r'
                        % (what, exc))
    sut.check_node(loaded.data, desc, state, what + ' (no error)')


def use_way(ctx, backend, desc, state, old, how, mode, n, error):
    import dsch
    path = ctx.path(sut.EXT[backend])
    what = '%s with %s at operation %s' % (how, error, n)
    source = pseudo = None
    if how in ('close', 'exit'):
        pseudo, save = start_close(ctx, path, backend, desc, state, old, how)
        storage = pseudo.storage
    elif how == 'create':
        def save():
            storage = dsch.create(path, model.build(desc))
            sut.fill(storage.data, desc, state)
            storage.save()
    else:
        source = dsch.create('::inmem::', model.build(desc))
        sut.fill(source.data, desc, state)

        def save():
            source.save_as(path).save()
    faults.arm(mode, ctx.dir, n, 0, error)
    try:
        save()
    except Exception as exc:
        result, exc = 'refused', None
    else:
        result = 'complete'
    ops, injected = faults.disarm()
    if mode == faults.COUNT:
        if result != 'complete':
            raise Violation('%s failed without faults' % how)
        return ops
    if result == 'complete':
        complete_file(ctx, path, desc, state, what)
    elif not injected:
        raise Violation(what + ' failed without a fault')
    elif pseudo is not None:
        after_close(ctx, pseudo, storage, path, desc, state, backend, what)
    if source is not None:
        sut.check_node(source.data, desc, state, 'source after ' + what)
        path = ctx.path(sut.EXT[backend])
        source.save_as(path).save()
        complete_file(ctx, path, desc, state, 'repeated after ' + what)
    return result if injected else 'not hit'


def run_way(case, ctx):
    backend, desc, state, old, how, mode, error = case
    status, ops = faults.in_child(lambda: use_way(
        ctx, backend, desc, state, old, how, faults.COUNT, 0, error))
    clean(ctx)
    if status:
        raise Violation(str(ops))
    for n, (kind, _) in enumerate(ops):
        if mode == faults.FAIL_ALL and kind in ('close', 'unlink', 'rename'):
            continue
        status, result = faults.in_child(lambda: use_way(
            ctx, backend, desc, state, old, how, mode, n, error))
        clean(ctx)
        if status:
            raise Violation('operation %d of %d (%s): %s (status %d)' %
                            (n, len(ops), kind, result, status))
        ctx.step()
        ctx.outcome('%s %s %s' % (backend, how, result))
        if result != 'not hit':
            ctx.state((backend, model.canon(state), old is None, how, mode,
                       error, n))


def way_cases(tier):
    for desc, state, old in cases_data():
        for backend in sut.FILES:
            for how in ('close', 'exit', 'create', 'save_as'):
                for o in (None, old):
                    if o is not None and how not in ('close', 'exit'):
                        continue
                    for mode, error in ((faults.FAIL_ONCE, 'EIO'),
                                        (faults.FAIL_ALL, 'ENOSPC')):
                        yield backend, desc, state, o, how, mode, error


def run_blocked(case, ctx):
    """A PseudoStorage is closed although its file cannot be written."""
    backend, desc, state, old, how, name = case
    base = os.path.join(ctx.dir, 'dir')
    os.mkdir(base)
    path = os.path.join(base, 'file' + sut.EXT[backend])

    def attempt():
        pseudo, finish = start_close(ctx, path, backend, desc, state, old,
                                     how)
        storage = pseudo.storage
        steps = OBSTACLES[name][0](base, path)
        next(steps)
        try:
            finish()
        except Exception:
            pass
        else:
            raise Violation('%s did not raise' % how)
        list(steps)
        after_close(ctx, pseudo, storage, path, desc, state, backend,
                    name)
    status, result = faults.in_child(attempt)
    if status:
        raise Violation('%s: %s (status %d)' % (name, result, status))
    ctx.step()
    ctx.state(case)


def blocked_cases(tier):
    for desc, state, old in cases_data():
        for backend in ('npz', 'mat'):
            for name in ('missing', 'replaced', 'removed', 'directory'):
                needs_file = OBSTACLES[name][1]
                for o in (None, old):
                    if needs_file not in (None, o is not None):
                        continue
                    for how in ('close', 'exit'):
                        yield backend, desc, state, o, how, name


def describe(case):
    return ' '.join(model.short(c, 600) for c in case)


def spaces(tier):
    return [Space('faults', lambda: fault_cases(tier), run_fault, describe),
            Space('obstacles', lambda: obstacle_cases(tier), run_obstacle,
                  describe),
            Space('ways', lambda: way_cases(tier), run_way, describe),
            Space('blocked', lambda: blocked_cases(tier), run_blocked,
                  describe),
            Space('limits', lambda: limit_cases(tier), run_limit, describe),
            Space('double', lambda: double_cases(tier), run_double,
                  describe)]
