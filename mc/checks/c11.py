"""C11: create never overwrites, load never creates, exact paths."""
import gc
import itertools
import os
import shutil

import numpy as np

from .. import events, model, sut, values
from ..core import Skip, Space, Violation, close_hdf5
from ..model import comp, leaf, lst

LEVEL = 'model_checking'
BOUNDS = ('64 path names (all documented extensions, other case, several '
          'dots, no extension, in-memory path, blanks, non-ASCII, sub '
          'directories, symbolic links, shell characters, relative) x 4 given backends or detection x '
          '{create, create_from, save_as, load, PseudoStorage} x what exists '
          'there {nothing, storage of each backend, foreign, empty, '
          'directory, symlink}, copies from each backend; all sequences of up to 3 (quick) / 4 create, '
          'copy and load operations over 9 paths with the same stem; the '
          'whole directory tree is compared before and after each step; races: '
          'at every source line that dsch executes during create, copy, load '
          'or opening, another process creates a file, storage or dangling '
          'link at the path, or removes it')
ASSUMPTIONS = ['paths are strings', 'no dangling symlinks, except that '
               'they appear while dsch runs']

SCHEMA = comp({'x': values.STRING, 'a': values.A1})
LEAF = leaf('String')

NAMES = ['f.npz', 'f.h5', 'f.hdf5', 'f.mat', 'f', 'f.NPZ', 'f.H5', 'f.Mat',
         'f.HDF5', 'f.npz.bak', 'f.npy', 'f.zip', 'f.h5.npz', 'f.npz.mat',
         'f.mat.h5', 'f.mat.hdf5', 'npz', 'fnpz', 'fh5', 'fmat', '.npz',
         '.h5', '.mat', '.hdf5', 'a b.npz', 'a b.h5', 'a b.mat',
         '\u00e4\u20ac.npz', '\u00e4\u20ac.h5', '\u00e4\u20ac.mat', 'a.b.npz',
         'sub/f.npz', 'sub/f.h5', 'sub/f.mat', '::inmem::', '::inmem::.npz',
         'x::inmem::', 'f.hdf', 'f.', 'f.h5 ', ' f.npz', 'f.mat\n',
         # "link" leads to sub/deep, so this is another directory than "."
         'link/../g.npz', 'link/../g.h5', 'link/../g.mat', 'link/g.h5',
         './g.npz', 'sub/../g.mat', 'sub//g.h5', '~/g.npz', '~/g.mat',
         '~.h5', '$HOME.npz', '${x}.mat', '%TMP%.h5', '*.npz', 'f?.mat',
         '[f].h5', '{x}.npz', '%s.mat', '::inmem::/g.npz', 'f.npz.h5.mat',
         'x.npz/g', 'x.npz/g.mat', 'x.npz/g.h5']
BACKENDS = (None, 'npz', 'hdf5', 'mat', 'inmem', 'nosuch')
EXISTING = ('nothing', 'npz', 'hdf5', 'mat', 'foreign', 'empty', 'directory',
            'symlink')


def detect(name):
    if name == '::inmem::':
        return 'inmem'
    for ext, backend in (('.npz', 'npz'), ('.h5', 'hdf5'), ('.hdf5', 'hdf5'),
                         ('.mat', 'mat')):
        if name.endswith(ext):
            return backend
    return None


def linked(name):
    """Backend of the storage that a symlink of this name leads to."""
    backend = detect(os.path.basename(name))
    return backend if backend in sut.FILES else 'npz'


def listing(root):
    """The whole tree with contents."""
    out = {}
    for folder, dirs, files in os.walk(root):
        for name in dirs + files:
            path = os.path.join(folder, name)
            key = os.path.relpath(path, root)
            if os.path.islink(path):
                out[key] = ('link', os.readlink(path))
            elif os.path.isdir(path):
                out[key] = 'directory'
            else:
                out[key] = sut.file_bytes(path)
    return out


def only_changed(before, after, key, what):
    """No difference between two listings, except for the given path."""
    for name in set(before) | set(after):
        if name != key and before.get(name) != after.get(name):
            raise Violation('%s: %r was %s' % (what, name, (
                'created' if name not in before else
                'deleted' if name not in after else 'changed')))


def make(ctx, backend, path, text='stored'):
    """A valid storage file, made without looking at its name."""
    import dsch
    tmp = os.path.join(ctx.base, 'make' + sut.EXT[backend])
    if os.path.exists(tmp):
        os.unlink(tmp)
    storage = dsch.create(tmp, model.build(SCHEMA), backend)
    storage.data.x.value = text
    storage.save()
    storage = None
    close_hdf5()
    os.rename(tmp, path)


def put(ctx, existing, path):
    if existing == 'nothing':
        return
    if existing in sut.FILES:
        make(ctx, existing, path)
    elif existing == 'foreign':
        with open(path, 'wb') as file_:
            file_.write(b'something else')
    elif existing == 'empty':
        open(path, 'wb').close()
    elif existing == 'directory':
        os.mkdir(path)
    elif existing == 'symlink':
        target = os.path.join(os.path.dirname(path), 'target')
        make(ctx, linked(path), target)
        os.symlink('target', path)


def describe(case):
    return ' '.join(str(c) for c in case)


def run(case, ctx):
    import dsch
    import dsch.backends
    op, name, backend, existing, relative, origin = case
    if backend is not None and (backend != 'nosuch') != (
            backend in dsch.backends.available_backends):
        raise Violation('available_backends is wrong: %r' %
                        (dsch.backends.available_backends,))
    actual = backend or detect(name)
    root = os.path.join(ctx.dir, 'root')
    os.mkdir(root)
    for folder in ('sub', 'sub/deep', '~', '::inmem::', 'x.npz'):
        os.mkdir(os.path.join(root, folder))
    os.symlink('sub/deep', os.path.join(root, 'link'))
    for other in ('f.txt', 'unrelated.npz', 'unrelated.h5'):
        with open(os.path.join(root, other), 'w') as file_:
            file_.write('other')
    full = os.path.join(root, name)
    if name == '::inmem::':
        os.rmdir(full)
    put(ctx, existing, full)
    cwd = os.getcwd()
    os.chdir(root)
    try:
        path = name if relative or actual == 'inmem' else full
        execute(ctx, op, path, name, backend, actual, existing, root, origin)
    finally:
        os.chdir(cwd)
    ctx.step()
    ctx.state(case)


def execute(ctx, op, path, name, backend, actual, existing, root, origin):
    import dsch
    source = dsch.create(origin if origin == '::inmem::' else os.path.join(
        ctx.dir, 'source' + origin), model.build(SCHEMA))
    source.data.x.value = 'new'
    if origin != '::inmem::':
        source.save()
    outside = os.listdir(ctx.dir)
    before = listing(root)
    exists = existing != 'nothing'
    expected = None     # exception class, or tuple of them
    if actual is None:
        expected = dsch.exceptions.AutodetectBackendError
    elif actual == 'nosuch':
        expected = Exception
    elif actual == 'inmem':
        if name != '::inmem::' or op == 'load':
            expected = Exception
    elif op == 'load':
        if not exists:
            expected = FileNotFoundError
        elif existing == 'symlink':
            if linked(name) != actual:
                expected = Exception
        elif existing != actual:
            expected = Exception
    elif exists and op != 'pseudo':
        expected = FileExistsError
    if op == 'pseudo':
        if existing == 'symlink' and linked(name) != actual:
            expected = expected or Exception
        elif exists and existing != 'symlink' and existing != actual:
            expected = expected or Exception
    schema = model.build(SCHEMA)
    kwargs = {} if backend is None else {'backend': backend}
    storage = None
    failed = False
    try:
        if op == 'create':
            storage = dsch.create(path, schema, **kwargs)
        elif op == 'create_from':
            storage = dsch.create_from(path, source, **kwargs)
        elif op == 'save_as':
            storage = source.save_as(path, **kwargs)
        elif op == 'load':
            storage = dsch.load(path, **kwargs)
        else:
            storage = dsch.PseudoStorage(path, schema).storage
    except Exception as err:
        if expected is None or not isinstance(err, expected):
            raise
        failed = True
    if os.listdir(ctx.dir) != outside:
        raise Violation('%s: files beside the source are %r' % (
            op, sorted(os.listdir(ctx.dir))))
    if failed:
        gc.collect()
        after = listing(root)
        only_changed(before, after, None, op)
        return
    if expected is not None:
        raise Violation('%s succeeded, expected %s' % (op, expected.__name__))
    module = type(storage).__module__.split('.')[-1]
    if module != actual:
        raise Violation('%s uses the backend %s instead of %s' % (
            op, module, actual))
    if storage.storage_path != path:
        raise Violation('storage_path is %r' % storage.storage_path)
    exact = None
    if actual != 'inmem':
        folder, last = os.path.split(os.path.join(root, name))
        exact = os.path.relpath(os.path.join(os.path.realpath(folder), last),
                                os.path.realpath(root))
    if existing == 'symlink':
        exact = os.path.join(os.path.dirname(exact), 'target')
    only_changed(before, listing(root), exact, op)
    loaded = op in ('load', 'pseudo') and exists
    text = ('stored' if loaded else None if op in ('create', 'pseudo')
            else 'new')
    model.same(sut.observe(storage.data, SCHEMA), {'x': text, 'a': None}, op)
    storage.data.x.value = 'changed'
    if actual == 'inmem':
        only_changed(before, listing(root), None, op)
        return
    storage.save()
    after = listing(root)
    only_changed(before, after, exact, 'save after ' + op)
    if exact not in after:
        raise Violation('nothing was saved to %r, but %r' % (
            exact, sorted(set(after) - set(before))))
    storage = None
    close_hdf5()
    again = dsch.load(path, backend=actual)
    model.same(sut.observe(again.data, SCHEMA), {'x': 'changed', 'a': None},
               'loaded again')


def cases(tier):
    for name in NAMES:
        for backend in BACKENDS:
            for op in ('create', 'create_from', 'save_as', 'load', 'pseudo'):
                if op == 'pseudo' and backend is not None:
                    continue
                for existing in EXISTING:
                    actual = backend or detect(name)
                    if actual == 'inmem' and existing != 'nothing':
                        continue
                    if (tier == 'quick' and backend not in (
                            None, 'npz', 'hdf5', 'mat') and
                            existing not in ('nothing', 'npz')):
                        continue
                    for relative in (False, True):
                        if relative and existing not in ('nothing', actual):
                            continue
                        yield op, name, backend, existing, relative, \
                            '::inmem::'
                    if op in ('create_from', 'save_as') and (
                            tier != 'quick' or existing in
                            ('nothing', actual, 'foreign')):
                        for origin in ('.npz', '.h5', '.mat'):
                            yield op, name, backend, existing, True, origin


# ------------------------------------- several storages open at the same time

def run_live(case, ctx):
    """Every storage keeps writing to its own path."""
    import dsch
    ext, ops = case
    root = os.path.join(ctx.dir, 'root')
    os.mkdir(root)
    storages = []     # [storage, path, text]
    files = {}        # path: (last saved text, exists)
    for n, (op, arg) in enumerate(ops):
        before = listing(root)
        ctx.step()
        what = 'step %d (%s %s)' % (n, op, arg)
        text = 'text %d' % n
        if op in ('create', 'copy', 'load'):
            path = os.path.join(root, arg + ext)
            if (op == 'copy' and not storages or
                    (path in files) != (op == 'load') or
                    any(entry[1] == path for entry in storages)):
                raise Skip()
            if op == 'create':
                storage, content = dsch.create(path, model.build(SCHEMA)), None
            elif op == 'copy':
                source = storages[-1]
                storage, content = source[0].save_as(path), source[2]
                if source[0].storage_path != source[1]:
                    raise Violation('%s: path of the source' % what)
            else:
                storage, content = dsch.load(path), files[path]
            storages.append([storage, path, content])
            if ext == '.h5' and op != 'load':
                files[path] = None
        else:
            if arg >= len(storages):
                raise Skip()
            entry = storages[arg]
            storage, path = entry[:2]
            storage.data.x.value = entry[2] = text
            storage.save()
            files[path] = text
        for storage, own, content in storages:
            if storage.storage_path != own:
                raise Violation('%s: storage_path is %r, must be %r' % (
                    what, storage.storage_path, own))
            model.same(sut.observe(storage.data, SCHEMA),
                       {'x': content, 'a': None}, what)
        after = listing(root)
        only_changed(before, after, os.path.relpath(path, root), what)
        if {os.path.join(root, k) for k in after} != set(files):
            raise Violation('%s: files are %r' % (what, sorted(after)))
    if ext != '.h5':
        for path, text in files.items():
            got = dsch.load(path)
            model.same(sut.observe(got.data, SCHEMA), {'x': text, 'a': None},
                       os.path.basename(path))
    ctx.state((ext, tuple(sorted(files.items()))))


def live_cases(tier):
    ops = [(op, name) for op in ('create', 'copy', 'load')
           for name in ('a', 'b', 'c')]
    ops += [('save', 0), ('save', 1), ('save', 2)]
    for n in range(1, 5 if tier == 'quick' else 6):
        for seq in itertools.product(ops, repeat=n):
            if seq[0] != ('create', 'a'):
                continue
            for ext in ('.npz', '.mat', '.h5'):
                yield ext, seq


# ----------------------------------- another process changes the directory

def run_race(case, ctx):
    """At any source line, a file appears at or vanishes from the path."""
    op, backend, what = case
    import dsch
    ready = os.path.join(ctx.base, 'ready')
    if what == 'junk':
        with open(ready, 'wb') as file_:
            file_.write(b'something else')
    else:
        make(ctx, backend, ready, 'other')
    content = sut.file_bytes(ready)
    loads = what == 'vanish'
    n, total = 0, 1
    while n <= total:
        root = os.path.join(ctx.dir, 'root%d' % n)
        os.mkdir(root)
        path = os.path.join(root, 'f' + sut.EXT[backend])
        if loads:
            shutil.copyfile(ready, path)

        def event():
            if loads:
                os.unlink(path)
                return True
            if os.path.lexists(path):
                return False
            if what == 'link':
                os.symlink('target', path)
            else:
                shutil.copyfile(ready, path)
            return True
        source = dsch.create('::inmem::', model.build(SCHEMA))
        source.data.x.value = 'copied'
        schema = model.build(SCHEMA)
        func = {
            'create': lambda: dsch.create(path, schema),
            'create_from': lambda: dsch.create_from(path, source),
            'save_as': lambda: source.save_as(path),
            'load': lambda: dsch.load(path),
            'force': lambda: dsch.load(path, force=True),
            'pseudo': lambda: dsch.PseudoStorage(path, schema).storage,
        }[op]
        done = events.Happened(func, n or None, event)
        if not n:
            total = done.count
            if done.error:
                raise Violation('%s failed: %r' % (op, done.error))
        else:
            ctx.step()
            where = 'line %d of %d' % (n, total)
            if loads:
                check_vanished(ctx, op, backend, path, root, done, where)
            elif done.fired:
                check_appeared(ctx, what, path, root, content, done, where)
            else:
                ctx.outcome('exists')
            ctx.state((case, n))
        done = None
        if backend == 'hdf5':
            close_hdf5()
        shutil.rmtree(root)
        n += 1


def check_vanished(ctx, op, backend, path, root, done, where):
    ctx.outcome('vanished %s' % ('error' if done.error else 'loaded'))
    if os.path.lexists(path):
        if op == 'pseudo' and not done.error:
            # It was missing already, so that a new file has been created.
            if sut.observe(done.result.data, SCHEMA) != {'x': None, 'a': None}:
                raise Violation('%s: new file contains data' % where)
            return
        raise Violation('%s: a missing file has been created' % where)
    if os.listdir(root):
        raise Violation('%s: other files: %r' % (where, os.listdir(root)))
    if done.error:
        return
    text = sut.observe(done.result.data, SCHEMA)['x']
    if text is None and op == 'pseudo' and backend != 'hdf5':
        return
    if text != 'other':
        raise Violation('%s: loaded %r from a missing file' % (where, text))


def check_appeared(ctx, what, path, root, content, done, where):
    ctx.outcome('appeared %s' % ('error' if done.error else 'done'))
    if os.listdir(root) != [os.path.basename(path)]:
        raise Violation('%s: there are files %r' % (where, os.listdir(root)))
    if what == 'link':
        if not os.path.islink(path):
            raise Violation('%s: a link has been overwritten' % where)
    elif sut.file_bytes(path) != content:
        raise Violation('%s: a file that exists has been overwritten' % where)


def race_cases(tier):
    for backend in sut.FILES:
        for op in ('create', 'create_from', 'save_as', 'pseudo'):
            for what in ('junk', 'storage', 'link'):
                if op == 'pseudo' and what == 'storage':
                    continue     # It may be loaded, which is its purpose.
                yield op, backend, what
        for op in ('load', 'force', 'pseudo'):
            yield op, backend, 'vanish'


# ------------------------------------------------------------- sequences

PATHS = [('a.npz', None), ('a.h5', None), ('a.hdf5', None), ('a.mat', None),
         ('a', 'npz'), ('a.npz.npz', None), ('a.mat.mat', None),
         ('a', 'hdf5'), ('a', 'mat')]


def run_sequence(ops, ctx):
    import dsch
    model_fs = {}
    root = os.path.join(ctx.dir, 'root')
    os.mkdir(root)
    last = None
    for n, (op, (name, backend)) in enumerate(ops):
        path = os.path.join(root, name)
        kwargs = {} if backend is None else {'backend': backend}
        actual = backend or detect(name)
        expected = None
        if op == 'load':
            if name not in model_fs:
                expected = FileNotFoundError
            elif model_fs[name][0] != actual:
                expected = Exception
        elif name in model_fs:
            expected = FileExistsError
        if op == 'copy' and last is None:
            raise Skip()
        before = listing(root)
        storage = None
        failed = False
        ctx.step()
        try:
            if op == 'create':
                storage = dsch.create(path, model.build(SCHEMA), **kwargs)
                text = None
            elif op == 'copy':
                storage = last.save_as(path, **kwargs)
                text = last_text
            else:
                storage = dsch.load(path, **kwargs)
                text = model_fs[name][1]
        except Exception as err:
            if expected is None or not isinstance(err, expected):
                raise
            failed = True
        if failed:
            gc.collect()
            only_changed(before, listing(root), None, '%s %s' % (op, name))
            continue
        if expected is not None:
            raise Violation('%s %s succeeded' % (op, name))
        model.same(sut.observe(storage.data, SCHEMA), {'x': text, 'a': None},
                   '%s %s' % (op, name))
        last_text = 'text %d' % n
        storage.data.x.value = last_text
        storage.save()
        last = dsch.create_from('::inmem::', storage)
        storage = None
        close_hdf5()
        only_changed(before, listing(root), name, '%s %s' % (op, name))
        model_fs[name] = (actual, last_text)
        if sorted(os.listdir(root)) != sorted(model_fs):
            raise Violation('files are %r, expected %r' % (
                sorted(os.listdir(root)), sorted(model_fs)))
    for name, (actual, text) in model_fs.items():
        got = dsch.load(os.path.join(root, name), backend=actual)
        model.same(sut.observe(got.data, SCHEMA), {'x': text, 'a': None},
                   name)
    ctx.state(tuple(sorted(model_fs.items())))


def sequences(tier):
    ops = [(op, path) for op in ('create', 'copy', 'load')
           for path in PATHS]
    for n in range(1, 4 if tier == 'quick' else 5):
        for seq in itertools.product(ops, repeat=n):
            if seq[0][0] == 'load' and n > 1:
                continue   # nothing to load yet
            yield seq


def spaces(tier):
    return [Space('paths', lambda: cases(tier), run, describe),
            Space('races', lambda: race_cases(tier), run_race, describe),
            Space('open', lambda: live_cases(tier), run_live, describe),
            Space('sequences', lambda: sequences(tier), run_sequence,
                  describe)]
