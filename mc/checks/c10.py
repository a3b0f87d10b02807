"""C10: PseudoStorage follows its open/close life cycle."""
import gc
import itertools
import os
import subprocess
import sys

import numpy as np

from .. import model, sut, values
from ..core import REPO, Skip, Space, Violation, close_hdf5
from ..model import comp, leaf, lst

LEVEL = 'model_checking'
BOUNDS = ('all sequences of {open, close, enter, exit, exit with exception, '
          'assign valid, assign invalid, clear} up to depth 3 (quick; 4 for '
          'six targets) / 5 (thorough) x deferred or immediate opening x '
          'targets: missing, matching, alternative (as node, hash, tuple, '
          'generator), foreign, invalid and corrupt files on 3 backends, '
          'unknown and in-memory paths, main/alternative/foreign data nodes '
          'of 4 backends; 15 other top-level nodes and values (empty lists and '
          'compilations, zero, false and empty values) x all sequences of '
          '{open, close, enter, exit, fill} up to depth 4 (thorough 5); two '
          'PseudoStorages of one path: all sequences of {open, set, close} '
          'of each and of 6 changes of the file by others up to depth 4 '
          '(thorough 5)')
ASSUMPTIONS = ['after a close that fails because of invalid data, the '
               'PseudoStorage stays open, so that the data is not lost',
               'file contents are compared after garbage collection if '
               'opening has failed']

MAIN = comp({'s': leaf('String', max_length=3), 'l': lst(values.BOOL)})
ALT = comp({'s': leaf('String', max_length=3)})
OTHER = comp({'s': values.STRING, 'l': lst(values.BOOL)})
HOST = comp({'m': MAIN, 'a': ALT, 'o': OTHER, 'l': lst(MAIN)})
DESCS = {'main': MAIN, 'alt': ALT, 'other': OTHER}


class Expected:
    """Reference model of a PseudoStorage and its file."""

    def __init__(self, target):
        self.target = target
        self.open = False
        self.state = None      # data while open
        self.desc = None
        self.stored = None     # (desc, state) of the file, None: no file
        self.untouched = True


def describe(case):
    return ' '.join(str(c) for c in case)


def content(which, valid=True):
    state = {'s': 'abc' if valid else 'too long'}
    if which != 'alt':
        state['l'] = [True, None]
    return state


def prepare(ctx, target):
    """Set up the target. Returns (argument, kwargs, file path or None,
    stored (desc, state) or None, outcome of opening)."""
    import dsch
    kind, backend, detail = target
    kwargs = {}
    alt = model.build(ALT)
    main = model.build(MAIN)
    if kind == 'node':
        host = sut.create(ctx, backend, HOST)
        sut.fill(host.data, HOST, {'m': content('main'), 'a': content('alt'),
                                   'o': content('other'),
                                   'l': [content('main')]})
        node = {'main': host.data.m, 'alt': host.data.a,
                'other': host.data.o, 'item': host.data.l[0]}[detail]
        which = {'item': 'main'}.get(detail, detail)
        if detail == 'alt':
            kwargs['schema_alternatives'] = [alt]
        ok = None if detail != 'other' else \
            dsch.exceptions.InvalidSchemaError
        return node, main, kwargs, None, (DESCS[which], content(which)), ok, \
            host
    if kind == 'inmem':
        return '::inmem::', main, kwargs, None, None, None, None
    if kind == 'unknown':
        return (ctx.path('.foo'), main, kwargs, None, None,
                dsch.exceptions.AutodetectBackendError, None)
    path = ctx.path(sut.EXT[backend])
    if kind == 'missing':
        if detail == 'alts':
            kwargs['schema_alternatives'] = [alt, model.to_hash(OTHER)]
        return path, main, kwargs, path, None, None, None
    if kind == 'corrupt':
        with open(path, 'wb') as file_:
            file_.write(b'not a storage' * 100)
        return path, main, kwargs, path, None, Exception, None
    which = {'matching': 'main', 'invalid': 'main', 'alternative': 'alt',
             'foreign': 'other'}[kind]
    state = content(which, 'invalid' not in (kind, detail))
    storage = sut.create(ctx, backend, DESCS[which], path)
    sut.fill(storage.data, DESCS[which], state)
    storage.save(force=True)
    storage = None
    close_hdf5()
    ok = None
    if kind == 'invalid':
        ok = dsch.exceptions.SubnodeValidationError
        if detail == 'alts':
            kwargs['schema_alternatives'] = [model.to_hash(OTHER), alt]
    if kind == 'foreign':
        ok = dsch.exceptions.InvalidSchemaError
        if detail == 'alts':
            kwargs['schema_alternatives'] = [alt, model.to_hash(ALT)]
        elif detail == 'near':
            hash_ = model.to_hash(OTHER)
            kwargs['schema_alternatives'] = [
                '', hash_[:-1], 'x' + hash_, hash_ + '0', hash_.upper(),
                model.build(lst(OTHER)), hash_[:32], hash_[32:]]
    if kind == 'alternative':
        if detail == 'invalid':
            ok = dsch.exceptions.SubnodeValidationError
        other = model.build(OTHER)
        kwargs['schema_alternatives'] = {
            'node': [alt], 'invalid': [alt], 'hash': [alt.hash()], 'tuple': (other, alt),
            'generator': (x for x in [other.hash(), alt.hash()]),
            'none': None}[detail]
        if detail == 'none':
            ok = dsch.exceptions.InvalidSchemaError
    return path, main, kwargs, path, (DESCS[which], state), ok, None


def check_closed(pseudo, what):
    if pseudo.data is not None or pseudo.storage is not None or \
            pseudo.schema_node is not None:
        raise Violation('%s: closed, but (data, storage, schema_node) is '
                        '%r' % (what, (pseudo.data, pseudo.storage,
                                       pseudo.schema_node)))


def check_file(ctx, path, backend, stored, what):
    """The file has exactly the stored data."""
    import dsch
    import shutil
    if stored is None:
        if os.path.exists(path):
            raise Violation('%s: file exists' % what)
        return
    copy = ctx.path(os.path.splitext(path)[1])
    shutil.copyfile(path, copy)
    loaded = dsch.load(copy, force=True)
    if loaded.schema_hash() != model.to_hash(stored[0]):
        raise Violation('%s: file has a wrong schema' % what)
    model.same(sut.observe(loaded.data, stored[0]), stored[1],
               what + ', file')


def run(case, ctx):
    import dsch
    target, deferred, ops = case
    kind, backend, detail = target
    arg, main, kwargs, path, existing, fail, host = prepare(ctx, target)
    what = ''
    before = sut.file_bytes(path) if path else None
    stored = existing if path else None   # content of the file
    node_state = existing if kind == 'node' else None
    is_open = False
    desc = state = pseudo = None
    pending = False
    if kind == 'inmem':
        listing = None
    folder = os.listdir(ctx.dir)

    def opening(func, what):
        """Open through func and update the reference."""
        nonlocal is_open, desc, state, stored, pending
        ctx.step()
        failed = False
        try:
            result = func()
        except Exception as err:
            if fail is None or not isinstance(err, fail):
                raise
            failed = True
        if failed:
            if backend == 'hdf5':
                gc.collect()   # HDF5 marks open files
            if path and sut.file_bytes(path) != before:
                raise Violation('%s: failed opening has changed the file' %
                                what)
            if not path and os.listdir(ctx.dir) != folder:
                raise Violation('%s: failed opening has created a file' %
                                what)
            return None
        if fail is not None:
            raise Violation('%s succeeded, expected %s' %
                            (what, fail.__name__))
        is_open = True
        pending = False
        if kind == 'node':
            desc, state = node_state
        elif path and stored is not None:
            desc, state = stored
        else:
            desc, state = MAIN, model.empty(MAIN)
            if backend == 'hdf5':
                stored = (desc, state)  # the file is created at once,
                pending = True          # but not necessarily written
        return result

    def closing(func, what):
        nonlocal is_open, stored, node_state, pending
        ctx.step()
        invalid = (is_open and kind not in ('node', 'inmem') and
                   model.invalid_paths(desc, state))
        unsaved = sut.file_bytes(path) if path else None
        try:
            result = func()
        except dsch.exceptions.SubnodeValidationError:
            if not invalid:
                raise
            if sut.file_bytes(path) != unsaved:
                raise Violation('%s: rejected, but written' % what)
            return
        if invalid:
            raise Violation('%s saved invalid data' % what)
        if result:
            raise Violation('%s returned %r' % (what, result))
        if is_open:
            if kind == 'node':
                node_state = (desc, state)
            elif path:
                stored = (desc, state)
        is_open = False
        pending = False

    constructor = lambda: dsch.PseudoStorage(arg, main, defer_open=deferred,
                                             **kwargs)
    if deferred:
        pseudo = constructor()
        if path and sut.file_bytes(path) != before:
            raise Violation('deferred opening has touched the file')
        if os.listdir(ctx.dir) != folder:
            raise Violation('deferred opening has created a file')
    else:
        pseudo = opening(constructor, 'constructor')
        if pseudo is None:
            return
    for n, op in enumerate(ops):
        what = 'step %d (%s)' % (n, op)
        if op == 'open':
            if is_open:
                ctx.step()
                old = (pseudo.data, pseudo.storage)
                try:
                    pseudo.open()
                except RuntimeError:
                    pass
                else:
                    raise Violation('%s: opened twice' % what)
                if (pseudo.data, pseudo.storage) != old:
                    raise Violation('%s: replaced the data' % what)
            else:
                opening(pseudo.open, what)
        elif op == 'enter':
            if is_open:
                old = pseudo.data
                if pseudo.__enter__() is not pseudo or \
                        pseudo.data is not old:
                    raise Violation('%s: reopened' % what)
                ctx.step()
            else:
                result = opening(pseudo.__enter__, what)
                if is_open and result is not pseudo:
                    raise Violation('%s: returned %r' % (what, result))
        elif op == 'close':
            closing(pseudo.close, what)
        elif op == 'exit':
            closing(lambda: pseudo.__exit__(None, None, None), what)
        elif op == 'fail':
            err = KeyError('x')
            closing(lambda: pseudo.__exit__(KeyError, err, None), what)
        else:
            if not is_open:
                raise Skip()
            ctx.step()
            state = dict(state)
            if op == 'valid':
                pseudo.data.s.value = state['s'] = 'v%d' % n
            elif op == 'invalid':
                pseudo.data.s.value = state['s'] = 'invalid'
            elif op == 'append':
                if 'l' not in state:
                    raise Skip()
                pseudo.data.l.append(True)
                state['l'] = state['l'] + [True]
            elif op == 'clear':
                pseudo.data.clear()
                state = model.cleared(desc, state)
            pending = True
            if kind == 'node':
                node_state = (desc, state)
        # Compare the complete observable state.
        if is_open:
            if kind == 'node':
                if pseudo.data is not arg or pseudo.storage is not None:
                    raise Violation('%s: not the given node' % what)
            else:
                if pseudo.storage is None or \
                        pseudo.data is not pseudo.storage.data:
                    raise Violation('%s: open without storage' % what)
                if pseudo.storage.storage_path != arg:
                    raise Violation('%s: wrong path' % what)
            if pseudo.schema_node is not pseudo.data.schema_node and \
                    pseudo.schema_node.hash() != model.to_hash(desc):
                raise Violation('%s: wrong schema_node' % what)
            if pseudo.schema_node.hash() != model.to_hash(desc):
                raise Violation('%s: wrong schema' % what)
            sut.check_node(pseudo.data, desc, state, what)
        else:
            check_closed(pseudo, what)
        if kind == 'node':
            sub = {'main': ('m',), 'alt': ('a',), 'other': ('o',),
                   'item': ('l', 0)}[detail]
            whole = {'m': content('main'), 'a': content('alt'),
                     'o': content('other'), 'l': [content('main')]}
            whole = model.update(HOST, whole, sub,
                                 lambda d, s: node_state[1])
            model.same(sut.observe(host.data, HOST), whole, what + ', host')
        ctx.state((target, is_open, state and model.canon(state),
                   stored and model.canon(stored[1])))
    # hdf5 files are modified in place, see C03; all others only by saving.
    if path and kind != 'corrupt' and not (backend == 'hdf5' and pending):
        check_file(ctx, path, backend, stored, 'at the end')
    if kind in FAILING or fail is not None:
        gc.collect()
    if path and fail is not None and \
            sut.file_bytes(path) != before:
        raise Violation('file was changed')
    if not path and kind != 'node' and os.listdir(ctx.dir) != folder:
        raise Violation('created a file')


TARGETS = []
for _b in sut.FILES:
    TARGETS += [('missing', _b, ''), ('matching', _b, ''),
                ('alternative', _b, 'node'), ('foreign', _b, ''),
                ('invalid', _b, ''), ('corrupt', _b, ''),
                ('missing', _b, 'alts'), ('alternative', _b, 'hash'),
                ('alternative', _b, 'tuple'),
                ('alternative', _b, 'generator'),
                ('alternative', _b, 'none'), ('foreign', _b, 'alts'),
                ('invalid', _b, 'alts'), ('foreign', _b, 'near'), ('alternative', _b, 'invalid')]
TARGETS += [('inmem', '', ''), ('unknown', '', '')]
for _b in sut.ALL:
    TARGETS += [('node', _b, d) for d in ('main', 'alt', 'other', 'item')]
OPS = ('open', 'close', 'enter', 'exit', 'fail', 'valid', 'invalid',
       'append', 'clear')
FAILING = ('foreign', 'invalid', 'corrupt', 'unknown')


def enabled(target, deferred, ops):
    """Leave out sequences that modify the data while it is closed."""
    fails = (target[0] in FAILING or target[2] in ('none', 'invalid') or
             target[:1] + target[2:] == ('node', 'other'))
    if fails and not deferred:
        return not ops
    is_open = not deferred
    for op in ops:
        if op in ('open', 'enter'):
            is_open = not fails
        elif op in ('close', 'exit', 'fail'):
            is_open = False   # unless rejected
        elif not is_open and not (set(ops) & {'invalid'}):
            return False
        elif fails:
            return False
    return True


def cases(tier):
    depth = 3 if tier == 'quick' else 5
    deep = {('matching', 'npz', ''), ('matching', 'hdf5', ''),
            ('missing', 'mat', ''), ('missing', 'hdf5', ''),
            ('inmem', '', ''), ('node', 'npz', 'main')}
    for n in range(depth + (2 if tier == 'quick' else 1)):
        for target in TARGETS:
            if n > depth and target not in deep:
                continue
            if n >= depth and target[2] in ('alts', 'hash', 'tuple',
                                            'generator', 'item'):
                continue
            for deferred in (False, True):
                for ops in itertools.product(OPS, repeat=n):
                    if enabled(target, deferred, ops):
                        yield target, deferred, ops


# ------------------------------------------- the file is free after closing

LOADER = '''
import sys
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
import numpy, h5py, scipy.io
sys.pycache_prefix = '/nonexistent/dsch-mc'
import dsch
print(dsch.load(sys.argv[2]).data.s.value)
'''


def run_release(case, ctx):
    """Another process can load the file as soon as it is closed."""
    import dsch
    backend, how, first = case
    path = ctx.path(sut.EXT[backend])
    if first == 'existing':
        storage = sut.create(ctx, backend, MAIN, path)
        storage.save()
        storage = None
        close_hdf5()
    gc.disable()
    try:
        pseudo = dsch.PseudoStorage(path, model.build(MAIN))
        pseudo.data.s.value = 'abc'
        if how == 'close':
            pseudo.close()
        elif how == 'with':
            with pseudo:
                pass
        else:
            try:
                with pseudo:
                    raise KeyError('x')
            except KeyError:
                pass
        proc = subprocess.run(
            [sys.executable, '-B', '-c', LOADER, REPO, path],
            capture_output=True, text=True, timeout=100)
    finally:
        gc.enable()
    ctx.step()
    ctx.state(case)
    if proc.returncode or proc.stdout.strip() != 'abc':
        raise Violation('file cannot be loaded after closing: %s' %
                        proc.stderr.strip()[-300:])
    pseudo.open()
    if pseudo.data.s.value != 'abc':
        raise Violation('reopened data')
    pseudo.close()
    pseudo.close()


def release_cases():
    return itertools.product(sut.FILES, ('close', 'with', 'exception'),
                             ('missing', 'existing'))


# -------------------------------------- top-level nodes of all other kinds

TOPS = [(lst(values.BOOL), []), (lst(values.BOOL), [None]),
        (lst(values.BOOL), [False]), (lst(lst(values.I32)), [[]]),
        (comp({}), {}), (comp({'x': values.BOOL}), {'x': None}),
        (values.BOOL, None), (values.BOOL, False), (values.STRING, ''),
        (values.I32, np.int32(0)), (values.A1, None),
        (values.A1, np.zeros(0, 'int32')), (values.A1, np.zeros(2, 'int32')),
        (values.BYTES_, b''), (values.DATE, None)]


def run_tops(case, ctx):
    """The life cycle does not depend on kind and value of the top node."""
    import dsch
    backend, desc, state, existing, ops = case
    schema = model.build(desc)
    host = None
    stored = model.empty(desc)
    if existing == 'node':
        host = sut.create(ctx, backend, comp({'h': desc}))
        sut.fill(host.data.h, desc, state)
        arg, stored = host.data.h, state
    else:
        arg = sut.new_path(ctx, backend)
        if existing == 'file':
            storage = sut.create(ctx, backend, desc, arg)
            sut.fill(storage.data, desc, state)
            storage.save()
            storage, stored = None, state
            close_hdf5()
    pseudo = dsch.PseudoStorage(arg, schema, defer_open=True)
    is_open, current = False, None
    for n, op in enumerate(ops):
        what = 'step %d (%s)' % (n, op)
        ctx.step()
        if op == 'fill':
            if not is_open:
                raise Skip()
            pseudo.data.clear()
            sut.fill(pseudo.data, desc, state)
            current = state
        elif op == 'open' and is_open:
            old = pseudo.data, pseudo.storage
            try:
                pseudo.open()
            except RuntimeError:
                pass
            else:
                raise Violation('%s: opened twice' % what)
            if pseudo.data is not old[0] or pseudo.storage is not old[1]:
                raise Violation('%s: replaced the data' % what)
        elif op in ('open', 'enter'):
            old = pseudo.data
            pseudo.open() if op == 'open' else pseudo.__enter__()
            if is_open:
                if pseudo.data is not old:
                    raise Violation('%s: replaced the data' % what)
            else:
                is_open, current = True, stored
        else:
            if op == 'close':
                pseudo.close()
            else:
                pseudo.__exit__(None, None, None)
            if is_open and arg != '::inmem::':
                stored = current
            is_open = False
        ctx.state((backend, desc, is_open, model.canon(current),
                   model.canon(stored)))
        if is_open:
            if pseudo.schema_node.hash() != model.to_hash(desc):
                raise Violation('%s: schema_node' % what)
            if existing == 'node':
                if pseudo.data is not arg or pseudo.storage is not None:
                    raise Violation('%s: not the given node' % what)
            elif pseudo.storage.data is not pseudo.data:
                raise Violation('%s: data is not that of the storage' % what)
            sut.check_node(pseudo.data, desc, current, what)
        else:
            check_closed(pseudo, what)
            if backend != 'inmem' and existing != 'node' and (
                    os.path.exists(arg)):
                check_file(ctx, arg, backend, (desc, stored), what)


def top_cases(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        for ops in itertools.product(('open', 'enter', 'close', 'exit',
                                      'fill'), repeat=n):
            if 'fill' in ops and not set(ops[:ops.index('fill')]) & {
                    'open', 'enter'}:
                continue
            if n == 4 and tier == 'quick' and ops[0] not in ('open', 'enter'):
                continue
            for desc, state in TOPS:
                if desc[0] == 'List' and 'fill' in ops[ops.index(
                        'fill') + 1 if 'fill' in ops else 0:]:
                    continue
                for backend in sut.ALL:
                    for existing in ('node', 'missing', 'file'):
                        if existing == 'file' and backend == 'inmem':
                            continue
                        if n == 4 and tier == 'quick' and (
                                len(ops) + len(existing)) % 2:
                            continue
                        yield backend, desc, state, existing, ops


# ------------------------------ the file is changed while it is not open here

OUTSIDE = ('change', 'remove', 'alt', 'foreign', 'invalid', 'corrupt')
BETWEEN = tuple((op, who) for who in (0, 1)
                for op in ('open', 'set', 'close')) + tuple(
    (op, None) for op in OUTSIDE)


def outside(ctx, op, backend, path, stored, n):
    """What another program does to the file. Returns what it contains."""
    if op == 'change':
        if not isinstance(stored, tuple):
            raise Skip()
        desc, state = stored
        state = dict(state, s='o%d' % n)
    elif op == 'remove':
        if stored is None:
            raise Skip()
        os.unlink(path)
        return None
    elif op == 'corrupt':
        with open(path, 'wb') as file_:
            file_.write(b'not a storage' * 100)
        return 'corrupt'
    else:
        desc = {'alt': ALT, 'foreign': OTHER, 'invalid': MAIN}[op]
        state = content({'foreign': 'other', 'invalid': 'main'}.get(op, op),
                        op != 'invalid')
    other = ctx.path(sut.EXT[backend])
    storage = sut.create(ctx, backend, desc, other)
    sut.fill(storage.data, desc, state)
    storage.save(force=True)
    storage = None
    close_hdf5()
    os.replace(other, path)
    return desc, state


def run_between(case, ctx):
    """Opening uses what is in the file at that time."""
    import dsch
    backend, ops = case
    path = ctx.path(sut.EXT[backend])
    stores = [dsch.PseudoStorage(path, model.build(MAIN), True,
                                 [model.build(ALT)]) for _ in range(2)]
    stored, live = None, [None, None]
    for n, (op, who) in enumerate(ops):
        what = 'step %d (%s %s)' % (n, op, who)
        if backend == 'hdf5' and any(live) and (
                who is None or live[1 - who]):
            raise Skip()
        ctx.step()
        if who is None:
            stored = outside(ctx, op, backend, path, stored, n)
            continue
        store = stores[who]
        if op == 'open':
            if live[who]:
                raise Skip()
            expected = (
                None if stored is None else Exception
                if stored == 'corrupt' else
                dsch.exceptions.InvalidSchemaError if stored[0] is OTHER else
                dsch.exceptions.SubnodeValidationError
                if model.invalid_paths(*stored) else None)
            before = sut.file_bytes(path)
            failed = False
            try:
                store.open()
            except Exception as err:
                if expected is None or not isinstance(err, expected):
                    raise
                failed = True
            if failed:
                gc.collect(1)
                if sut.file_bytes(path) != before:
                    raise Violation('%s: changed the file' % what)
            elif expected:
                raise Violation('%s: succeeded' % what)
            else:
                live[who] = stored or (MAIN, model.empty(MAIN))
                if backend == 'hdf5':
                    stored = live[who]
        elif op == 'set':
            if not live[who]:
                raise Skip()
            store.data.s.value = 's%d' % n
            live[who] = live[who][0], dict(live[who][1], s='s%d' % n)
        else:
            store.close()
            if live[who]:
                stored, live[who] = live[who], None
        for store, expected in zip(stores, live):
            if not expected:
                check_closed(store, what)
                continue
            if store.schema_node.hash() != model.to_hash(expected[0]):
                raise Violation('%s: wrong schema' % what)
            sut.check_node(store.data, expected[0], expected[1], what)
        ctx.state((backend, model.canon(live), model.canon(stored)))
    for store in stores:
        if store.data is not None:
            store.data = store.storage = None
    if not any(live) and stored != 'corrupt':
        check_file(ctx, path, backend, stored, 'at the end')


def between_cases(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        for ops in itertools.product(BETWEEN, repeat=n):
            # The first open is by store 0; something follows on it.
            first = [who for _, who in ops if who is not None]
            if not first or first[0] or ('open', 0) not in ops or \
                    ops[-1][1] is None:
                continue
            for backend in sut.FILES:
                yield backend, ops


def describe_top(case):
    return '%s %s %s %s %s' % (case[0], model.short(case[1]),
                               model.short(case[2]), case[3], case[4])


def spaces(tier):
    return [Space('tops', lambda: top_cases(tier), run_tops, describe_top),
            Space('between', lambda: between_cases(tier), run_between,
                  describe),
            Space('release', release_cases, run_release, describe),
            Space('life cycle', lambda: cases(tier), run, describe)]
