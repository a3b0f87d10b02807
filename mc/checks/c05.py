"""C05: non-conforming data never gets through an unforced save or load."""
import itertools
import os

import numpy as np

from .. import model, sut, values
from ..core import Space, Violation
from ..model import comp, leaf, lst

LEVEL = 'model_checking'
BOUNDS = ('all valid/invalid/empty combinations of the leaves of 13 tree '
          'shapes plus every constraint kind violated at 6 tree positions x '
          '3 file backends x {fresh file, existing valid file, loaded file} '
          'x unforced/forced save, unforced/forced load, PseudoStorage')
ASSUMPTIONS = ['hdf5 refuses or converts some invalid values already on '
               'assignment; those cases are counted as not enabled']


def is_rejected(func):
    """Run func; (True, exception) if it raised a validation exception."""
    import dsch
    try:
        return False, func()
    except (dsch.exceptions.ValidationError,
            dsch.exceptions.SubnodeValidationError) as err:
        return True, err


def expect_class(err, desc, what):
    """The documented exception class depends on the top-level node."""
    import dsch
    if model.is_leaf(desc):
        want = dsch.exceptions.ValidationError
        if not isinstance(err, want):
            raise Violation('%s raised %r' % (what, err))


def run(case, ctx):
    import dsch
    from ..core import Skip
    backend, desc, state, mode = case
    invalid = bool(model.invalid_paths(desc, state))
    ext = sut.EXT[backend]
    path = ctx.path(ext)
    storage = sut.create(ctx, backend, desc, path)
    if mode != 'fresh':
        storage.save(force=True)
        if mode == 'loaded':
            storage = None
            from ..core import close_hdf5
            close_hdf5()
            storage = dsch.load(path, force=True)
    try:
        sut.fill(storage.data, desc, state)
        model.same(sut.observe(storage.data, desc), state, 'filled')
    except Exception:
        if backend == 'hdf5' and invalid:
            raise Skip()
        raise
    ctx.state((backend, mode, model.canon(state)))
    # save gate
    before = sut.file_bytes(path)
    rejected, result = is_rejected(storage.save)
    ctx.step()
    if rejected != invalid:
        raise Violation('unforced save %s' % (
            'rejected valid data' if rejected else 'accepted invalid data'))
    if rejected:
        expect_class(result, desc, 'save')
        if sut.file_bytes(path) != before:
            raise Violation('rejected save has changed the file')
        model.same(sut.observe(storage.data, desc), state,
                   'after rejected save')
        rejected2, _ = is_rejected(lambda: storage.save(False))
        if not rejected2 or sut.file_bytes(path) != before:
            raise Violation('second unforced save was accepted')
    # forced save
    storage.save(force=True)
    ctx.step()
    copy = sut.snapshot(ctx, storage)
    forced = dsch.load(copy, force=True)
    model.same(sut.observe(forced.data, desc), state, 'forced save and load')
    # load gate
    required = [('backend', backend), ('required_schema', model.build(desc)),
                ('required_schema_hash', model.to_hash(desc)),
                ('force', False)]
    subsets = [dict(s) for n in range(5)
               for s in itertools.combinations(required, n)]
    if mode != 'fresh':
        subsets = subsets[:5]
    for kwargs in subsets:
        copy = sut.snapshot(ctx, storage)
        before = sut.file_bytes(copy)
        rejected, result = is_rejected(lambda: dsch.load(copy, **kwargs))
        ctx.step()
        if rejected != invalid:
            raise Violation('unforced load %r %s' % (
                kwargs,
                'rejected valid data' if rejected else
                'accepted invalid data'))
        if rejected:
            expect_class(result, desc, 'load')
            if sut.file_bytes(copy) != before:
                raise Violation('rejected load has changed the file')
        else:
            model.same(sut.observe(result.data, desc), state, 'loaded')
    for n in range(4):
        for chosen in itertools.combinations(required[:3], n):
            if mode == 'fresh' or n == 3:
                model.same(sut.observe(dsch.load(
                    copy, force=True, **dict(chosen)).data, desc), state,
                    'forced load')
                ctx.step()
    # an unforced save of the forcibly loaded data is still rejected
    rejected, _ = is_rejected(forced.save)
    if rejected != invalid:
        raise Violation('save after forced load: rejected=%r' % rejected)
    if mode == 'fresh':
        check_pseudo(ctx, desc, state, storage, invalid)


OTHER = comp({'zz': values.BOOL})


def check_pseudo(ctx, desc, state, storage, invalid):
    """PseudoStorage in all its configurations has the same gates."""
    import dsch
    ext = os.path.splitext(storage.storage_path)[1]
    for main, alts in ((desc, None), (desc, [OTHER]), (OTHER, [desc]),
                       (desc, [desc])):
        for how in ('open', 'deferred', 'with', 'hashes'):
            copy = sut.snapshot(ctx, storage)
            before = sut.file_bytes(copy)
            kwargs = {}
            if alts:
                kwargs['schema_alternatives'] = [
                    model.build(d).hash() if how == 'hashes' else
                    model.build(d) for d in alts]

            def opening():
                pseudo = dsch.PseudoStorage(
                    copy, model.build(main),
                    defer_open=how not in ('open', 'hashes'), **kwargs)
                if how == 'deferred':
                    pseudo.open()
                elif how == 'with':
                    pseudo.__enter__()
                return pseudo
            rejected, result = is_rejected(opening)
            ctx.step()
            if rejected != invalid:
                raise Violation('PseudoStorage %s with alternatives %r: '
                                'rejected=%r' % (how, alts, rejected))
            if rejected and sut.file_bytes(copy) != before:
                raise Violation('rejected opening has changed the file')
            if not rejected:
                model.same(sut.observe(result.data, desc), state, 'opened')
    for alts in (None, [OTHER]):
        for how in ('close', 'exit', 'exception'):
            path2 = ctx.path(ext)
            kwargs = {}
            if alts:
                kwargs['schema_alternatives'] = [model.build(OTHER)]
            pseudo = dsch.PseudoStorage(path2, model.build(desc), **kwargs)
            sut.fill(pseudo.data, desc, state)
            before = sut.file_bytes(path2)
            err = KeyError('x')
            rejected, _ = is_rejected({
                'close': pseudo.close,
                'exit': lambda: pseudo.__exit__(None, None, None),
                'exception': lambda: pseudo.__exit__(KeyError, err, None),
            }[how])
            ctx.step()
            if rejected != invalid:
                raise Violation('PseudoStorage %s: rejected=%r' %
                                (how, rejected))
            if rejected and sut.file_bytes(path2) != before:
                raise Violation('PseudoStorage %s has written invalid data' %
                                how)
            if not rejected:
                pseudo = None
                model.same(sut.observe(dsch.load(path2).data, desc), state,
                           'PseudoStorage ' + how)


LEAF_CASES = [
    (leaf('String', max_length=2), 'ok', 'bad'),
    (leaf('String', min_length=2), 'ok', 'b'),
    (leaf('String', min_length=1), 'o', ''),
    (leaf('String', max_length=0), '', 'b'),
    (leaf('Bytes', max_length=2), b'ok', b'bad'),
    (leaf('Bytes', min_length=2), b'\0\0', b'\0'),
    (leaf('Scalar', dtype='int32', max_value=5), np.int32(5), np.int32(6)),
    (leaf('Scalar', dtype='float64', min_value=0), np.float64(0),
     np.float64(-.5)),
    (leaf('Array', dtype='int32', max_value=5), np.array([5], 'int32'),
     np.array([1, 6], 'int32')),
    (leaf('Array', dtype='int32', min_value=0), np.array([0], 'int32'),
     np.array([1, -1], 'int32')),
    (leaf('Array', dtype='int32', min_shape=(2,)), np.zeros(2, 'int32'),
     np.zeros(1, 'int32')),
    (leaf('Array', dtype='int32', max_shape=(2,)), np.zeros(2, 'int32'),
     np.zeros(3, 'int32')),
    (leaf('Array', dtype='int32', ndim=2), np.zeros((2, 1), 'int32'),
     np.zeros(2, 'int32')),
    (leaf('Array', dtype='int32'), np.zeros(2, 'int32'),
     np.zeros(2, 'int16')),
]


def leaf_cases(tier):
    modes = ('fresh', 'existing', 'loaded')
    for desc, good, bad in LEAF_CASES:
        for value in (None, good, bad):
            for d, s in (
                    (desc, value),
                    (comp({'a': values.BOOL, 'x': desc}),
                     {'a': True, 'x': value}),
                    (comp({'x': desc, 'y': desc}, optionals=['x', 'y']),
                     {'x': value, 'y': good}),
                    (lst(desc), [value]), (lst(desc), [good, value]),
                    (comp({'c': comp({'x': desc})}), {'c': {'x': value}}),
                    (comp({'l': lst(comp({'x': desc}))}),
                     {'l': [{'x': good}, {'x': value}]}),
                    (lst(lst(desc)), [[], [value]])):
                if (desc[0] == 'Array' and value is bad and
                        (desc[1].get('ndim') == 2 or
                         bad.dtype != 'int32')):
                    backends = ('npz',)
                else:
                    backends = sut.FILES
                for backend in backends:
                    for mode in modes:
                        yield backend, d, s, mode


def list_cases(tier):
    for lo, hi in ((None, 1), (2, None), (1, 2), (None, 0)):
        for n in range(4):
            for item, val in ((values.BOOL, True), (values.BOOL, None),
                              (lst(values.BOOL), []),
                              (comp({'x': values.STRING}), {'x': None})):
                desc = lst(item, min_length=lo, max_length=hi)
                for backend in sut.FILES:
                    yield backend, desc, [val] * n, 'fresh'
                    yield backend, comp({'l': desc, 'x': values.BOOL}), {
                        'l': [val] * n, 'x': None}, 'existing'


def depends_cases(tier):
    t = leaf('Array', dtype='int32')
    for order in ('tu', 'ut'):
        fields = {'t': t, 'u': leaf('Array', dtype='int32', depends_on='t')}
        desc = comp({k: fields[k] for k in order})
        for n, m in itertools.product((None, 0, 1, 2), repeat=2):
            state = {k: None if i is None else np.zeros(i, 'int32')
                     for k, i in (('t', n), ('u', m))}
            for backend in sut.FILES:
                yield backend, desc, state, 'fresh'
                yield backend, lst(desc), [state, state], 'loaded'


def tree_cases(tier):
    p = leaf('String', max_length=2)
    q = leaf('Scalar', dtype='int32', min_value=0)

    def vals(desc):
        return ['ok', 'bad'] if desc[0] == 'String' else [np.int32(1),
                                                          np.int32(-1)]
    for k, desc in enumerate(values.shapes(p, q)):
        lengths = (0, 1) if tier == 'quick' or k in (7, 11, 12) else (0, 1, 2)
        for state in model.fills(desc, vals, lengths):
            for backend in sut.FILES:
                yield backend, desc, state, 'fresh'


def incomplete_cases(tier):
    """Conforming but incomplete data passes without force."""
    desc = comp({'a': leaf('String', min_length=2),
                 'b': leaf('Array', dtype='int32', min_shape=(2,)),
                 'c': comp({'x': leaf('Bytes', min_length=1)}),
                 'l': lst(leaf('Scalar', dtype='int8', min_value=1))},
                optionals=['b'])
    for state in model.fills(desc, lambda d: {
            'String': ['ok'], 'Array': [np.zeros(2, 'int32')],
            'Bytes': [b'x'], 'Scalar': [np.int8(1)]}[d[0]], (0, 1, 2)):
        for backend in sut.FILES:
            yield backend, desc, state, 'fresh'


def spaces(tier):
    def space(name, gen):
        return Space(name, lambda: gen(tier), run, lambda c: '%s %s %s %s' % (
            c[0], model.short(c[1], 500), model.short(c[2]), c[3]))
    return [space('leaves', leaf_cases), space('lists', list_cases),
            space('depends', depends_cases), space('trees', tree_cases),
            space('incomplete', incomplete_cases)]
