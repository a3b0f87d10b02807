"""C08: validation errors name exactly the node that is invalid."""
import itertools

import numpy as np

from .. import model, sut, values
from ..core import Skip, Space, Violation
from ..model import comp, leaf, lst
from .c05 import LEAF_CASES

LEVEL = 'model_checking'
BOUNDS = ('all trees of 13 shapes (depth <= 4) and 3 deeper ones with every '
          'assignment of {empty, valid, invalid} to the leaves (lists of '
          'length 0-2), every constraint kind at 8 positions, lists of 25 '
          'items with each item and each pair of items invalid, 67 field '
          'names; errors of validate() on the storage and on every node, '
          'save(), load() and PseudoStorage on all backends')
ASSUMPTIONS = ['hdf5 refuses or converts some invalid values already on '
               'assignment; those cases are counted as not enabled']


def check_error(err, base, invalid, data, what):
    """Check an error raised while validating the node at path base."""
    import dsch
    exc = dsch.exceptions
    allowed = [p[len(base):] for p in invalid if p[:len(base)] == base]
    if isinstance(err, exc.ValidationError):
        path, cause, text = (), err, ''
        if () not in allowed:
            raise Violation('%s: ValidationError, although the invalid nodes '
                            'are %r' % (what, allowed))
    elif isinstance(err, exc.SubnodeValidationError):
        text = err.node_path()
        cause = err.original_cause()
        texts = {model.path_text(p): p for p in allowed if p}
        if text not in texts:
            raise Violation('%s: error names %r, invalid nodes are %r' %
                            (what, text, sorted(texts)))
        path = texts[text]
        if text not in str(err):
            raise Violation('%s: %r does not contain the path' %
                            (what, str(err)))
    else:
        raise Violation('%s raised %r' % (what, err))
    if not isinstance(cause, exc.ValidationError):
        raise Violation('%s: original cause is %r' % (what, cause))
    # The path leads to a node that reports the same error by itself.
    node = sut.node_at(data, base + path)
    try:
        node.validate()
    except exc.ValidationError as own:
        if (own.message, repr(own.expected), repr(own.got)) != (
                cause.message, repr(cause.expected), repr(cause.got)):
            raise Violation('%s: cause is %s, the node says %s' %
                            (what, cause, own))
        if str(own) not in str(err):
            raise Violation('%s: %r does not contain the cause' %
                            (what, str(err)))
    else:
        raise Violation('%s: node %r is valid by itself' % (what, text))


def expect(func, base, invalid, data, what):
    import dsch
    exc = dsch.exceptions
    below = [p for p in invalid if p[:len(base)] == base]
    try:
        func()
    except (exc.ValidationError, exc.SubnodeValidationError) as err:
        if not below:
            raise Violation('%s rejected valid data: %s' % (what, err))
        check_error(err, base, invalid, data, what)
    else:
        if below:
            raise Violation('%s accepted invalid data' % what)


def run(case, ctx):
    import dsch
    backend, desc, state = case
    storage = sut.create(ctx, backend, desc)
    invalid = model.invalid_paths(desc, state)
    try:
        sut.fill(storage.data, desc, state)
        model.same(sut.observe(storage.data, desc), state, 'filled')
    except Exception:
        if backend == 'hdf5' and invalid:
            raise Skip()
        raise
    data = storage.data
    expect(storage.validate, (), invalid, data, 'storage.validate')
    for path, d, s in model.nodes(desc, state):
        expect(sut.node_at(data, path).validate, path, invalid, data,
               'validate at %r' % (path,))
        ctx.step()
    if backend != 'inmem':
        expect(storage.save, (), invalid, data, 'save')
        storage.save(force=True)
        copy = sut.snapshot(ctx, storage)
        loaded = dsch.load(copy, force=True)
        expect(lambda: dsch.load(sut.snapshot(ctx, storage)), (), invalid,
               loaded.data, 'load')
        expect(loaded.validate, (), invalid, loaded.data,
               'validate after load')
        expect(lambda: dsch.PseudoStorage(sut.snapshot(ctx, storage),
                                          model.build(desc)),
               (), invalid, loaded.data, 'PseudoStorage')
        ctx.step(4)
    if invalid:
        # Repairing the named node and validating again ends after as many
        # steps as there are invalid nodes.
        repair(storage, desc, state, invalid, ctx)
    ctx.state((backend, model.canon(state)))


def repair(storage, desc, state, invalid, ctx):
    import dsch
    exc = dsch.exceptions
    left = {model.path_text(p): p for p in invalid}
    for _ in range(len(invalid)):
        try:
            storage.validate()
        except exc.SubnodeValidationError as err:
            path = left.pop(err.node_path(), None)
            if path is None:
                raise Violation('repaired node %r is named again' %
                                err.node_path())
        except exc.ValidationError:
            path = left.pop('')
        else:
            break
        ndesc, nstate = model.lookup(desc, state, path)
        if ndesc[0] == 'List':
            return
        sut.node_at(storage.data, path).clear()
        ctx.step()
    try:
        storage.validate()
    except exc.DschError as err:
        raise Violation('still invalid after repairing all nodes: %s' % err)


P = leaf('String', max_length=2)
Q = leaf('Scalar', dtype='int32', min_value=0)


def vals(desc):
    return (['ok', 'bad'] if desc[0] == 'String' else
            [np.int32(0), np.int32(-1)])


def invals(desc):
    return ['bad'] if desc[0] == 'String' else [np.int32(-1)]


def tree_cases(tier):
    limit, cap = (500, 4000) if tier == 'quick' else (10**6, 60000)
    for desc in values.shapes(P, Q):
        states = list(itertools.islice(
            model.fills(desc, vals, (0, 1, 2)), cap))
        step = max(1, len(states) // limit)
        for n, state in enumerate(states[::step]):
            if tier == 'quick' and n % 4 and len(states) > 100:
                backends = (sut.ALL[n % 4],)
            else:
                backends = sut.ALL
            for backend in backends:
                yield backend, desc, state
    # One or two invalid leaves, everything else valid.
    for desc in values.shapes(P, Q):
        for n in (2, 3):
            good = model.full(desc, lambda d: vals(d)[0], n)
            paths = [p for p, d, s in model.nodes(desc, good)
                     if model.is_leaf(d)]
            for a, b in itertools.combinations_with_replacement(paths, 2):
                if n == 3 and a != b:
                    continue
                state = good
                for p in {a, b}:
                    state = model.update(desc, state, p,
                                         lambda d, s: invals(d)[0])
                for backend in (sut.ALL if tier != 'quick' else
                                ('npz', 'hdf5')):
                    yield backend, desc, state


def kind_cases(tier):
    for desc, good, bad in LEAF_CASES:
        for value in (good, bad):
            for d, s in (
                    (desc, value),
                    (comp({'a': values.BOOL, 'x': desc}),
                     {'a': True, 'x': value}),
                    (comp({'x': desc, 'y': desc}, optionals=['x', 'y']),
                     {'x': value, 'y': good}),
                    (lst(desc), [value]), (lst(desc), [good, value]),
                    (comp({'c': comp({'x': desc})}), {'c': {'x': value}}),
                    (comp({'l': lst(comp({'x': desc}))}),
                     {'l': [{'x': good}, {'x': value}]}),
                    (lst(lst(lst(desc))), [[], [[good], [good, value]]])):
                unsuited = desc[0] == 'Array' and value is bad and (
                    desc[1].get('ndim') == 2 or bad.dtype != 'int32')
                for backend in sut.ALL:
                    # mat files do not keep wrong ranks and data types.
                    if not (unsuited and backend == 'mat'):
                        yield backend, d, s
    # List lengths, at every position
    for low, high, n in ((1, None, 0), (None, 1, 2), (2, 3, 1), (2, 3, 4),
                         (2, 3, 2), (None, 0, 1)):
        limited = lst(values.BOOL, min_length=low, max_length=high)
        data = [True] * n
        for d, s in ((limited, data), (comp({'l': limited}), {'l': data}),
                     (lst(limited), [data, data]),
                     (comp({'c': comp({'l': limited, 'x': P})}),
                      {'c': {'l': data, 'x': 'bad'}}),
                     (lst(comp({'l': limited})), [{'l': data}]),
                     (lst(lst(P, max_length=high), min_length=low),
                      [['bad'] * n] * n)):
            for backend in sut.ALL:
                yield backend, d, s
    # Dependent arrays
    t = leaf('Array', dtype='int32')
    for cfg, shape in (({'depends_on': 't'}, (2,)),
                       ({'depends_on': ('t', 'u'), 'ndim': 2}, (2, 3)),
                       ({'depends_on': (None, 'u'), 'ndim': 2}, (2, 3))):
        desc = comp({'t': t, 'a': leaf('Array', dtype='int32', **cfg),
                     'u': t})
        for i, j in itertools.product((2, 3, 4), repeat=2):
            state = {'t': np.zeros(i, 'int32'), 'u': np.zeros(j, 'int32'),
                     'a': np.zeros(shape, 'int32')}
            for d, s in ((desc, state), (lst(desc), [state]),
                         (comp({'c': desc}), {'c': state}),
                         (comp({'l': lst(desc)}), {'l': [state, state]})):
                for backend in sut.ALL:
                    yield backend, d, s


def long_cases(tier):
    n = 25
    desc = comp({'l': lst(comp({'x': P, 'm': lst(Q)}))})
    good = {'l': [{'x': 'ok', 'm': [np.int32(0)]} for _ in range(n)]}
    for i, j in itertools.combinations_with_replacement(range(n), 2):
        if tier == 'quick' and i != j and (i * 5 + j) % 6:
            continue
        state = good
        for k in {i, j}:
            state = model.update(desc, state, ('l', k, 'x'),
                                 lambda d, s: 'bad')
        yield (sut.ALL[1 + (i + j) % 3] if i != j or tier == 'quick'
               else 'inmem'), desc, state
    flat = lst(P)
    for i in range(n):
        for backend in sut.FILES:
            yield backend, flat, ['bad' if k == i else 'ok'
                                  for k in range(n)]
    for n in (128, 257) if tier == 'quick' else (128, 257, 1025):
        for i in sorted({0, 1, 9, 10, 11, 98, 99, 100, 101, 102, 127, 128, 255,
                         256, 999, 1000, 1001, n - 2, n - 1}):
            if i < n:
                yield 'inmem', flat, ['bad' if k == i else 'ok'
                                      for k in range(n)]
                yield 'inmem', flat, ['bad' if k == i else
                                      None if k % 3 == 1 else 'ok'
                                      for k in range(n)]
                yield (sut.FILES[i % 3], lst(comp({'c': lst(Q)})),
                       [{'c': [np.int32(-1)]} if k == i else
                        {'c': [] if k % 3 else [np.int32(0)]}
                        for k in range(n)])
    inner = lst(lst(Q))
    for i in range(12):
        yield 'npz', inner, [[np.int32(0)] * 12] * 11 + [
            [np.int32(-1 if k == i else 0) for k in range(12)]]


def deep_cases(tier):
    deep1 = comp({'a': comp({'b': comp({'c': comp({'d': P, 'e': Q})})})})
    deep2 = lst(lst(lst(lst(lst(P)))))
    deep3 = comp({'l': lst(comp({'c': comp({'m': lst(comp({
        'c': comp({'x': P}), 'y': Q}))}), 'z': P}))})
    for desc in (deep1, deep2, deep3):
        for state in itertools.islice(model.fills(desc, vals, (2,)),
                                      400 if tier == 'quick' else 20000):
            yield 'npz', desc, state
        for state in itertools.islice(model.fills(desc, vals, (1,)), 400):
            for backend in sut.ALL:
                yield backend, desc, state


ODD_NAMES = ['{x}', '{', '}', '{}', '{0}', '{loc}', '{post}', '{0!r:>9}', '%s',
             '%d', '%(loc)s', '%', '$x', '\\n', 'a\nb', ' ', "a'b", 'a"b', '(']


def name_cases(tier):
    for a in values.NAMES + ODD_NAMES:
        desc = comp({a: P, 'other': comp({a: lst(Q)})})
        for state in ({a: 'bad', 'other': {a: []}},
                      {a: 'ok', 'other': {a: [np.int32(0), np.int32(-1)]}}):
            for backend in sut.ALL:
                yield backend, desc, state
        for desc, state in (
                (lst(comp({a: P})), [{a: 'ok'}, {a: 'bad'}]),
                (comp({a: lst(comp({a: comp({a: P})}))}),
                 {a: [{a: {a: 'bad'}}]}),
                (lst(lst(comp({a: lst(Q)}))), [[{a: [np.int32(-1)]}]])):
            for backend in sut.ALL:
                yield backend, desc, state


def describe(case):
    return '%s %s %s' % (case[0], model.short(case[1]),
                         model.short(case[2], 600))


def spaces(tier):
    return [Space(name, lambda f=f: f(tier), run, describe)
            for name, f in (('kinds', kind_cases), ('trees', tree_cases),
                            ('long', long_cases), ('deep', deep_cases),
                            ('names', name_cases))]
