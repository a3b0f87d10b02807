"""C13: a rejected operation changes nothing."""
import datetime as dt
import itertools

import numpy as np

from .. import model, sut, values
from ..core import Skip, Space, Violation
from ..model import comp, leaf, lst

LEVEL = 'model_checking'
BOUNDS = ('all rejected operations of an alphabet of 6-15 per node (values '
          'that cannot be represented, assignment to and deletion of fields '
          'and items, unknown fields and indices, impossible resizes and '
          'in-place changes, incompatible copies, rejected replacements of '
          'lists and compilations, refused copies of the storage) on every '
          'node of 13 tree shapes x 3 leaf pairs plus all leaf types in every '
          'state with lists of length 0-2 (quick: at most 8 states per '
          'shape), new and loaded, on all backends; each one alone and '
          'followed by every modifying operation of the affected nodes, and '
          'all of them in one history; then save and load; creating a storage '
          'with unsupported options or 21 field names at 4 positions; copies '
          'of data that the target cannot represent')
ASSUMPTIONS = ['which values are rejected depends on the backend; a value '
               'that is accepted is not a rejected operation',
               'replacing a list or compilation counts as one operation per '
               'item or field']


class Unknown:
    """An object of a type that nothing can handle."""

    def __repr__(self):
        return '<unknown>'


class Endless:
    """Iterable that fails after the first item."""

    def __init__(self, first):
        self.first = first

    def __iter__(self):
        yield self.first
        raise ZeroDivisionError()

    def __repr__(self):
        return '<failing iterable>'


U = Unknown()
DAY = dt.date(2001, 2, 3)
BAD = {
    'Bool': ['a\0b', '\ud800', U, [1, [2]], np.zeros(3)],
    'Bytes': ['\u20ac', U, 1.5, np.zeros(3), {}],
    'String': ['a\0b', 'a\ud800', U, [1, [2]], {'a': 1}, None, 5, 'a\0',
               '\0'],
    'Date': [5, 'x', None, dt.time(1), U],
    'Time': [5, 'x', None, DAY, U],
    'DateTime': [5, 'x', None, DAY, dt.time(1)],
    'Scalar': ['abc', U, {}, 10**400, None, 300 + 1j, b'', [1, 'x']],
    'Array': ['abc', U, {}, [[1], [2, 3]], None, [U], [None, 'x']]}


def bad_values(desc):
    yield from BAD[desc[0]]
    if desc[0] == 'Array':
        cfg = model.config_of(desc)
        yield values.array_of(cfg['dtype'], (2,) * (cfg['ndim'] + 1))
        if cfg['ndim']:
            yield values.array_of(cfg['dtype'], (2,) * (cfg['ndim'] - 1))
        if cfg['max_shape']:
            yield values.array_of(cfg['dtype'], tuple(
                (n or 0) + 1 for n in cfg['max_shape']))


def other_schema(desc):
    """A schema that differs from the given one, and data for it."""
    if desc[0] == 'Comp':
        fields = dict(desc[1])
        fields['another'] = values.BOOL
        return comp(fields)
    if desc[0] == 'List':
        return lst(desc[1], max_length=1000)
    if desc[0] == 'Scalar':
        return leaf('Scalar', **dict(desc[1], unit='another'))
    if desc[0] == 'Array':
        return leaf('Array', **dict(desc[1], unit='another'))
    if desc[0] in ('Date', 'Time', 'DateTime'):
        return leaf(desc[0], set_on_create=not desc[1].get('set_on_create'))
    if desc[0] == 'Bool':
        return values.STRING
    return leaf(desc[0], max_length=1000)


def bad_ops(desc, state):
    """All rejected operations: (name, path, argument, must raise)."""
    for path, d, s in model.nodes(desc, state):
        for source in (other_schema(d), values.BYTES_ if d[0] != 'Bytes'
                       else values.BOOL):
            yield 'load_from', path, source, True
        yield 'load_from', path, None, True
        if d[0] == 'Comp':
            for k, sub in d[1].items():
                good = (values.two(sub)[0] if model.is_leaf(sub) else
                        {} if sub[0] == 'Comp' else [])
                yield 'setattr', path, (k, good), True
                yield 'setattr', path, (k, None), True
                yield 'delattr', path, k, True
            yield 'setattr', path, ('unknown_field', 1), True
            for name in ('value', 'clear', 'replace', 'complete', 'empty',
                         'load_from', 'data_tree', 'validate', '_storage'):
                yield 'setattr', path, (name, {}), True
            yield 'getattr', path, 'unknown_field', True
            yield 'replace', path, {'unknown_field': 1}, True
            yield 'replace', path, 5, True
            yield 'replace', path, None, True
            for k, sub in d[1].items():
                if model.is_leaf(sub):
                    yield 'replace', path, {k: next(bad_values(sub))}, \
                        False
                elif sub[0] == 'Comp':
                    yield 'replace', path, {k: {'unknown_field': 1}}, True
                    yield 'replace', path, {k: 5}, True
                else:
                    yield 'replace', path, {k: 5}, True
        elif d[0] == 'List':
            sub = d[1]
            good = (values.two(sub)[0] if model.is_leaf(sub) else
                    {} if sub[0] == 'Comp' else [])
            for i in [*range(len(s) + 1), -1]:
                yield 'setitem', path, (i, good), True
            yield 'setitem', path, (slice(None), [good]), True
            yield 'delitem', path, 0, True
            yield 'getitem', path, len(s), True
            yield 'getitem', path, -len(s) - 1, True
            yield 'getitem', path, 'x', True
            yield 'replace', path, 5, True
            yield 'replace', path, None, True
            yield 'replace', path, Endless(good), True
            if model.is_leaf(sub):
                for bad in bad_values(sub):
                    if bad is not None:
                        yield 'append', path, bad, False
            elif sub[0] == 'Comp':
                yield 'append', path, {'unknown_field': 1}, True
                yield 'append', path, 5, True
                k, item = list(sub[1].items())[-1]
                if model.is_leaf(item):
                    bad = next(bad_values(item))
                    yield 'append', path, {k: bad}, False
                    first, fitem = list(sub[1].items())[0]
                    if first != k and model.is_leaf(fitem):
                        yield 'append', path, {
                            first: values.two(fitem)[0], k: bad}, False
            else:
                yield 'append', path, 5, True
                if model.is_leaf(sub[1]):
                    yield 'append', path, [values.two(sub[1])[0],
                                           next(bad_values(sub[1]))], False
        else:
            for bad in bad_values(d):
                yield 'replace', path, bad, False
                if d[0] != 'Array':
                    yield 'set', path, bad, False
            if d[0] == 'Array':
                cfg = model.config_of(d)
                ndim = cfg['ndim']
                yield 'resize', path, (2,) * (ndim + 1), True
                if ndim:
                    yield 'resize', path, (2,) * (ndim - 1), True
                    yield 'resize', path, (-1,) * ndim, True
                    yield 'resize', path, ('x',) * ndim, True
                if cfg['max_shape']:
                    yield 'resize', path, tuple(
                        (n or 0) + 1 for n in cfg['max_shape']), False
                good = values.two(d)[0].ravel()[0] if ndim else 1
                yield 'seti', path, ((99,) * max(ndim, 1), good), True
                yield 'seti', path, ((0,) * (ndim + 1), good), True
                yield 'seti', path, (Ellipsis, U), cfg['dtype'] != 'bool'
                if ndim:
                    yield 'seti', path, (Ellipsis, np.zeros((7,) * ndim)), \
                        True
                    yield 'seti', path, (([0, 99],), good), True
                if s is None:
                    yield 'resize', path, (2,) * ndim, True


def perform(storage, op):
    """Execute an operation that may be rejected."""
    import dsch
    name, path, arg, _ = op
    node = sut.node_at(storage.data, path)
    if name == 'load_from':
        if arg is None:
            node.load_from(None)
            return
        source = dsch.create('::inmem::', model.build(arg))
        sut.fill(source.data, arg, model.full(
            arg, lambda d: values.two(d)[1], 1))
        node.load_from(source.data)
    elif name == 'setattr':
        setattr(node, *arg)
    elif name == 'delattr':
        delattr(node, arg)
    elif name == 'getattr':
        getattr(node, arg)
    elif name == 'setitem':
        node[arg[0]] = arg[1]
    elif name == 'seti':
        node[arg[0]] = arg[1]
    elif name == 'delitem':
        del node[arg]
    elif name == 'getitem':
        node[arg]
    elif name == 'replace':
        node.replace(arg)
    elif name == 'set':
        node.value = arg
    elif name == 'append':
        node.append(arg)
    elif name == 'resize':
        node.resize(arg)
    else:
        raise AssertionError(name)


EXPECTED_ERROR = {'setattr': 'ResetSubnodeError',
                  'setitem': 'ResetSubnodeError'}


def attempt(world, op):
    """Return whether the operation was rejected."""
    world.ctx.step()
    try:
        perform(world.storage, op)
    except Exception as err:
        name = type(err).__name__
        expected = EXPECTED_ERROR.get(op[0])
        if op[0] == 'load_from' and op[2] is not None:
            expected = 'IncompatibleNodesError'
        if expected and name != expected:
            raise Violation('%r raised %r instead of %s' %
                            (op[:3], err, expected))
        world.ctx.outcome('rejected ' + op[0])
        return True
    if op[3]:
        raise Violation('%r did not raise' % (op[:3],))
    world.ctx.outcome('accepted ' + op[0])
    return False


def unaffected(world, op):
    """Check that an operation that was accepted left other nodes alone."""
    name, path, arg, _ = op
    if name not in ('replace', 'set') or not path:
        return
    d, _ = model.lookup(world.desc, world.state, path)
    if not model.is_leaf(d):
        return
    for p, pd, ps in model.nodes(world.desc, world.state):
        if p != path and model.is_leaf(pd):
            sut.check_node(sut.node_at(world.storage.data, p), pd, ps,
                           'other node %r after %r' % (p, op[:3]))


def run_history(case, ctx):
    """All rejected operations in one history."""
    backend, desc, state, loaded = case
    world = sut.world_in_state(ctx, backend, desc, state, loaded)
    for op in bad_ops(desc, state):
        if not attempt(world, op):
            unaffected(world, op)
            world = sut.world_in_state(ctx, backend, desc, state, loaded)
            continue
        world.check('after rejected %r' % (op[:3],))
        for sub in node_checks(desc, state):
            sub(world)
    world.check_reloaded('saved and loaded after rejected operations')
    for op in bad_ops(desc, state):
        if op[3]:
            attempt(world, op)
    for op in sut.mutations(desc, state):
        try:
            world.apply(op)
        except Skip:
            continue
        world.check('%r after rejected operations' % (op,))
    world.check_reloaded()
    world.note()


def node_checks(desc, state):
    """Structure that the schema fixes."""
    def names(world):
        for path, d, _ in model.nodes(desc, state):
            if d[0] == 'Comp':
                node = sut.node_at(world.storage.data, path)
                missing = set(d[1]) - set(dir(node))
                if missing:
                    raise Violation('fields %r are missing' % missing)
                if 'unknown_field' in dir(node):
                    raise Violation('there is a new field')
    yield names


def followups(desc, state, op, tier):
    """Modifying operations of the nodes near a rejected operation."""
    path = op[1]
    seen = set()
    for mut in sut.mutations(desc, state):
        if tier == 'quick' and mut[:2] in seen:
            continue
        seen.add(mut[:2])
        if mut[1] == path[:len(mut[1])] or mut[1][:len(path)] == path:
            yield mut


def run_single(case, ctx):
    """One rejected operation, followed by one or two others."""
    backend, desc, state, loaded, op = case
    world = sut.world_in_state(ctx, backend, desc, state, loaded)
    if not attempt(world, op):
        unaffected(world, op)
        raise Skip()
    world.check('after rejected %r' % (op[:3],))
    world.check_reloaded('saved and loaded after rejected %r' % (op[:3],))
    for mut in followups(desc, state, op, ctx.tier):
        world = sut.world_in_state(ctx, backend, desc, state, loaded)
        for _ in range(2):
            if not attempt(world, op):
                raise Violation('%r is only rejected once' % (op[:3],))
        try:
            world.apply(mut)
        except Skip:
            continue
        what = '%r after rejected %r' % (mut, op[:3])
        world.check(what)
        # Once more, with the state changed.
        d, s = desc, world.state
        try:
            model.lookup(d, s, op[1])
        except Skip:
            continue
        if op[3] and op[0] not in ('resize', 'seti', 'getitem'):
            attempt(world, op)
            world.check(what + ' and again')
        world.check_reloaded(what + ', saved and loaded')
    ctx.state((backend, model.canon(state), loaded, repr(op)))


def run_partial(case, ctx):
    """A list or compilation is replaced item by item."""
    backend, desc, state, loaded, path, value, expected = case
    world = sut.world_in_state(ctx, backend, desc, state, loaded)
    ctx.step()
    try:
        sut.node_at(world.storage.data, path).replace(value)
    except Exception:
        pass
    else:
        raise Skip()
    world.state = expected
    world.check('after rejected replacement')
    world.check_reloaded('saved and loaded after rejected replacement')
    for mut in sut.mutations(desc, expected):
        try:
            world.apply(mut)
        except Skip:
            continue
        world.check('%r after rejected replacement' % (mut,))
    world.check_reloaded()
    world.note()


def partial_cases(tier):
    for sub in (values.DATE, values.STRING, values.I32, values.A1,
                values.BYTES_):
        a, b = values.two(sub)
        for bad in bad_values(sub):
            if bad is None:
                continue
            for backend in sut.ALL:
                for loaded in (False, True):
                    if loaded and backend == 'inmem':
                        continue
                    desc = lst(sub)
                    for n in range(3):
                        for state in ([], [a], [b, None]):
                            yield (backend, desc, state, loaded, (),
                                   [b] * n + [bad, a],
                                   [model.stored(sub, b)] * n)
                    desc = comp({'x': sub, 'y': sub, 'z': sub})
                    state = {'x': a, 'y': None, 'z': a}
                    yield (backend, desc, state, loaded, (),
                           {'x': b, 'y': bad, 'z': b}, dict(state, x=b))
                    state = {'x': a, 'y': a, 'z': None}
                    yield (backend, desc, state, loaded, (),
                           {'z': b, 'y': bad, 'x': b}, dict(state, z=b))


def history_states(desc, tier):
    states = model.fills(desc, values.one, (0, 1, 2))
    if tier == 'quick':
        yield model.empty(desc)
        yield model.full(desc, lambda d: values.two(d)[0], 1)
        yield model.full(desc, lambda d: values.two(d)[0], 2)
        states = list(itertools.islice(states, 4000))
        step = max(1, len(states) // 5)
        yield from states[1::step]
    else:
        yield from itertools.islice(states, 400)


PAIRS = [(values.DATE, values.STRING), (values.A1, values.BYTES_),
         (values.F64, values.BOOL)]


def history_cases(tier):
    for p, q in PAIRS:
        for desc in values.shapes(p, q):
            for state in history_states(desc, tier):
                for backend in sut.ALL:
                    for loaded in (False, True):
                        if loaded and backend == 'inmem':
                            continue
                        yield backend, desc, state, loaded


MORE = [leaf('Array', dtype='int32', max_shape=(5,)),
        leaf('Array', dtype='float64', max_shape=(None, 5),
             ndim=2),
        leaf('Date', set_on_create=True), leaf('Time', set_on_create=True),
        leaf('DateTime', set_on_create=True)]


def single_cases(tier):
    cases = []
    for desc in values.LEAVES + MORE:
        a = values.two(desc)[0]
        cases += [(desc, None), (desc, a),
                  (comp({'x': desc, 'y': values.STRING}),
                   {'x': None, 'y': 'y'}),
                  (comp({'x': desc}), {'x': a})]
        if not desc[1].get('set_on_create'):
            cases.append((lst(desc), [a, None]))
    for desc in values.shapes(values.DATE, values.STRING):
        cases.append((desc, model.full(desc, lambda d: values.two(d)[0], 1)))
        if tier != 'quick':
            cases.append((desc, model.full(
                desc, lambda d: values.two(d)[0], 2)))
            cases.append((desc, model.empty(desc)))
    for desc, state in cases:
        for backend in sut.ALL:
            for loaded in (False, True):
                if loaded and backend == 'inmem':
                    continue
                if loaded and tier == 'quick' and (
                        desc[0] != 'Comp' or backend == 'mat'):
                    continue
                for op in bad_ops(desc, state):
                    yield backend, desc, state, loaded, op


# --------------------------------------------------- storage operations

def run_storage(case, ctx):
    import os
    import dsch
    backend, desc, state, loaded, op, target = case
    world = sut.world_in_state(ctx, backend, desc, state, loaded)
    if backend != 'inmem':
        world.storage.save()
    existing = ctx.path(sut.EXT.get(target, '.' + target))
    with open(existing, 'wb') as file_:
        file_.write(b'something else')
    before = sorted(os.listdir(ctx.dir))
    ctx.step()
    try:
        if op == 'save_as':
            world.storage.save_as(existing)
        elif op == 'create_from':
            dsch.create_from(existing, world.storage)
        elif op == 'create_from_over_source':
            if backend == 'inmem':
                raise Skip()
            existing = world.storage.storage_path
            dsch.create_from(existing, world.storage)
        elif op == 'save_as_self':
            if backend == 'inmem':
                raise Skip()
            world.storage.save_as(world.storage.storage_path)
        elif op == 'unknown':
            world.storage.save_as(ctx.path('.unknown'))
        elif op == 'backend':
            world.storage.save_as(ctx.path('.npz'), 'nonexistent')
        elif op == 'required':
            if backend == 'inmem':
                raise Skip()
            dsch.load(sut.snapshot(ctx, world.storage), required_schema_hash=
                      'x')
    except Skip:
        raise
    except Exception:
        pass
    else:
        raise Violation('%s was not rejected' % op)
    if op != 'required' and sorted(os.listdir(ctx.dir)) != before:
        raise Violation('%s created files' % op)
    world.check('after rejected %s' % op)
    world.check_reloaded('after rejected %s' % op)
    for mut in sut.mutations(desc, state):
        try:
            world.apply(mut)
        except Skip:
            continue
        world.check('%r after rejected %s' % (mut, op))
    world.check_reloaded()
    world.note()


def storage_cases(tier):
    for p, q in PAIRS:
        for desc in values.shapes(p, q):
            state = model.full(desc, lambda d: values.two(d)[0], 2)
            for backend in sut.ALL:
                for loaded in (False, True):
                    if loaded and backend == 'inmem':
                        continue
                    for op in ('save_as', 'create_from', 'save_as_self',
                               'create_from_over_source', 'unknown',
                               'backend', 'required'):
                        targets = sut.FILES if op in (
                            'save_as', 'create_from') else ('npz',)
                        for target in targets:
                            yield backend, desc, state, loaded, op, target


# Option values and field names that cannot be stored (by some backends).
class _Strange:
    def __repr__(self):
        return 'Strange()'


BAD_SCHEMAS = {
    'complex limit': lambda sc: sc.Scalar('complex128', max_value=1 + 2j),
    'array limit': lambda sc: sc.Array('int32', min_value=np.zeros(2)),
    'bytes unit': lambda sc: sc.Scalar('int32', unit=b'm'),
    'object limit': lambda sc: sc.String(max_length=_Strange()),
    'class limit': lambda sc: sc.List(sc.Bool(), min_length=int),
    'set optionals': lambda sc: sc.Compilation({'a': sc.Bool()}, {'a'}),
    'object stamp': lambda sc: sc.Date(set_on_create=_Strange()),
    'stamp limit': lambda sc: sc.Array('int32', max_value=dt.date(1, 1, 1)),
}
BAD_NAMES = ['', '.', '..', '/', 'a/b', '/a', 'a/', 'a\0b', '\0', '\ud800',
             'b\udfff', 'x' * 65530, 'x' * 70000, 'y' * 64, '\u00e4', 1, None,
             b'a', ('a', 'b'), 1.5, True]


def bad_schema(how, wrap):
    """Build a schema (not necessarily one that works)."""
    from dsch import schema as sc
    if isinstance(how, str):
        node = BAD_SCHEMAS[how](sc)
    else:
        name = BAD_NAMES[how[0]]
        sub = {'leaf': sc.Bool, 'list': lambda: sc.List(sc.Bool()),
               'comp': lambda: sc.Compilation({'q': sc.Bool()})}[how[1]]()
        node = sc.Compilation({'a': sc.String(), name: sub})
    return {'top': lambda: node, 'item': lambda: sc.List(node),
            'field': lambda: sc.Compilation({'k': sc.Bool(), 'n': node}),
            'deep': lambda: sc.List(sc.Compilation({'l': sc.List(node)}))
            }[wrap]()


def run_create(case, ctx):
    """A rejected creation leaves nothing behind and can be repeated."""
    import gc
    import os
    import dsch
    backend, entry, how, wrap = case
    path = ctx.path(sut.EXT[backend])
    before = sorted(os.listdir(ctx.dir))
    ctx.step()
    storage = bad = None
    created = False
    try:
        bad = bad_schema(how, wrap)
        if entry == 'create':
            storage = dsch.create(path, bad)
        elif entry == 'save_as':
            storage = dsch.create('::inmem::', bad).save_as(path)
        else:
            storage = dsch.PseudoStorage(path, bad, defer_open=True)
            storage.open()
        created = True
        if entry != 'pseudo':
            storage.save(force=True)
        else:
            storage.close()
    except (Violation, Skip):
        raise
    except Exception as err:
        ctx.outcome(type(err).__name__)
        refused = True
    else:
        refused = False
    if refused and sorted(os.listdir(ctx.dir)) != before:
        if created and backend == 'hdf5':
            raise Skip()    # created, but cannot be saved
        raise Violation('rejected creation left %r behind' %
                        sorted(os.listdir(ctx.dir)))
    del storage
    gc.collect()
    if not refused:
        # Whatever is accepted has to work.
        loaded = dsch.load(path, force=True)
        if loaded.schema_node.to_json() != bad.to_json():
            raise Violation('schema changed from %s to %s' % (
                bad.to_json(), loaded.schema_node.to_json()))
        if loaded.schema_hash() != bad.hash():
            raise Violation('hash of the schema changed')
        return
    # The same path can be used with a schema that works.
    desc = comp({'a': values.STRING, 'l': lst(values.I32)})
    state = {'a': 'x', 'l': [np.int32(4)]}
    storage = dsch.create(path, model.build(desc))
    sut.fill(storage.data, desc, state)
    storage.save()
    sut.check_node(dsch.load(sut.snapshot(ctx, storage)).data, desc, state,
                   'created again')
    if sorted(os.listdir(ctx.dir)) == before:
        raise Violation('no file was created')


def create_cases(tier):
    hows = sorted(BAD_SCHEMAS) + [
        (n, kind) for n in range(len(BAD_NAMES))
        for kind in ('leaf', 'list', 'comp')]
    for how in hows:
        for wrap in ('top', 'item', 'field', 'deep'):
            for entry in ('create', 'save_as', 'pseudo'):
                for backend in sut.FILES:
                    yield backend, entry, how, wrap


def run_copy(case, ctx):
    """Copies of data that the target cannot represent."""
    import os
    import dsch
    target, desc, path, bad, entry = case
    source = dsch.create('::inmem::', model.build(desc))
    sut.fill(source.data, desc, model.full(desc, lambda d: values.two(d)[0],
                                           2))
    try:
        sut.node_at(source.data, path).replace(bad)
        before = repr(source.data.data_tree())
    except Exception:
        raise Skip()    # not even accepted here
    there = ctx.path(sut.EXT[target])
    ctx.step()
    try:
        if entry == 'save_as':
            source.save_as(there)
        else:
            dsch.create_from(there, source)
    except Exception as err:
        ctx.outcome(type(err).__name__)
    else:
        return
    if repr(source.data.data_tree()) != before:
        raise Violation('the rejected copy changed its source')
    if os.listdir(ctx.dir):
        what = 'rejected copy left %r behind' % os.listdir(ctx.dir)
        if target == 'hdf5' and os.listdir(ctx.dir) == [
                os.path.basename(there)]:
            ctx.finding('hdf5-incomplete-copy', what)
        raise Violation(what)


def copy_cases(tier):
    for item in (values.BOOL, values.BYTES_, values.STRING, values.DATE,
                 values.TIME, values.DATETIME, values.I32, values.A1,
                 values.A2):
        for desc, path in ((item, ()), (lst(item), (1,)),
                           (comp({'a': values.BOOL, 'b': item}), ('b',)),
                           (comp({'l': lst(comp({'x': item})),
                                  'z': values.STRING}), ('l', 0, 'x'))):
            for bad in bad_values(item):
                for target in sut.FILES:
                    for entry in ('save_as', 'create_from'):
                        yield target, desc, path, bad, entry


def describe(case):
    return ' '.join(model.short(c) for c in case)


def spaces(tier):
    return [Space('single', lambda: single_cases(tier), run_single, describe),
            Space('partial', lambda: partial_cases(tier), run_partial,
                  describe),
            Space('histories', lambda: history_cases(tier), run_history,
                  describe),
            Space('create', lambda: create_cases(tier), run_create, describe),
            Space('copies', lambda: copy_cases(tier), run_copy, describe),
            Space('storages', lambda: storage_cases(tier), run_storage,
                  describe)]
