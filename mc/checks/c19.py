"""C19: errors state truthfully what is wrong."""
import inspect
import itertools
import os
import warnings

import numpy as np

from .. import model, sut, values
from ..core import Skip, Space, Violation
from ..model import comp, leaf, lst
from . import c04, c08, c11
from .c06 import pair_set

LEVEL = 'model_checking'
BOUNDS = ('every rejected value of the enumeration of constraints and values '
          'of C04 (types, lengths, scalars, arrays, list lengths, dependent '
          'arrays) and of the trees of C08, in memory and after loading; '
          'every pair out of neighbouring schemas for errors about schemas '
          'on load, PseudoStorage and load_from; 65 path names; 60+ field '
          'names and list indices for errors about sub-nodes; every kind of '
          'node when it is empty')
ASSUMPTIONS = ['where several constraints are violated, the error may state '
               'any of them',
               'no NaN together with value limits']
WORDS = {'max': ('maximum',), 'min': ('minimum',)}


def same_value(a, b):
    """Whether two facts are the same (sequences, arrays, types, numbers)."""
    if a is b:
        return True
    if isinstance(a, type) or isinstance(b, type):
        return False
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return bool(np.shape(a) == np.shape(b) and np.array_equal(
                np.asarray(a), np.asarray(b),
                equal_nan=np.asarray(a).dtype.kind in 'fc' and
                np.asarray(b).dtype.kind in 'fc'))
        except (TypeError, ValueError):
            return a == b


def wrong_type(name):
    return lambda expected: str(expected).split('.')[-1] == name


TYPES = {'Bool': (bool, 'bool'), 'Bytes': (bytes, 'bytes'),
         'String': (str, 'str'), 'Scalar': (np.number, 'number'),
         'Array': (np.ndarray, 'ndarray')}


def facts(desc, value, independent=()):
    """All truthful (kind of constraint, expected, got) of invalid data.

    expected is a value or a predicate.
    """
    import datetime
    kind = desc[0]
    if kind == 'List':
        cfg = {'min_length': desc[2].get('min_length'),
               'max_length': desc[2].get('max_length')}
    else:
        cfg = model.config_of(desc)
    if kind in ('List', 'Bytes', 'String'):
        if kind != 'List' and not isinstance(value, TYPES[kind][0]):
            return [('type', wrong_type(TYPES[kind][1]), type(value))]
        size = len(value)
        out = []
        if cfg['max_length'] is not None and size > cfg['max_length']:
            out.append(('max', cfg['max_length'], size))
        if cfg['min_length'] is not None and size < cfg['min_length']:
            out.append(('min', cfg['min_length'], size))
        return out
    cls, name = TYPES.get(kind) or (getattr(datetime, kind.lower()),
                                    kind.lower())
    if not isinstance(value, cls):
        return [('type', wrong_type(name), type(value))]
    out = []
    if kind in ('Scalar', 'Array'):
        want = np.dtype(cfg['dtype'])
        if value.dtype != want:
            out.append(('dtype', lambda e: same_dtype(e, want), value.dtype))
        array = np.asarray(value)
        for key, low in (('max', False), ('min', True)):
            limit = cfg[key + '_value']
            if limit is None:
                continue
            bad = [x for x in array.ravel()
                   if (x < limit if low else x > limit)]
            if bad:
                out.append((key, limit, value if kind == 'Scalar' else
                            np.array(bad, dtype=array.dtype)))
    if kind == 'Array':
        if value.ndim != cfg['ndim']:
            out.append(('ndim', cfg['ndim'], value.ndim))
        for key, low in (('max', False), ('min', True)):
            limit = cfg[key + '_shape']
            if limit and any(n is not None and (m < n if low else m > n)
                             for n, m in zip(limit, value.shape)):
                out.append((key, tuple(limit), value.shape))
        for ind, size in zip(independent or (), value.shape):
            if ind is not None and np.asarray(ind).size != size:
                out.append(('size', np.asarray(ind).size, size))
    return out


def same_dtype(given, want):
    try:
        return np.dtype(given) == want
    except TypeError:
        return False


def check_cause(err, possible, what):
    """The ValidationError states one of the possible facts."""
    for kind, expected, got in possible:
        good = (expected(err.expected) if callable(expected) else
                same_value(err.expected, expected))
        if good and (err.got is got or same_value(err.got, got)):
            break
    else:
        raise Violation('%s: expected %r, got %r is stated; true would be %s' %
                        (what, err.expected, err.got, [
                            (k, '...' if callable(e) else e, g)
                            for k, e, g in possible]))
    matching = [k for k, expected, got in possible if (
        expected(err.expected) if callable(expected) else
        same_value(err.expected, expected)) and same_value(err.got, got)]
    if not isinstance(err.message, str) or not err.message:
        raise Violation('%s: message is %r' % (what, err.message))
    said = err.message.lower()
    for key, words in WORDS.items():
        if any(w in said for w in words) and key not in matching:
            raise Violation('%s: %r, but it is about %s' % (
                what, err.message, matching))
        if matching == [key] and not any(w in said for w in words):
            raise Violation('%s: %r does not mention the constraint %s' % (
                what, err.message, key))
    text = str(err)
    for part in (err.message, format(err.expected), format(err.got)):
        if part not in text:
            raise Violation('%s: %r is not in %r' % (what, part, text))
    is_dsch(err, what)


def is_dsch(err, what):
    import dsch
    if not isinstance(err, dsch.exceptions.DschError):
        raise Violation('%s: %r is not a DschError' % (what, err))


def run_direct(case, ctx):
    """Schema nodes, data nodes alone and in a tree."""
    import dsch
    desc, value = case
    if model.leaf_ok(desc, value):
        raise Skip()
    possible = facts(desc, value)
    if not possible:
        raise AssertionError('no facts for %r' % (case,))
    node = model.build(desc)
    args = ([],) if desc[0] == 'Array' else ()
    for schema in (node, dsch.schema.node_from_json(node.to_json())):
        for _ in range(2):
            attempt(lambda: schema.validate(value, *args), possible,
                    'schema.validate')
            ctx.step()
    if desc[0] != 'Scalar':
        storage = dsch.create('::inmem::', model.build(comp({'x': desc})))
        storage.data.x.value = value
        attempt(storage.data.x.validate, possible, 'node.validate')
        try:
            storage.validate()
        except dsch.exceptions.SubnodeValidationError as err:
            check_cause(err.original_cause(), possible, 'storage.validate')
        ctx.step(2)
    ctx.state((desc, model.canon(value)))


def attempt(func, possible, what):
    import dsch
    try:
        func()
    except dsch.exceptions.ValidationError as err:
        check_cause(err, possible, what)
        return
    raise Violation('%s accepts invalid data' % what)


def run_stored(case, ctx):
    """Every node of a tree, also in loaded storages."""
    import dsch
    backend, desc, state = case
    invalid = model.invalid_paths(desc, state)
    if not invalid:
        raise Skip()
    storage = sut.create(ctx, backend, desc)
    try:
        sut.fill(storage.data, desc, state)
        model.same(sut.observe(storage.data, desc), state, 'filled')
    except Exception:
        if backend == 'hdf5':
            raise Skip()
        raise
    stores = [('new', storage)]
    if backend != 'inmem':
        stores.append(('loaded', sut.reload(ctx, storage)))
    for tag, store in stores:
        causes = {}
        for path in invalid:
            d, s = model.lookup(desc, state, path)
            independent = ()
            if d[0] == 'Array' and path and model.config_of(d)['depends_on']:
                parent = model.lookup(desc, state, path[:-1])[1]
                independent = [
                    None if n is None else parent[n]
                    for n in model.config_of(d)['depends_on']]
            causes[model.path_text(path)] = possible = facts(d, s,
                                                             independent)
            attempt(sut.node_at(store.data, path).validate, possible,
                    '%s: validate at %r' % (tag, path))
            ctx.step()
        ways = [('validate', store.validate), ('tree', store.data.validate)]
        if backend != 'inmem':
            ways.append(('save', store.save))
        if tag == 'loaded':
            ways.append(('load', lambda: dsch.load(store.storage_path)))
            ways.append(('PseudoStorage', lambda: dsch.PseudoStorage(
                store.storage_path, model.build(desc))))
        for name, func in ways:
            try:
                func()
            except dsch.exceptions.ValidationError as err:
                check_cause(err, causes.get('', ()), name)
            except dsch.exceptions.SubnodeValidationError as err:
                is_dsch(err, name)
                check_cause(err.original_cause(),
                            causes.get(err.node_path(), ()), name)
                if str(err.original_cause()) not in str(err):
                    raise Violation('%s: %r does not state the cause' % (
                        name, str(err)))
            else:
                raise Violation('%s accepts invalid data' % name)
            ctx.step()
    ctx.state((backend, desc, model.canon(state)))


def leaf_tree_cases(tier):
    for desc, state, backends in itertools.chain(
            c04.list_cases(tier), c04.depends_cases(tier)):
        for backend in backends:
            yield backend, desc, state
    yield from c08.kind_cases(tier)


def tree_cases(tier):
    cases = c08.tree_cases(tier)
    for n, case in enumerate(cases):
        if tier != 'quick' or n % 2 == 0:
            yield case


# Schemas


def first_before(text, first, second, what):
    a, b = text.find(first), text.find(second)
    if a < 0 or b < 0 or a > b:
        raise Violation('%s: %r does not state that %s is expected and %s is '
                        'there' % (what, text, first, second))


def raises(cls, func, what):
    """Return the error of class cls that func must raise."""
    import dsch
    try:
        func()
    except getattr(dsch.exceptions, cls) as err:
        is_dsch(err, what)
        return err
    except Exception as err:
        raise Violation('%s raised %r instead of %s' % (what, err, cls))
    raise Violation('%s did not raise %s' % (what, cls))


def run_schemas(case, ctx):
    """A storage with schema a is used as if it had schema b."""
    import dsch
    backend, a, b, c = case
    ha, hb, hc = (model.to_hash(d) for d in (a, b, c))
    if ha in (hb, hc):
        raise Skip()
    storage = sut.create(ctx, backend, a)
    if backend != 'inmem':
        storage.save(force=True)
        path = storage.storage_path
        ways = [('required_schema', {'required_schema': model.build(b)}, [hb]),
                ('hash', {'required_schema_hash': hb}, [hb]),
                ('both', {'required_schema': model.build(b),
                          'required_schema_hash': hc}, [hb, hc]),
                ('one', {'required_schema': model.build(a),
                         'required_schema_hash': hc}, [hc]),
                ('other', {'required_schema': model.build(b),
                           'required_schema_hash': ha}, [hb])]
        for name, kwargs, expected in ways:
            for force in (False, True):
                err = raises('InvalidSchemaError', lambda: dsch.load(
                    path, force=force, **kwargs), name)
                for h in expected:
                    if h in str(err):
                        first_before(str(err), h, ha, name)
                        break
                else:
                    raise Violation('%s: %s does not name %s' % (
                        name, err, expected))
                ctx.step()
        pseudos = [storage.data]
        if not model.invalid_paths(a, model.empty(a)):
            pseudos.append(path)   # else that is what is reported
    else:
        pseudos = [storage.data]
    for target, alts in itertools.product(pseudos, (
            None, [model.build(c)], [hc])):
        for how in ('direct', 'deferred', 'with'):
            def use():
                pseudo = dsch.PseudoStorage(target, model.build(b),
                                            how != 'direct', alts)
                if how == 'deferred':
                    pseudo.open()
                elif how == 'with':
                    with pseudo:
                        pass
            what = 'PseudoStorage %s %s' % (how, type(target).__name__)
            err = raises('InvalidSchemaError', use, what)
            first_before(str(err), hb, ha, what)
            ctx.step()
    other = dsch.create('::inmem::', model.build(b))
    for src, dst, hashes in ((storage, other, (ha, hb)),
                             (other, storage, (hb, ha))):
        err = raises('IncompatibleNodesError',
                     lambda: dst.data.load_from(src.data), 'load_from')
        for h in hashes:
            if h not in str(err):
                raise Violation('load_from: %s does not name %s' % (err, h))
        ctx.step()
    ctx.state((backend, ha, hb, hc))


def schema_cases(tier):
    schemas = pair_set('quick')
    n = len(schemas)
    for i, j in itertools.product(range(n), range(1, n)):
        if tier == 'quick' and j > 2 and (i + j) % 8:
            continue
        yield (sut.ALL[(i + j) % 4], schemas[i], schemas[(i + j) % n],
               schemas[(i + 2 * j) % n])


# Paths


def run_path(case, ctx):
    import dsch
    name, way = case
    root = ctx.dir
    path = os.path.join(root, name) if name != '::inmem::' else name
    cwd = os.getcwd()
    os.chdir(root)
    try:
        if way != 'absolute' and name != '::inmem::':
            path = {'relative': name, 'here': './' + name,
                    'up': 'up/../' + name, 'double': 'up//' + name}[way]
        if path != '::inmem::':
            parts = path.split('/')
            for n in range(1, len(parts)):
                folder = '/'.join(parts[:n])
                if folder and not os.path.isdir(folder):
                    os.mkdir(folder)
        check_paths(ctx, path)
    finally:
        os.chdir(cwd)
    ctx.state(case)


def check_paths(ctx, path):
    import dsch
    schema = model.build(comp({'x': values.STRING}))
    source = dsch.create('::inmem::', schema)
    if c11.detect(path) is None:
        for what, func in (
                ('create', lambda: dsch.create(path, schema)),
                ('create_from', lambda: dsch.create_from(path, source)),
                ('load', lambda: dsch.load(path)),
                ('PseudoStorage', lambda: dsch.PseudoStorage(path, schema)),
                ('open', lambda: dsch.PseudoStorage(path, schema,
                                                    True).open())):
            err = raises('AutodetectBackendError', func, what)
            if path not in str(err):
                raise Violation('%s: %r does not state the path %r' % (
                    what, str(err), path))
            ctx.step()
    elif path != '::inmem::':
        try:
            dsch.load(path)
        except FileNotFoundError as err:
            named(err, path)
        else:
            raise Violation('load of a missing file')
        made = dsch.create(path, schema)
        made.data.x.value = 'x'
        made.save()
        for what, func in (
                ('create', lambda: dsch.create(path, schema)),
                ('create_from', lambda: dsch.create_from(path, source))):
            try:
                func()
            except FileExistsError as err:
                named(err, path)
            else:
                raise Violation(what + ' over an existing file')
            ctx.step()


def named(err, path):
    if path not in str(err) and repr(path)[1:-1] not in str(err):
        raise Violation('%r does not state the path %r' % (err, path))


def path_cases(tier):
    for name in c11.NAMES:
        for way in ('absolute', 'relative', 'here', 'up', 'double'):
            yield name, way


# Sub-nodes and empty nodes


def run_reset(case, ctx):
    import dsch
    backend, desc, n = case
    storage = sut.create(ctx, backend, desc)
    if desc[0] == 'Comp':
        for name, sub in desc[1].items():
            node = getattr(storage.data, name)
            for value in (None, 'x', 5, node, {}):
                err = raises('ResetSubnodeError', lambda: setattr(
                    storage.data, name, value), 'setting %r' % name)
                if name + '.value' not in str(err):
                    raise Violation('%r does not name %r' % (str(err), name))
                ctx.step()
        ctx.state((backend, model.canon(list(desc[1]))))
        return
    for _ in range(n):
        storage.data.append()

    def assign(i, value):
        storage.data[i] = value
    for i in range(-n - 1, n + 1):
        for value in (None, 'x', 5):
            err = raises('ResetSubnodeError', lambda: assign(i, value),
                         'setting [%d]' % i)
            if '[%d].value' % i not in str(err):
                raise Violation('%r does not name item %d' % (str(err), i))
            ctx.step()
    ctx.state((backend, n))


def reset_cases(tier):
    for backend in sut.ALL:
        for name in values.NAMES + c08.ODD_NAMES:
            for sub in (values.STRING, lst(values.BOOL),
                        comp({'y': values.BOOL})):
                yield backend, comp({name: sub, 'other': values.BOOL}), 0
        for n in (0, 1, 3, 12):
            yield backend, lst(values.STRING), n
            yield backend, lst(comp({'x': values.STRING})), n


def run_empty(case, ctx):
    import dsch
    backend, desc = case
    wraps = ((desc, ()), (comp({'x': desc}), ('x',)), (lst(desc), (0,)),
             (comp({'l': lst(comp({'x': desc}))}), ('l', 0, 'x')))
    for wrap, path in wraps:
        storage = sut.create(ctx, backend, wrap)
        if path == (0,):
            storage.data.append()
        elif len(path) == 3:
            storage.data.l.append()

        def check(what):
            node = sut.node_at(storage.data, path)
            for _ in range(2):
                err = raises('NodeEmptyError', lambda: node.value, what)
                if 'empty' not in str(err):
                    raise Violation('%s: message %r' % (what, str(err)))
            ctx.step()
        check('new')
        sut.node_at(storage.data, path).value = values.two(desc)[0]
        sut.node_at(storage.data, path).value
        sut.node_at(storage.data, path).clear()
        check('cleared')
        if backend != 'inmem':
            storage = sut.reload(ctx, storage)
            check('loaded')
    ctx.state((backend, desc))


def empty_cases(tier):
    for backend in sut.ALL:
        for desc in (values.BOOL, values.BYTES_, values.STRING, values.DATE,
                     values.TIME, values.DATETIME, values.I32, values.F64,
                     values.A1, values.A2):
            yield backend, desc


def run_classes(case, ctx):
    """All exceptions are derived from one class."""
    import dsch
    for name, cls in vars(dsch.exceptions).items():
        if inspect.isclass(cls) and issubclass(cls, BaseException):
            if not issubclass(cls, dsch.exceptions.DschError):
                raise Violation('%s is not a DschError' % name)
            ctx.step()
    if not issubclass(dsch.exceptions.DschError, Exception):
        raise Violation('DschError is not an Exception')
    for name in ('AutodetectBackendError', 'IncompatibleNodesError',
                 'InvalidSchemaError', 'NodeEmptyError', 'ResetSubnodeError',
                 'SubnodeValidationError', 'ValidationError'):
        getattr(dsch.exceptions, name)
        ctx.state(name)


def spaces(tier):
    def direct(name, gen):
        return Space(name, lambda: (c for c in gen(tier)
                                    if not model.leaf_ok(*c)), run_direct,
                     lambda c: '%s value=%s' % (c[0], model.short(c[1])))

    def short(case):
        return ' '.join(model.short(c, 500) for c in case)
    return [direct('types', c04.type_cases),
            direct('lengths', c04.length_cases),
            direct('scalars', c04.scalar_cases),
            direct('arrays', c04.array_cases),
            direct('options', c04.dirty_cases),
            Space('leaves', lambda: leaf_tree_cases(tier), run_stored, short),
            Space('trees', lambda: tree_cases(tier), run_stored, short),
            Space('schemas', lambda: schema_cases(tier), run_schemas, short),
            Space('paths', lambda: path_cases(tier), run_path, repr),
            Space('reset', lambda: reset_cases(tier), run_reset, short),
            Space('empty', lambda: empty_cases(tier), run_empty, short),
            Space('classes', lambda: [0], run_classes, repr)]
