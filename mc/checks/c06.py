"""C06: schemas survive serialization and are identified by their hash."""
import copy
import datetime as dt
import itertools
import json
import os
import subprocess
import sys

import numpy as np

from .. import model, sut, values
from ..core import Space, Violation
from ..model import comp, leaf, lst

LEVEL = 'model_checking'
BOUNDS = ('all option combinations over small alphabets for every node type, '
          'nested at 7 positions; all ordered pairs of a set of schemas that '
          'differ in single options; pairs of configurations where one is '
          'changed into the other; all stored x required pairs on 3 file '
          'backends; 3 interpreter hash seeds; all pairs of 53 texts and of 29 '
          'numbers in names and options; option values without JSON form')
ASSUMPTIONS = ['the reference serializer in mc/model.py states the canonical '
               'JSON form (sorted keys, all options present)',
               'numerically equal limits of different type (1, 1.0, True) and '
               'differently ordered optionals are not compared']


def leaf_configs():
    yield leaf('Bool')
    for kind in ('Date', 'DateTime', 'Time'):
        yield leaf(kind)
        for flag in (True, False):
            yield leaf(kind, set_on_create=flag)
    for kind in ('Bytes', 'String'):
        for lo, hi in itertools.product((None, 0, 1, 7), repeat=2):
            yield leaf(kind, min_length=lo, max_length=hi)
        yield leaf(kind)
    units = ('', 'V', '\u00b5V', '"\\')
    for dtype in values.DTYPES + ['<f8', '>i4', 'int', 'float']:
        yield leaf('Scalar', dtype=dtype)
        yield leaf('Array', dtype=dtype)
    for unit, lo, hi in itertools.product(
            units, (None, 0, -5, 0.25), (None, 0, 5, 1e300)):
        yield leaf('Scalar', dtype='float64', unit=unit, min_value=lo,
                   max_value=hi)
    for unit, lo, hi in itertools.product(('', 'V'), (None, 0, -1.5),
                                          (None, 0, 7)):
        for mn, mx in ((None, None), ((1,), None), (None, (4,)),
                       ((None,), (3,)), ((0,), (0,)), ((2,), (2,))):
            for dep in (None, 't', ('t',), (None,)):
                yield leaf('Array', dtype='int32', unit=unit, min_value=lo,
                           max_value=hi, min_shape=mn, max_shape=mx,
                           depends_on=dep)
    for ndim in range(5):
        yield leaf('Array', dtype='bool', ndim=ndim)
    for mn, mx in itertools.product((None, (1, 2), (None, 2), (0, 0)),
                                    (None, (3, 4), (None, 4), (5, None))):
        for dep in (None, ('t', 's'), (None, 's'), ('t', None)):
            yield leaf('Array', dtype='float32', min_shape=mn, max_shape=mx,
                       ndim=2, depends_on=dep)
    yield leaf('Array', dtype='int8', min_shape=(1, 2, 3),
               max_shape=(4, 5, None), depends_on=('a', None, 'b'))


def nested(desc):
    yield desc
    yield lst(desc)
    yield lst(desc, min_length=0, max_length=3)
    yield comp({'x': desc})
    yield comp({'b': desc, 'a': values.BOOL}, optionals=['a'])
    yield lst(comp({'l': lst(desc, max_length=2), 'x': desc},
                   optionals=['x', 'l']), min_length=1)
    yield comp({'c': comp({'x': desc, 'y': lst(lst(desc))},
                          optionals=['y'])})


def containers():
    for lo, hi in itertools.product((None, 0, 1, 9), repeat=2):
        yield lst(values.BOOL, min_length=lo, max_length=hi)
        yield comp({'l': lst(values.STRING, min_length=lo, max_length=hi)})
    yield comp({})
    yield lst(comp({}))
    yield comp({'c': comp({})}, optionals=['c'])
    names = ['a', 'b', 'c']
    for n in range(4):
        for opt in itertools.combinations(names, n):
            yield comp({k: values.BOOL for k in names}, optionals=list(opt))
            yield comp({k: comp({k: values.I32}, optionals=list(opt[:0]))
                        for k in names}, optionals=list(opt))
    for name in values.NAMES:
        yield comp({name: values.STRING}, optionals=[name])
    desc = values.BOOL
    for depth in range(9):
        desc = lst(desc, max_length=depth) if depth % 2 else comp(
            {'x': desc, 'y': values.DATE}, optionals=['y'] * (depth % 4 // 2))
        yield desc


def check_same(node, desc, what):
    expected = model.to_json(desc)
    if node.to_json() != expected:
        raise Violation('%s: JSON is %s, expected %s' % (
            what, node.to_json(), expected))
    if node.hash() != model.to_hash(desc):
        raise Violation('%s: wrong hash %s' % (what, node.hash()))
    if json.loads(json.dumps(node.to_dict(), default=str)) != \
            json.loads(json.dumps(model.to_dict(desc), default=str)):
        raise Violation('%s: wrong dict %r' % (what, node.to_dict()))


def attributes(node, desc, what):
    """Compare the public attributes with the configuration."""
    if desc[0] == 'Comp':
        if sorted(node.subnodes) != sorted(desc[1]):
            raise Violation('%s: subnodes %r' % (what, list(node.subnodes)))
        if list(node.optionals) != list(desc[2].get('optionals') or []):
            raise Violation('%s: optionals %r' % (what, node.optionals))
        for k, d in desc[1].items():
            attributes(node.subnodes[k], d, what + '.' + k)
        return
    if desc[0] == 'List':
        cfg = {'min_length': desc[2].get('min_length'),
               'max_length': desc[2].get('max_length')}
        attributes(node.subnode, desc[1], what + '[]')
    else:
        cfg = model.config_of(desc)
    for key, val in cfg.items():
        got = getattr(node, key)
        if isinstance(val, (tuple, list)):
            got, val = (None if got is None else list(got)), list(val)
        if key == 'dtype':
            got, val = np.dtype(got), np.dtype(val)
        if got != val or (type(got) is bool) != (type(val) is bool):
            raise Violation('%s: %s is %r, expected %r' % (what, key, got,
                                                           val))


def run_roundtrip(desc, ctx):
    import dsch
    node = model.build(desc)
    check_same(node, desc, 'new')
    attributes(node, desc, 'new')
    as_dict = node.to_dict()
    text = node.to_json()
    keep = copy.deepcopy(as_dict)
    variants = [
        ('node_from_dict', dsch.schema.node_from_dict(as_dict)),
        ('node_from_json', dsch.schema.node_from_json(text)),
        ('from_dict', type(node).from_dict(as_dict)),
        ('from parsed JSON', dsch.schema.node_from_dict(json.loads(text))),
        ('second generation', dsch.schema.node_from_json(
            dsch.schema.node_from_json(text).to_json())),
        ('second generation dict', dsch.schema.node_from_dict(
            dsch.schema.node_from_dict(as_dict).to_dict()))]
    if json.dumps(keep, default=str) != json.dumps(as_dict, default=str):
        raise Violation('from_dict has modified its argument')
    for what, other in variants:
        check_same(other, desc, what)
        attributes(other, desc, what)
        if not other == node or not node == other or node != other:
            raise Violation('%s: not equal to the original' % what)
        if type(other) is not type(node):
            raise Violation('%s: has type %r' % (what, type(other)))
        ctx.step()
    if node == text or node == as_dict or node == None or node == 1:  # noqa
        raise Violation('schema equals a non-schema object')
    check_same(node, desc, 'original afterwards')
    ctx.state(model.to_json(desc))


def use(node):
    """Everything that might remember the configuration."""
    node.hash()
    node.to_json()
    node.to_dict()
    node == node  # noqa
    repr(node)


def verdict(node, value):
    import dsch
    args = (value, [None] * 3) if type(node).__name__ == 'Array' else (value,)
    try:
        node.validate(*args)
    except dsch.exceptions.ValidationError as err:
        return str(err)
    return None


def same_verdicts(node, fresh, desc):
    """The changed node accepts what a new node accepts."""
    if desc[0] == 'Comp':
        return
    if desc[0] == 'List':
        probes = [[None] * n for n in range(4)]
    else:
        probes = values.leaf_values(desc)
        if desc[0] == 'Array':
            probes = probes + [
                values.array_of(dtype, shape) for dtype in ('int32', 'bool')
                for shape in ((), (1,), (9,), (1, 2), (4, 5), (1, 1, 1))]
    for value in probes:
        got, wanted = verdict(node, value), verdict(fresh, value)
        if got != wanted:
            raise Violation('changed node says %r about %s, a new one %r' %
                            (got, model.short(value), wanted))


def run_changed(case, ctx):
    """A configuration that is changed is identified by its new values."""
    import dsch
    first, second, position = case
    build = {
        'top': lambda d: d, 'field': lambda d: comp(
            {'x': d, 'y': values.BOOL}, optionals=['y']),
        'item': lst, 'deep': lambda d: lst(comp({'c': comp({'l': lst(d)})}))}
    old, new = build[position[0]](first), build[position[0]](second)
    node, other = model.build(old), model.build(new)
    for n in (node, other):
        use(n)
    target = node
    for step in position[1:]:
        target = (target.subnode if step is None else
                  target.subnodes[step])
        use(target)
    source = model.build(second)
    use(source)
    if second[0] == 'Comp':
        target.subnodes.clear()
        target.subnodes.update(source.subnodes)
        target.optionals = list(source.optionals)
    else:
        keys = ({'min_length', 'max_length'} if second[0] == 'List' else
                set(model.config_of(second)))
        for key in sorted(keys):
            setattr(target, key, getattr(source, key))
        if second[0] == 'List':
            target.subnode = source.subnode
    ctx.step()
    check_same(node, new, 'changed')
    check_same(target, second, 'changed node')
    if (node == model.build(old)) != (model.to_json(old) ==
                                      model.to_json(new)):
        raise Violation('changed schema compared with the old one')
    if not (node == other and other == node) or node != other:
        raise Violation('changed schema differs from an equal one')
    same_verdicts(target, model.build(second), second)
    storage = sut.create(ctx, 'npz', new)
    dst = dsch.create('::inmem::', node)
    dst.data.load_from(storage.data)
    if dst.schema_hash() != storage.schema_hash():
        raise Violation('schema hash of a storage with a changed schema')
    storage.save(force=True)
    dsch.load(storage.storage_path, required_schema=node, force=True)
    if model.to_json(old) != model.to_json(new):
        try:
            dsch.load(storage.storage_path, force=True,
                      required_schema_hash=model.to_hash(old))
        except dsch.exceptions.InvalidSchemaError:
            pass
        else:
            raise Violation('old hash is accepted')
    ctx.state((model.to_json(old), model.to_json(new)))


def changed_cases():
    kinds = {}
    for desc in leaf_configs():
        kinds.setdefault(desc[0], {})[model.to_json(desc)] = desc
    kinds = {k: list(v.values()) for k, v in kinds.items()}
    kinds['List'] = [lst(values.BOOL), lst(values.BOOL, min_length=1),
                     lst(values.BOOL, max_length=2), lst(values.STRING),
                     lst(lst(values.BOOL))]
    kinds['Comp'] = [comp({}), comp({'a': values.BOOL}),
                     comp({'a': values.BOOL}, optionals=['a']),
                     comp({'a': values.STRING}),
                     comp({'a': values.BOOL, 'b': values.BOOL}),
                     comp({'b': values.BOOL, 'a': values.BOOL},
                          optionals=['b', 'a'])]
    for configs in kinds.values():
        step = max(1, len(configs) // 12)
        for a, b in itertools.product(configs[::step][:14], repeat=2):
            for position in (('top',), ('field', 'x'), ('item', None),
                             ('deep', None, 'c', 'l', None)):
                yield a, b, position


def run_reorder(case, ctx):
    """Construction order and argument types do not matter."""
    a, b = case
    na, nb = model.build(a), model.build(b)
    if na.to_json() != nb.to_json() or na.hash() != nb.hash() or not na == nb:
        raise Violation('hash depends on construction: %s / %s' % (
            na.to_json(), nb.to_json()))
    ctx.step()
    ctx.state((na.to_json(),))


def reorder_cases():
    fields = {'a': values.BOOL, 'b': values.A1, 'c': lst(values.STRING),
              'd': comp({'z': values.BOOL, 'y': values.I32})}
    keys = list(fields)
    base = comp(fields)
    for perm in itertools.permutations(keys):
        yield base, comp({k: fields[k] for k in perm})
        yield (lst(base, max_length=2),
               lst(comp({k: fields[k] for k in perm}), max_length=2))
    yield (leaf('Array', dtype='int32', max_shape=(1, 2)),
           leaf('Array', dtype='int32', max_shape=[1, 2]))
    yield (leaf('Array', dtype='int32', depends_on='t'),
           leaf('Array', dtype='int32', depends_on=['t']))
    yield (leaf('Array', dtype='int32'),
           leaf('Array', dtype=np.dtype('int32')))
    yield (leaf('Scalar', dtype='float32'),
           leaf('Scalar', dtype=np.dtype('float32')))
    yield (leaf('Scalar', dtype='int32', max_value=5),
           leaf('Scalar', dtype='int32', max_value=np.int32(5)))
    yield (leaf('Array', dtype='float64', min_value=0.5),
           leaf('Array', dtype='float64', min_value=np.float64(0.5)))
    yield (leaf('Array', dtype='int32', max_shape=(3, 4)),
           leaf('Array', dtype='int32', max_shape=(3, 4), ndim=2))
    yield comp({'a': values.BOOL}), comp({'a': values.BOOL}, optionals=[])
    yield comp({'a': values.BOOL}), comp({'a': values.BOOL}, optionals=None)
    yield leaf('String'), leaf('String', min_length=None, max_length=None)
    yield leaf('Date'), leaf('Date', set_on_create=False)


def pair_set(tier):
    """Schemas that differ from each other in at least one option."""
    out = [values.BOOL]
    for kind in ('Date', 'DateTime', 'Time'):
        out += [leaf(kind), leaf(kind, set_on_create=True)]
    for kind in ('Bytes', 'String'):
        out += [leaf(kind), leaf(kind, min_length=0),
                leaf(kind, min_length=1), leaf(kind, max_length=1),
                leaf(kind, max_length=0), leaf(kind, min_length=1,
                                               max_length=1)]
    for kind in ('Scalar', 'Array'):
        out += [leaf(kind, dtype=d) for d in ('int32', 'int64', 'float64')]
        out += [leaf(kind, dtype='int32', unit=u) for u in ('V', 'v', 'mV')]
        out += [leaf(kind, dtype='int32', max_value=1),
                leaf(kind, dtype='int32', min_value=1),
                leaf(kind, dtype='int32', min_value=0),
                leaf(kind, dtype='int32', max_value=0),
                leaf(kind, dtype='int32', min_value=0, max_value=1),
                # These are equal in Python, but not the same.
                leaf(kind, dtype='int32', max_value=1.0),
                leaf(kind, dtype='int32', max_value=True),
                leaf(kind, dtype='int32', max_value=0.0),
                leaf(kind, dtype='int32', max_value=-0.0),
                leaf(kind, dtype='int32', max_value=10 ** 16),
                leaf(kind, dtype='int32', max_value=1e16),
                leaf(kind, dtype='int32', min_value=10 ** 16 + 1),
                leaf(kind, dtype='<i4'), leaf(kind, dtype='>i4'),
                leaf(kind, dtype='i4'),
                leaf(kind, dtype='int32', unit='\u2126'),
                leaf(kind, dtype='int32', unit='\u03a9'),
                leaf(kind, dtype='int32', unit='\u03c9')]
    out += [leaf('Array', dtype='int32', ndim=n) for n in (0, 2, 3)]
    for cfg in ({'max_shape': (1,)}, {'min_shape': (1,)}, {'max_shape': (2,)},
                {'max_shape': (1,), 'min_shape': (1,)},
                {'max_shape': (1, 2)}, {'max_shape': (2, 1)},
                {'max_shape': (None, 2)}, {'max_shape': (2, None)},
                {'depends_on': 't'}, {'depends_on': 's'},
                {'depends_on': ('t', None), 'ndim': 2},
                {'depends_on': (None, 't'), 'ndim': 2},
                {'depends_on': ('t', 's'), 'ndim': 2}):
        out.append(leaf('Array', dtype='int32', **cfg))
    base = [values.BOOL, leaf('String'), leaf('String', max_length=1),
            leaf('Scalar', dtype='int32', unit='V')]
    for b in base:
        out += [lst(b), lst(b, min_length=1), lst(b, max_length=1),
                lst(b, max_length=0), lst(lst(b)), lst(comp({'x': b})),
                comp({'x': b}), comp({'y': b}), comp({'x': b},
                                                     optionals=['x']),
                comp({'x': b, 'y': b}), comp({'x': b, 'y': b},
                                             optionals=['x']),
                comp({'x': b, 'y': b}, optionals=['y']),
                comp({'x': b, 'y': b}, optionals=['x', 'y']),
                comp({'x': b, 'y': b}, optionals=['y', 'x']),
                comp({'x': b, 'y': b}, optionals=['x', 'x']),
                comp({'x': b, 'y': b}, optionals=['z']),
                comp({'x': comp({'x': b})}), comp({'x': lst(b)}),
                comp({'x': comp({'x': b}, optionals=['x'])})]
    out += [comp({}), lst(comp({}))]
    return out


def run_pairs(case, ctx):
    i, j, a, b = case
    na, nb = model.build(a), model.build(b)
    equal = model.to_json(a) == model.to_json(b)
    if (i == j) != equal:
        raise AssertionError('pair set has duplicates')
    got = (na == nb, na != nb, na.hash() == nb.hash(),
           na.to_json() == nb.to_json())
    if got != (equal, not equal, equal, equal):
        raise Violation('(==, !=, same hash, same JSON) is %r for %s and %s' %
                        (got, na.to_json(), nb.to_json()))
    ctx.step()
    ctx.state((i, j))


def pair_cases(tier):
    schemas = pair_set(tier)
    for (i, a), (j, b) in itertools.product(enumerate(schemas), repeat=2):
        yield i, j, a, b


TEXTS = ['V', 'v', ' V', 'V ', '\tV', 'V\n', '', ' ', '  ', 'V V', 'V  V',
         '\xb5V', '\u03bcV', '\xe9', 'e\u0301', '\u212b', '\xc5', '1', '01',
         '1.0', 'None', 'null', 'False', '%', '%%', '\\', '\\\\', '"', "'", '/',
         '\\u00b5', '\0', '\ud800', '\U0001f600', 'x' * 64, 'x' * 65,
         'x' * 300, 'x' * 301, 'V.V', 'V,V', '{}', '[]', '\u2126', '\u03a9',
         '\u200bV', 'm/s', 'm s', 'ms', 'mS', '\xdf', 'ss', '\ufb01', 'fi']
NUMBERS = [0, 1, 2, -1, 2**31, 2**53, 2**53 + 1, 2**63, 2**64, 10**20,
           10**20 + 1, 10**30, -10**20, 0.1, 0.1 + 2**-56, 0.30000000000000004,
           0.3, 1.5, 1e300, 1.0000000000000002e300, 5e-324, 1e-320, -1.5,
           1 / 3, 0.3333, 123456.789, 123456.7890001, float('inf'),
           float('-inf')]


def text_places():
    """Functions that build a schema with the given text somewhere."""
    yield lambda t: leaf('Scalar', dtype='int32', unit=t)
    yield lambda t: leaf('Array', dtype='int32', unit=t)
    yield lambda t: lst(comp({'q': leaf('Array', dtype='float64', ndim=2,
                                        unit=t)}))
    yield lambda t: comp({t: values.BOOL})
    yield lambda t: comp({t: lst(values.BOOL), t + 'z': values.I32},
                         optionals=[t])
    yield lambda t: comp({t: values.A1, t + 'z': values.A1},
                         optionals=[t, t + 'z'])
    yield lambda t: comp({t: values.A1, 'dep': leaf(
        'Array', dtype='int32', depends_on=(t,))})


def number_places():
    for kind in ('Scalar', 'Array'):
        for option in ('min_value', 'max_value'):
            yield lambda n, k=kind, o=option: leaf(
                k, dtype='float64', **{o: n})
    yield lambda n: lst(comp({'x': leaf('Scalar', dtype='int64',
                                        max_value=n)}))


def similar_cases():
    for places, items in ((text_places(), TEXTS), (number_places(), NUMBERS)):
        for place in places:
            for (i, a), (j, b) in itertools.product(enumerate(items),
                                                    repeat=2):
                if i <= j:
                    yield i, j, place(a), place(b)


def run_similar(case, ctx):
    """Texts and numbers are part of a schema exactly as given."""
    if case[0] == case[1]:
        run_roundtrip(case[2], ctx)
    run_pairs(case, ctx)


REQ = [values.BOOL, values.STRING, leaf('String', max_length=5),
       values.I32, leaf('Scalar', dtype='int32', unit='V'), values.A1,
       leaf('Array', dtype='int32', max_shape=(4,)),
       lst(values.BOOL), lst(values.BOOL, max_length=3),
       lst(values.STRING), comp({'x': values.BOOL}),
       comp({'x': values.BOOL}, optionals=['x']), comp({'y': values.BOOL}),
       comp({'x': values.BOOL, 'y': values.A1}),
       lst(comp({'x': lst(values.STRING)})),
       lst(comp({'x': lst(values.STRING, min_length=0)})),
       values.DATE, leaf('Date', set_on_create=True)]


def run_required(case, ctx):
    import dsch
    backend, i, j, data = case
    stored, required = REQ[i], REQ[j]
    storage = sut.create(ctx, backend, stored)
    state = values.two(stored)[0] if data and model.is_leaf(stored) else None
    if state is not None:
        sut.fill(storage.data, stored, state)
    storage.save()
    if storage.schema_hash() != model.to_hash(stored):
        raise Violation('schema_hash of new storage')
    node, text = model.build(required), model.to_hash(required)
    other = model.to_hash(REQ[(j + 1) % len(REQ)])
    match = i == j
    ok_other = i == (j + 1) % len(REQ)
    for force, given in itertools.product((False, True), (None, backend)):
        for kwargs, ok in (
                ({'required_schema': node}, match),
                ({'required_schema_hash': text}, match),
                ({'required_schema': node, 'required_schema_hash': text},
                 match),
                ({'required_schema': node, 'required_schema_hash': other},
                 match and ok_other),
                ({'required_schema_hash': text[:-1] + (
                    '0' if text[-1] != '0' else '1')}, False),
                ({'required_schema_hash': text[:10]}, False), ({}, True)):
            path = sut.snapshot(ctx, storage)
            before = sut.file_bytes(path)
            try:
                loaded = dsch.load(path, given, force=force, **kwargs)
            except dsch.exceptions.InvalidSchemaError:
                if ok:
                    raise Violation('load(%r) rejected a matching schema' %
                                    (sorted(kwargs),))
                if sut.file_bytes(path) != before:
                    raise Violation('rejected load has changed the file')
            else:
                if not ok:
                    raise Violation('load(%r) accepted a different schema' %
                                    (sorted(kwargs),))
                check_same(loaded.schema_node, stored, 'loaded')
                attributes(loaded.schema_node, stored, 'loaded')
                if loaded.schema_hash() != model.to_hash(stored):
                    raise Violation('schema_hash of loaded storage')
                if not loaded.schema_node == model.build(stored):
                    raise Violation('loaded schema is not equal')
            ctx.step()
    ctx.state(case)


def required_cases(tier):
    for i, j in itertools.product(range(len(REQ)), repeat=2):
        for backend in sut.FILES:
            for data in (False, True) if i == j else (True,):
                yield backend, i, j, data


def run_stored(case, ctx):
    """Schema after save/load/copy on every backend."""
    import dsch
    backend, desc = case
    schema = model.build(desc)
    storage = sut.create(ctx, backend, schema)
    check_same(schema, desc, 'schema after create')
    if backend == 'inmem':
        target = storage.save_as('::inmem::')
    else:
        storage.save(force=True)
        storage = dsch.load(sut.snapshot(ctx, storage), force=True)
        target = storage.save_as(ctx.path(sut.EXT[backend]))
    for what, st in (('storage', storage), ('copy', target)):
        check_same(st.schema_node, desc, what)
        attributes(st.schema_node, desc, what)
        check_same(st.data.schema_node, desc, what + ' data')
        if st.schema_hash() != model.to_hash(desc):
            raise Violation('%s: schema_hash' % what)
    ctx.step(3)
    ctx.state(case)


def stored_cases(tier):
    descs = list(pair_set(tier)) + list(containers())
    if tier != 'quick':
        descs += list(leaf_configs())
    for desc in descs:
        if desc[0] == 'Array' and desc[1].get('dtype') in ('>i4',):
            continue
        for backend in sut.ALL:
            yield backend, desc


HASH_SCRIPT = '''
import sys
sys.path.insert(0, sys.argv[1])
sys.path.insert(0, sys.argv[2])
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/dsch-mc'
from mc.checks import c06
from mc import model
for desc in c06.pair_set('quick') + list(c06.containers()):
    node = model.build(desc)
    print(node.hash(), model.to_hash(desc))
'''


def run_process(seed, ctx):
    from ..core import REPO, VERIF
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    proc = subprocess.run(
        [sys.executable, '-B', '-c', HASH_SCRIPT, REPO, VERIF], env=env,
        capture_output=True, text=True, timeout=120)
    if proc.returncode:
        raise Violation('hashing failed: ' + proc.stderr[-500:])
    for line in proc.stdout.splitlines():
        got, exp = line.split()
        ctx.step()
        if got != exp:
            raise Violation('hash depends on the process: seed %d' % seed)
    ctx.state(seed)


def run_types(case, ctx):
    """Dicts of one node type are not accepted by another one."""
    import dsch
    a, b = case
    node, other = model.build(a), model.build(b)
    try:
        type(other).from_dict(node.to_dict())
    except ValueError:
        if a[0] == b[0]:
            raise Violation('from_dict rejected its own type')
    else:
        if a[0] != b[0]:
            raise Violation('%s.from_dict accepted a %s' % (b[0], a[0]))
    bad = node.to_dict()
    bad['node_type'] = bad['node_type'] + 'x'
    try:
        dsch.schema.node_from_dict(bad)
    except ValueError:
        pass
    else:
        raise Violation('unknown node type accepted')
    ctx.step(2)
    ctx.state((a[0], b[0]))


def type_cases():
    descs = [values.BOOL, values.BYTES_, values.STRING, values.DATE,
             values.TIME, values.DATETIME, values.I32, values.A1,
             lst(values.BOOL), comp({'x': values.BOOL})]
    return itertools.product(descs, repeat=2)


class Strange:
    """An object that has no representation in JSON."""


STRANGE = {'complex': 1 + 2j, 'numpy complex': np.complex64(1j),
           'array': np.zeros(2), 'bytes': b'm', 'set': {'a'}, 'class': int,
           'object': Strange(), 'date': dt.date(1, 2, 3),
           'timedelta': np.timedelta64(3, 's'), 'function': len,
           'longdouble': np.longdouble('0.1'), 'dtype class': np.int32,
           'range': range(2), 'nested': [1, {2}], 'dict': {1: 2}}


def unsupported_cases():
    for kind in ('Bytes', 'String', 'Date', 'Time', 'DateTime', 'Scalar',
                 'Array', 'List', 'Compilation'):
        options = {
            'Bytes': ('max_length', 'min_length'),
            'String': ('max_length', 'min_length'),
            'Date': ('set_on_create',), 'Time': ('set_on_create',),
            'DateTime': ('set_on_create',),
            'Scalar': ('unit', 'max_value', 'min_value'),
            'Array': ('unit', 'max_value', 'min_value', 'depends_on'),
            'List': ('max_length', 'min_length'),
            'Compilation': ('optionals',)}[kind]
        for option in options:
            for what in sorted(STRANGE):
                for wrap in ('top', 'item', 'field'):
                    yield kind, option, what, wrap


def run_unsupported(case, ctx):
    """Option values are either refused or preserved, never dropped."""
    import dsch
    from dsch import schema as sc
    kind, option, what, wrap = case
    value = STRANGE[what]
    args = {'Scalar': ('complex128',), 'Array': ('complex128',),
            'List': (sc.Bool(),), 'Compilation': ({'a': sc.Bool()},)}.get(
                kind, ())

    def wrapped(node):
        return {'top': lambda: node, 'item': lambda: sc.List(node),
                'field': lambda: sc.Compilation({'x': node})}[wrap]()
    ctx.step()
    try:
        node = wrapped(getattr(sc, kind)(*args, **{option: value}))
    except Exception as err:
        ctx.outcome('init %s' % type(err).__name__)
        return
    plain = wrapped(getattr(sc, kind)(*args))
    try:
        text = node.to_json()
    except Exception as err:
        ctx.outcome(type(err).__name__)
        text = None
    try:
        digest = node.hash()
    except Exception as err:
        ctx.outcome(type(err).__name__)
        if text is not None:
            raise Violation('JSON %r, but no hash: %r' % (text, err))
        return
    if text is None:
        raise Violation('hash %s without JSON representation' % digest)
    if digest == plain.hash() or node == plain:
        raise Violation('%s=%r is ignored: %s' % (option, value, text))
    loaded = sc.node_from_json(text)
    if loaded.to_json() != text or loaded.hash() != digest:
        raise Violation('%s became %s' % (text, loaded.to_json()))
    ctx.outcome('accepted')


def spaces(tier):
    return [
        Space('roundtrip', lambda: (d for c in leaf_configs()
                                    for d in nested(c)), run_roundtrip),
        Space('containers', containers, run_roundtrip),
        Space('changed', changed_cases, run_changed),
        Space('reorder', reorder_cases, run_reorder),
        Space('pairs', lambda: pair_cases(tier), run_pairs),
        Space('types', type_cases, run_types),
        Space('unsupported', unsupported_cases, run_unsupported),
        Space('similar', similar_cases, run_similar),
        Space('required', lambda: required_cases(tier), run_required,
              lambda c: '%s stored=%s required=%s' % (c[0], REQ[c[1]],
                                                      REQ[c[2]])),
        Space('stored', lambda: stored_cases(tier), run_stored),
        Space('process', lambda: (0, 1, 4242), run_process)]
