"""Reference model: schemas as plain descriptions, data as plain values.

Schema description: (kind, config) for leaves, ('Comp', {name: desc}, config)
and ('List', desc, config).  Data: None or a value for leaves, dicts with all
fields for compilations, lists for lists.  Nothing here uses dsch, except
build(), which creates the real schema objects.
"""
import copy
import datetime
import hashlib
import json

import numpy as np

from .core import Skip, Violation


# ---------------------------------------------------------------- schemas

def leaf(kind, **config):
    return (kind, config)


def comp(fields, **config):
    return ('Comp', dict(fields), config)


def lst(item, **config):
    return ('List', item, config)


def build(desc):
    """Create the real schema object for a description."""
    import dsch
    kind = desc[0]
    if kind == 'Comp':
        return dsch.schema.Compilation(
            {k: build(v) for k, v in desc[1].items()},
            **copy.deepcopy(desc[2]))
    if kind == 'List':
        return dsch.schema.List(build(desc[1]), **desc[2])
    return getattr(dsch.schema, kind)(**copy.deepcopy(desc[1]))


DEFAULTS = {
    'Bool': {},
    'Bytes': {'max_length': None, 'min_length': None},
    'Date': {'set_on_create': False},
    'DateTime': {'set_on_create': False},
    'String': {'max_length': None, 'min_length': None},
    'Time': {'set_on_create': False},
    'Scalar': {'dtype': None, 'unit': '', 'max_value': None,
               'min_value': None},
    'Array': {'dtype': None, 'unit': '', 'max_shape': None, 'min_shape': None,
              'ndim': 1, 'max_value': None, 'min_value': None,
              'depends_on': None},
}


def config_of(desc):
    """Full configuration of a leaf, with normalized values."""
    cfg = dict(DEFAULTS[desc[0]])
    cfg.update(desc[1])
    if desc[0] == 'Array':
        shape = cfg['max_shape'] or cfg['min_shape']
        if shape:
            cfg['ndim'] = len(shape)
        if isinstance(cfg['depends_on'], str):
            cfg['depends_on'] = (cfg['depends_on'],)
    return cfg


def _plain(value):
    if isinstance(value, np.dtype):
        return str(value)
    if isinstance(value, np.generic):
        return value.item()
    raise TypeError(value)


def to_dict(desc):
    """Documented dict representation of the schema."""
    if desc[0] == 'Comp':
        return {'node_type': 'Compilation', 'config': {
            'subnodes': {k: to_dict(v) for k, v in desc[1].items()},
            'optionals': desc[2].get('optionals') or []}}
    if desc[0] == 'List':
        return {'node_type': 'List', 'config': {
            'subnode': to_dict(desc[1]),
            'max_length': desc[2].get('max_length'),
            'min_length': desc[2].get('min_length')}}
    return {'node_type': desc[0], 'config': config_of(desc)}


def to_json(desc):
    return json.dumps(to_dict(desc), sort_keys=True, default=_plain)


def to_hash(desc):
    return hashlib.sha256(to_json(desc).encode()).hexdigest()


def is_leaf(desc):
    return desc[0] not in ('Comp', 'List')


# ------------------------------------------------------------------- data

def canon(value):
    """Bit-exact, comparable representation of a value."""
    if value is None:
        return ('none',)
    if isinstance(value, np.ndarray):
        # Subclasses (e.g. memmap, matrix) behave differently.
        return ('array' if type(value) is np.ndarray else repr(type(value)),
                value.dtype.newbyteorder('=').str, value.shape,
                np.ascontiguousarray(value).astype(
                    value.dtype.newbyteorder('=')).tobytes())
    if isinstance(value, np.generic):
        return ('scalar', value.dtype.newbyteorder('=').str, value.tobytes())
    if isinstance(value, bool):
        return ('bool', value)
    if isinstance(value, bytes):
        return ('bytes', bytes(value))
    if isinstance(value, str):
        return ('str', str(value))
    if isinstance(value, datetime.datetime):
        return ('datetime', value.isoformat(), value.tzinfo)
    if isinstance(value, datetime.date):
        return ('date', value.isoformat())
    if isinstance(value, datetime.time):
        return ('time', value.isoformat(), value.tzinfo)
    if isinstance(value, dict):
        return ('dict', tuple((k, canon(value[k])) for k in sorted(value)))
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, tuple(canon(v) for v in value))
    return (type(value).__name__, repr(value))


def short(value, limit=300):
    with np.printoptions(threshold=20):
        text = repr(value)
    return text if len(text) <= limit else text[:limit] + '...'


def same(got, expected, what):
    """Raise a violation if the two data trees are not identical."""
    if canon(got) != canon(expected):
        raise Violation('%s: got %s, expected %s' %
                        (what, short(got), short(expected)))


def stored(desc, value):
    """Value held by a leaf after assigning an acceptable value to it."""
    if value is None:
        return None
    if desc[0] == 'Scalar':
        return np.dtype(desc[1]['dtype']).type(value)
    if isinstance(value, np.ndarray):
        return value.copy()
    return value


def empty(desc):
    """Initial data of a new node."""
    if desc[0] == 'Comp':
        return {k: empty(v) for k, v in desc[1].items()}
    if desc[0] == 'List':
        return []
    return None


def is_empty(desc, state):
    if desc[0] == 'Comp':
        return all(is_empty(d, state[k]) for k, d in desc[1].items())
    if desc[0] == 'List':
        return all(is_empty(desc[1], s) for s in state)
    return state is None


def is_complete(desc, state):
    if desc[0] == 'Comp':
        opt = desc[2].get('optionals') or []
        return all(is_complete(d, state[k]) for k, d in desc[1].items()
                   if k not in opt)
    if desc[0] == 'List':
        return all(is_complete(desc[1], s) for s in state)
    return state is not None


def tree(desc, state, include_empty):
    """Expected result of data_tree()."""
    if desc[0] == 'Comp':
        out = {}
        for k, d in desc[1].items():
            sub = tree(d, state[k], include_empty)
            if sub is not None or include_empty:
                out[k] = sub
        return out
    if desc[0] == 'List':
        subs = [tree(desc[1], s, include_empty) for s in state]
        return [s for s in subs if s is not None or include_empty]
    return state


def replaced(desc, state, value):
    """State after replace(value) on a node holding state."""
    if desc[0] == 'Comp':
        out = dict(state)
        for k, v in value.items():
            out[k] = replaced(desc[1][k], state[k], v)
        return out
    if desc[0] == 'List':
        return [appended(desc[1], v) for v in value]
    return stored(desc, value)


def appended(desc, value):
    """State of a new list item created by append(value)."""
    new = empty(desc)
    return new if value is None else replaced(desc, new, value)


def cleared(desc, state):
    if desc[0] == 'Comp':
        return {k: cleared(d, state[k]) for k, d in desc[1].items()}
    return [] if desc[0] == 'List' else None


def nodes(desc, state, path=()):
    """Yield (path, desc, state) of all nodes, depth first."""
    yield path, desc, state
    if desc[0] == 'Comp':
        for k, d in desc[1].items():
            yield from nodes(d, state[k], path + (k,))
    elif desc[0] == 'List':
        for i, s in enumerate(state):
            yield from nodes(desc[1], s, path + (i,))


def lookup(desc, state, path):
    """Return (desc, state) of the node at path; Skip if there is none."""
    for part in path:
        if desc[0] == 'Comp':
            desc, state = desc[1][part], state[part]
        else:
            if part >= len(state):
                raise Skip()
            desc, state = desc[1], state[part]
    return desc, state


def update(desc, state, path, func):
    """Return a new state with func(desc, state) applied at path."""
    if not path:
        return func(desc, state)
    part = path[0]
    if desc[0] == 'Comp':
        out = dict(state)
        out[part] = update(desc[1][part], state[part], path[1:], func)
        return out
    if part >= len(state):
        raise Skip()
    out = list(state)
    out[part] = update(desc[1], state[part], path[1:], func)
    return out


def fills(desc, values, lengths):
    """Enumerate all data states: leaf empty or one of values(desc), lists of
    the given lengths."""
    if desc[0] == 'Comp':
        def rec(items):
            if not items:
                yield {}
                return
            (k, d), rest = items[0], items[1:]
            for s in fills(d, values, lengths):
                for r in rec(rest):
                    out = {k: s}
                    out.update(r)
                    yield out
        yield from rec(list(desc[1].items()))
    elif desc[0] == 'List':
        def rec_list(n):
            if n == 0:
                yield []
                return
            for s in fills(desc[1], values, lengths):
                for r in rec_list(n - 1):
                    yield [s] + r
        for n in lengths:
            yield from rec_list(n)
    else:
        yield None
        yield from values(desc)


def full(desc, value, length):
    """The state with all lists of the given length and all leaves set."""
    if desc[0] == 'Comp':
        return {k: full(d, value, length) for k, d in desc[1].items()}
    if desc[0] == 'List':
        return [full(desc[1], value, length) for _ in range(length)]
    return value(desc)


# ------------------------------------------------------------- validation

def _shape_ok(shape, limits, below):
    for limit, size in zip(limits, shape):
        if limit is None:
            continue
        if size < limit if below else size > limit:
            return False
    return True


def leaf_ok(desc, value, independent=None):
    """Whether a present value meets all constraints of its schema node.

    independent: values of the independent variables (or None), for arrays.
    """
    kind, cfg = desc[0], config_of(desc)
    if kind == 'Bool':
        return isinstance(value, bool)
    if kind in ('Bytes', 'String'):
        if not isinstance(value, bytes if kind == 'Bytes' else str):
            return False
        if cfg['min_length'] is not None and len(value) < cfg['min_length']:
            return False
        return cfg['max_length'] is None or len(value) <= cfg['max_length']
    if kind == 'Date':
        return isinstance(value, datetime.date)
    if kind == 'DateTime':
        return isinstance(value, datetime.datetime)
    if kind == 'Time':
        return isinstance(value, datetime.time)
    if kind == 'Scalar':
        if not isinstance(value, np.number):
            return False
        if value.dtype != np.dtype(cfg['dtype']):
            return False
        if cfg['min_value'] is not None and value < cfg['min_value']:
            return False
        return cfg['max_value'] is None or not value > cfg['max_value']
    if kind == 'Array':
        if not isinstance(value, np.ndarray):
            return False
        if value.dtype != np.dtype(cfg['dtype']):
            return False
        if value.ndim != cfg['ndim']:
            return False
        if cfg['max_shape'] and not _shape_ok(value.shape, cfg['max_shape'],
                                              False):
            return False
        if cfg['min_shape'] and not _shape_ok(value.shape, cfg['min_shape'],
                                              True):
            return False
        for item in value.ravel().tolist():
            if cfg['min_value'] is not None and item < cfg['min_value']:
                return False
            if cfg['max_value'] is not None and item > cfg['max_value']:
                return False
        if cfg['depends_on']:
            for size, ind in zip(value.shape, independent):
                if ind is not None and ind.size != size:
                    return False
        return True
    raise AssertionError(kind)


def invalid_paths(desc, state, path=(), parent=None):
    """Return the paths of all nodes that themselves violate the schema."""
    out = []
    if desc[0] == 'Comp':
        for k, d in desc[1].items():
            out += invalid_paths(d, state[k], path + (k,), state)
        return out
    if desc[0] == 'List':
        low, high = desc[2].get('min_length'), desc[2].get('max_length')
        if (low is not None and len(state) < low) or (
                high is not None and len(state) > high):
            out.append(path)
        for i, s in enumerate(state):
            out += invalid_paths(desc[1], s, path + (i,), None)
        return out
    if state is None:
        return out
    independent = None
    if desc[0] == 'Array':
        names = config_of(desc)['depends_on'] or ()
        independent = [None if n is None else parent[n] for n in names]
    if not leaf_ok(desc, state, independent):
        out.append(path)
    return out


def path_text(path):
    """Documented textual form of a node path."""
    text = ''
    for part in path:
        if isinstance(part, int):
            text += '[%d]' % part
        else:
            text += ('.' if text else '') + part
    return text
