"""The established file layouts, written down independently of dsch.

decode(backend, path) reads a file with h5py, NumPy or SciPy alone and returns
a plain description of everything in it; expected(backend, desc, state)
returns the description of the established layout; encode(...) writes a file
in that layout, again without dsch.
"""
import datetime as dt
import io
import json
import zipfile

import h5py
import numpy as np
import scipy.io

from . import model
from .core import Violation


def parts(desc, value):
    """Numbers that represent dates and times."""
    if desc[0] == 'Date':
        return [value.year, value.month, value.day]
    if desc[0] == 'Time':
        return [value.hour, value.minute, value.second, value.microsecond]
    return [value.year, value.month, value.day, value.hour, value.minute,
            value.second, value.microsecond]


def present(desc, state):
    """Whether anything is written for a node in npz and mat files."""
    if desc[0] == 'Comp':
        return any(present(d, state[k]) for k, d in desc[1].items())
    if desc[0] == 'List':
        return len(state) > 0
    return state is not None


def has_gap(desc, state):
    """Whether there are list items that older versions did not save."""
    return any(d[0] == 'List' and any(
        model.is_empty(d[1], x) and not (d[1][0] in ('Comp', 'List'))
        for x in s) for _, d, s in model.nodes(desc, state))


def schema_text(desc, variant):
    """The schema's JSON text, possibly with another formatting."""
    text = model.to_json(desc)
    if variant == 'indented':
        def reverse(pairs):
            return dict(reversed(pairs))
        text = json.dumps(json.loads(text, object_pairs_hook=reverse),
                          indent=1)
    return text


# ------------------------------------------------------------------- hdf5

def decode_hdf5(path):
    out = {}
    with h5py.File(path, 'r') as file_:
        def visit(prefix, group):
            out[prefix] = ('group', {k: attr(v)
                                     for k, v in group.attrs.items()})
            for name, item in group.items():
                sub = prefix + '/' + name
                if isinstance(item, h5py.Group):
                    visit(sub, item)
                else:
                    out[sub] = dataset(item)
        visit('', file_)
    return out


def attr(value):
    return str(value) if isinstance(value, str) else int(value)


def dataset(item):
    attrs = {k: repr(v) for k, v in item.attrs.items()}
    info = h5py.check_string_dtype(item.dtype)
    if info is not None:
        value = item[()]
        return ('text', item.shape, value.decode('utf8')
                if isinstance(value, bytes) else value, attrs)
    if item.dtype.kind == 'V':
        return ('opaque', item[()].tobytes(), attrs)
    return ('data', model.canon(np.asarray(item[()])), attrs)


def expected_hdf5(desc, state):
    out = {}

    def add(path, d, s):
        if d[0] == 'Comp':
            out[path] = ('group', {})
            for k, sub in d[1].items():
                add(path + '/' + k, sub, s[k])
        elif d[0] == 'List':
            out[path] = ('group', {'dsch_length': len(s)})
            for i, item in enumerate(s):
                add('%s/item_%d' % (path, i), d[1], item)
        elif s is None:
            return
        elif d[0] == 'String':
            out[path] = ('text', (), s, {})
        elif d[0] == 'Bytes':
            out[path] = ('opaque', s, {})
        elif d[0] in ('Date', 'Time', 'DateTime'):
            out[path] = ('data', model.canon(np.array(parts(d, s), 'int64')),
                         {})
        elif d[0] == 'Bool':
            out[path] = ('data', model.canon(np.array(s)), {})
        else:
            out[path] = ('data', model.canon(np.asarray(s)), {})
    out[''] = ('group', {})
    add('' if desc[0] == 'Comp' else '/dsch_data', desc, state)
    out['']= ('group', {'dsch_schema': model.to_json(desc)})
    return out


def encode_hdf5(path, desc, state, variant):
    options = {'libver': 'latest'} if variant == 'latest' else {}
    text = schema_text(desc, variant)

    def add(parent, name, d, s):
        if d[0] in ('Comp', 'List'):
            group = parent.create_group(name) if name else parent
            if d[0] == 'Comp':
                items = list((k, sub, s[k]) for k, sub in d[1].items())
            else:
                items = [('item_%d' % i, d[1], x) for i, x in enumerate(s)]
                if variant != 'old':
                    group.attrs['dsch_length'] = len(s)
            if variant == 'reversed':
                items.reverse()
            for k, sub, x in items:
                if (variant == 'sparse' and d[0] == 'Comp' and
                        sub[0] in ('Comp', 'List') and not present(sub, x)):
                    continue   # nothing is stored below
                add(group, k, sub, x)
        elif s is None:
            return
        elif d[0] == 'String':
            parent.create_dataset(name, data=s)
        elif d[0] == 'Bytes':
            if s:
                parent.create_dataset(name, data=np.void(s))
            else:
                parent.create_dataset(name, data=np.empty((0,), 'V1'))
        elif d[0] in ('Date', 'Time', 'DateTime'):
            parent.create_dataset(name, data=np.array(parts(d, s), 'int64'))
        elif d[0] == 'Array':
            kwargs = {}
            if variant == 'chunked' and s.size:
                kwargs = {'chunks': s.shape, 'compression': 'gzip'} \
                    if s.ndim else {}
            elif variant == 'resizable' and s.ndim:
                kwargs = {'maxshape': (None,) * s.ndim}
            parent.create_dataset(name, data=s, **kwargs)
        else:
            parent.create_dataset(name, data=s)
    with h5py.File(path, 'w', **options) as file_:
        if variant != 'reversed':
            file_.attrs['dsch_schema'] = text
        add(file_, '' if desc[0] == 'Comp' else 'dsch_data', desc, state)
        file_.attrs['dsch_schema'] = text


# -------------------------------------------------------------------- npz

def decode_npz(path):
    out = {}
    with zipfile.ZipFile(path) as file_:
        names = file_.namelist()
        if len(set(names)) != len(names):
            raise Violation('duplicate entries %r' % names)
        if file_.testzip() is not None:
            raise Violation('damaged entry')
        for name in names:
            if not name.endswith('.npy'):
                raise Violation('entry %r' % name)
            out[name[:-4]] = model.canon(np.lib.format.read_array(
                io.BytesIO(file_.read(name)), allow_pickle=False))
    with np.load(path) as file_:
        again = {k: model.canon(file_[k]) for k in file_.keys()}
    if again != out:
        raise Violation('np.load sees %r' % sorted(again))
    return out


def npz_value(d, s):
    if d[0] == 'String':
        return np.array(s, dtype='U')
    if d[0] == 'Bytes':
        return np.array(s, dtype='S') if s else np.zeros(0, 'S1')
    if d[0] == 'Bool':
        return np.array([s])
    if d[0] in ('Date', 'Time', 'DateTime'):
        return np.array(parts(d, s), 'int64')
    return np.asarray(s)


def npz_items(desc, state):
    out = []

    def add(key, d, s):
        if d[0] == 'Comp':
            for k, sub in d[1].items():
                if present(sub, s[k]):
                    add(key + '.' + k, sub, s[k])
        elif d[0] == 'List':
            for i, item in enumerate(s):
                name = '%s.item_%d' % (key, i)
                if present(d[1], item):
                    add(name, d[1], item)
                else:
                    out.append((name + '.', np.zeros(0)))
        else:
            out.append((key, npz_value(d, s)))
    if desc[0] == 'Comp':
        for k, sub in desc[1].items():
            if present(sub, state[k]):
                add(k, sub, state[k])
    elif present(desc, state):
        add('data', desc, state)
    return out


def expected_npz(desc, state):
    out = {k: model.canon(v) for k, v in npz_items(desc, state)}
    out['_schema'] = model.canon(np.array(model.to_json(desc)))
    return out


def encode_npz(path, desc, state, variant):
    items = [('_schema', np.array(schema_text(desc, variant)))]
    items += npz_items(desc, state)
    if variant == 'reversed':
        items.reverse()
    items = [(k, v) for k, v in items]
    if variant in ('zip', 'reversed'):
        with zipfile.ZipFile(path, 'w', zipfile.ZIP_DEFLATED) as file_:
            for k, v in items:
                buf = io.BytesIO()
                np.lib.format.write_array(buf, v)
                file_.writestr(k + '.npy', buf.getvalue())
        return
    func = np.savez_compressed if variant == 'compressed' else np.savez
    with open(path, 'wb') as file_:
        func(file_, **dict(items))


# -------------------------------------------------------------------- mat

def decode_mat(path):
    with open(path, 'rb') as file_:
        if not file_.read(10) == b'MATLAB 5.0':
            raise Violation('no MATLAB header')
    file_ = scipy.io.loadmat(path, appendmat=False)
    return {k: plain_mat(v) for k, v in file_.items()
            if not k.startswith('__')}


def plain_mat(value):
    if value.dtype.names is not None:
        if value.shape != (1, 1):
            raise Violation('struct has shape %r' % (value.shape,))
        return ('struct', {k: plain_mat(value[0, 0][k])
                           for k in value.dtype.names})
    if value.dtype == object:
        if value.shape == (1, 1) and value[0, 0] is None:
            return ('struct', {})
        if value.size and value.shape[0] != 1:
            raise Violation('cell array has shape %r' % (value.shape,))
        return ('cell', [plain_mat(v) for v in value.ravel()])
    if value.dtype.kind == 'U':
        return ('char', ''.join(value.tolist()) if value.size else '')
    return model.canon(value)


def mat_array(value):
    """How MATLAB represents an array."""
    value = np.asarray(value)
    if value.dtype == 'bool':
        value = value.astype('uint8')
    if value.dtype == 'float16':
        value = value.astype('float64')
    if value.ndim == 0:
        return value.reshape(1, 1)
    if value.ndim == 1:
        if value.size == 0:
            return value.reshape(0, 0)
        return value.reshape(1, -1)
    return value


def expected_mat(desc, state):
    def value(d, s):
        if d[0] == 'Comp':
            return ('struct', {k: value(sub, s[k]) for k, sub in d[1].items()
                               if present(sub, s[k])})
        if d[0] == 'List':
            return ('cell', [value(d[1], x) if present(d[1], x) else
                             ('struct', {}) for x in s])
        if d[0] == 'String':
            return ('char', s)
        if d[0] == 'Bytes':
            return model.canon(mat_array(np.frombuffer(s, 'uint8')))
        if d[0] == 'Bool':
            return model.canon(np.array([[s]], 'uint8'))
        if d[0] in ('Date', 'Time', 'DateTime'):
            return model.canon(mat_array(np.array(parts(d, s), 'int64')))
        return model.canon(mat_array(s))
    out = {'schema': ('char', model.to_json(desc))}
    if not model.is_leaf(desc) or state is not None:
        out['data'] = value(desc, state)
    return out


def encode_mat(path, desc, state, variant):
    def value(d, s):
        if d[0] == 'Comp':
            return {k: value(sub, s[k]) for k, sub in d[1].items()
                    if present(sub, s[k])}
        if d[0] == 'List':
            out = np.empty((len(s),), dtype=object)
            for i, x in enumerate(s):
                out[i] = value(d[1], x) if present(d[1], x) else {}
            return out
        if d[0] == 'String':
            return np.array(s)
        if d[0] == 'Bytes':
            return np.frombuffer(s, 'uint8')
        if d[0] == 'Bool':
            return np.array([s])
        if d[0] in ('Date', 'Time', 'DateTime'):
            return np.array(parts(d, s), 'int64')
        return np.asarray(s)
    items = []
    if not model.is_leaf(desc) or state is not None:
        items.append(('data', value(desc, state)))
    items.append(('schema', schema_text(desc, variant)))
    if variant == 'old':
        items.reverse()
    scipy.io.savemat(path, dict(items), appendmat=False,
                     long_field_names=True,
                     do_compression=variant == 'compressed',
                     oned_as='column' if variant == 'column' else 'row')


DECODE = {'hdf5': decode_hdf5, 'npz': decode_npz, 'mat': decode_mat}
EXPECTED = {'hdf5': expected_hdf5, 'npz': expected_npz, 'mat': expected_mat}
ENCODE = {'hdf5': encode_hdf5, 'npz': encode_npz, 'mat': encode_mat}
VARIANTS = {
    'hdf5': ('plain', 'old', 'latest', 'reversed', 'chunked', 'resizable',
             'sparse', 'indented'),
    'npz': ('savez', 'compressed', 'zip', 'reversed', 'indented'),
    'mat': ('plain', 'old', 'compressed', 'column', 'indented')}
