"""Driver for the real code, using the public interface only."""
import gc
import os
import shutil

import numpy as np

from . import model
from .core import Skip, Violation

EXT = {'hdf5': '.h5', 'npz': '.npz', 'mat': '.mat'}
FILES = ('npz', 'hdf5', 'mat')
ALL = ('inmem', 'npz', 'hdf5', 'mat')


def new_path(ctx, backend):
    return '::inmem::' if backend == 'inmem' else ctx.path(EXT[backend])


def create(ctx, backend, desc_or_schema, path=None):
    import dsch
    schema = (model.build(desc_or_schema)
              if isinstance(desc_or_schema, tuple) else desc_or_schema)
    return dsch.create(path or new_path(ctx, backend), schema)


def snapshot(ctx, storage):
    """Copy the storage's file in its current state; return the new path."""
    ext = os.path.splitext(storage.storage_path)[1]
    path = ctx.path(ext)
    shutil.copyfile(storage.storage_path, path)
    return path


def reload(ctx, storage, force=True):
    """Save and load a copy of the file, as another process would."""
    import dsch
    storage.save(force=force)
    backend = None
    if not storage.storage_path.endswith(tuple(EXT.values())):
        backend = type(storage).__module__.split('.')[-1]
    return dsch.load(snapshot(ctx, storage), backend, force=force)


def file_bytes(path):
    try:
        with open(path, 'rb') as file_:
            return file_.read()
    except FileNotFoundError:
        return None


def node_at(node, path):
    for part in path:
        node = node[part] if isinstance(part, int) else getattr(node, part)
    return node


def observe(node, desc):
    """Read the data below a node by walking the tree."""
    import dsch
    kind = desc[0]
    if kind == 'Comp':
        return {k: observe(getattr(node, k), d) for k, d in desc[1].items()}
    if kind == 'List':
        return [observe(node[i], desc[1]) for i in range(len(node))]
    if node.empty:
        try:
            node.value
        except dsch.exceptions.NodeEmptyError:
            return None
        raise Violation('empty node has a value')
    value = node.value
    return value.copy() if isinstance(value, np.ndarray) else value


def check_node(node, desc, state, what):
    """Compare data, exported trees and flags of a node with the model."""
    model.same(observe(node, desc), state, what)
    model.same(node.data_tree(include_empty=True),
               model.tree(desc, state, True), what + ', data_tree(True)')
    model.same(node.data_tree(), model.tree(desc, state, False),
               what + ', data_tree()')
    check_flags(node, desc, state, what)
    check_slices(node, desc, state, what)


KEYS = [(), Ellipsis, slice(None), slice(1, None), slice(0, 1)]


def check_slices(node, desc, state, what):
    """Compare reading parts of arrays through the node with the model."""
    if desc[0] == 'Comp':
        for k, d in desc[1].items():
            check_slices(getattr(node, k), d, state[k], what + '.' + k)
    elif desc[0] == 'List':
        for i, s in enumerate(state):
            check_slices(node[i], desc[1], s, what + '[%d]' % i)
    elif desc[0] == 'Array' and isinstance(state, np.ndarray):
        keys = KEYS[:2] if state.ndim == 0 else list(KEYS)
        if state.size and state.ndim:
            keys.append((0,) * state.ndim)
            keys.append(state.shape[0] - 1)
        for key in keys:
            got, exp = np.asarray(node[key]), np.asarray(state[key])
            model.same(got, exp, '%s[%r]' % (what, key))


def check_flags(node, desc, state, what):
    got = (node.empty, node.complete)
    exp = (model.is_empty(desc, state), model.is_complete(desc, state))
    if got != exp:
        raise Violation('%s: (empty, complete) is %r, expected %r' %
                        (what, got, exp))
    if desc[0] == 'Comp':
        for k, d in desc[1].items():
            sub = getattr(node, k)
            if sub.parent is not node:
                raise Violation('%s.%s: wrong parent' % (what, k))
            check_flags(sub, d, state[k], what + '.' + k)
    elif desc[0] == 'List':
        if len(node) != len(state):
            raise Violation('%s: len is %d, expected %d' %
                            (what, len(node), len(state)))
        for i, s in enumerate(state):
            if node[i].parent is not node:
                raise Violation('%s[%d]: wrong parent' % (what, i))
            check_flags(node[i], desc[1], s, what + '[%d]' % i)


def fill(node, desc, state, copy=True):
    """Bring a new node into the given state, leaf by leaf."""
    if desc[0] == 'Comp':
        for k, d in desc[1].items():
            fill(getattr(node, k), d, state[k], copy)
    elif desc[0] == 'List':
        for i, s in enumerate(state):
            node.append()
            fill(node[i], desc[1], s, copy)
    elif state is not None:
        node.value = fresh(state) if copy else state
    elif desc[1].get('set_on_create'):
        node.clear()


def fresh(value):
    """Copy a value such that no array is shared with the harness."""
    if isinstance(value, np.ndarray):
        return value.copy(order='K')
    if isinstance(value, dict):
        return {k: fresh(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [fresh(v) for v in value]
    return value


def has_none(state):
    if isinstance(state, dict):
        return any(has_none(v) for v in state.values())
    if isinstance(state, list):
        return any(has_none(v) for v in state)
    return state is None


def prune(state):
    """Nested value for replace() that produces the state on a new node, or
    Skip if replace() cannot produce it."""
    if isinstance(state, dict):
        return {k: prune(v) for k, v in state.items() if v is not None}
    if isinstance(state, list):
        return [None if s is None else prune(s) for s in state]
    return fresh(state)


# ---------------------------------------------------------- operations

class World:
    """One storage together with its reference state."""

    def __init__(self, ctx, backend, desc, schema=None):
        self.ctx = ctx
        self.desc = desc
        self.backend = backend
        self.storage = create(ctx, backend, schema or desc)
        self.state = model.empty(desc)

    def apply(self, op):
        """Apply an operation (name, path, argument) to both sides."""
        import dsch
        name, path, arg = op
        ctx, desc = self.ctx, self.desc
        ctx.step()
        if name == 'reload':
            if self.backend == 'inmem':
                raise Skip()
            self.storage = reload(ctx, self.storage)
            return
        if name == 'save':
            if self.backend == 'inmem':
                raise Skip()
            self.storage.save(force=True)
            return
        if name == 'hop':
            if arg == self.backend:
                raise Skip()
            self.storage = self.storage.save_as(new_path(ctx, arg))
            self.backend = arg
            return
        ndesc, nstate = model.lookup(desc, self.state, path)
        if name in ('rsz', 'seti') and nstate is None:
            raise Skip()
        new_value = None
        if name == 'set':
            func = lambda d, s: model.replaced(d, s, arg)
        elif name == 'rep':
            func = lambda d, s: model.replaced(d, s, arg)
        elif name == 'clr':
            func = model.cleared
        elif name == 'app':
            func = lambda d, s: s + [model.appended(d[1], arg)]
        elif name == 'rsz':
            def func(d, s):
                if len(arg) != s.ndim:
                    raise Skip()
                out = np.zeros(arg, dtype=s.dtype)
                cut = tuple(slice(min(a, b)) for a, b in zip(arg, s.shape))
                out[cut] = s[cut]
                return out
        elif name == 'seti':
            key, val = arg
            def func(d, s):
                out = s.copy()
                try:
                    out[key] = val
                except (IndexError, ValueError):
                    raise Skip()
                return out
        elif name == 'loadfrom':   # copy of another storage's data
            func = lambda d, s: arg
        elif name == 'copyfrom':   # copy of another node of this storage
            odesc, ostate = model.lookup(desc, self.state, arg)
            func = lambda d, s: ostate
        else:
            raise AssertionError(name)
        new_state = model.update(desc, self.state, path, func)
        node = node_at(self.storage.data, path)
        if name == 'set':
            node.value = fresh(arg)
        elif name == 'rep':
            node.replace(fresh(arg))
        elif name == 'clr':
            node.clear()
        elif name == 'app':
            if arg is None:
                node.append()
            else:
                node.append(fresh(arg))
        elif name == 'rsz':
            node.resize(arg)
        elif name == 'seti':
            node[arg[0]] = arg[1]
        elif name == 'loadfrom':
            other = dsch.create('::inmem::', model.build(ndesc))
            fill(other.data, ndesc, arg)
            node.load_from(other.data)
        elif name == 'copyfrom':
            node.load_from(node_at(self.storage.data, arg))
        self.state = new_state

    def check(self, what=''):
        check_node(self.storage.data, self.desc, self.state,
                   '%s %s' % (self.backend, what))
        if self.storage.complete != model.is_complete(self.desc, self.state):
            raise Violation('storage.complete is wrong')
        if self.storage.data.parent is not None:
            raise Violation('the top-level node has a parent')
        schema, node = self.storage.schema_node, self.storage.data.schema_node
        if schema is not node and not schema == node:
            raise Violation('storage and data have different schema nodes')

    def check_reloaded(self, what='after save and load'):
        if self.backend != 'inmem':
            self.storage = reload(self.ctx, self.storage)
            self.check(what)

    def note(self):
        self.ctx.state((self.backend, model.canon(self.state)))


def mutations(desc, state):
    """Modifying operations on every node, last nodes first; each one works
    in the state that the previous ones leave."""
    from . import values
    out = []
    for path, d, s in reversed(list(model.nodes(desc, state))):
        if d[0] == 'Array' and s is not None:
            # In-place changes first, they are most likely to be shared.
            if s.size:
                key = (0,) * s.ndim if s.ndim else ()
                out.append(('seti', path, (key, other_item(s))))
                out.append(('seti', path, (Ellipsis, other_item(s))))
            if s.ndim:
                out.append(('rsz', path, tuple(n + 1 for n in s.shape)))
                out.append(('seti', path, ((0,) * s.ndim, other_item(s))))
        if model.is_leaf(d):
            a, b = values.two(d)
            out.append(('set', path, b))
            out.append(('set', path, a))
            if s is not None or len(path) % 2:
                out.append(('clr', path, None))
        elif d[0] == 'List':
            out.append(('app', path, None))
            out.append(('app', path, None))
            if len(s) % 2:
                out.append(('clr', path, None))
        else:
            out.append(('rep', path, {}))
    out.append(('clr', (), None))
    return out


def other_item(array):
    """An array element that differs from all elements of the array."""
    if array.dtype.kind == 'b':
        return not array.flat[0]
    return array.dtype.type(100)


def world_in_state(ctx, backend, desc, state, loaded=False):
    """World whose storage holds the given state; optionally loaded."""
    import dsch
    world = World(ctx, backend, desc)
    fill(world.storage.data, desc, state)
    world.state = state
    if loaded:
        world.storage.save(force=True)
        world.storage = dsch.load(snapshot(ctx, world.storage), force=True)
    return world
