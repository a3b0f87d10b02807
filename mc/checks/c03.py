"""C03: the file holds exactly the last successful save."""
import gc
import itertools
import os

import numpy as np

from .. import model, sut, values
from ..core import Skip, Space, Violation, close_hdf5
from ..model import comp, leaf, lst

LEVEL = 'model_checking'
BOUNDS = ('every single change of every small tree state, and every ordered '
          'pair of leaf values, between two saves; '
          'all histories of 9 modifying, saving, force-saving and '
          'rejected-saving operations up to depth 4 (5 thorough) on 3 '
          'schemas, and with values and field names that the format cannot '
          'represent; saves with four sets of options; the process ends '
          'after every step of every history '
          '(killed without any cleanup, or storage dropped and collected)')
ASSUMPTIONS = ['the operating system keeps what was written to a file when '
               'the process dies (no power loss)']

S1 = comp({'s': leaf('String', max_length=3),
           'l': lst(values.I32, max_length=2),
           'a': leaf('Array', dtype='int32', max_value=50)})
OPS1 = [('set', ('s',), 'ok'), ('set', ('s',), 'too long'),
        ('set', ('a',), np.arange(3, dtype='int32')),
        ('seti', ('a',), (0, 40)), ('clr', (), None),
        ('app', ('l',), 4), ('clr', ('l',), None),
        ('try', (), None), ('force', (), None)]
S2 = leaf('Bytes', max_length=4)
OPS2 = [('set', (), b'ab'), ('set', (), b'a\0cd'), ('set', (), b'too long'),
        ('set', (), b''), ('clr', (), None), ('try', (), None),
        ('force', (), None)]
S3 = lst(comp({'x': leaf('Scalar', dtype='int32', max_value=9),
               'l': lst(values.BOOL)}), max_length=2)
OPS3 = [('app', (), {'x': 1}), ('app', (), {'x': 99}), ('app', (), None),
        ('set', (0, 'x'), 5), ('app', (0, 'l'), True),
        ('clr', (0,), None), ('clr', (), None), ('try', (), None),
        ('force', (), None)]


NEVER = object()


class Tracked(sut.World):
    """World that also tracks what the file must contain."""

    saved = NEVER         # state of the last successful save
    pending = False       # whether there are later modifications

    def perform(self, op):
        import dsch
        if op[0] not in ('try', 'force'):
            self.apply(op)
            self.pending = True
            return
        self.ctx.step()
        invalid = model.invalid_paths(self.desc, self.state)
        path = self.storage.storage_path
        before = sut.file_bytes(path)
        try:
            self.storage.save(force=op[0] == 'force')
        except (dsch.exceptions.ValidationError,
                dsch.exceptions.SubnodeValidationError):
            if not invalid or op[0] == 'force':
                raise
            if sut.file_bytes(path) != before:
                raise Violation('rejected save has written to the file')
        else:
            if invalid and op[0] == 'try':
                raise Violation('save of invalid data succeeded')
            self.saved = self.state
            self.pending = False

    def check_file(self, path, what):
        """Check that the file has the content of the last save."""
        import dsch
        if not os.path.exists(path):
            if self.saved is not NEVER:
                raise Violation('%s: file does not exist' % what)
            return
        if self.saved is NEVER and self.backend != 'hdf5':
            raise Violation('%s: file exists without save' % what)
        self.ctx.step()
        loaded = dsch.load(path, force=True)
        expected = self.saved
        if expected is NEVER:
            expected = model.empty(self.desc)
        got = sut.observe(loaded.data, self.desc)
        if model.canon(got) != model.canon(expected):
            if (self.backend == 'hdf5' and self.pending and
                    model.canon(got) == model.canon(self.state)):
                self.ctx.finding(
                    'hdf5-unsaved-changes-written',
                    'unsaved changes are in the file: saved %s, loaded %s' %
                    (model.short(expected), model.short(got)))
            raise Violation('%s: loaded %s, saved %s' % (
                what, model.short(got), model.short(expected)))
        sut.check_node(loaded.data, self.desc, expected, what)


def run_live(case, ctx):
    """Look at the file after every step, without any cleanup."""
    backend, desc, ops = case
    world = Tracked(ctx, backend, desc)
    for op in ops:
        world.perform(op)
        ctx.state((backend, world.saved is not NEVER and
                   model.canon(world.saved),
                   model.canon(world.state)))
    # Every prefix is a history of its own, so look after the last step only.
    # hdf5 may keep or write parts of unsaved changes, see run_drop.
    if backend != 'hdf5' or (world.saved is not NEVER and not world.pending):
        path = world.storage.storage_path
        if os.path.exists(path):
            path = sut.snapshot(ctx, world.storage)
        elif backend == 'hdf5':
            raise Violation('no file')
        world.check_file(path, 'killed after the last step')


def run_drop(case, ctx):
    """Drop the storage object without saving."""
    backend, desc, ops = case
    world = Tracked(ctx, backend, desc)
    for op in ops:
        world.perform(op)
    path = world.storage.storage_path
    world.storage = None
    gc.collect()
    close_hdf5()
    world.check_file(path, 'dropped after the last step')


def run_kill(case, ctx):
    """A process performs the history and is killed; another one loads."""
    backend, desc, ops = case
    if backend == 'hdf5' and ops and ops[-1][0] not in ('try', 'force'):
        return
    world = Tracked(ctx, backend, desc)
    world.storage = None
    path = ctx.path('.k' + sut.EXT[backend])
    pid = os.fork()
    if pid == 0:
        try:
            world.storage = sut.create(ctx, backend, desc, path)
            for op in ops:
                world.perform(op)
        except Skip:
            os._exit(8)
        except BaseException:
            os._exit(1)
        os._exit(9)
    status = os.waitpid(pid, 0)[1]
    code = os.waitstatus_to_exitcode(status)
    if code == 8:
        raise Skip()
    if code != 9:
        raise Violation('history failed in the killed process')
    for op in ops:  # the reference state only
        if op[0] in ('try', 'force'):
            if op[0] == 'force' or not model.invalid_paths(desc, world.state):
                world.saved, world.pending = world.state, False
        else:
            mirror(world, op)
    if backend == 'hdf5' and (world.pending or world.saved is NEVER):
        return
    ctx.step(len(ops))
    world.check_file(path, 'after the process was killed')


def mirror(world, op):
    """Apply an operation to the reference state only."""
    helper = sut.World(world.ctx, 'inmem', world.desc)
    sut.fill(helper.storage.data, world.desc, world.state)
    helper.state = world.state
    helper.apply(op)
    world.state = helper.state
    world.pending = True


def run_resave(case, ctx):
    """Save, change one thing, save again: the file has the second state."""
    backend, desc, state, how, ops = case
    world = Tracked(ctx, backend, desc)
    if how != 'new':
        sut.fill(world.storage.data, desc, state)
        world.state = state
    world.perform(('force', (), None))
    if how == 'loaded':
        import dsch
        world.storage = dsch.load(sut.snapshot(ctx, world.storage),
                                  force=True)
    for op in ops:
        if how != 'new' or op is ops[-1]:
            world.perform(op)
            world.perform(('force', (), None))
            if backend == 'hdf5' or op is ops[-1]:
                world.check_file(sut.snapshot(ctx, world.storage),
                                 'after the second save')
        else:
            world.perform(op)
    ctx.state((backend, desc, model.canon(world.state)))


S4 = comp({'s': values.STRING, 'a': values.A1, 'l': lst(values.STRING)})
OPS4 = [('set', ('s',), 'ok'), ('set', ('s',), 'a\ud800'),
        ('set', ('a',), np.arange(3, dtype='int32')),
        ('set', ('a',), np.array([object(), None], dtype=object)),
        ('app', ('l',), 'x\udc00y'), ('clr', (), None),
        ('try', (), None), ('force', (), None)]


def run_unsaveable(case, ctx):
    """Data that the format cannot represent: the file keeps the last save."""
    backend, desc, ops = case
    world = Tracked(ctx, backend, desc)
    for op in ops:
        try:
            world.perform(op)
        except (Violation, Skip):
            raise
        except Exception as err:
            # Assignment or save refused: the history just goes on.
            ctx.outcome('%s refused: %s' % (op[0], type(err).__name__))
    path = world.storage.storage_path
    if world.saved is NEVER:
        if backend != 'hdf5' and os.path.exists(path):
            import dsch
            try:
                dsch.load(path, force=True)
            except Exception:
                return
            raise Violation('file can be loaded without successful save')
        return
    if backend == 'hdf5' and world.pending:
        return
    ctx.state((backend, model.canon(world.saved), model.canon(world.state)))
    world.check_file(sut.snapshot(ctx, world.storage), 'after %r' % (ops,))


def unsaveable_cases(tier):
    for backend in sut.FILES:
        ops = [op for op in OPS4 if backend != 'hdf5' or
               op[0] != 'set' or op[1] != ('a',) or op[2].dtype == 'int32']
        for n in range(5 if tier == 'quick' else 6):
            for seq in itertools.product(ops, repeat=n):
                if seq and seq[-1][0] not in ('try', 'force'):
                    continue
                yield backend, S4, seq
    # Field names that cannot be represented, but need not be at first.
    for name in ('', '.', '..', '/', 'a/b', 'a\0b', '\ud800', 'x' * 65500,
                 'x' * 65535, 'y' * 64, '\u00e4'):
        for sub, value in ((values.BOOL, True), (values.A1, np.arange(
                2, dtype='int32')), (lst(values.BOOL), [True])):
            desc = comp({'s': values.STRING, 'l': lst(comp({
                name: sub, 'a': values.STRING}))})
            ops = [('set', ('s',), 'ok'), ('app', ('l',), {name: value}),
                   ('app', ('l',), {'a': 'x'}), ('clr', (), None),
                   ('force', (), None)]
            for backend in sut.FILES:
                for n in range(4 if tier == 'quick' else 6):
                    for seq in itertools.product(ops, repeat=n):
                        if not seq or seq[-1][0] == 'force':
                            yield backend, desc, seq


def resave_cases(tier):
    """Every single change of every tree state."""
    pairs = [(values.A1, values.STRING), (values.I32, values.A2)]
    pairs += [(values.BYTES_, values.AB), (values.DATE, values.BOOL)]
    for p, q in pairs:
        for desc in [p, q] + list(values.shapes(p, q)):
            states = list(itertools.islice(
                model.fills(desc, values.one, (0, 1, 2)), 400))
            if tier == 'quick':
                states = states[:3] + states[3::17]
            for state in states:
                ops = sut.mutations(desc, state)
                seen = []
                for op in ops:
                    if model.canon(op) in seen:
                        continue
                    seen.append(model.canon(op))
                    for how in ('filled', 'loaded'):
                        for backend in sut.FILES:
                            yield backend, desc, state, how, (op,)


def config_cases(tier):
    """Saves with schemas that have all kinds of options."""
    for n, (desc, state) in enumerate(values.config_states(
            3 if tier == 'quick' else 30, stamps=False)):
        ops = sut.mutations(desc, state)
        for k, op in enumerate(ops):
            if tier != 'quick' or (n + k) % 4 == 0:
                for b, backend in enumerate(sut.FILES):
                    yield (backend, desc, state,
                           ('filled', 'loaded')[(n + k // 4 + b) % 2], (op,))


def similar_cases(tier):
    """All ordered pairs of values of a leaf, saved one after the other."""
    for desc in values.LEAVES:
        vals = values.leaf_values(desc) + values.two(desc)
        if desc[0] == 'Array':
            ndim = desc[1].get('ndim', 1)
            base = values.array_of(desc[1]['dtype'], (2,) * ndim)
            last = base.copy()
            last[(-1,) * ndim] = sut.other_item(base)
            vals += [last, values.array_of(desc[1]['dtype'], (1200,) + (
                1,) * (ndim - 1)) if ndim else base]
            if ndim:
                big = vals[-1].copy()
                big[600] = sut.other_item(big)
                vals.append(big)
        elif desc[0] == 'String':
            vals = vals + ['x' * 254 + 'y', 'ab' * 1999 + 'ac', 'x' * 100,
                           'x' * 99 + 'y']
        elif desc[0] == 'Bytes':
            vals = vals + [b'x' * 254 + b'y', b'\0' * 299 + b'\1']
        for wrap, path in ((desc, ()), (comp({'x': desc}), ('x',)),
                           (lst(desc), (0,))):
            first = [('app', (), None)] if wrap[0] == 'List' else []
            sel = vals[::4] if path and tier == 'quick' else vals
            for a, b in itertools.permutations(sel, 2):
                ops = first + [('set', path, a), ('force', (), None),
                               ('set', path, b)]
                for backend in sut.FILES:
                    yield backend, wrap, None, 'new', tuple(ops)


def cases(depth, specs, backends=sut.FILES, last=None):
    for n in range(depth + 1):
        for desc, ops in specs:
            for seq in itertools.product(ops, repeat=n):
                if last and seq and seq[-1][0] not in last:
                    continue
                for backend in backends:
                    yield backend, desc, seq


def describe(case):
    return '%s %s %s' % (case[0], model.short(case[1]),
                         model.short(case[2], 600))


def describe_re(case):
    return '%s %s %s state=%s %s' % (
        case[0], case[3], model.short(case[1]), model.short(case[2]),
        model.short(case[4], 600))


SPECS = [(S1, OPS1), (S2, OPS2), (S3, OPS3)]


def spaces(tier):
    quick = tier == 'quick'
    return [
        Space('live', lambda: cases(3 if quick else 5, SPECS), run_live,
              describe),
        Space('live4', lambda: cases(4, SPECS[1:], last=('try', 'force')),
              run_live, describe),
        Space('resave', lambda: resave_cases(tier), run_resave, describe_re),
        Space('configs', lambda: config_cases(tier), run_resave, describe_re),
        Space('similar', lambda: similar_cases(tier), run_resave,
              describe_re),
        Space('unsaveable', lambda: unsaveable_cases(tier), run_unsaveable,
              describe),
        Space('dropped', lambda: cases(3 if quick else 4, SPECS), run_drop,
              describe),
        Space('killed', lambda: cases(3 if quick else 4, SPECS[1:] if quick
                                      else SPECS), run_kill, describe)]
