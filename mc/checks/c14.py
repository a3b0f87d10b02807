"""C14: creation timestamps are applied once, at creation, and never again."""
import datetime as dt
import itertools
import os
import time

from .. import model, sut, values
from ..core import Skip, Space, Violation
from ..model import comp, leaf, lst

LEVEL = 'model_checking'
BOUNDS = ('creation: every date/time type with and without set_on_create at '
          'every position of 13 tree shapes, created and appended on all '
          'backends, in 3 time zones that differ in the date at any time; '
          'histories: all sequences of 8-13 operations (assign, clear, append, '
          'replace, copy, save, reload, migrate) up to depth 3 (quick: '
          'each on one of the backends) or 4 (thorough, all backends) on 5 '
          'schemas per type; combinations: every '
          'filled/empty state of the shapes saved, loaded, copied, cleared')
ASSUMPTIONS = ['the clock is not set back while a check runs',
               'current time means a time between start and end of the '
               'creating call']

EPOCH = dt.datetime(1970, 1, 1)
ZONES = {'UTC0': 0, 'AAA-13:00': 13 * 3600, 'BBB+11:30': -41400}


class Now:
    """Placeholder for a timestamp that an operation has to apply."""

    def __repr__(self):
        return 'NOW'


NOW = Now()


def clock():
    """Current local time, without the functions that dsch uses."""
    offset = ZONES[os.environ['TZ']]
    return EPOCH + dt.timedelta(microseconds=time.time_ns() // 1000,
                                seconds=offset)


def set_zone(zone):
    os.environ['TZ'] = zone
    time.tzset()


def created(desc):
    """Data of a new node."""
    if desc[0] == 'Comp':
        return {k: created(d) for k, d in desc[1].items()}
    if desc[0] == 'List':
        return []
    return NOW if desc[1].get('set_on_create') else None


def replaced(desc, state, value):
    if desc[0] == 'Comp':
        out = dict(state)
        for k, v in value.items():
            out[k] = replaced(desc[1][k], state[k], v)
        return out
    if desc[0] == 'List':
        return [appended(desc[1], v) for v in value]
    return model.stored(desc, value)


def appended(desc, value):
    new = created(desc)
    return new if value is None else replaced(desc, new, value)


def resolve(node, desc, state, start, end, what):
    """Replace the placeholders by the actual timestamps, if current."""
    if desc[0] == 'Comp':
        return {k: resolve(getattr(node, k), d, state[k], start, end,
                           what + '.' + k) for k, d in desc[1].items()}
    if desc[0] == 'List':
        if len(node) != len(state):
            raise Violation('%s has %d items instead of %d' %
                            (what, len(node), len(state)))
        return [resolve(node[i], desc[1], s, start, end, what + '[%d]' % i)
                for i, s in enumerate(state)]
    if state is not NOW:
        return state
    if node.empty:
        raise Violation('%s: no creation timestamp' % what)
    value = node.value
    low, high = start - dt.timedelta(microseconds=2), \
        end + dt.timedelta(microseconds=2)
    if desc[0] == 'Date':
        good = type(value) is dt.date and low.date() <= value <= high.date()
    elif desc[0] == 'DateTime':
        good = type(value) is dt.datetime and value.tzinfo is None and \
            low <= value <= high
    else:
        good = type(value) is dt.time and value.tzinfo is None and any(
            low <= dt.datetime.combine(day, value) <= high
            for day in {low.date(), high.date()})
    if not good:
        raise Violation('%s: creation timestamp is %r, created between %s '
                        'and %s' % (what, value, start, end))
    return value


class StampWorld:
    """One storage with its reference state, including timestamps."""

    def __init__(self, ctx, backend, desc):
        self.ctx, self.backend, self.desc = ctx, backend, desc
        start = clock()
        self.storage = sut.create(ctx, backend, desc)
        self.expect(created(desc), start, 'after creation')

    def expect(self, state, start, what):
        end = clock()
        self.state = resolve(self.storage.data, self.desc, state, start, end,
                             '%s %s: data' % (self.backend, what))
        sut.check_node(self.storage.data, self.desc, self.state,
                       '%s %s' % (self.backend, what))

    def apply(self, op):
        import dsch
        name, path, arg = op
        self.ctx.step()
        state = self.state
        start = clock()
        if name in ('reload', 'save'):
            if self.backend == 'inmem':
                raise Skip()
            if name == 'save':
                self.storage.save()
            else:
                self.storage = sut.reload(self.ctx, self.storage)
        elif name == 'pseudo':
            if self.backend == 'inmem':
                raise Skip()
            self.storage.save()
            path = sut.snapshot(self.ctx, self.storage)
            with dsch.PseudoStorage(path, model.build(self.desc)) as pseudo:
                sut.check_node(pseudo.data, self.desc, state,
                               'in PseudoStorage')
            self.storage = dsch.load(path)
        elif name == 'hop':
            self.storage = self.storage.save_as(sut.new_path(self.ctx, arg))
            self.backend = arg
        elif name == 'copy':
            # Copy into a new storage, which has timestamps of its own.
            target = sut.create(self.ctx, arg, self.desc)
            target.data.load_from(self.storage.data)
            sut.check_node(self.storage.data, self.desc, state, 'source')
            self.storage, self.backend = target, arg
        elif name == 'read':
            self.storage.validate()
            repr(self.storage.data)
        else:
            ndesc, _ = model.lookup(self.desc, state, path)
            node = sut.node_at(self.storage.data, path)
            if name == 'clr':
                func = model.cleared
                node.clear()
            elif name == 'set':
                func = lambda d, s: replaced(d, s, arg)
                node.value = arg
            elif name == 'rep':
                func = lambda d, s: replaced(d, s, arg)
                node.replace(arg)
            elif name == 'app':
                func = lambda d, s: s + [appended(d[1], arg)]
                if arg is None:
                    node.append()
                else:
                    node.append(arg)
            elif name == 'loadfrom':
                source = dsch.create('::inmem::', model.build(ndesc))
                sut.fill(source.data, ndesc, arg)
                node.load_from(source.data)
                func = lambda d, s: arg
            else:
                raise AssertionError(name)
            state = model.update(self.desc, state, path, func)
        self.expect(state, start, 'after %r' % (op,))


def stamp(kind):
    return leaf(kind, set_on_create=True)


KINDS = ('Date', 'Time', 'DateTime')


def run_creation(case, ctx):
    backend, desc, zone = case
    set_zone(zone)
    world = StampWorld(ctx, backend, desc)
    # Append twice to every list, including lists in new items.
    for _ in range(3):
        for path, d, s in list(model.nodes(desc, world.state)):
            if d[0] == 'List' and len(s) < 2:
                world.apply(('app', path, None))
    for op in ('save', 'reload', 'reload'):
        if backend != 'inmem':
            world.apply((op, (), None))
    for other in sut.ALL:
        world.apply(('copy', (), other))
        world.apply(('hop', (), other))
    for path, d, s in list(model.nodes(desc, world.state)):
        if model.is_leaf(d):
            world.apply(('clr', path, None))
    if world.backend != 'inmem':
        world.apply(('reload', (), None))
    for other in sut.ALL:
        world.apply(('copy', (), other))
        world.apply(('hop', (), other))
    ctx.state(case)


def creation_cases(tier):
    for kind in KINDS:
        for other in KINDS:
            for flag in (True, False):
                p, q = stamp(kind), leaf(other, set_on_create=flag)
                if flag and other == kind:
                    q = leaf(other)
                descs = list(values.shapes(p, q)) + list(values.shapes(q, p))
                descs += [p, q, comp({'a': p, 'b': q, 'c': p, 'd': q},
                                     optionals=['a', 'b'])]
                for n, desc in enumerate(descs):
                    for b, backend in enumerate(sut.ALL):
                        for z, zone in enumerate(sorted(ZONES)):
                            if tier == 'quick' and (n + b + z) % 3 and \
                                    not model.is_leaf(desc):
                                continue
                            yield backend, desc, zone


def history_ops(kind):
    """Yield (schema, operations)."""
    p = stamp(kind)
    a, b = values.two(p)
    common = [('reload', (), None), ('save', (), None)]
    hops = [('hop', (), o) for o in sut.ALL]
    yield p, common + hops + [
        ('clr', (), None), ('set', (), a), ('loadfrom', (), None),
        ('loadfrom', (), b), ('copy', (), 'hdf5'), ('copy', (), 'npz'),
        ('pseudo', (), None)]
    yield comp({'t': p, 'x': values.STRING}), common + hops[:3] + [
        ('clr', ('t',), None), ('set', ('t',), a), ('set', ('x',), 'v'),
        ('clr', (), None), ('rep', (), {'x': 'w'}), ('rep', (), {'t': b}),
        ('loadfrom', (), {'t': None, 'x': 'y'}), ('copy', (), 'hdf5'),
        ('pseudo', (), None)]
    yield lst(p), common + hops[2:] + [
        ('app', (), None), ('app', (), a), ('clr', (0,), None),
        ('set', (0,), b), ('clr', (), None), ('rep', (), [a, None]),
        ('loadfrom', (), [None, b]), ('copy', (), 'npz'),
        ('copy', (), 'hdf5')]
    yield lst(comp({'t': p, 'x': values.STRING})), common + hops[2:] + [
        ('app', (), None), ('app', (), {'x': 'v'}), ('app', (), {'t': a}),
        ('clr', (0,), None), ('clr', (0, 't'), None), ('clr', (), None),
        ('rep', (), [{'x': 'w'}, None, {'t': b}]),
        ('loadfrom', (), [{'t': None, 'x': 'y'}, {'t': b, 'x': None}]),
        ('copy', (), 'npz')]
    yield (comp({'l': lst(lst(p)), 'c': comp({'t': p})}),
           common + hops[1:3] + [
               ('app', ('l',), None), ('app', ('l', 0), None),
               ('clr', ('l', 0, 0), None), ('clr', ('c',), None),
               ('rep', ('l',), [[a, None], []]), ('clr', (), None),
               ('set', ('c', 't'), b), ('copy', (), 'hdf5')])


def run_history(case, ctx):
    backend, desc, ops = case
    set_zone('AAA-13:00')
    world = StampWorld(ctx, backend, desc)
    for op in ops:
        world.apply(op)
    if world.backend != 'inmem':
        world.apply(('reload', (), None))
    ctx.state(case)


def history_cases(tier):
    depth = 3 if tier == 'quick' else 4
    for kind in KINDS:
        for s, (desc, ops) in enumerate(history_ops(kind)):
            for b, backend in enumerate(sut.ALL):
                for seq in itertools.product(range(len(ops)), repeat=depth):
                    # One backend for each history, evenly distributed.
                    if tier == 'quick' and (sum(seq) + b + s) % 4:
                        continue
                    yield backend, desc, [ops[i] for i in seq]


def run_state(case, ctx):
    """Storages in every state of filled and empty timestamps."""
    backend, desc, state = case
    set_zone('BBB+11:30')
    world = StampWorld(ctx, backend, desc)
    sut.fill(world.storage.data, desc, state)
    world.expect(state, clock(), 'filled')
    if backend != 'inmem':
        world.apply(('reload', (), None))
        world.apply(('pseudo', (), None))
    for target in sut.ALL:
        world.apply(('copy', (), target))
        world.apply(('hop', (), target))
    world.apply(('read', (), None))
    if world.backend != 'inmem':
        world.apply(('reload', (), None))
    ctx.state((backend, model.canon(state)))


def state_cases(tier):
    for kind in KINDS:
        for q in (stamp('DateTime'), stamp('Date'), values.STRING):
            for desc in values.shapes(stamp(kind), q):
                limit = 12 if tier == 'quick' else 400
                for n, state in enumerate(itertools.islice(model.fills(
                        desc, values.one, (0, 1, 2)), limit)):
                    for b, backend in enumerate(sut.ALL):
                        if tier == 'quick' and (n + b) % 2:
                            continue
                        yield backend, desc, state


def describe(case):
    return ' '.join(model.short(c, 600) for c in case)


def spaces(tier):
    return [Space('creation', lambda: creation_cases(tier), run_creation,
                  describe),
            Space('states', lambda: state_cases(tier), run_state, describe),
            Space('histories', lambda: history_cases(tier), run_history,
                  describe)]
