"""C09: emptiness, completeness and exported trees reflect the data."""
import datetime as dt
import itertools

import numpy as np

from .. import model, sut, values
from ..core import Skip, Space, Violation
from ..model import comp, leaf, lst

LEVEL = 'model_checking'
BOUNDS = ('all filled/empty states of 13 tree shapes with lists of length '
          '0-2 (0-3 thorough), 5 fixed mixed trees with special values '
          '(empty string, zero, False, empty and 0-d arrays), and for 8 '
          'shapes all subsets of optional fields of every compilation; every '
          'node of every state on all backends, before and after save and '
          'load, and after each of a series of modifications')
ASSUMPTIONS = ['the order of fields in dicts and printed trees is not '
               'specified (loading sorts them), the order of items is']


# ------------------------------------------------------------ printed tree

def label(desc, state):
    kind = {'Comp': 'Compilation'}.get(desc[0], desc[0])
    if not model.is_leaf(desc):
        return '(%s)' % kind
    if state is None:
        text = '<empty>'
    elif kind == 'Array':
        text = 'x'.join(str(n) for n in state.shape) + ' array'
    elif kind == 'Scalar':
        text = '%s %s' % (state, desc[1].get('unit', ''))
    else:
        text = str(state)
    return '(%s): %s' % (kind, text)


def printed(desc, state, prefix=''):
    """Expected tree: (label, children, ordered)."""
    children = []
    if desc[0] == 'Comp':
        children = [printed(d, state[k], k + ' ') for k, d in desc[1].items()]
    elif desc[0] == 'List':
        children = [printed(desc[1], s, '[%d] ' % i)
                    for i, s in enumerate(state)]
    return prefix + label(desc, state), children, desc[0] == 'List'


def compare_tree(got, exp, what):
    """Compare {label: {...}} with the expected tree."""
    text, children, ordered = exp
    if list(got) != [text]:
        raise Violation('%s: tree shows %r, expected %r' % (what, list(got),
                                                            text))
    sub = got[text]
    keys, want = list(sub), [c[0] for c in children]
    if keys != want and (ordered or sorted(keys) != sorted(want)):
        raise Violation('%s: tree shows %r, expected %r' % (what, keys, want))
    for child in children:
        compare_tree({child[0]: sub[child[0]]}, child, what)


def parse(text):
    """Parse a printed tree into nested dicts."""
    root = {}
    stack = [(-1, root)]
    for line in text.split('\n'):
        body = line.lstrip(' \u2502\u251c\u2514\u2500')
        depth = len(line) - len(body)
        while stack[-1][0] >= depth:
            stack.pop()
        sub = {}
        if body in stack[-1][1]:
            raise Violation('line %r is repeated' % line)
        stack[-1][1][body] = sub
        stack.append((depth, sub))
    return root


def check_all(storage, desc, state, what):
    sut.check_node(storage.data, desc, state, what)
    if storage.complete is not model.is_complete(desc, state):
        raise Violation('%s: storage.complete' % what)
    for path, d, s in model.nodes(desc, state):
        node = sut.node_at(storage.data, path)
        where = '%s at %r' % (what, path)
        if path:
            model.same(node.data_tree(include_empty=True),
                       model.tree(d, s, True), where + ', data_tree(True)')
            model.same(node.data_tree(include_empty=False),
                       model.tree(d, s, False), where + ', data_tree')
        for flag in (node.empty, node.complete):
            if type(flag) is not bool:
                raise Violation('%s: flag is %r' % (where, flag))
        expected = printed(d, s)
        compare_tree(node.node_tree(), expected, where)
        text = repr(node)
        if str(node) != text:
            raise Violation('%s: str and repr differ' % where)
        if not multiline(d, s):
            compare_tree(parse(text), expected, where + ', repr')
        else:
            if label(d, s) not in text:
                raise Violation('%s: repr %r' % (where, text))
        if d[0] == 'List':
            if [id(n) for n in node] != [id(node[i])
                                         for i in range(len(node))]:
                raise Violation('%s: iteration differs from indexing' % where)
        if d[0] == 'Comp':
            if not set(d[1]) <= set(dir(node)):
                raise Violation('%s: dir() does not contain the fields' %
                                where)


def multiline(desc, state):
    return any(model.is_leaf(d) and d[0] == 'String' and s is not None and (
        '\n' in s or s != s.strip() or set(s) & set('\u2502\u251c'))
        for _, d, s in model.nodes(desc, state))


def run(case, ctx):
    backend, desc, state, mutate = case
    world = sut.world_in_state(ctx, backend, desc, state)
    check_all(world.storage, desc, state, backend)
    ctx.state((backend, model.to_json(desc), model.canon(state)))
    ctx.step()
    if backend != 'inmem':
        world.storage = sut.reload(ctx, world.storage)
        check_all(world.storage, desc, state, backend + ' after load')
        ctx.step()
    if mutate:
        for op in sut.mutations(desc, state):
            try:
                world.apply(op)
            except Skip:
                continue
            check_all(world.storage, desc, world.state, 'after %r' % (op,))
        if backend != 'inmem':
            world.storage = sut.reload(ctx, world.storage)
            check_all(world.storage, desc, world.state, 'after load')


PAIRS = [(values.STRING, leaf('Scalar', dtype='float32', unit='mV')),
         (values.A1, values.DATE)]


def state_cases(tier):
    lengths = (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3)
    cap = 700 if tier == 'quick' else 20000
    for p, q in PAIRS:
        for desc in values.shapes(p, q):
            for n, state in enumerate(itertools.islice(
                    model.fills(desc, values.one, lengths), cap)):
                for k, backend in enumerate(sut.ALL):
                    if tier == 'quick' and n > 30 and (n + k) % 4:
                        continue
                    yield backend, desc, state, n < 40 and n % 4 == k


def zero(desc):
    """A present value that is easily mistaken for an absent one."""
    return [{
        'Bool': False, 'Bytes': b'', 'String': '', 'Date': dt.date(1, 1, 1),
        'Time': dt.time(0), 'DateTime': dt.datetime(1, 1, 1)}.get(
            desc[0]) if desc[0] not in ('Scalar', 'Array') else
        np.dtype(desc[1]['dtype']).type(0) if desc[0] == 'Scalar' else
        np.zeros((0,) * desc[1].get('ndim', 1), desc[1]['dtype'])]


def zero_cases(tier):
    for p in values.LEAVES:
        for desc in (p, lst(p), comp({'x': p}), comp({'x': p, 'y': p},
                                                     optionals=['y']),
                     lst(comp({'x': p})), comp({'l': lst(p)}),
                     lst(lst(p)), comp({'c': comp({'x': p})})):
            for state in model.fills(desc, zero, (0, 1, 2)):
                for backend in sut.ALL:
                    yield backend, desc, state, False


def optional_variants(desc):
    """All choices of optional fields for all compilations."""
    if desc[0] == 'Comp':
        names = list(desc[1])
        subs = [list(optional_variants(d)) for d in desc[1].values()]
        for combo in itertools.product(*subs):
            for n in range(len(names) + 1):
                for opt in itertools.combinations(names, n):
                    yield comp(dict(zip(names, combo)), optionals=list(opt))
    elif desc[0] == 'List':
        for d in optional_variants(desc[1]):
            yield lst(d)
    else:
        yield desc


def optional_cases(tier):
    p, q = values.BOOL, values.STRING
    shapes = [comp({'a': p, 'b': q}), comp({'a': p, 'b': q, 'l': lst(p)}),
              comp({'c': comp({'a': p, 'b': q}), 'x': p}),
              comp({'l': lst(comp({'a': p, 'b': q}))}),
              lst(comp({'a': p, 'b': q})), comp({'c': comp({})}),
              comp({'c': comp({'d': comp({'a': p})}), 'x': q}),
              lst(comp({'c': comp({'a': p, 'b': q})}))]
    n = 0
    for shape in shapes:
        for desc in optional_variants(shape):
            for state in model.fills(desc, values.one, (0, 1, 2)):
                n += 1
                for k, backend in enumerate(sut.ALL):
                    if tier == 'quick' and (n + k) % 4:
                        continue
                    yield backend, desc, state, False


MIXED = comp({
    'text': values.STRING, 'raw': values.BYTES_, 'flag': values.BOOL,
    'day': values.DATE, 'time': values.TIME, 'when': values.DATETIME,
    'u': leaf('Scalar', dtype='uint8', unit='%'),
    'f': leaf('Scalar', dtype='float16', unit='\u00b0C'),
    'z': leaf('Scalar', dtype='complex128', unit='V'),
    'a0': leaf('Array', dtype='int8', ndim=0),
    'a2': values.A2, 'a3': leaf('Array', dtype='bool', ndim=3),
    'l': lst(comp({'x': values.F64, 'm': lst(values.BYTES_)},
                  optionals=['m'])), 'c': comp({}), 'e': lst(comp({}))})


def mixed_cases(tier):
    state = {
        'text': 'x y', 'raw': b'\0\xff', 'flag': True,
        'day': dt.date(2020, 1, 2), 'time': dt.time(1, 2, 3, 4),
        'when': dt.datetime(2020, 1, 2, 3, 4, 5, 6), 'u': np.uint8(255),
        'f': np.float16(0.5), 'z': np.complex128(1 - 2j),
        'a0': np.array(3, 'int8'), 'a2': np.zeros((2, 3)),
        'a3': np.zeros((1, 2, 3), 'bool'),
        'l': [{'x': np.float64(1), 'm': [b'a', None]},
              {'x': None, 'm': []}] + [{'x': np.float64(i), 'm': [None]}
                                       for i in range(12)],
        'c': {}, 'e': [{}, {}]}
    names = list(state)
    for backend in sut.ALL:
        yield backend, MIXED, state, True
        yield backend, MIXED, model.empty(MIXED), True
        # One field present or absent
        for name in names:
            only = model.empty(MIXED)
            only[name] = state[name]
            yield backend, MIXED, only, False
            yield backend, MIXED, dict(state, **{
                name: model.empty(MIXED)[name]}), False
        # Large values and many items
        for value in ('x' * 1001, 'ab ' * 40000, '\n'.join('y' * 300)):
            yield backend, MIXED, dict(state, text=value), False
        for value in (bytes(range(256)) * 4, b'\0' * 70000):
            yield backend, MIXED, dict(state, raw=value), False
        for shape in ((1, 1001), (1001, 1), (40, 30), (300, 300)):
            yield backend, MIXED, dict(state, a2=np.ones(shape)), False
        for n in (99, 100, 101, 128, 257):
            item = {'x': np.float64(2), 'm': [b'a']}
            gap = {'x': None, 'm': []}
            items = [item] * n
            for items in (items, items[1:] + [gap], [gap] + items[1:],
                          [gap] * n, items[:n // 2] + [gap] * (n // 2)):
                yield backend, MIXED, dict(state, l=items), False
        for value in ('line\nbreak', '', '\n', ' a ', '<empty>', '\u2502'):
            yield backend, MIXED, dict(state, text=value), False


def describe(case):
    return '%s %s %s' % (case[0], model.short(case[1]),
                         model.short(case[2], 600))


def spaces(tier):
    return [Space(name, lambda f=f: f(tier), run, describe)
            for name, f in (('zero', zero_cases), ('states', state_cases),
                            ('optionals', optional_cases),
                            ('mixed', mixed_cases))]
