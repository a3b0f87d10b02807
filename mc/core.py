"""Exhaustive enumeration engine.

A *space* is a finite, deterministically ordered set of cases together with a
function that executes one case on the real code and compares it with the
reference.  The engine executes every case of every space of a property, in
parallel worker processes, and reports what was covered.
"""
import argparse
import collections
import faulthandler
import gc
import hashlib
import itertools
import json
import mmap
import os
import pickle
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DSCH_REPO', '/repo')
CASE_TIMEOUT = 150
KNOWN_FILE = os.path.join(VERIF, 'known_findings.json')


class Violation(Exception):
    """The property does not hold for a case."""


class Finding(Exception):
    """A case shows a violation that may be a known finding."""

    def __init__(self, key, message):
        super().__init__(message)
        self.key = key


class Skip(Exception):
    """The case is not enabled (e.g. operation on a missing list item)."""


class CaseTimeout(BaseException):
    pass


def printable(text):
    """Text that is safe to print."""
    return ''.join(c if c.isprintable() and c.isascii() or c == '\n'
                   else repr(c.encode('utf8', 'surrogatepass'))[2:-1]
                   for c in str(text))



def digest(obj):
    """Return a 64 bit digest of a repr-able object."""
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode('utf8', 'backslashreplace'),
                        digest_size=8).digest(), 'big')


class Ctx:
    """Per-case context: scratch directory and coverage counters."""

    def __init__(self, base, tier):
        self.base = base
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.runs = 0
        self.skipped = 0
        self.outcomes = collections.Counter()
        self.findings = {}
        self._n = 0
        self.dir = None

    def begin(self):
        self._n += 1
        self._files = 0
        self.dir = os.path.join(self.base, 'c%d' % self._n)
        os.mkdir(self.dir)

    def end(self):
        close_hdf5()
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, ext=''):
        """Return a fresh path in the scratch directory of the case."""
        self._files += 1
        return os.path.join(self.dir, 'f%d%s' % (self._files, ext))

    def step(self, n=1):
        self.transitions += n

    def state(self, key):
        self.states.add(digest(key))

    def outcome(self, tag):
        self.outcomes[tag] += 1

    def finding(self, key, message):
        """Record a violation that is listed as a known finding, if so."""
        raise Finding(key, message)


def close_hdf5():
    """Close all HDF5 files that the case left open."""
    h5 = sys.modules.get('h5py')
    gc.collect()
    if h5 is None:
        return
    try:
        ids = h5.h5f.get_obj_ids(h5.h5f.OBJ_ALL,
                                 h5.h5f.OBJ_FILE)
    except Exception:
        return
    for fid in ids:
        try:
            h5.File(fid).close()
        except Exception:
            pass


class Space:
    """A finite set of cases."""

    def __init__(self, name, cases, run, describe=None, note=''):
        self.name = name
        self.cases = cases  # callable returning an iterable
        self.run = run      # run(case, ctx)
        self.describe = describe or repr
        self.note = note


def _load_known():
    try:
        with open(KNOWN_FILE) as file_:
            return json.load(file_)
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


def _run_case(space, case, ctx):
    """Execute one case. Returns None or a violation description."""
    ctx.begin()
    signal.alarm(CASE_TIMEOUT)
    try:
        space.run(case, ctx)
        ctx.runs += 1
        return None
    except Skip:
        ctx.skipped += 1
        return None
    except Finding as err:
        ctx.runs += 1
        if err.key in ctx.known:
            ctx.findings.setdefault(err.key, [0, str(err)])[0] += 1
            return None
        return ('[%s] ' % err.key) + str(err), traceback.format_exc()
    except Violation as err:
        return str(err), traceback.format_exc()
    except CaseTimeout:
        return 'case did not terminate', traceback.format_exc()
    except RecursionError as err:
        return 'RecursionError: %s' % err, ''
    except Exception as err:  # an operation raised where it must not
        return ('unexpected %s: %s' % (type(err).__name__, err),
                traceback.format_exc())
    finally:
        signal.alarm(0)
        ctx.end()


def _on_alarm(signum, frame):
    raise CaseTimeout()


def _worker(spaces, rank, nproc, base, tier, known, progress, deadline, out):
    os.setpgid(0, 0) if False else None
    signal.signal(signal.SIGALRM, _on_alarm)
    warnings.simplefilter('ignore')
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    gc.collect()
    gc.freeze()
    mybase = os.path.join(base, 'w%d' % rank)
    os.mkdir(mybase)
    os.chdir(mybase)
    results = {}
    for sidx, space in enumerate(spaces):
        ctx = Ctx(mybase, tier)
        ctx.known = known
        violation = None
        capped = False
        total = 0
        samples = []
        t0 = time.monotonic()
        for idx, case in enumerate(space.cases()):
            total = idx + 1
            if idx % nproc != rank:
                continue
            if time.monotonic() > deadline:
                capped = True
                break
            if (sidx, idx) > struct.unpack_from('qq', progress, 16 * nproc):
                capped = True  # another process has found a violation
                break
            struct.pack_into('qq', progress, 16 * rank, sidx, idx)
            if len(samples) < 1 and rank == 0 and idx >= 3 * nproc:
                samples.append(space.describe(case))
            result = _run_case(space, case, ctx)
            if result is not None:
                violation = (idx, space.describe(case)) + result
                if (sidx, idx) < struct.unpack_from('qq', progress,
                                                    16 * nproc):
                    struct.pack_into('qq', progress, 16 * nproc, sidx, idx)
                break
        results[space.name] = {
            'cases': total, 'runs': ctx.runs, 'skipped': ctx.skipped,
            'transitions': ctx.transitions, 'states': ctx.states,
            'outcomes': ctx.outcomes, 'findings': ctx.findings,
            'violation': violation, 'capped': capped, 'samples': samples,
            'seconds': time.monotonic() - t0}
        if violation or capped:
            break
    struct.pack_into('qq', progress, 16 * rank, -1, -1)
    tmp = out + '.tmp'
    with open(tmp, 'wb') as file_:
        pickle.dump(results, file_)
    os.rename(tmp, out)


def scratch_base():
    for cand in ('/dev/shm', None):
        try:
            if cand and shutil.disk_usage(cand).free < 256 * 2**20:
                continue
            return tempfile.mkdtemp(prefix='dschmc.', dir=cand)
        except OSError:
            continue
    raise RuntimeError('no scratch directory')


def run_spaces(prop, spaces, tier, budget):
    """Run all cases of all spaces. Returns (merged results, violation)."""
    nproc = int(os.environ.get('MC_PROCS', 0)) or min(8, os.cpu_count() or 1)
    base = scratch_base()
    known = {f['key'] for f in _load_known()['findings']
             if f['property'] == prop}
    deadline = time.monotonic() + budget
    # Positions of all workers and of the first violation.
    progress = mmap.mmap(-1, 16 * nproc + 16)
    struct.pack_into('qq', progress, 16 * nproc, 2**40, 0)
    pids = {}
    try:
        for rank in range(nproc):
            struct.pack_into('qq', progress, 16 * rank, -2, -2)
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    _worker(spaces, rank, nproc, base, tier, known, progress,
                            deadline, os.path.join(base, 'r%d' % rank))
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            pids[pid] = rank
        violation = None
        results = []
        waiting = dict(pids)
        while waiting:
            pid, status = os.wait()
            if pid not in waiting:
                continue
            rank = waiting.pop(pid)
            path = os.path.join(base, 'r%d' % rank)
            if os.path.exists(path):
                with open(path, 'rb') as file_:
                    results.append((rank, pickle.load(file_)))
            else:
                sidx, idx = struct.unpack_from('qq', progress, 16 * rank)
                if sidx < 0 or status == 3 << 8:
                    raise RuntimeError('worker %d failed (status %d)' %
                                       (rank, status))
                space = spaces[sidx]
                case = next(itertools.islice(space.cases(), idx, None))
                violation = violation or (
                    space.name, idx, space.describe(case),
                    'process died with status %d' % status, '', rank)
        merged = {}
        for rank, res in sorted(results, key=lambda r: r[0]):
            for name, r in res.items():
                m = merged.setdefault(name, {
                    'cases': 0, 'runs': 0, 'skipped': 0, 'transitions': 0,
                    'states': set(), 'outcomes': collections.Counter(),
                    'findings': {}, 'capped': False, 'samples': [],
                    'seconds': 0})
                m['cases'] = max(m['cases'], r['cases'])
                for key in ('runs', 'skipped', 'transitions'):
                    m[key] += r[key]
                m['seconds'] = max(m['seconds'], r['seconds'])
                m['states'] |= r['states']
                m['outcomes'] += r['outcomes']
                m['capped'] |= r['capped']
                m['samples'] += r['samples']
                for key, (n, msg) in r['findings'].items():
                    m['findings'].setdefault(key, [0, msg])[0] += n
                if r['violation']:
                    v = (name,) + r['violation'] + (rank,)
                    order = [s.name for s in spaces]
                    if violation is None or (
                            (order.index(name), v[1]) <
                            (order.index(violation[0]), violation[1])):
                        violation = v
        return merged, violation, nproc
    finally:
        for pid in pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        if base.startswith(('/dev/shm/dschmc.', tempfile.gettempdir())):
            shutil.rmtree(base, ignore_errors=True)


def check(prop, module, tier):
    """Run a property's check. Returns the exit code."""
    t0 = time.monotonic()
    warnings.simplefilter('ignore')
    budget = 700 if tier == 'quick' else 6 * 3600
    spaces = module.spaces(tier)
    only = os.environ.get('MC_SPACE')
    if only:
        spaces = [s for s in spaces if only in s.name]
    merged, violation, nproc = run_spaces(prop, spaces, tier, budget)
    states = set()
    transitions = runs = skipped = 0
    per_space = {}
    samples = []
    findings = {}
    capped = False
    for name, m in merged.items():
        states |= {digest((name, s)) for s in m['states']}
        transitions += m['transitions']
        runs += m['runs']
        skipped += m['skipped']
        capped |= m['capped']
        samples += ['%s: %s' % (name, s[:400]) for s in m['samples']]
        per_space[name] = {
            'cases': m['cases'], 'executed': m['runs'],
            'not_enabled': m['skipped'], 'distinct_states': len(m['states']),
            'transitions': m['transitions'],
            'outcomes': dict(sorted(m['outcomes'].items())),
            'wall_s': round(m['seconds'], 2)}
        for key, (n, msg) in m['findings'].items():
            findings.setdefault(key, [0, msg])[0] += n
    if not samples:
        samples = ['none']
    level = module.LEVEL
    coverage = {
        'bounds': module.BOUNDS, 'spaces': per_space, 'samples': samples,
        'exhaustive': not capped and not violation and not only}
    if level == 'model_checking':
        coverage.update(states=len(states), transitions=transitions,
                        traces_validated_against_impl=runs)
    else:
        coverage.update(evaluations=transitions, executed_cases=runs,
                        distinct_nontrivial=len(states), rule=module.RULE)
    evidence = {
        'property': prop, 'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': level, 'coverage': coverage,
        'assumptions': module.ASSUMPTIONS,
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as file_:
        json.dump(evidence, file_, indent=1, default=str)
        file_.write('\n')
    known = {f['key']: f for f in _load_known()['findings']
             if f['property'] == prop}
    for key, (n, msg) in sorted(findings.items()):
        print('KNOWN-FINDING: property=%s %s (%d executions, e.g. %s)' %
              (prop, known[key]['what'], n,
               printable(msg.replace('\n', ' ')[:300])))
    print('%s tier=%s cases=%d transitions=%d states=%d skipped=%d '
          'exhaustive=%s wall=%.1fs' %
          (prop, tier, runs, transitions, len(states), skipped,
           coverage['exhaustive'], evidence['wall_s']))
    if violation:
        name, idx, desc, msg, tb, rank = violation
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%d.json' %
                            (prop, name.replace('/', '_'), idx))
        with open(path, 'w') as file_:
            json.dump({'property': prop, 'tier': tier, 'space': name,
                       'index': idx, 'worker': rank, 'workers': nproc,
                       'case': desc, 'message': msg, 'traceback': tb},
                      file_, indent=1)
            file_.write('\n')
        print('space %s case %d: %s' % (name, idx, printable(desc)))
        print(printable(msg))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


def replay(path):
    """Re-execute the case in a replay file, first alone, then in context."""
    import importlib
    with open(path) as file_:
        rec = json.load(file_)
    module = importlib.import_module('mc.checks.' + rec['property'].lower())
    space = [s for s in module.spaces(rec['tier'])
             if s.name == rec['space']][0]
    known = {f['key'] for f in _load_known()['findings']
             if f['property'] == rec['property']}
    signal.signal(signal.SIGALRM, _on_alarm)
    warnings.simplefilter('ignore')
    for context in (False, True):
        base = scratch_base()
        ctx = Ctx(base, rec['tier'])
        ctx.known = known
        try:
            for idx, case in enumerate(space.cases()):
                if idx > rec['index']:
                    break
                if idx != rec['index'] and not (
                        context and
                        idx % rec['workers'] == rec['worker']):
                    continue
                result = _run_case(space, case, ctx)
                if result:
                    print('case %d: %s' % (idx, printable(space.describe(case))))
                    print(printable(result[1] or ''))
                    print(printable(result[0]))
                    print('reproduced (%s)' %
                          ('in context' if context else 'alone'))
                    return 1
        finally:
            shutil.rmtree(base, ignore_errors=True)
    print('not reproduced')
    return 0


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('tier', nargs='?',
                        default=os.environ.get('VERIF_TIER', 'quick'))
    args = parser.parse_args()
    if args.property == 'replay':
        return replay(args.tier)
    import importlib
    faulthandler.enable()
    import dsch
    where = os.path.realpath(dsch.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        print('dsch imported from %s, not from %s' % (where, REPO))
        return 2
    module = importlib.import_module('mc.checks.' + args.property.lower())
    return check(args.property.upper(), module, args.tier)
