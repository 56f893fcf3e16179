"""Monitor, case runner and verdicts.

A check is a set of workload kinds.  Each kind is a function
    fn(case, rng, mon)
that drives the real ocnn code (imported from /repo) and lets the monitor `mon`
compare what it observed against an oracle.  The runner shards the cases over
forked processes, collects the monitors' counters, writes the evidence file,
and turns the observations into one of three verdicts:
    0  held on everything observed
    1  violated (VIOLATION line, replay file)
    2  inconclusive / harness error (a deciding event was never observed, ...)
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OCNN_REPO', '/repo')
OUT = os.environ.get('OCNN_OUT', VERIF)        # of evidence and replays


class Violation(Exception):
    def __init__(self, key, msg=''):
        super().__init__('%s: %s' % (key, msg))
        self.key = key
        self.msg = msg


class Hang(BaseException):
    pass


def to_np(x):
    """torch tensor / array-like -> numpy array (float16-like types widened)."""
    import torch
    if isinstance(x, torch.Tensor):
        x = x.detach()
        if x.dtype in (torch.bfloat16, torch.float16):
            x = x.float()
        return x.cpu().numpy()
    return np.asarray(x)


def digest(*objs):
    h = hashlib.blake2b(digest_size=8)
    for o in objs:
        if o is None:
            h.update(b'N')
        elif isinstance(o, np.ndarray):
            h.update(str(o.dtype).encode() + str(o.shape).encode())
            h.update(np.ascontiguousarray(o).tobytes())
        else:
            h.update(repr(o).encode())
    return h.hexdigest()


class Mon:
    """Collects what was observed, and raises Violation when an oracle objects."""

    def __init__(self):
        self.events = {}
        self.states = set()
        self.comparisons = 0
        self.elements = 0

    # -- bookkeeping
    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def state(self, *objs):
        self.states.add(digest(*objs))

    # -- oracles
    def ok(self, cond, key, msg=''):
        self.comparisons += 1
        if not bool(cond):
            raise Violation(key, msg() if callable(msg) else msg)

    def equal(self, actual, expected, key, msg=''):
        """Exact equality in shape and content."""
        self.comparisons += 1
        if actual is None or expected is None:
            if actual is not expected:
                raise Violation(key, '%s: one of the values is None (actual %r, '
                                'expected %r)' % (msg, type(actual), type(expected)))
            return
        a, e = to_np(actual), to_np(expected)
        if a.shape != e.shape:
            raise Violation(key, '%s: shape %s, expected %s' % (msg, a.shape, e.shape))
        self.elements += a.size
        bad = a != e
        if a.dtype.kind == 'f' and e.dtype.kind == 'f':
            bad &= ~(np.isnan(a) & np.isnan(e))
        if bad.any():
            i = tuple(int(v[0]) for v in np.nonzero(bad))
            raise Violation(key, '%s: %d of %d elements differ, first at %s: %r, '
                            'expected %r' % (msg, bad.sum(), a.size, i, a[i], e[i]))

    def close(self, actual, expected, key, msg='', rtol=1e-5, atol=1e-6, scale=None):
        """|actual - expected| <= rtol * max(|expected|, scale) + atol."""
        self.comparisons += 1
        a, e = to_np(actual), to_np(expected)
        if a.shape != e.shape:
            raise Violation(key, '%s: shape %s, expected %s' % (msg, a.shape, e.shape))
        a, e = a.astype(np.float64), e.astype(np.float64)
        self.elements += a.size
        s = np.abs(e)
        if scale is not None:
            s = np.maximum(s, scale)
        with np.errstate(invalid='ignore'):
            bad = ~(np.abs(a - e) <= rtol * s + atol)
        bad &= ~((a == e) | (np.isnan(a) & np.isnan(e)))
        if bad.any():
            i = tuple(int(v[0]) for v in np.nonzero(bad))
            raise Violation(key, '%s: %d of %d elements differ, first at %s: %r, '
                            'expected %r' % (msg, bad.sum(), a.size, i, a[i], e[i]))


# ---------------------------------------------------------------------------

def seed_for(seed, prop, kind, i):
    return [int(seed), zlib.crc32(('%s/%s' % (prop, kind)).encode()), int(i)]


def make_cases(mod, prop, tier, seed):
    out = []
    mult = mod.INFO.get(prop, {}).get('mult', (5, 40))[tier != 'quick']
    for kind, spec in mod.KINDS[prop].items():
        fn, quick, thorough = spec[0], spec[1], spec[2]
        for i in range(int(mult * (quick if tier == 'quick' else thorough))):
            out.append({'kind': kind, 'i': i, 'seed': seed_for(seed, prop, kind, i)})
    # spread the kinds over the run in a deterministic, mixed order
    rng = np.random.default_rng([int(seed), zlib.crc32(prop.encode()), 77])
    order = rng.permutation(len(out))
    return [out[k] for k in order]


def setup_torch():
    import torch
    torch.set_num_threads(1)
    warnings.filterwarnings('ignore')
    try:   # sanitizer: malformed sparse matrices (bad indices) raise
        torch.sparse.check_sparse_tensor_invariants.enable()
    except AttributeError:
        pass


def poison(flag):
    """Sanitizer: fill every uninitialised tensor with NaN / the maximal integer."""
    import torch
    torch.use_deterministic_algorithms(bool(flag), warn_only=True)
    try:
        torch.utils.deterministic.fill_uninitialized_memory = True
    except AttributeError:
        pass


def run_case(mod, prop, case, mon):
    """Returns None, or (key, message)."""
    import torch
    rng = np.random.default_rng(case['seed'])
    torch.manual_seed(int(rng.integers(2 ** 31)))
    np.random.seed(int(rng.integers(2 ** 31)))
    import random
    random.seed(int(rng.integers(2 ** 31)))
    torch.set_grad_enabled(True)         # whatever the code under test left behind
    torch.set_default_dtype(torch.float32)
    san = bool(rng.random() < 0.5)
    poison(san)
    mon.ev('cases.' + case['kind'])
    if san:
        mon.ev('cases_with_poisoned_uninitialised_memory')
    fn = mod.KINDS[prop][case['kind']][0]
    try:
        fn(case, rng, mon)
    except Violation as v:
        return v.key, str(v.msg)
    except (MemoryError, Hang, KeyboardInterrupt):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        repo = [f for f in tb if f.filename.startswith(REPO + '/')]
        where = repo[-1] if repo else tb[-1]
        # the mechanism: exception type and the function it came out of
        key = 'exception:%s:%s' % (type(e).__name__, where.name)
        msg = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        return key, msg
    finally:
        poison(False)
    return None


CASE_LIMIT = 240  # seconds; a case takes a second or two, so one that does not end is a finding


CRASHES = tuple(-int(s) for s in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL,
                                  signal.SIGABRT))


def _alarm(*_):
    raise Hang()


def worker(mod, prop, cases, wid, nw, stop, conn, max_viol, deadline, current):
    setup_torch()
    signal.signal(signal.SIGALRM, _alarm)
    mon, viol, done, hang = Mon(), [], 0, None
    slow = []
    for k in range(wid, len(cases), nw):
        if stop.is_set() or (deadline and time.time() > deadline):
            break
        case = cases[k]
        current[wid] = k
        t0 = time.time()
        try:
            signal.alarm(CASE_LIMIT)
            res = run_case(mod, prop, case, mon)
        except Hang:
            hang = case
            viol.append({'case': case, 'key': 'does_not_terminate',
                         'message': 'the case did not end within %d s' % CASE_LIMIT})
            stop.set()
            break
        finally:
            signal.alarm(0)
        done += 1
        slow.append((time.time() - t0, case['kind'], case['i']))
        if res is not None:
            viol.append({'case': case, 'key': res[0], 'message': res[1]})
            if len(viol) >= max_viol:
                stop.set()
                break
    conn.send({'events': mon.events, 'states': mon.states,
               'comparisons': mon.comparisons, 'elements': mon.elements,
               'violations': viol, 'done': done, 'hang': hang,
               'slow': sorted(slow, reverse=True)[:3]})
    conn.close()


def load_known():
    """KNOWN_FINDINGS.txt: lines `KNOWN-FINDING: property=<id> key=<key> <text>`
    (suppress exactly that mechanism); `fixed: ...` lines suppress nothing."""
    out = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('KNOWN-FINDING:'):
                fields = dict(t.split('=', 1) for t in line.split()[1:3])
                out[(fields['property'], fields['key'])] = line
    return out


def run_property(mod, prop, tier, seed, workers=None, verbose=False):
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    t0 = time.time()
    cases = make_cases(mod, prop, tier, seed)
    nw = workers or min(8, os.cpu_count() or 8, max(1, len(cases)))
    stop = ctx.Event()
    current = ctx.Array('l', [-1] * nw)
    deadline = None
    if tier == 'thorough':
        deadline = t0 + float(os.environ.get('VERIF_BUDGET', '780'))
    else:
        deadline = t0 + float(os.environ.get('VERIF_BUDGET', '600'))
    procs = []
    for w in range(nw):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, daemon=False,
                        args=(mod, prop, cases, w, nw, stop, b, 3, deadline, current))
        p.start()
        b.close()
        procs.append((p, a))
    res, dead, crashes = [], 0, []
    for w, (p, a) in enumerate(procs):
        try:
            res.append(a.recv())
        except EOFError:
            p.join()
            if p.exitcode in CRASHES and current[w] >= 0:      # a memory error in native code
                crashes.append({'case': cases[current[w]], 'key': 'crash',
                                'message': 'the process died of signal %d' % -p.exitcode})
            else:
                dead += 1
        p.join()
    events, states = {}, set()
    for r in res:
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        states |= r['states']
    viols = [v for r in res for v in r['violations']] + crashes
    done = sum(r['done'] for r in res)
    comparisons = sum(r['comparisons'] for r in res)
    wall = time.time() - t0

    known = load_known()
    fresh, old = [], {}
    for v in viols:
        if (prop, v['key']) in known:
            old.setdefault(v['key'], []).append(v)
        else:
            fresh.append(v)

    info = mod.INFO.get(prop, {})
    samples = []
    seen = set()
    for c in cases:
        if c['kind'] not in seen:
            seen.add(c['kind'])
            samples.append(c)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(seed), 'level': 'exploration',
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': len(states),
            'rule': info.get('rule', '') + ' Cases are drawn from VERIF_SEED per workload '
                    'kind; a state counts when the observed objects (tree keys, inputs, '
                    'configuration) hash differently from every other state of the run.',
            'samples': samples,
            'oracle_comparisons': comparisons,
            'elements_compared': sum(r['elements'] for r in res),
            'events': dict(sorted(events.items())),
            'cases_planned': len(cases),
            'workers': nw,
        },
        'assumptions': info.get('assumptions', []) + [
            'single machine, CPU only: no CUDA device is present in the sandbox',
            'the oracles in /verif/ocnnmon (numpy, float64) are trusted'],
        'wall_s': round(wall, 2),
        'violations': len(fresh),
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')

    for key, vs in sorted(old.items()):
        print('%s' % known[(prop, key)])
    print('%s tier=%s seed=%s: %d/%d cases, %d oracle comparisons, %d distinct '
          'states, %.1f s' % (prop, tier, seed, done, len(cases), comparisons,
                              len(states), wall))
    if verbose:
        for k, v in sorted(events.items()):
            print('   %-50s %d' % (k, v))
        for s in sorted([s for r in res for s in r['slow']], reverse=True)[:6]:
            print('   slow %.2fs %s #%d' % s)
    if fresh:
        os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
        for v in fresh:
            path = os.path.join(OUT, 'replays', '%s-%s-%d.json' % (
                prop, v['case']['kind'], v['case']['i']))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'tier': tier, 'seed': int(seed), **v}, f, indent=1)
            print('  %s #%d [%s] %s' % (v['case']['kind'], v['case']['i'], v['key'],
                                        v['message'][:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if dead:
        print('INCONCLUSIVE: %d worker(s) died' % dead)
        return 2
    if tier == 'quick' and done < len(cases) * 0.5:
        print('INCONCLUSIVE: only %d of %d cases ran in time' % (done, len(cases)))
        return 2
    missing = [e for e in info.get('events', []) if not events.get(e)]
    if missing or comparisons == 0:
        print('INCONCLUSIVE: deciding events never observed: %s' % missing)
        return 2
    return 0
