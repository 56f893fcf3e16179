"""C37: calls that cannot be honoured, or fail midway, are loud and leave no trace."""
import contextlib
import io
import os
import tempfile

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode

from .. import gen, oracle
from ..core import Violation
from .octree import T, snap, same
from . import models as M
from . import system as S

import ocnn
from ocnn.octree import Octree, Points, merge_octrees, init_octree

KINDS, INFO = {}, {}


class Boom(Exception):
    """The injected failure."""


class Fault(TorchDispatchMode):
    """Counts the operations below autograd and lets number `at` fail, before or after it ran."""

    def __init__(self, at=None, after=False):
        super().__init__()
        self.n, self.at, self.after, self.op = 0, at, after, None

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        k = self.n
        self.n += 1
        hit = k == self.at
        if hit and not self.after:
            self.op = str(func)
            raise Boom(self.op)
        out = func(*args, **(kwargs or {}))
        if hit:
            self.op = str(func)
            raise Boom(self.op)
        return out


def clear(c):
    for x in list(c.inputs) + (list(c.model.parameters()) if c.model is not None else []):
        if isinstance(x, torch.Tensor):
            x.grad = None


def c37_fault(case, rng, mon):
    """An operation fails at a random point of a public call; everything stands as before and the
    call then gives what it gives without the accident."""
    w = S.world(rng)
    pick = S.CALLS[case['i'] % len(S.CALLS)]
    c = S.call(rng, w, pick)
    if c.model is not None and c.model.training and any(
            isinstance(m, torch.nn.BatchNorm1d) for m in c.model.modules()):
        c.model.eval()            # running statistics may be half updated by a broken step
    whole, before = snap(w.octree), S.snapshot(c)
    state = {k: v.clone() for k, v in c.model.state_dict().items()} if c.model is not None else {}
    modes = M.settings(c.model) if c.model is not None else None
    expected = [t.detach().clone() for t in c.run()]
    clear(c)
    with Fault() as f:
        try:
            c.run()
        except (RuntimeError, NotImplementedError) as e:
            # operators that cannot be watched (sparse products under a mode) are left alone
            mon.ev('unwatchable')
            return mon.ev('unwatchable.' + c.name)
    clear(c)
    n = f.n
    if n == 0:
        return mon.ev('no_operations')
    for j in range(5):
        k = int(rng.integers(n)) if j else int(rng.integers(max(n - 3, 0), n))
        g0 = S.globals_now()
        f = Fault(k, bool(rng.integers(2)))
        try:
            with f:
                c.run()
            raised = f.op is None         # fewer operations this time
        except Boom:
            raised = True
        clear(c)
        msg = '%s: failure at operation %d of %d (%s)' % (c.name, k, n, f.op)
        mon.ok(raised, 'failure_swallowed', msg)
        g1 = S.globals_now()
        mon.ok(g0 == g1, 'global_setting_changed', '%s: %s' % (
            msg, [(q, g0[q], g1[q]) for q in g0 if g0[q] != g1[q]]))
        same(mon, before, S.snapshot(c), 'input_changed', msg)
        same(mon, whole, snap(w.octree), 'octree_changed', msg)
        if c.model is not None:
            mon.ok(M.settings(c.model) == modes, 'mode_changed', msg)
            now = c.model.state_dict()
            for q in state:
                mon.equal(now[q], state[q], 'parameters_changed', '%s %s' % (msg, q))
        mon.ev('failures_injected')
        mon.ev('failed.' + pick)
        mon.state(pick, k, f.op)
    again = c.run()
    S.compare(mon, [t.detach() for t in again], expected, 'after_failure', c.name)
    mon.ev('recovered')


def refused(mon, f, key, msg):
    g0 = S.globals_now()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            f()
    except Exception as e:
        g1 = S.globals_now()
        mon.ok(g0 == g1, 'global_setting_changed', '%s: %s' % (
            msg, [(q, g0[q], g1[q]) for q in g0 if g0[q] != g1[q]]))
        mon.ok(not isinstance(e, Violation), key, msg)
        mon.ev('refused')
        mon.ev('refused.' + key)
        return
    mon.ok(False, 'accepted.' + key, msg)


def c37_layers(case, rng, mon):
    """Features that do not fit the layer."""
    w = S.world(rng) if rng.random() > 0.03 else gen.large_world(rng)
    o, ref = w.octree, w.ref
    d = int(rng.integers(1, w.depth + 1))
    ne, c = bool(rng.integers(2)), int(rng.choice([2, 4, 6]))
    kl = [[3], [2], [3, 1, 1], [1, 3, 3]][rng.integers(4)]
    n = ref.nnum(d, ne)
    both = ['conv', 'conv2', 'deconv', 'deconv2', 'dwconv', 'gconv', 'interp', 'nearest', 'upsample',
            'upsample1', 'align', 'globalpool', 'norm', 'drop', 'voxel', 'maxpool', 'pad', 'depad']
    few = ['direct', 'direct2', 'avgpool', 'avgpool2']
    name = (both + few)[case['i'] % (len(both) + len(few))]
    train = bool(rng.integers(2))
    q = torch.from_numpy(rng.uniform(-0.9, 0.9, (4, 4)))
    q[:, 3] = 0
    nn = ocnn.nn
    up = min(d, w.depth - 1)
    mods = {
        'conv': lambda: nn.OctreeConv(c, 3, kl, 1, ne), 'conv2': lambda: nn.OctreeConv(c, 3, kl, 2, ne),
        'direct': lambda: nn.OctreeConv(c, 3, [3], 1, ne, True),
        'direct2': lambda: nn.OctreeConv(c, 3, [3], 2, ne, True),
        'deconv': lambda: nn.OctreeDeconv(c, 3, kl, 1, ne),
        'deconv2': lambda: nn.OctreeDeconv(c, 3, kl, 2, ne),
        'dwconv': lambda: nn.OctreeDWConv(c, kl, 1, ne),
        'gconv': lambda: nn.OctreeGroupConv(c, c, kl, 1, ne, group=2),
        'interp': lambda: nn.OctreeInterp('linear', ne), 'nearest': lambda: nn.OctreeInterp('nearest', ne),
        'upsample': lambda: nn.OctreeUpsample('linear', ne),
        'upsample1': lambda: nn.OctreeUpsample('nearest', ne),
        'globalpool': lambda: nn.OctreeGlobalPool(ne),
        'norm': lambda: [nn.OctreeInstanceNorm(c, ne), nn.OctreeGroupNorm(c, 2, ne)][rng.integers(2)],
        'drop': lambda: nn.OctreeDropPath(0.5, ne), 'maxpool': lambda: nn.OctreeMaxPool(ne),
        'avgpool': lambda: nn.OctreeAvgPool([3], 1, ne), 'avgpool2': lambda: nn.OctreeAvgPool([3], 2, ne)}
    m = mods[name]().double() if name in mods else None
    if name in ('upsample', 'upsample1', 'deconv2'):
        d = up
        n = ref.nnum(d, ne)
    if name == 'deconv2' and d < 1:
        return mon.ev('skipped')
    if name == 'maxpool':
        n = ref.nnum(d, ne)
    if name == 'pad':
        ne = True
        n = ref.nnum(d, True)
    if name == 'depad':
        ne = False
        n = ref.nnum(d)
    if name == 'voxel':
        d = min(d, 4)
        n = ref.nnum(d, ne)
    if m is not None:
        m.train(train or name == 'drop')

    def go(x):
        if name in ('interp', 'nearest'):
            return m(x, o, d, q)
        if name == 'align':
            return nn.octree_align(x, o, o, d, ne)
        if name == 'voxel':
            return nn.octree2voxel(x, o, d, ne)
        if name == 'pad':
            return nn.octree_pad(x, o, d)
        if name == 'depad':
            return nn.octree_depad(x, o, d)
        return m(x, o, d)

    good = gen.feat(rng, n, c, True).double()
    whole = snap(o)
    # some layers check the number of rows, the others must notice when half of them are missing
    # (whether a row that is not used may be missing depends on how they gather)
    strict = name in ('conv', 'conv2', 'deconv', 'dwconv', 'gconv', 'interp', 'nearest',
                      'upsample', 'upsample1', 'align')
    deltas = [-1, 1, -8, 8, n, -(n // 2)] if strict else [-(n // 2)]
    least = 1 if strict else 9 if name == 'maxpool' else 4    # else a single row stands for all
    if n < least:
        deltas = []
    torch.manual_seed(7)
    kept = go(good).detach().clone() if n > 1 or name not in few else None
    state = {k: v.clone() for k, v in m.state_dict().items()} if m is not None else {}
    tried = 0
    for dl in deltas:
        if n + dl < least or dl == 0:
            continue
        if name in few:
            # rows that nothing refers to are not missed
            kern, st = ('333', 1 if name in ('direct', 'avgpool') else 2)
            if ref.neigh(d, kern, st, ne).max(initial=-1) <= n + dl:
                continue
        if name in ('depad', 'deconv2') and max(np.flatnonzero(ref.ne[d]), default=0) <= n + dl:
            continue
        x = torch.from_numpy(rng.normal(size=(n + dl, c)))
        kx = x.clone()
        g0 = S.globals_now()
        refused(mon, lambda: go(x), 'rows.' + name, '%s depth %d nempty %s: %d rows instead of %d' % (
            name, d, ne, n + dl, n))
        mon.ok(g0 == S.globals_now(), 'global_setting_changed', name)
        mon.equal(x, kx, 'input_changed', name)
        tried += 1
    if name in ('conv', 'conv2', 'direct', 'direct2', 'deconv', 'deconv2', 'dwconv', 'gconv') and n > 0:
        for dc in (-1, 1, c):
            x = torch.from_numpy(rng.normal(size=(n, c + dc)))
            refused(mon, lambda: go(x), 'channels.' + name, '%s depth %d nempty %s: %d channels instead of '
                    '%d' % (name, d, ne, c + dc, c))
            tried += 1
    same(mon, whole, snap(o), 'octree_changed', name)
    for k, v in (m.state_dict() if m is not None else {}).items():
        mon.equal(v, state[k], 'parameters_changed', '%s %s' % (name, k))
    if kept is not None:
        torch.manual_seed(7)
        mon.close(go(good), kept, 'after_refusal', name, rtol=1e-12, atol=0,
                  scale=float(kept.abs().max()) if kept.numel() else 1.0)
    mon.state(name, d, ne, tried, ref.keys[d][:50])


def c37_octree(case, rng, mon):
    """Octrees: building, merging, neighbours, layers."""
    depth, fd = int(rng.integers(2, 7)), int(rng.integers(1, 3))
    bs = int(rng.integers(1, 5))
    cl, _ = gen.clouds(rng, depth, bs, 60, False)
    ns, fs = gen.tensors(rng, cl)

    def points(k):
        return gen.batched_points(rng, cl[:k], ns[:k], fs[:k])[0] if k > 1 else \
            gen.make_points(cl[0], ns[0], fs[0])
    right = points(bs)
    ref = Octree(depth, fd, bs)
    ref.build_octree(right)
    ref.construct_all_neigh()
    expected = snap(ref)
    wrong = int(rng.choice([b for b in range(1, 7) if b != bs]))
    bad = points(min(wrong, bs))
    bad.batch_size = wrong
    o = Octree(depth, fd, bs)
    empty, kb = snap(o), snap(bad)
    dev = str(o.device)
    if rng.random() < 0.3:
        bad = bad.to('meta')
        kb = None
    refused(mon, lambda: o.build_octree(bad), 'build', 'octree of %d samples, cloud of %d' % (bs, wrong))
    same(mon, empty, snap(o), 'octree_changed', 'refused build')
    mon.ok(str(o.device) == dev, 'octree_changed', 'device after a refused build: %s' % o.device)
    if kb is not None:
        same(mon, kb, snap(bad), 'cloud_changed', 'refused build')
    o.build_octree(right)
    o.construct_all_neigh()
    same(mon, expected, snap(o), 'build_after_refusal', 'depth %d/%d batch %d' % (depth, fd, bs))

    # neighbours
    for _ in range(3):
        kern = ['555', '123', '3', '33', '', '3x3', '212', '444', '322', '3333'][rng.integers(10)]
        st, ne = int(rng.integers(1, 3)), bool(rng.integers(2))
        d = int(rng.integers(1, depth + 1))
        refused(mon, lambda: o.get_neigh(d, kern, st, ne), 'kernel', repr(kern))
        st = int(rng.choice([0, 3, 4, -1, 8]))
        refused(mon, lambda: o.get_neigh(d, oracle.KERNELS[rng.integers(8)], st, ne), 'stride', str(st))
    same(mon, expected, snap(o), 'octree_changed', 'refused kernel or stride')

    # full layers stop at the full depth
    g = init_octree(depth, fd, bs)
    kg = snap(g)
    e = int(rng.integers(fd + 1, depth + 2)) if depth > fd else depth + 1
    refused(mon, lambda: g.octree_grow_full(e, bool(rng.integers(2))), 'grow_full', '%d above %d' % (e, fd))
    same(mon, kg, snap(g), 'octree_changed', 'refused full layer')

    # merging
    def small(dd, ff, device=None):
        t = Octree(dd, ff)
        t.build_octree(gen.make_points(cl[0], ns[0], fs[0]))
        return t if device is None else t.to(device)
    k = gen.few(rng, 1, 5)
    ts = [small(depth, fd) for _ in range(k)]
    j = rng.integers(3)
    if j == 0:
        odd = small(depth + int(rng.choice([-1, 1])) if depth > 2 else depth + 1, min(fd, depth - 1))
    elif j == 1:
        odd = small(depth, fd % depth + 1) if depth > 1 else small(depth + 1, fd)
    else:
        odd = small(depth, fd, 'meta')
    at = int(rng.integers(0, k + 1))
    ts.insert(at, odd)
    if j == 2:
        kt = snap(*[t for t in ts if t is not odd])
        refused(mon, lambda: merge_octrees(ts), 'merge', 'octree %d of %d lives elsewhere' % (at, k + 1))
        same(mon, kt, snap(*[t for t in ts if t is not odd]), 'octree_changed', 'refused merge')
    elif (odd.depth, odd.full_depth) != (depth, fd):
        kt = snap(*ts)
        refused(mon, lambda: merge_octrees(ts), 'merge', 'octree %d of %d: depth %d/%d among %d/%d' % (
            at, k + 1, odd.depth, odd.full_depth, depth, fd))
        same(mon, kt, snap(*ts), 'octree_changed', 'refused merge')
    mon.state(depth, fd, bs, wrong, j, at, k)


def c37_points(case, rng, mon):
    """Clouds: attributes that do not fit, operations that cannot be done."""
    n = gen.many(rng, 2, 60)
    t = lambda *s: torch.from_numpy(rng.normal(size=s).astype(np.float32))
    good = dict(points=t(n, 3), normals=t(n, 3), features=t(n, 2), labels=t(n, 1),
                batch_id=torch.zeros(n, 1))
    off = int(rng.choice([-1, 1, n]))
    m = max(n + off, 0)
    wrong = [
        ('points', t(n, 4)), ('points', t(n, 2)), ('points', t(n)), ('points', t(3 * n)),
        ('points', t(1, n, 3)), ('points', t(m, 3)),
        ('normals', t(n, 4)), ('normals', t(n, 2)), ('normals', t(m, 3)), ('normals', t(3, n) if n != 3
                                                                             else t(n, 1)),
        ('normals', t(n, 1)), ('normals', t(n)),
        ('features', t(m, 2)), ('features', t(n)), ('features', t(n, 2, 1)),
        ('labels', t(m, 1)), ('labels', t(m)), ('labels', t(n, 1, 1)),
        ('batch_id', t(m, 1)), ('batch_id', t(m)), ('batch_id', t(n, 2)), ('batch_id', t(n, 1, 1))]
    for j in rng.permutation(len(wrong))[:8]:
        name, v = wrong[j]
        args = dict(good)
        if rng.random() < 0.5:
            for a in ('normals', 'features', 'labels', 'batch_id'):
                if a != name and (name != 'points' or a != 'normals') and rng.random() < 0.5:
                    args[a] = None
        args[name] = v
        if name == 'points' and v.dim() == 2 and v.shape[1] == 3 and all(
                args[a] is None for a in args if a != 'points'):
            continue
        ks = snap(*[x for x in args.values()])
        refused(mon, lambda: Points(**args), 'cloud', '%s %s in a cloud of %d points with %s' % (
            name, tuple(v.shape), n, [a for a in args if args[a] is not None]))
        same(mon, ks, snap(*[x for x in args.values()]), 'tensor_changed', name)
    p = Points(**good)
    kp = snap(p)
    f = torch.from_numpy(rng.normal(size=3).astype(np.float32))
    f[rng.permutation(3)[:int(rng.integers(1, 4))]] = 0.0
    kf = f.clone()
    refused(mon, lambda: p.scale(f), 'zero_scale', str(f))
    mon.equal(f, kf, 'tensor_changed', 'scale')
    refused(mon, lambda: p.orient_normal(['w', 'yx', 'zyx', 'X', ''][rng.integers(5)]), 'axis', '')
    with tempfile.TemporaryDirectory() as tmp:
        name = os.path.join(tmp, 'cloud.' + ['txt', 'ply', 'np', 'pts'][rng.integers(4)])
        refused(mon, lambda: p.save(name), 'file_type', name)
        mon.ok(os.listdir(tmp) == [], 'file_left', str(os.listdir(tmp)))
        refused(mon, lambda: p.save(os.path.join(tmp, 'a.npz'), 'PQ'), 'selector', 'PQ')
        mon.ok(os.listdir(tmp) == [], 'file_left', str(os.listdir(tmp)))
    same(mon, kp, snap(p), 'cloud_changed', 'after refusals')
    mon.state('points', n, f)


def c37_config(case, rng, mon):
    """Layers and models that cannot be built."""
    g = int(rng.integers(2, 6))
    cin = g * int(rng.integers(1, 5)) + int(rng.integers(1, g))
    ok = g * int(rng.integers(1, 5))
    ne = bool(rng.integers(2))
    refused(mon, lambda: ocnn.nn.OctreeGroupConv(cin, ok, [3], 1, ne, group=g), 'group_in', '%d/%d' % (cin, g))
    refused(mon, lambda: ocnn.nn.OctreeGroupConv(ok, cin, [3], 1, ne, group=g), 'group_out', '%d/%d' % (cin, g))
    refused(mon, lambda: ocnn.nn.OctreeGroupNorm(cin, g, ne), 'group_norm', '%d/%d' % (cin, g))
    ks = [int(v) for v in rng.integers(1, 4, int(rng.integers(4, 7)))]
    k0 = list(ks)
    refused(mon, lambda: ocnn.nn.OctreeConv(2, 2, ks), 'kernel_list', str(ks))
    mon.ok(ks == k0, 'kernel_list_changed', str(ks))
    refused(mon, lambda: ocnn.utils.build_example_octree(4, 2, int(rng.choice([0, 4, -1, 7]))), 'example', '')
    w = S.world(rng)
    o, ref = w.octree, w.ref
    whole = snap(o)
    d = int(rng.integers(1, w.depth + 1))
    e = int(rng.integers(0, d))
    x = S.rows(rng, ref, d, ne, 2)
    kx = x.clone()
    up = ocnn.nn.OctreeUpsample(['linear', 'nearest'][rng.integers(2)], ne)
    refused(mon, lambda: up(x, o, d, e), 'coarser_target', '%d to %d' % (d, e))
    # a kernel no table exists for
    kern = [[5], [4], [1, 2, 3], [2, 1, 2], [3, 2, 2]][rng.integers(5)]
    m = [lambda: ocnn.nn.OctreeConv(2, 2, list(kern), 1, ne, bool(rng.integers(2))),
         lambda: ocnn.nn.OctreeDeconv(2, 2, list(kern), 1, ne, bool(rng.integers(2))),
         lambda: ocnn.nn.OctreeDWConv(2, list(kern), 1, ne),
         lambda: ocnn.nn.OctreeAvgPool(list(kern), 1, ne)][rng.integers(4)]
    refused(mon, lambda: m().double()(x, o, d), 'kernel', str(kern))
    st = int(rng.choice([3, 4]))
    refused(mon, lambda: ocnn.nn.OctreeConv(2, 2, [3], st, ne).double()(x, o, d), 'stride', str(st))
    mon.equal(x, kx, 'input_changed')
    same(mon, whole, snap(o), 'octree_changed')
    mon.state('config', g, cin, ok, ks, kern)


def c37_first(case, rng, mon):
    """The first uses of the library fail; later uses give what they give in a process where
    nothing failed."""
    n = 5
    calls = [S.CALLS[int(k)] for k in rng.permutation(len(S.CALLS))[:n]]
    seed = int(rng.integers(1 << 30))
    specs = [dict(seed=seed, calls=calls, meta=False, order=list(range(n)),
                  fail=[] if j == 0 else [int(v) for v in rng.integers(0, [12, 60, 300][j % 3], 4)])
             for j in range(7)]
    out = S.fresh(mon, specs)
    for j in range(1, len(specs)):
        for k in range(n):
            a, b = out[0][str(k)], out[j][str(k)]
            mon.ok(len(a) == len(b), 'first_failure', calls[k])
            for x, y in zip(a, b):
                if isinstance(x, str) or isinstance(y, str):
                    mon.ok(x == y, 'first_failure', '%s after failures at %s' % (calls[k], specs[j]['fail']))
                else:
                    mon.close(np.array(y), np.array(x), 'first_failure', '%s after failures at %s' % (
                        calls[k], specs[j]['fail']), rtol=1e-9, atol=1e-12,
                        scale=max([abs(v) for v in x] + [0]))
        mon.ev('first_uses_failed', len(specs[j]['fail']))
    mon.state('first', [s['fail'] for s in specs])


KINDS['C37'] = {'fault': (c37_fault, 410, 4000), 'layers': (c37_layers, 220, 2600),
                'octree': (c37_octree, 160, 2000), 'points': (c37_points, 160, 2000),
                'config': (c37_config, 120, 1500),
                'first': (c37_first, 2, 12)}
INFO['C37'] = {'events': ['failures_injected', 'recovered', 'refused', 'first_uses_failed'],
               'rule': 'Every public call with a failure injected at a random operation, forward or '
                       'backward; arguments that do not fit, of every documented sort.'}
