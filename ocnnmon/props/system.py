"""C25, C30, C31: purity, determinism / threads / hidden state, tensor utilities."""
import copy
import inspect
import json
import os
import subprocess
import sys
import threading

import numpy as np
import torch
import torch.nn.functional as F

from .. import gen, oracle
from ..core import to_np, VERIF, REPO, Violation
from . import models as M
from .octree import T, snap, same, check_tree

import ocnn
import ocnn.utils
from ocnn.octree import Octree, Points, merge_octrees, merge_points, init_octree, xyz2key, key2xyz

KINDS, INFO = {}, {}


def list_defaults():
    """The lists that serve as default arguments of all layers."""
    out = {}
    for place in (ocnn.nn, ocnn.modules, ocnn.models):
        for name in dir(place):
            c = getattr(place, name)
            if inspect.isclass(c) and c.__module__.startswith('ocnn'):
                for q, p in inspect.signature(c.__init__).parameters.items():
                    if isinstance(p.default, (list, dict)):
                        out[name, q] = p.default
    return out


DEFAULTS = copy.deepcopy(list_defaults())          # as written, before any layer is built


# --------------------------------------------------------------------------- catalogue of calls

LAYOUT = {'grad': None}         # applied to output gradients by fwd_bwd


class Call:
    """A public call with its inputs.  run() returns a flat list of tensors."""

    def __init__(self, name, fn, inputs, model=None):
        self.name, self.fn, self.inputs, self.model = name, fn, inputs, model

    def run(self):
        before = globals_now()
        res = flat(self.fn(*self.inputs))
        after = globals_now()
        if after != before:
            raise Violation('global_setting_changed', '%s: %s' % (self.name, [
                (k, before[k], after[k]) for k in before if before[k] != after[k]]))
        return res


def globals_now():
    """Settings of the process that belong to the user."""
    return {
        'grad': torch.is_grad_enabled(), 'inference': torch.is_inference_mode_enabled(),
        'dtype': torch.get_default_dtype(), 'threads': torch.get_num_threads(),
        'device': str(torch.get_default_device()),
        'deterministic': (torch.are_deterministic_algorithms_enabled(),
                          torch.backends.cudnn.deterministic, torch.backends.cudnn.benchmark),
        'autocast': (torch.is_autocast_enabled('cpu'), torch.get_autocast_dtype('cpu')),
        'anomaly': torch.is_anomaly_enabled(),
        'numpy': tuple(sorted(np.geterr().items())), 'print': str(sorted(np.get_printoptions().items())),
        'cwd': os.getcwd(), 'environ': dict(os.environ), 'path': tuple(sys.path),
        'recursion': sys.getrecursionlimit(),
    }


def generators():
    import random
    return (torch.get_rng_state().numpy().tobytes(), np.random.get_state()[1].tobytes(),
            np.random.get_state()[2], random.getstate())


def seed_all(v):
    import random
    torch.manual_seed(v)
    np.random.seed(v)
    random.seed(v)


def flat(x):
    if x is None:
        return []
    if isinstance(x, torch.Tensor):
        return [x]
    if isinstance(x, (int, float, bool, str)):
        return [torch.tensor(float(x))] if not isinstance(x, str) else []
    if isinstance(x, dict):
        return [t for k in sorted(x, key=str) for t in flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [t for y in x for t in flat(y)]
    if isinstance(x, Octree):
        out = []
        for d in range(x.depth + 1):
            out += flat([x.keys[d], x.children[d], x.neighs[d], x.features[d], x.normals[d],
                         x.points[d]])
        return out
    if isinstance(x, Points):
        return flat([x.points, x.normals, x.features, x.labels, x.batch_id, x.batch_size])
    raise TypeError(type(x))


def clone_inputs(xs):
    import copy
    return [x.detach().clone().requires_grad_(x.requires_grad) if isinstance(x, torch.Tensor)
            else x if isinstance(x, (str, int)) else copy.deepcopy(x) for x in xs]


def rows(rng, ref, d, ne, c, dtype=torch.float64, grad=False):
    return gen.feat(rng, ref.nnum(d, ne), c, dtype == torch.float64).to(dtype).requires_grad_(grad)


def fwd_bwd(m, rng, out_grad_seed=0):
    """Runs a module forward and backward, returns outputs and gradients."""
    def f(x, *rest):
        out = m(x) if isinstance(m, torch.nn.BatchNorm1d) else m(x, *rest)
        res = [out]
        if x.requires_grad:
            g = torch.Generator().manual_seed(out_grad_seed)
            w = torch.randn(out.shape, generator=g, dtype=torch.float64).to(out.dtype)
            if LAYOUT['grad'] is not None:
                w = LAYOUT['grad'](w)
            kw = w.clone()
            ps = [p for p in m.parameters()] if isinstance(m, torch.nn.Module) else []
            if out.requires_grad:
                out.backward(w)
                res += [p.grad for p in [x] + ps if p.grad is not None]
                for p in [x] + ps:
                    p.grad = None
            if not torch.equal(w, kw):
                raise Violation('output_gradient_changed', str(m))
        return res
    return f


def call(rng, w, pick=None, double=False):
    """A random public call on the world w (octree with neighbours)."""
    o, ref = w.octree, w.ref
    d = int(rng.integers(1, w.depth + 1))
    ne = bool(rng.integers(2))
    c = int(rng.integers(1, 5))
    dt = torch.float64 if double else [torch.float64, torch.float32][rng.integers(2)]
    grad = bool(rng.integers(2))
    kern = oracle.KERNELS[rng.integers(8)]
    kl = [int(v) for v in kern]
    st = int(rng.integers(1, 3))
    meth = bool(rng.integers(2))
    kd = int(np.prod(kl))
    mb = int(rng.choice([kd * 5, kd * 40, 200000000]))
    names = ['conv', 'deconv', 'dwconv', 'gconv', 'maxpool', 'unpool', 'avgpool', 'globalpool',
             'norm', 'drop', 'interp', 'pts_functional', 'upsample', 'align', 'search_value', 'pad',
             'depad', 'voxel', 'col', 'coltoo', 'search_xyzb', 'search_key', 'get_neigh', 'views',
             'input_feature', 'to_points', 'merge', 'to_device', 'build', 'split_grow', 'block',
             'keys', 'points_methods', 'merge_points', 'scatter_add', 'network', 'generative',
             'full_from', 'example', 'transform']
    k = pick or names[rng.integers(len(names))]
    seed = int(rng.integers(1 << 30))
    x = rows(rng, ref, d, ne, c, dt, grad)

    def mod(m, src=None, *rest):
        with torch.no_grad():
            for p in m.parameters():
                p.copy_(torch.from_numpy(rng.normal(size=tuple(p.shape))))
        m = m.to(dt)
        m.train(bool(rng.integers(2)))
        return Call(k, fwd_bwd(m, rng, seed), [x if src is None else src, o, d] + list(rest), m)

    if k == 'conv':
        return mod(ocnn.nn.OctreeConv(c, 3, kl, st, ne, meth, bool(rng.integers(2)), mb))
    if k == 'deconv':
        if st == 2 and d == w.depth:
            st = 1
        return mod(ocnn.nn.OctreeDeconv(c, 3, kl, st, ne, meth, bool(rng.integers(2)), mb))
    if k == 'dwconv':
        return mod(ocnn.nn.OctreeDWConv(c, kl, st, ne, bool(rng.integers(2))))
    if k == 'gconv':
        return mod(ocnn.nn.OctreeGroupConv(c, c, kl, st, ne, group=c))
    if k == 'maxpool':
        return Call(k, lambda a, b: ocnn.nn.octree_max_pool(a, b, d, ne, True)[:2], [x, o])
    if k == 'unpool':
        if d == 1:
            d = min(2, w.depth)
        src = rows(rng, ref, d, ne, c, dt)
        out, idx = ocnn.nn.octree_max_pool(src, o, d, ne, True)
        return Call(k, lambda a, i, b: ocnn.nn.octree_max_unpool(a, i, b, d - 1, ne),
                    [out.detach(), idx, o])
    if k == 'avgpool':
        return mod(ocnn.nn.OctreeAvgPool(kl, st, ne))
    if k == 'globalpool':
        return mod(ocnn.nn.OctreeGlobalPool(ne))
    if k == 'norm':
        m = [ocnn.nn.OctreeInstanceNorm(c, ne), ocnn.nn.OctreeGroupNorm(c, c, ne),
             ocnn.nn.OctreeBatchNorm(c)][rng.integers(3)]
        cl = mod(m)
        if ref.nnum(d, ne) < 2:
            m.eval()
        if isinstance(m, ocnn.nn.OctreeBatchNorm):
            m.momentum = 0.0
        return cl
    if k == 'drop':
        cl = mod(ocnn.nn.OctreeDropPath(0.5, ne))
        f = cl.fn

        def seeded(*a):
            torch.manual_seed(seed)
            return f(*a)
        cl.fn = seeded
        cl.global_rng = True
        return cl
    pts, bid = _queries(rng, ref, d)
    q = T(np.concatenate([pts, bid[:, None]], 1)).to(dt)
    meth2 = ['nearest', 'linear'][rng.integers(2)]
    if k == 'interp':
        q2 = q.clone()
        q2[:, :3] = q2[:, :3] * 2.0 ** (1 - d) - 1
        return mod(ocnn.nn.OctreeInterp(meth2, ne, bool(rng.integers(2)), True), None, q2)
    if k == 'pts_functional':
        fn = ocnn.nn.octree_linear_pts if meth2 == 'linear' else ocnn.nn.octree_nearest_pts
        if rng.random() < 0.6:          # coordinates that use every bit of the type
            q = q.clone()
            q[:, :3] = T(rng.uniform(0, 1 << d, (q.shape[0], 3)) *
                         10.0 ** rng.uniform(-6, 0, (q.shape[0], 1))).to(dt)
        return Call(k, lambda a, b, p: fn(a, b, d, p, ne, True), [x, o, q])
    if k == 'upsample':
        d = int(rng.integers(0, w.depth))
        t = int(rng.integers(d, w.depth + 1))
        m = ocnn.nn.OctreeUpsample(meth2, ne)
        return mod(m, rows(rng, ref, d, ne, c, dt, grad), t)
    if k == 'align':
        o2 = gen.world(rng, depth=w.depth, full_depth=w.full_depth, batch=w.batch, mode='batched',
                       nmax=40, neigh=False).octree
        x = rows(rng, ref, d, False, c, dt)
        return Call(k, lambda a, s, t: ocnn.nn.octree_align(a, s, t, d), [x, o, o2])
    if k == 'search_value':
        keys = T(ref.key(d, ne))
        if keys.numel() == 0:
            keys = T(ref.key(d, False))
            x = rows(rng, ref, d, False, c, dt)
        qk = torch.cat([keys[torch.from_numpy(rng.integers(0, keys.numel(), 20))],
                        T(rng.integers(0, 1 << 40, 5))])
        return Call(k, lambda a, b, e: ocnn.nn.search_value(a, b, e), [x.detach(), keys, qk])
    if k == 'pad':
        x = rows(rng, ref, d, True, c, dt)
        return Call(k, lambda a, b: ocnn.nn.octree_pad(a, b, d, 0.5), [x, o])
    if k == 'depad':
        x = rows(rng, ref, d, False, c, dt)
        return Call(k, lambda a, b: ocnn.nn.octree_depad(a, b, d), [x, o])
    if k == 'voxel':
        d = min(d, 4)
        return Call(k, lambda a, b: ocnn.nn.octree2voxel(a, b, d, ne),
                    [rows(rng, ref, d, ne, c, dt), o])
    if k == 'col':
        return Call(k, lambda a, b: ocnn.nn.octree2col(a, b, d, kern, st, ne), [x, o])
    if k == 'coltoo':
        n = ref.neigh(d, kern, st, ne).shape
        col = T(rng.normal(size=n + (c,))).to(dt)
        return Call(k, lambda a, b: ocnn.nn.col2octree(a, b, d, kern, st, ne), [col, o])
    if k == 'search_xyzb':
        return Call(k, lambda a, b: b.search_xyzb(a, d, ne), [q, o])
    if k == 'search_key':
        p = np.clip(np.floor(pts), 0, (1 << d) - 1).astype(np.int64)
        qk = T(oracle.morton(p, d) | (bid.astype(np.int64) << 48))
        return Call(k, lambda a, b: b.search_key(a, d, ne), [qk, o])
    if k == 'get_neigh':
        return Call(k, lambda b: b.get_neigh(d, kern, st, ne), [o])
    if k == 'views':
        return Call(k, lambda b: [b.xyzb(d, ne), b.batch_id(d, ne), b.key(d, ne), b.nempty_mask(d)],
                    [o])
    if k == 'input_feature':
        if o.points[w.depth] is None:
            return Call(k, lambda b: b.nempty_mask(d), [o])
        sel = ''.join(rng.permutation(list('NDLPF'))[:int(rng.integers(1, 6))])
        return Call(k + '.' + sel, lambda b: b.get_input_feature(sel, ne), [o])
    if k == 'to_points':
        return Call(k, lambda b: b.to_points(bool(seed % 2)), [o])
    if k == 'merge':
        o2 = gen.world(rng, depth=w.depth, full_depth=w.full_depth, mode=w.mode, nmax=40,
                       neigh=False).octree
        for a in ('features', 'normals', 'points'):
            x1, x2 = getattr(o, a)[w.depth], getattr(o2, a)[w.depth]
            if x1 is None or x2 is None or x1.shape[1] != x2.shape[1]:
                return Call(k, lambda a_: merge_octrees([a_, a_]), [o])
        return Call(k, lambda a, b: merge_octrees([a, b]), [o, o2])
    if k == 'to_device':
        return Call(k, lambda b: b.to(torch.device('cpu:0')), [o])
    if k == 'build':
        cl, _ = gen.clouds(rng, w.depth, 1, 60, False)
        ns, fs = gen.tensors(rng, cl)
        p = gen.make_points(cl[0], ns[0], fs[0])

        def f(pp):
            oc = Octree(w.depth, w.full_depth)
            idx = oc.build_octree(pp)
            oc.construct_all_neigh()
            return [oc, idx]
        return Call(k, f, [p])
    if k == 'split_grow':
        masks = []
        r = oracle.RefOctree.start_full(w.depth, 1, 2)
        for dd in range(1, w.depth + 1):
            if dd > 1:
                r.grow(dd)
            mk = rng.random(r.nnum(dd)) < min(0.4, 40.0 / r.nnum(dd))
            r.split(mk, dd)
            masks.append(T(mk.astype(np.int32)))

        def f(*ms):
            oc = init_octree(w.depth, 1, 2)
            for dd in range(1, w.depth + 1):
                if dd > 1:
                    oc.octree_grow(dd)
                oc.octree_split(ms[dd - 1], dd)
            return oc
        return Call(k, f, masks)
    if k == 'block':
        if d < 2:
            st = 1
        j = rng.integers(6)
        m = [lambda: ocnn.modules.OctreeConvBnRelu(c, 3, kl, st, ne),
             lambda: ocnn.modules.OctreeResBlock(c, c, 1, 1, ne),
             lambda: ocnn.modules.OctreeResBlock2(c, 3, st, 1, ne),
             lambda: ocnn.modules.OctreeResBlocks(c, 4, 2, 2, ne, use_checkpoint=bool(rng.integers(2))),
             lambda: ocnn.modules.OctreeConvBn(c, 3, kl, st, ne),
             lambda: ocnn.modules.OctreeResBlock(c, 4, st, 2, ne)][j]()
        cl = mod(m)
        for b in m.modules():
            if isinstance(b, torch.nn.BatchNorm1d):
                b.momentum = 0.0
        if min(ref.nnum(d, ne), ref.nnum(max(d - 1, 0), ne)) < 4:
            m.eval()
        return cl
    if k == 'keys':
        xyz = [T(rng.integers(0, 1 << d, 30)) for _ in range(3)]
        b = T(rng.integers(0, 100, 30))

        def f(a, b_, c_, e):
            key = xyz2key(a, b_, c_, e, d)
            return [key] + list(key2xyz(key, d))
        return Call(k, f, xyz + [b])
    if k == 'points_methods':
        p = cloud_points(rng)

        def f(pp):
            mask = pp.inbox_mask(-0.5, 0.5)
            return [mask, pp.bbox(), pp[mask], pp.to('cpu'), pp.batch_size]
        return Call(k, f, [p])
    if k == 'merge_points':
        return Call(k, lambda a, b: merge_points([a, b]),
                    [cloud_points(rng, False), cloud_points(rng, False)])
    if k == 'scatter_add':
        n = int(rng.integers(1, 30))
        return Call(k, lambda s, i: ocnn.utils.scatter_add(s, i, 0),
                    [T(rng.normal(size=(n, c))), T(rng.integers(0, 9, n))])
    if k == 'full_from':
        return Call(k, lambda b: [b.nnum, b.nnum_nempty, b.batch_nnum, b.batch_nnum_nempty], [o])
    if k == 'example':
        n, dd = int(rng.integers(1, 4)), int(rng.integers(2, 7))
        return Call(k, lambda: ocnn.utils.build_example_octree(dd, 2, n), [])
    if k in ('transform', 'augment'):
        flags = dict(depth=4, full_depth=2, distort=k == 'augment', angle=[0, 30, 5],
                     interval=[1, 1, 1], scale=0.2, uniform=False, jitter=0.1,
                     orient_normal='xyz', flip=[0.0, 0.0, 0.5])
        n = int(rng.integers(5, 40))
        smp = [T(rng.uniform(-0.5, 0.5, (n, 3)).astype(np.float32)),
               T(rng.normal(size=(n, 3)).astype(np.float32))]

        def f(p, q):
            if k == 'augment':
                seed_all(seed)
            t = ocnn.dataset.Transform(**flags)
            out = t({'points': p.numpy(), 'normals': q.numpy()}, 0)
            return [out['octree'], out['points']]
        cl = Call(k, f, smp)
        cl.global_rng = k == 'augment'
        return cl
    if k == 'network':
        if w.depth < 3 or max(ref.nnum(dd) for dd in range(w.depth + 1)) > 5000:
            return call(rng, w, 'block', double)
        name = ['lenet', 'resnet', 'segnet', 'unet'][rng.integers(4)]
        m, cfg = M.network(rng, name, w.depth, ne)
        m = M.randomize(rng, M.no_dropout(m.to(dt)))
        m.eval()
        src = rows(rng, ref, w.depth, ne, cfg['cin'], dt, grad)
        f = fwd_bwd(m, rng, seed)
        if name in ('segnet', 'unet'):
            pp, bb = _queries(rng, ref, w.depth)
            qq = T(np.concatenate([pp * 2.0 ** (1 - w.depth) - 1, bb[:, None]], 1)).to(dt)
            return Call(k + '.' + name, f, [src, o, w.depth, qq], m)
        return Call(k + '.' + name, f, [src, o, w.depth], m)
    if k == 'generative':
        s = M.scene(rng, min(w.depth, 4), 1 + int(w.depth > 2), 1, 20, dtype=dt)
        kind = ['ae', 'ounet'][rng.integers(2)]
        m = M.randomize(rng, M.generative(rng, kind, 4, 3, s.depth, s.fd, 'ND').to(dt)).eval()
        free = bool(rng.integers(2))

        def f(b):
            with torch.no_grad():
                if kind == 'ae':
                    out = m(b, free)
                else:
                    out = m(b) if free else m(b, b, False)
            return [out['logits'], out['signal']]
        return Call(k + '.' + kind, f, [s.octree], m)
    raise ValueError(k)


CALLS = ['conv', 'deconv', 'dwconv', 'gconv', 'maxpool', 'unpool', 'avgpool', 'globalpool', 'norm',
         'drop', 'interp', 'pts_functional', 'upsample', 'align', 'search_value', 'pad', 'depad',
         'voxel', 'col', 'coltoo', 'search_xyzb', 'search_key', 'get_neigh', 'views',
         'input_feature', 'to_points', 'merge', 'to_device', 'build', 'split_grow', 'block', 'keys',
         'points_methods', 'merge_points', 'scatter_add', 'network', 'generative', 'full_from',
         'example', 'transform', 'augment']


def _queries(rng, ref, d):
    n = int(rng.choice([1, 5, 60]))
    k = rng.integers(0, ref.nnum(d), n)
    p = ref.xyz(d)[k] + rng.integers(0, 16, (n, 3)) / 16.0
    p = np.clip(p, 0.5, (1 << d) - 0.5)
    return p, ref.batch(d)[k].astype(np.float64)


def cloud_points(rng, batched=True):
    n = int(rng.integers(1, 60))
    t = lambda *s: torch.from_numpy(rng.uniform(-1, 1, s).astype(np.float32))
    return Points(t(n, 3), t(n, 3), t(n, 2), t(n, 1),
                  batch_id=T(np.sort(rng.integers(0, 3, (n, 1)), 0)) if batched else None,
                  batch_size=3 if batched else 1)


def world(rng, **kw):
    kw.setdefault('maxdepth', 5)
    kw.setdefault('nmax', 60)
    return gen.world(rng, min_depth=2, maxfull=3, max_nodes=6000, **kw)


def compare(mon, a, b, key, msg):
    mon.ok(len(a) == len(b), key, '%s: number of results' % msg)
    for x, y in zip(a, b):
        mon.ok(x.dtype == y.dtype, key, '%s: element type' % msg)
        if x.dtype.is_floating_point:
            eps = 1e-9 if x.dtype == torch.float64 else 3e-4
            s = float(y.detach().abs().max()) if y.numel() else 1.0
            mon.close(x, y, key, msg, rtol=eps, atol=eps * 1e-2, scale=s)
        else:
            mon.equal(x, y, key, msg)


def snapshot(c):
    s = snap(*[x if isinstance(x, (torch.Tensor, Octree, Points)) else None for x in c.inputs])
    return s


# --------------------------------------------------------------------------- C25

def c25_calls(case, rng, mon):
    w = world(rng)
    whole = snap(w.octree)
    cs = []
    for j in range(4):
        pick = CALLS[(case['i'] * 4 + j) % len(CALLS)]
        c = call(rng, w, pick)
        before = snapshot(c)
        st = {k: v.clone() for k, v in c.model.state_dict().items()} if c.model is not None else {}
        conf = M.settings(c.model) if c.model is not None else None
        res = c.run()
        mon.ok(c.model is None or M.settings(c.model) == conf, 'mode_changed', c.name)
        same(mon, before, snapshot(c), 'input_changed', c.name)
        if c.model is not None:
            for k, v in c.model.state_dict().items():
                if c.model.training and ('running' in k or 'num_batches' in k):
                    continue
                mon.equal(v, st[k], 'parameters_changed', '%s %s' % (c.name, k))
        # editing what was returned does not reach the inputs (results are the caller's own) --
        # views that hand out the octree's own tensors are exempt
        if pick in ('conv', 'deconv', 'dwconv', 'gconv', 'avgpool', 'globalpool', 'norm', 'maxpool',
                    'interp', 'block', 'build', 'network') and res:
            with torch.no_grad():
                for r in res:
                    if r.dtype.is_floating_point:
                        r.detach().add_(1.0)
            same(mon, before, snapshot(c), 'result_aliases_input', c.name)
        mon.ev('calls')
        mon.ev('call.' + pick)
        cs.append((pick, c))
    same(mon, whole, snap(w.octree), 'octree_changed', str([c[0] for c in cs]))
    mon.state(w.ref.keys[w.depth], [c[0] for c in cs], case['i'])


def c25_reuse(case, rng, mon):
    """One octree and one feature tensor through many branches; the first result stands."""
    w = world(rng)
    d = int(rng.integers(2, w.depth + 1))
    ne, c = bool(rng.integers(2)), int(rng.integers(1, 4))
    x = rows(rng, w.ref, d, ne, c, torch.float64, True)
    kx, whole = x.detach().clone(), snap(w.octree)
    chain = []

    def first():
        m = ocnn.nn.OctreeConv(c, 2, [3], 1, ne, use_bias=True).double()
        with torch.no_grad():
            for k, p in enumerate(m.parameters()):
                p.copy_(torch.sin(torch.arange(p.numel(), dtype=torch.float64) + k).view(p.shape))
        out = m(x, w.octree, d)
        return [out] + list(torch.autograd.grad((out ** 2).sum(), [x] + list(m.parameters())))
    a = first()
    keep = [t.detach().clone() for t in a]
    branches = [
        lambda: ocnn.modules.OctreeConvBnRelu(c, 3, [3], 1, ne).double()(x, w.octree, d),
        lambda: ocnn.modules.OctreeResBlock(c, c, 1, 1, ne).double()(x, w.octree, d),
        lambda: ocnn.modules.OctreeResBlock2(c, c, 1, 1, ne).double()(x, w.octree, d),
        lambda: ocnn.nn.OctreeMaxPool(ne)(x, w.octree, d),
        lambda: ocnn.nn.OctreeAvgPool([2], 2, ne)(x, w.octree, d),
        lambda: ocnn.nn.OctreeInstanceNorm(c, ne).double()(x, w.octree, d),
        lambda: ocnn.nn.OctreeDropPath(0.5, ne)(x, w.octree, d),
        lambda: ocnn.nn.OctreeDWConv(c, [3], 1, ne).double()(x, w.octree, d),
        lambda: ocnn.nn.OctreeUpsample('linear', ne)(x, w.octree, d, w.depth),
        lambda: ocnn.modules.Conv1x1BnRelu(c, 3).double()(x),
        lambda: ocnn.nn.OctreeInterp('linear', ne)(x, w.octree, d, T(np.array([[0., 0, 0, 0]]))),
        lambda: ocnn.nn.octree2voxel(x, w.octree, min(d, 4), ne) if d <= 4 else x * 1,
    ]
    if w.ref.nnum(d, ne) >= 4:
        for j in rng.integers(0, len(branches), 6):
            out = branches[j]()
            if out.requires_grad:
                (out * 2).sum().backward()
            with torch.no_grad():
                if j not in (6, 8):      # the caller may do with a result as it likes
                    out.detach().mul_(0.0)
            chain.append(int(j))
            mon.ev('branches')
    mon.equal(x, kx, 'feature_changed', str(chain))
    same(mon, whole, snap(w.octree), 'octree_changed', str(chain))
    compare(mon, [t.detach() for t in a], keep, 'earlier_result_changed', str(chain))
    compare(mon, [t.detach() for t in first()], keep, 'reuse', str(chain))
    mon.state('reuse', chain, w.ref.keys[w.depth])


def c25_points(case, rng, mon):
    """In-place methods edit the cloud, never the tensors it was made from."""
    n = int(rng.integers(1, 80))
    t = lambda *s: torch.from_numpy(rng.uniform(-0.9, 0.9, s).astype(np.float32))
    ts = [t(n, 3), t(n, 3), t(n, 2), t(n, 1), T(np.sort(rng.integers(0, 3, (n, 1)), 0))]
    keep = [x.clone() for x in ts]
    p = Points(*ts, batch_size=3)
    other = Points(*ts, batch_size=3)
    done = []
    ops = {
        'flip': lambda: p.flip(['x', 'yz', 'xyz'][rng.integers(3)]),
        'rotate': lambda: p.rotate(t(3) * 3),
        'translate': lambda: p.translate(t(3)),
        'scale': lambda: p.scale(torch.tensor([0.5, 2.0, 1.5])),
        'orient_normal': lambda: p.orient_normal(['x', 'y', 'z', 'xyz'][rng.integers(4)]),
        'clip': lambda: p.clip(-0.7, 0.7),
        'normalize': lambda: p.normalize(p.bbox()[0], torch.tensor(2.0)) if False else None,
    }
    for _ in range(5):
        k = list(ops)[rng.integers(len(ops))]
        if p.points.shape[0] == 0:
            break
        ops[k]()
        done.append(k)
        mon.ev('edits')
    o = Octree(4, 2, 3)
    if p.points.shape[0]:
        p.points.clamp_(-1, 1) if False else None
        q = p[p.inbox_mask(-1, 1)]
        if q.points.shape[0]:
            s = snap(q)
            o.build_octree(q)
            o.construct_all_neigh()
            same(mon, s, snap(q), 'build_changes_cloud')
    for a, b in zip(ts, keep):
        mon.equal(a, b, 'source_tensor_changed', str(done))
    mon.equal(other.points, keep[0], 'other_cloud_changed', str(done))
    mon.equal(other.normals, keep[1], 'other_cloud_changed', str(done))
    mon.state('points', n, done)


def c25_containers(case, rng, mon):
    """Lists and dictionaries of tensors handed to the parts of networks, and lists of samples."""
    depth = int(rng.integers(4, 6))
    s = M.scene(rng, depth, int(rng.integers(1, 3)), int(rng.integers(1, 3)), 25, kinds=['uniform', 'sphere'])
    o, ref, ne = s.octree, s.ref, bool(rng.integers(2))
    num = int(rng.integers(2, depth - 1))
    ch = [int(c) * 4 for c in rng.integers(1, 4, num)]
    H = ocnn.models.hrnet
    x = [T(rng.normal(size=(ref.nnum(depth - i, ne), ch[i]))) for i in range(num)]
    ev = lambda m: M.randomize(rng, m.double()).train(bool(rng.random() < 0.3))
    unet, cfg = M.network(rng, 'unet', depth, ne)
    unet = M.no_dropout(ev(unet))
    ou = ev(M.generative(rng, 'ounet', 4, 3, depth, s.fd, 'ND'))
    convd = unet.unet_encoder(T(rng.normal(size=(ref.nnum(depth, ne), cfg['cin']))), o, depth)
    convs = ou.encoder(o)
    parts = [M.scene(rng, depth, s.fd, 1, 20) for _ in range(3)]
    octs = [p.octree for p in parts]
    pts = [cloud_points(rng, False) for _ in range(3)]
    batch = [{'octree': octs[i], 'points': pts[i], 'label': i, 'filename': 'f%d' % i,
              'v': torch.ones(2) * i} for i in range(3)]
    calls = [
        ('Branches', lambda a: ev(H.Branches(ch, 1, ne))(a, o, depth), x),
        ('Transitions', lambda a: ev(H.Transitions(ch, ne))(a, o, depth), x[:-1]),
        ('ClsHeader', lambda a: ev(H.ClsHeader(ch, 3, ne))(a, o, depth), x),
        ('unet_decoder', lambda a: unet.unet_decoder(a, o, depth - unet.encoder_stages), convd),
        ('ounet_decoder', lambda a: ou.decoder(a, o, o, False)['signal'], convs),
        ('ounet_decoder_free', lambda a: ou.decoder(a, o, ou.init_octree(o), True)['signal'], convs),
        ('merge_octrees', lambda a: merge_octrees(a), octs),
        ('merge_points', lambda a: merge_points(a), pts),
        ('CollateBatch', lambda a: ocnn.dataset.CollateBatch(bool(rng.integers(2)))(a), batch),
    ]
    for name, f, arg in calls:
        items = lambda: list(arg.items()) if isinstance(arg, dict) else list(enumerate(arg))
        ids = [(k, id(v)) for k, v in items()]
        deep = [(sorted(v), [id(v[j]) for j in sorted(v)]) if isinstance(v, dict) else None
                for _, v in items()]
        parts_ = [u for _, v in items() for u in (v.values() if isinstance(v, dict) else [v])
                  if isinstance(u, (torch.Tensor, Octree, Points))]
        before = snap(o, *parts_)
        with torch.set_grad_enabled(bool(rng.integers(2))):
            f(arg)
        mon.ok([(k, id(v)) for k, v in items()] == ids, 'container_changed', name)
        mon.ok([(sorted(v), [id(v[j]) for j in sorted(v)]) if isinstance(v, dict) else None
                for _, v in items()] == deep, 'container_changed', name)
        same(mon, before, snap(o, *parts_), 'contents_changed', name)
        mon.ev('container.' + name)
    # kernel lists stay the caller's own, and those shared as default arguments stay as written
    ks = [int(v) for v in rng.choice([1, 2, 3, 3], int(rng.integers(1, 4)))]
    k0, full = list(ks), (ks + [ks[-1]] * 2)[:3]
    cls = [ocnn.nn.OctreeConv, ocnn.nn.OctreeDeconv, ocnn.nn.OctreeGroupConv]
    B = ocnn.modules
    makes = [lambda: cls[rng.integers(3)](2, 4, ks), lambda: ocnn.nn.OctreeDWConv(2, ks),
             lambda: ocnn.nn.OctreeAvgPool(ks, 1), lambda: B.OctreeConvBn(2, 4, ks),
             lambda: B.OctreeConvBnRelu(2, 4, ks), lambda: B.OctreeDeconvBnRelu(2, 4, ks)]
    for j in rng.permutation(len(makes))[:4]:
        m = makes[j]()
        mon.ok(ks == k0, 'kernel_list_changed', '%s: %s -> %s' % (type(m).__name__, k0, ks))
        owners = [u for u in m.modules() if hasattr(u, 'kernel_size')]
        ks.reverse()
        ks.append(9)
        mon.ok(all(list(u.kernel_size) == full for u in owners), 'kernel_list_shared',
               '%s: %s instead of %s' % (type(m).__name__, [u.kernel_size for u in owners], full))
        ks[:] = k0
        mon.ev('kernel_lists', len(owners))
    for m in (cls[0](4, 4), cls[1](4, 4), cls[2](4, 4), ocnn.nn.OctreeDWConv(4), B.OctreeConvBn(4, 4),
              B.OctreeResBlock(4, 4)):
        mon.ev('layers_with_default_kernels')
    now = list_defaults()
    for q in DEFAULTS:
        mon.ok(now[q] == DEFAULTS[q], 'default_list_changed', '%s: %s -> %s' % (q, DEFAULTS[q], now[q]))
    mon.state('containers', ch, ref.keys[depth])


KINDS['C25'] = {'containers': (c25_containers, 30, 300), 'calls': (c25_calls, 190, 2000), 'reuse': (c25_reuse, 100, 900),
                'points': (c25_points, 100, 900)}
INFO['C25'] = {'events': ['call.' + c for c in CALLS] + ['branches', 'edits', 'container.ClsHeader',
                   'container.unet_decoder', 'container.CollateBatch'], 'mult': (3, 25),
               'rule': 'Every public call (layers forward and backward in both modes, networks, '
                       'searches, conversions, merges) on built, merged and grown octrees; results '
                       'are overwritten afterwards.'}


# --------------------------------------------------------------------------- C30

def c30_repeat(case, rng, mon):
    """Again, later, with other memory contents, without gradients."""
    w, w2 = world(rng), world(rng)
    picks = [CALLS[(case['i'] * 3 + j) % len(CALLS)] for j in range(3)]
    cs = [call(rng, w, p) for p in picks]
    copies = [clone_inputs(c.inputs) for c in cs]
    from ..core import poison
    poison(False)
    first = [[t.detach().clone() for t in c.run()] for c in cs]
    for k, c in enumerate(cs):          # generators are not set back, settings not changed
        states = []
        for v in rng.integers(1, 1 << 30, 2):
            seed_all(int(v))
            c.inputs = clone_inputs(copies[k])
            with torch.set_grad_enabled(True if any(
                    isinstance(x, torch.Tensor) and x.requires_grad for x in c.inputs)
                    else bool(rng.integers(2))):
                again = c.run()
            states.append(generators())
            compare(mon, [t.detach() for t in again], first[k], 'repeat', c.name)
        if not getattr(c, 'global_rng', False):
            mon.ok(all(a != b for a, b in zip(states[0][:2], states[1][:2])) and
                   states[0][3] != states[1][3], 'generator_reseeded', c.name)
            mon.ev('generators_watched')
    for j in range(5):
        call(rng, w2 if j % 2 else w).run()
        mon.ev('calls_between')
    for flag in (True, False):
        poison(flag)        # fresh memory filled with NaN / the largest integer
        for k in rng.permutation(len(cs)):
            c = cs[int(k)]
            c.inputs = clone_inputs(copies[int(k)])
            again = c.run()
            if flag:
                for t in again:
                    if t.dtype.is_floating_point:
                        mon.ok(bool(torch.isfinite(t).all()) or
                               not bool(torch.isfinite(first[int(k)][0]).all()),
                               'uninitialised', c.name)
            compare(mon, [t.detach() for t in again], first[int(k)], 'repeat', c.name)
            mon.ev('repetitions')
            mon.ev('rep.' + picks[int(k)])
    poison(False)
    if rng.random() < 0.4:
        with torch.inference_mode():
            for k, c in enumerate(cs):
                if any(isinstance(x, torch.Tensor) and x.requires_grad for x in copies[k]):
                    continue
                ins = clone_inputs(copies[k])
                r = flat(c.fn(*ins))
                compare(mon, r, first[k], 'inference_mode', c.name)
                mon.ev('inference_mode_calls')
        c = cs[0]
        c.inputs = clone_inputs(copies[0])
        compare(mon, [t.detach() for t in c.run()], first[0], 'after_inference_mode', c.name)
    mon.state(picks, w.ref.keys[w.depth], case['i'])


def strided(rng, x):
    """A tensor equal to x over other memory: strides, offset, order of the dimensions."""
    n = x.dim()
    if n == 0:
        return x.detach().clone(), 'scalar'
    how = ['rows', 'columns', 'order', 'offset', 'expanded'][rng.integers(5)]
    if how == 'order' and n < 2:
        how = 'rows'
    if how == 'expanded' and not (x.shape[-1] == 1 or n > 1 and x.shape[0] == 1):
        how = 'rows'
    if how == 'rows':
        k = int(rng.integers(2, 4))
        v = torch.full((x.shape[0] * k,) + tuple(x.shape[1:]), 77, dtype=x.dtype)[::k]
    elif how == 'columns':
        j = int(rng.integers(0, 3))
        v = torch.full(tuple(x.shape[:-1]) + (x.shape[-1] + 3,), 77, dtype=x.dtype)
        v = v[..., j:j + x.shape[-1]]
    elif how == 'order':
        p = [int(t) for t in rng.permutation(n)]
        v = torch.full([x.shape[t] for t in p], 77, dtype=x.dtype)
        v = v.permute([p.index(t) for t in range(n)])
    elif how == 'offset':
        k = int(rng.integers(1, 9))
        v = torch.full((x.numel() + k,), 77, dtype=x.dtype)[k:].reshape(x.shape)
    else:
        ax = n - 1 if x.shape[-1] == 1 else 0
        v = torch.full(tuple(x.shape[:ax]) + (5,) + tuple(x.shape[ax + 1:]), 77, dtype=x.dtype)
        v = v.narrow(ax, 2, 1).expand(x.shape)
    v.copy_(x.detach())
    return v, how if not v.is_contiguous() or how == 'offset' else 'contiguous'


def c30_layout(case, rng, mon):
    """Equal values in another layout of memory."""
    w = world(rng)
    picks = [CALLS[(case['i'] * 3 + j) % len(CALLS)] for j in range(3)]
    for p in picks:
        c = call(rng, w, p, p in ('block', 'norm', 'network', 'generative'))
        # rows that are one view of a column, and so on: all are equal tensors
        first = [t.detach().clone() for t in c.run()]
        for rep in range(3):
            ins, moved = [], False
            for x in clone_inputs(c.inputs):
                if isinstance(x, torch.Tensor):
                    v, how = strided(rng, x)
                    mon.ev('layout.' + how)
                    ins.append(v.requires_grad_(x.requires_grad))
                    moved = True
                elif isinstance(x, Points):
                    for a in ('points', 'normals', 'features', 'labels', 'batch_id'):
                        if getattr(x, a) is not None:
                            v, how = strided(rng, getattr(x, a))
                            setattr(x, a, v)
                            mon.ev('layout.' + how)
                    ins.append(x)
                    moved = True
                elif isinstance(x, Octree):
                    for a in ('features', 'normals', 'points'):
                        fs = getattr(x, a)
                        for d in range(x.depth + 1):
                            if fs[d] is not None:
                                fs[d], how = strided(rng, fs[d])
                                moved = True
                    ins.append(x)
                else:
                    ins.append(x)
            if not moved:
                continue
            hows = []

            def g(t):
                v, how = strided(rng, t)
                hows.append(how)
                return v
            LAYOUT['grad'] = g
            try:
                again = [t.detach() for t in flat(c.fn(*ins))]
            finally:
                LAYOUT['grad'] = None
            for how in hows:
                mon.ev('layout.gradient')
            compare(mon, again, first, 'layout', '%s: equal inputs in another layout' % c.name)
            mon.ev('lay.' + p)
    mon.state(picks, w.ref.keys[w.depth], case['i'])


def c30_threads(case, rng, mon):
    """Threads on own and shared octrees against sequential execution."""
    nt = int(rng.integers(2, 7))
    shared = world(rng)
    whole = snap(shared.octree)
    jobs = []
    common = None       # the same call object (model, octree, data) in every thread
    while common is None or getattr(common, 'global_rng', False) or any(
            isinstance(x, torch.Tensor) and x.requires_grad for x in common.inputs):
        common = call(rng, shared)
    for t in range(nt):
        own = world(rng)
        cs = [(common, None)] 
        while len(cs) < 5:
            w = shared if rng.random() < 0.6 else own
            c = call(rng, w)
            if getattr(c, 'global_rng', False):       # draws from the global generator
                continue
            cs.append((c, None))
        jobs.append(cs)
    # no other workload runs in this process: one thread, then many
    want = [[[t.detach().clone() for t in c.run()] for c, _ in cs] for cs in jobs]
    got = [[None] * len(cs) for cs in jobs]
    errors = []
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    gate = threading.Barrier(nt)
    log = []

    def work(t):
        try:
            gate.wait()
            for rep in range(2):
                for k in np.roll(np.arange(len(jobs[t])), t * rep):
                    c = jobs[t][k][0]
                    log.append(t)
                    got[t][k] = [x.detach() for x in c.run()]
                    log.append(t)
        except BaseException as e:   # noqa
            import traceback
            errors.append(''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:]))
    try:
        ths = [threading.Thread(target=work, args=(t,)) for t in range(nt)]
        [t.start() for t in ths]
        [t.join() for t in ths]
    finally:
        sys.setswitchinterval(old)
    mon.ok(not errors, 'thread_error', lambda: errors[0])
    for t in range(nt):
        for k, (c, _) in enumerate(jobs[t]):
            compare(mon, got[t][k], want[t][k], 'thread', '%d threads: %s' % (nt, c.name))
            mon.ev('threaded_calls')
    same(mon, whole, snap(shared.octree), 'octree_changed')
    mon.ev('thread_switches', sum(a != b for a, b in zip(log, log[1:])))
    mon.state(log)


ORDER_SCRIPT = r"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[2]); sys.path.insert(0, sys.argv[1])
import json, numpy as np, torch
torch.set_num_threads(1)
import ocnn
from ocnnmon import core
from ocnnmon.props import system as S
core.setup_torch()
def run(spec):
    torch.manual_seed(0)
    if spec['meta']:                  # another device first
        z = torch.zeros(3, dtype=torch.long, device='meta')
        ocnn.octree.key2xyz(ocnn.octree.xyz2key(z, z, z, z, 5), 5)
    for at in spec.get('fail', []):   # first attempts that fail at operation number `at`
        from ocnnmon.props.reject import Fault, Boom
        try:
            with Fault(at):
                o = ocnn.utils.build_example_octree(4, 2)
                o.construct_all_neigh()
                o.get_neigh(3, '311', 2, True)
                ocnn.nn.OctreeConv(3, 2, [2], 2)(o.get_input_feature('P'), o, 4)
        except Boom:
            pass
        z = torch.arange(5, device='meta')
        try:
            with Fault(at % 12):
                ocnn.octree.key2xyz(ocnn.octree.xyz2key(z, z, z, z, 5), 5)
        except Boom:
            pass
        assert len(ocnn.octree.key2xyz(ocnn.octree.xyz2key(z, z, z, z, 5), 5)) == 4
    made = {}
    for k in spec['order']:           # the inputs of call k do not depend on the order
        r = np.random.default_rng([spec['seed'], k])
        torch.manual_seed(k)
        c = S.call(r, S.world(r), spec['calls'][k])
        made[k] = [core.digest(np.round(core.to_np(t).astype(np.float64), 3) + 0.0)
                   if t.numel() and not t.dtype.is_floating_point else
                   [float(v) for v in core.to_np(t).astype(np.float64).reshape(-1)[:50]]
                   for t in c.run()]
    return made

def kernels(spec):
    r = np.random.default_rng(spec['seed'])
    w = S.world(r, mode=spec['mode'])
    out = {}
    for k, s, ne in spec['order']:
        d = w.depth
        a = core.to_np(w.octree.get_neigh(d, k, s, ne))
        out['%s %d %s' % (k, s, ne)] = bool(a.shape == w.ref.neigh(d, k, s, ne).shape and
                                            (a == w.ref.neigh(d, k, s, ne)).all())
    return out

for spec in json.loads(sys.argv[3]):  # every child is the first to use the library
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            print('RESULT ' + json.dumps(kernels(spec) if 'mode' in spec else run(spec)), flush=True)
        except BaseException:
            import traceback
            print('FAILED ' + json.dumps(traceback.format_exc()[-1500:]), flush=True)
        os._exit(0)
    os.waitpid(pid, 0)
"""


def fresh(mon, specs):
    """The results of each spec in its own process that has not used the library before."""
    env = dict(os.environ, OCNN_REPO=REPO)
    p = subprocess.run([sys.executable, '-c', ORDER_SCRIPT, VERIF, REPO, json.dumps(specs)],
                       capture_output=True, text=True, env=env, timeout=200)
    lines = p.stdout.splitlines()
    bad = [l for l in lines if l.startswith('FAILED ')]
    out = [json.loads(l[7:]) for l in lines if l.startswith('RESULT ')]
    mon.ok(p.returncode == 0 and not bad and len(out) == len(specs), 'order_error',
           lambda: (bad[0] if bad else p.stderr[-1500:]))
    mon.ev('first_use_orders', len(specs))
    return out


def c30_kernels(case, rng, mon):
    """Neighbour tables of all kernels, whichever was asked for first."""
    allk = [(k, s, ne) for k in oracle.KERNELS for s in (1, 2) for ne in (False, True)]
    specs = [dict(seed=int(rng.integers(1 << 30)), mode=['batched', 'grow', 'merged'][j % 3],
                  order=[allk[int(k)] for k in rng.permutation(len(allk))]) for j in range(10)]
    for spec, out in zip(specs, fresh(mon, specs)):
        mon.ok(len(out) == len(allk), 'kernels')
        for k, good in out.items():
            mon.ok(good, 'kernels', '%s is wrong after the order %s' % (k, spec['order']))
            mon.ev('kernel_tables_in_fresh_processes')
    mon.state('kernels', [s['order'] for s in specs])


def c30_order(case, rng, mon):
    """First uses of the library in different orders, each in a fresh process."""
    n = 8
    calls = [CALLS[int(k)] for k in rng.permutation(len(CALLS))[:n]]
    seed = int(rng.integers(1 << 30))
    m = 6
    specs = [dict(seed=seed, calls=calls, meta=bool(j % 2),
                  order=[int(v) for v in (range(n) if j == 0 else rng.permutation(n))])
             for j in range(m)]
    out = fresh(mon, specs)
    for k, j in [(k, j) for j in range(1, m) for k in range(n)]:
        a, b = out[0][str(k)], out[j][str(k)]
        mon.ok(len(a) == len(b), 'order', calls[k])
        for x, y in zip(a, b):
            if isinstance(x, str) or isinstance(y, str):
                mon.ok(x == y, 'order', '%s: results differ' % calls[k])
            else:
                mon.close(np.array(y), np.array(x), 'order', calls[k], rtol=1e-3,
                          atol=1e-6, scale=max([abs(v) for v in x] + [0]))
    mon.state(calls, seed)


KINDS['C30'] = {'repeat': (c30_repeat, 100, 1000), 'layout': (c30_layout, 60, 600),
                'threads': (c30_threads, 40, 400),
                'order': (c30_order, 3, 16), 'kernels': (c30_kernels, 1, 6)}
INFO['C30'] = {'events': ['rep.' + c for c in CALLS] + ['layout.rows', 'layout.columns', 'layout.order', 'layout.offset',
                                                               'layout.expanded', 'layout.gradient',
                                                               'threaded_calls', 'thread_switches',
                                                        'inference_mode_calls', 'first_use_orders',
                                                        'kernel_tables_in_fresh_processes'],
               'mult': (4, 25),
               'rule': 'Every public call repeated after other calls, with poisoned fresh memory, in '
                       'inference mode, in 2-6 threads on own and shared octrees (switch interval '
                       '1 us), and as first call of a fresh process in permuted orders.'}


# --------------------------------------------------------------------------- C31

def c31_scatter(case, rng, mon):
    for _ in range(6):
        nd = int(rng.integers(1, 4))
        shape = [int(v) for v in rng.integers(1, 7, nd)]
        dim = int(rng.integers(nd))
        if rng.random() < 0.1:
            shape[dim] = 0
        neg = bool(rng.integers(2))
        dt = [torch.float32, torch.float64, torch.int64, torch.int32][rng.integers(4)]
        src = torch.from_numpy(rng.integers(-20, 20, shape)).to(dt)
        form = rng.integers(3)
        hi = int(rng.integers(1, 8))
        if form == 0:           # one index per position along dim
            idx = rng.integers(0, hi, shape[dim])
        elif form == 1:         # full
            idx = rng.integers(0, hi, shape)
        else:                   # leading axes given, trailing ones broadcast
            idx = rng.integers(0, hi, shape[:dim + 1])
        full = np.asarray(idx)
        if full.ndim == 1:
            full = full.reshape([1] * dim + [-1])
        full = full.reshape(full.shape + (1,) * (nd - full.ndim))
        full = np.broadcast_to(full, shape)
        size = {0: None, 1: hi, 2: hi + int(rng.integers(1, 4))}[int(rng.integers(3))]
        top = size if size is not None else (int(full.max()) + 1 if full.size else 0)
        base, out = np.zeros([top if a == dim else s for a, s in enumerate(shape)]), None
        use_out = rng.random() < 0.25 and size is not None
        if use_out:
            base = rng.integers(-5, 5, base.shape).astype(float)
            out = torch.from_numpy(base.copy()).to(dt)
        e = base.copy()
        for pos in np.ndindex(*shape):
            t = list(pos)
            t[dim] = full[pos]
            e[tuple(t)] += float(src[pos])
        d = dim - nd if neg else dim
        ks, ki = src.clone(), T(idx)
        if not full.size and size is None and False:
            continue
        got = ocnn.utils.scatter_add(src, T(idx), d, out, None if use_out else size)
        mon.equal(N(got), e, 'scatter_add', 'shape %s dim %d form %d' % (shape, d, form))
        mon.ok(got.dtype == dt, 'scatter_add.dtype')
        if use_out:
            mon.equal(N(out), e, 'scatter_add.out')
        mon.equal(src, ks, 'scatter_add.src')
        b = ocnn.utils.broadcast(ki, src, d)
        mon.equal(b, full, 'broadcast', 'shape %s dim %d form %d' % (shape, d, form))
        if dt.is_floating_point and full.size:
            s = src.clone().requires_grad_(True)
            r = ocnn.utils.scatter_add(s, T(idx), d, None, size)
            g = torch.from_numpy(rng.integers(-9, 9, tuple(r.shape))).to(dt)
            r.backward(g)
            ge = np.take_along_axis(N(g), full, dim)
            mon.equal(N(s.grad), ge, 'scatter_add.grad')
        mon.ev('scatter_adds')
        mon.state('scatter', shape, dim, form, idx)


def N(t):
    return to_np(t).astype(np.float64)


def c31_misc(case, rng, mon):
    nd = int(rng.integers(1, 4))
    shape = [int(v) for v in rng.integers(1, 7, nd)]
    if rng.random() < 0.1:
        shape[int(rng.integers(nd))] = 0
    dim = int(rng.integers(nd))
    dt = [torch.float32, torch.float64, torch.int64, torch.int32][rng.integers(4)]
    x = torch.from_numpy(rng.integers(-9, 9, shape)).to(dt)
    kx = x.clone()
    d = dim - nd if rng.integers(2) else dim
    c = np.cumsum(N(x), dim)
    mon.equal(N(ocnn.utils.cumsum(x, d)), c, 'cumsum')
    mon.equal(N(ocnn.utils.cumsum(x, d, False)), c, 'cumsum')
    z = np.zeros([1 if a == dim else s for a, s in enumerate(shape)])
    ex = ocnn.utils.cumsum(x, d, exclusive=True)
    mon.equal(N(ex), np.concatenate([z, c], dim), 'cumsum.exclusive', 'shape %s dim %d' % (shape, d))
    mon.ok(ex.dtype == torch.cumsum(x, d).dtype, 'cumsum.dtype')
    mon.equal(x, kx, 'cumsum.input')
    mon.ev('cumsums')

    a = rng.integers(-1000, 1000, 50)
    b = rng.integers(1, 40, 50) * rng.choice([-1, 1], 50)
    mon.equal(ocnn.utils.trunc_div(T(a), T(b)), np.trunc(a / b).astype(np.int64), 'trunc_div')
    k = int(rng.integers(1, 20))
    mon.equal(ocnn.utils.trunc_div(T(a), k), np.trunc(a / k).astype(np.int64), 'trunc_div')
    mon.ok(ocnn.utils.trunc_div(T(a), k).dtype == torch.int64, 'trunc_div.dtype')
    f = rng.integers(-900, 900, 50) / 8.0
    mon.equal(ocnn.utils.trunc_div(T(f), 2.5), np.trunc(f / 2.5), 'trunc_div.float')
    mon.ev('divisions')

    lo = int(rng.integers(-4, 4))
    hi = lo + int(rng.integers(0, 5))
    r = np.arange(lo, hi + 1)
    g = np.stack(np.meshgrid(r, r, r, indexing='ij'), -1).reshape(-1, 3)
    got = ocnn.utils.range_grid(lo, hi)
    mon.equal(got, g, 'range_grid')
    mon.ok(got.dtype == torch.int64, 'range_grid.dtype')
    ax = [T(rng.normal(size=int(rng.integers(1, 5)))) for _ in range(int(rng.integers(1, 4)))]
    for ix in ('ij', 'xy'):
        e = np.meshgrid(*[to_np(t) for t in ax], indexing=ix)
        got = ocnn.utils.meshgrid(*ax, indexing=ix)
        mon.ok(len(got) == len(e), 'meshgrid')
        for p, q in zip(got, e):
            mon.equal(p, q, 'meshgrid', ix)
    mon.ev('grids')

    num = int(rng.integers(1, 6))
    li = [int(v) for v in rng.integers(0, 9, int(rng.integers(1, num + 1)))]
    e = li + [li[-1]] * (num - len(li))
    mon.ok(ocnn.utils.resize_with_last_val(list(li), num) == e, 'resize_with_last_val', str(li))
    l3 = li[:3]
    mon.ok(ocnn.utils.resize_with_last_val(list(l3)) == l3 + [l3[-1]] * (3 - len(l3)),
           'resize_with_last_val', str(l3))
    try:
        ocnn.utils.resize_with_last_val(list(range(num + 1)), num)
    except AssertionError:
        pass
    else:
        mon.ok(False, 'resize_with_last_val.long')
    mon.ok(ocnn.utils.list2str(li) == ''.join(map(str, li)), 'list2str')
    mon.ok(ocnn.utils.list2str(['a', 3, 2.5]) == 'a32.5', 'list2str')
    mon.ev('lists')
    mon.state('misc', shape, dim, a, f, li)


def c31_xavier(case, rng, mon):
    kd, ci, co = int(rng.choice([1, 3, 8, 9, 27])), int(rng.integers(1, 40)), int(rng.integers(1, 40))
    w = torch.full((kd, ci, co), 77.0, dtype=[torch.float32, torch.float64][rng.integers(2)])
    ocnn.utils.xavier_uniform_(w)
    check_uniform(mon, w, np.sqrt(6.0 / (kd * ci + kd * co)), 'xavier')
    ci, co = int(rng.integers(4, 33)), int(rng.integers(4, 33))
    kern = oracle.KERNELS[rng.integers(8)]
    kl = [int(v) for v in kern]
    kd = int(np.prod(kl))
    for m, a in ((ocnn.nn.OctreeConv(ci, co, kl, use_bias=True), (ci, co)),
                 (ocnn.nn.OctreeDeconv(ci, co, kl, use_bias=True), (ci, co))):
        mon.ok(tuple(m.weights.shape)[0] == kd and m.weights.numel() == kd * ci * co, 'weights.shape')
        check_uniform(mon, m.weights, np.sqrt(6.0 / (kd * sum(a))), type(m).__name__)
        mon.ok(not bool(m.bias.any()), 'bias.init')
    mon.state('xavier', kd, ci, co, kern)


def check_uniform(mon, w, a, key):
    v = np.sort(N(w).reshape(-1)) / a
    n = v.size
    mon.ok(np.abs(v).max() <= 1 + 1e-6, key + '.bound', 'max %g of the bound' % np.abs(v).max())
    # Kolmogorov-Smirnov distance to the uniform distribution, far out in the tail (p ~ 1e-12)
    if n >= 30:
        ks = np.abs((v + 1) / 2 - (np.arange(n) + 0.5) / n).max()
        mon.ok(ks < 3.8 / np.sqrt(n), key + '.uniform', 'distance %g of %d samples' % (ks, n))
        mon.ev('initialisations')


def c31_example(case, rng, mon):
    depth = int(rng.integers(1, 9))
    fd = int(rng.integers(1, min(depth, 4) + 1))
    n = int(rng.integers(1, 4))
    if case['i'] == 0:
        o, depth, fd, n = ocnn.utils.build_example_octree(), 5, 2, 3
    else:
        o = ocnn.utils.build_example_octree(depth, fd, n)
    p = np.array([[-1, -1, -1], [0, 0, -1], [0.0625, 0.0625, -1]], np.float32)[:n]
    f = np.array([[1, -1], [2, -2], [3, -3]], float)[:n]
    nn = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0]], float)[:n]
    ref = oracle.RefOctree.from_points(depth, fd, [p])
    check_tree(mon, o, ref, 'example')
    q = np.floor((p + 1) * 2.0 ** (depth - 1)).astype(np.int64)
    keys = oracle.morton(q, depth)
    u = np.unique(keys)
    mon.close(o.features[depth], np.stack([f[keys == k].mean(0) for k in u]), 'example.features')
    e = np.stack([nn[keys == k].sum(0) for k in u])
    e = e / np.maximum(np.linalg.norm(e, axis=1, keepdims=True), 1e-12)
    mon.close(o.normals[depth], e, 'example.normals')
    for bad in (0, 4):
        try:
            ocnn.utils.build_example_octree(3, 2, bad)
        except AssertionError:
            pass
        else:
            mon.ok(False, 'example.pt_num')
    mon.ev('examples')
    mon.state('example', depth, fd, n)


KINDS['C31'] = {'scatter': (c31_scatter, 200, 2000), 'misc': (c31_misc, 200, 2000),
                'xavier': (c31_xavier, 60, 600), 'example': (c31_example, 40, 400)}
INFO['C31'] = {'mult': (16, 60), 'events': ['scatter_adds', 'cumsums', 'divisions', 'grids', 'lists', 'initialisations',
                          'examples'],
               'rule': 'Random shapes, axes (from either end), index forms and element types.'}
