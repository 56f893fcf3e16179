"""C36: calling conventions, omitted arguments, functional and module forms, fresh layers."""
import os
import tempfile

import numpy as np
import torch

from .. import gen, oracle
from ..core import to_np, Violation
from .octree import T
from .system import flat, rows, check_uniform

import ocnn
import ocnn.dataset
import ocnn.models
import ocnn.modules
import ocnn.utils
from ocnn.octree import Octree, Points, merge_octrees, merge_points, init_octree, xyz2key, key2xyz

KINDS, INFO = {}, {}
NE = ('nempty', False, True)


class Entry:
    """A public callable: required arguments, documented defaults with another value each (None:
    no other value fits the same inputs), and run(nempty)(*args, **kwargs) giving tensors."""

    def __init__(self, name, req, opt, run):
        self.name, self.req, self.opt, self.run = name, req, opt, run


def internal(module, name):
    """A function that is not exported by ocnn.nn; checked as long as it is there."""
    return getattr(getattr(ocnn.nn, module, None), name, None)


def randomise(m, seed):
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for t in list(m.parameters()) + list(m.buffers()):
            if t.dtype.is_floating_point:
                t.copy_(torch.rand(t.shape, generator=g).to(t.dtype) + 0.1)
    return m


def catalogue(rng, w):
    o, ref = w.octree, w.ref
    d = int(rng.integers(1, w.depth + 1))
    dn = int(rng.integers(1, max(w.depth, 2)))          # a depth with children
    seed = int(rng.integers(1 << 30))
    train = bool(rng.integers(2))
    xs = {(ne, e, c): rows(rng, ref, e, ne, c, torch.float64) + 0.5
          for ne in (False, True) for e in {d, dn, w.depth} for c in (2, 4)}

    def module(cls, c=4, depth=d, extra=(), training=False):
        def run(ne):
            def f(*a, **k):
                torch.manual_seed(seed)
                m = randomise(cls(*a, **k), seed).double().train(training)
                torch.manual_seed(seed)
                return flat(m(xs[ne, depth, c].clone(), o, depth, *extra))
            return f
        return run

    def func(fn, c=4, depth=d, data=True):
        """fn(data, octree, depth, ...): those three are required arguments."""
        def run(ne):
            def f(*a, **k):
                return flat(fn(*a, **k))
            return f
        return run

    def x(ne, depth=d, c=4):
        return xs[ne, depth, c].clone()

    E = []

    def add(name, req, opt, run):
        E.append(Entry(name, req, opt, run))

    conv_opt = [('kernel_size', [3], [3, 1]), ('stride', 1, 2), NE]
    io = [('in_channels', 4), ('out_channels', 4)]
    big = int(2e8)
    add('OctreeConv', io, conv_opt + [('direct_method', False, True), ('use_bias', False, True),
                                      ('max_buffer', big, 1000)], module(ocnn.nn.OctreeConv))
    if w.depth >= 2:
        add('OctreeDeconv', io, conv_opt + [('direct_method', False, True), ('use_bias', False, True),
                                            ('max_buffer', big, 1000)],
            module(ocnn.nn.OctreeDeconv, depth=dn))
    add('OctreeDWConv', io[:1], conv_opt + [('use_bias', False, True), ('max_buffer', big, 1000)],
        module(ocnn.nn.OctreeDWConv))
    add('OctreeGroupConv', io, conv_opt + [('use_bias', False, True), ('group', 1, 2)],
        module(ocnn.nn.OctreeGroupConv))
    add('OctreeMaxPool', [], [NE, ('return_indices', False, True)], module(ocnn.nn.OctreeMaxPool))
    add('OctreeAvgPool', [('kernel_size', [2]), ('stride', 2)], [NE], module(ocnn.nn.OctreeAvgPool))
    add('OctreeGlobalPool', [], [NE], module(ocnn.nn.OctreeGlobalPool))
    add('OctreeGroupNorm', [('in_channels', 4), ('group', 2)], [NE], module(ocnn.nn.OctreeGroupNorm))
    add('OctreeInstanceNorm', [('in_channels', 4)], [NE], module(ocnn.nn.OctreeInstanceNorm))
    add('OctreeDropPath', [('drop_prob', 0.5)], [NE, ('scale_by_keep', True, False)],
        module(ocnn.nn.OctreeDropPath, training=True))
    add('OctreeDropPath.prob', [], [('drop_prob', 0.0, 0.7), NE, ('scale_by_keep', True, False)],
        module(ocnn.nn.OctreeDropPath, training=True))
    pts = rng.uniform(-1.1, 1.1, (40, 3))
    q = T(np.concatenate([pts, rng.integers(0, w.batch, (40, 1))], 1))
    qi = q.clone()
    qi[:, :3] = (q[:, :3] + 1) * 2.0 ** (d - 1)
    add('OctreeInterp', [], [('method', 'linear', 'nearest'), NE, ('bound_check', False, True),
                             ('rescale_pts', True, False)], module(ocnn.nn.OctreeInterp, extra=(q,)))
    add('OctreeUpsample', [], [('method', 'linear', 'nearest'), NE],
        module(ocnn.nn.OctreeUpsample, depth=dn if w.depth >= 2 else d,
               extra=(w.depth,) if w.depth < 2 or rng.integers(2) else ()))
    if d <= 4:
        add('Octree2Voxel', [], [NE], module(ocnn.nn.Octree2Voxel))

    def f3(fn, name, opt, extra=(), depth=d):
        # data depends on the row convention, so it is bound when the call is made
        def run(ne):
            def f(*a, **k):
                k = dict(k)
                if 'data' in k:
                    k['data'] = x(ne, depth)
                    return flat(fn(**k))
                return flat(fn(x(ne, depth), *a[1:], **k))
            return f
        add(name, [('data', 0), ('octree', o), ('depth', depth)] + list(extra), opt, run)

    f3(ocnn.nn.octree_max_pool, 'octree_max_pool', [NE, ('return_indices', False, True)])
    f3(ocnn.nn.octree_avg_pool, 'octree_avg_pool', [('stride', 2, None), NE], [('kernel', '222')])
    f3(ocnn.nn.octree_global_pool, 'octree_global_pool', [NE])
    f3(ocnn.nn.octree_linear_pts, 'octree_linear_pts', [NE, ('bound_check', False, True)], [('pts', qi)])
    f3(ocnn.nn.octree_nearest_pts, 'octree_nearest_pts', [NE, ('bound_check', False, True)], [('pts', qi)])
    f3(ocnn.nn.octree2col, 'octree2col', [('kernel_size', '333', '311'), ('stride', 1, 2), NE])
    if d <= 4:
        f3(ocnn.nn.octree2voxel, 'octree2voxel', [NE])
    near = internal('octree_interp', 'octree_nearest_upsample')
    if w.depth >= 2 and near:
        f3(near, 'octree_nearest_upsample', [NE], depth=dn)

    n0 = ref.neigh(d, '333', 1, False).shape
    add('col2octree', [('data', T(rng.normal(size=n0 + (2,)))), ('octree', o), ('depth', d)],
        [('kernel_size', '333', None), ('stride', 1, None), ('nempty', False, None)],
        lambda ne: lambda *a, **k: flat(ocnn.nn.col2octree(*a, **k)))
    xd = rows(rng, ref, d, True, 3)
    add('octree_pad', [('data', xd), ('octree', o), ('depth', d)], [('val', 0.0, 2.5)],
        lambda ne: lambda *a, **k: flat(ocnn.nn.octree_pad(*a, **k)))
    o2 = gen.world(rng, depth=w.depth, full_depth=w.full_depth, batch=w.batch, mode='batched',
                   nmax=40, neigh=False).octree

    def align(ne):
        def f(*a, **k):
            k = dict(k)
            if 'value' in k:
                k['value'] = x(ne)
                return flat(ocnn.nn.octree_align(**k))
            return flat(ocnn.nn.octree_align(x(ne), *a[1:], **k))
        return f
    add('octree_align', [('value', 0), ('octree', o), ('octree_query', o2), ('depth', d)], [NE], align)

    # the octree
    def method(name):
        return lambda ne: lambda *a, **k: flat(getattr(o, name)(*a, **k))
    add('Octree.key', [('depth', d)], [NE], method('key'))
    add('Octree.xyzb', [('depth', d)], [NE], method('xyzb'))
    add('Octree.batch_id', [('depth', d)], [NE], method('batch_id'))
    add('Octree.get_neigh', [('depth', d)], [('kernel', '333', '311'), ('stride', 1, 2), NE],
        method('get_neigh'))
    add('Octree.search_xyzb', [('query', qi), ('depth', d)], [NE], method('search_xyzb'))
    keys = T(ref.key(d, False))
    add('Octree.search_key', [('query', keys), ('depth', d)], [NE], method('search_key'))
    if o.points[w.depth] is not None:
        add('Octree.to_points', [], [('rescale', True, False)], method('to_points'))
        add('Octree.get_input_feature', [('feature', 'L')], [NE], method('get_input_feature'))
        add('InputFeature', [], [('feature', 'NDF', 'L')] + [NE],
            lambda ne: lambda *a, **k: flat(ocnn.modules.InputFeature(*a, **k)(o)))

    def describe(t):
        return [torch.tensor([t.depth, t.full_depth, t.batch_size])] + flat(t)
    add('Octree', [('depth', 4)], [('full_depth', 2, 3), ('batch_size', 1, 3), ('device', 'cpu', None)],
        lambda ne: lambda *a, **k: [torch.tensor([getattr(Octree(*a, **k), n) for n in (
            'depth', 'full_depth', 'batch_size')])])
    add('init_octree', [('depth', 4)], [('full_depth', 2, 3), ('batch_size', 1, 3), ('device', 'cpu', None)],
        lambda ne: lambda *a, **k: describe(init_octree(*a, **k)))

    def grow(name, first):
        def run(ne):
            def f(*a, **k):
                t = Octree(4, 2, 2)
                for e in range(first):
                    if e <= 2:
                        t.octree_grow_full(e, True)
                if name == 'octree_grow':
                    t.octree_split(T(np.arange(int(t.nnum[2])) % 3 == 0).long(), 2)
                getattr(t, name)(*a, **k)
                return describe(t)
            return f
        return run
    add('Octree.octree_grow', [('depth', 3)], [('update_neigh', True, False)], grow('octree_grow', 3))
    add('Octree.octree_grow_full', [('depth', 2)], [('update_neigh', True, False)],
        grow('octree_grow_full', 2))

    # keys
    cx = [T(rng.integers(0, 1 << 16, 30)) for _ in range(3)]
    add('xyz2key', [('x', cx[0]), ('y', cx[1]), ('z', cx[2])],
        [('b', None, T(rng.integers(0, 9, 30))), ('depth', 16, 12)],
        lambda ne: lambda *a, **k: flat(xyz2key(*a, **k)))
    add('key2xyz', [('key', T(rng.integers(0, 1 << 48, 30)))], [('depth', 16, 12)],
        lambda ne: lambda *a, **k: flat(key2xyz(*a, **k)))

    # points
    P = T(rng.uniform(-1.6, 1.6, (30, 3)).astype(np.float32))
    extra = [T(rng.normal(size=(30, c)).astype(np.float32)) for c in (3, 2, 1)]

    def mk(**k):
        return Points(P.clone(), *[t.clone() for t in extra], **k)
    add('Points', [('points', P)], [('normals', None, extra[0]), ('features', None, extra[1]),
                                    ('labels', None, extra[2]),
                                    ('batch_id', None, T(np.zeros((30, 1), np.int64))),
                                    ('batch_size', 1, 4)],
        lambda ne: lambda *a, **k: flat(Points(*a, **k)))

    def pm(name):
        def run(ne):
            def f(*a, **k):
                p = mk()
                r = getattr(p, name)(*a, **k)
                return flat([p] + ([] if r is None or isinstance(r, Points) else [r]))
            return f
        return run
    add('Points.orient_normal', [], [('axis', 'x', 'xyz')], pm('orient_normal'))
    add('Points.clip', [], [('min', -1.0, -0.5), ('max', 1.0, 0.5), ('esp', 0.01, 0.2)], pm('clip'))
    add('Points.inbox_mask', [], [('bbmin', -1.0, -0.5), ('bbmax', 1.0, 0.3)], pm('inbox_mask'))
    add('Points.normalize', [('bbmin', torch.tensor([-1., -2, -1])), ('bbmax', torch.tensor([2., 2, 1]))],
        [('scale', 1.0, 0.8)], pm('normalize'))

    def save(ne):
        def f(*a, **k):
            with tempfile.TemporaryDirectory() as tmp:
                name = os.path.join(tmp, 'p')
                for suffix in ('.npz', '.xyz'):
                    try:
                        if 'filename' in k:
                            mk().save(**dict(k, filename=name + suffix))
                        else:
                            mk().save(name + suffix, *a[1:], **k)
                    except ValueError:
                        continue
                out = []
                for fn in sorted(os.listdir(tmp)):
                    raw = np.load(os.path.join(tmp, fn)) if fn.endswith('npz') else {
                        'xyz': np.loadtxt(os.path.join(tmp, fn))}
                    out += [T(np.asarray(raw[n], np.float64)) for n in sorted(raw.keys())]
            return out
        return f
    add('Points.save', [('filename', 0)], [('info', 'PNFL', 'PN')], save)
    add('merge_points', [('points', [mk(), mk()])], [('update_batch_info', True, False)],
        lambda ne: lambda *a, **k: flat(merge_points(*a, **k)))

    # utilities
    t = T(rng.normal(size=(5, 4, 3)))
    add('cumsum', [('data', t), ('dim', 1)], [('exclusive', False, True)],
        lambda ne: lambda *a, **k: flat(ocnn.utils.cumsum(*a, **k)))
    add('scatter_add', [('src', t), ('index', T(rng.integers(0, 3, (5, 4, 3))))],
        [('dim', -1, 0), ('out', None, None), ('dim_size', None, 6)],
        lambda ne: lambda *a, **k: flat(ocnn.utils.scatter_add(*a, **k)))
    add('resize_with_last_val', [('list_in', [3, 2])], [('num', 3, 5)],
        lambda ne: lambda *a, **k: flat(ocnn.utils.resize_with_last_val(*[
            list(v) if isinstance(v, list) else v for v in a], **{
            n: list(v) if isinstance(v, list) else v for n, v in k.items()})))
    add('range_grid', [('min', -1), ('max', 2)], [('device', 'cpu', None)],
        lambda ne: lambda *a, **k: flat(ocnn.utils.range_grid(*a, **k)))
    add('build_example_octree', [], [('depth', 5, 4), ('full_depth', 2, 3), ('pt_num', 3, 2)],
        lambda ne: lambda *a, **k: describe(ocnn.utils.build_example_octree(*a, **k)))

    # blocks
    mo = ocnn.modules
    for name in ('OctreeConvBn', 'OctreeConvBnRelu', 'OctreeDeconvBnRelu'):
        if 'Deconv' in name and w.depth < 2:
            continue
        add(name, io, conv_opt, module(getattr(mo, name), depth=dn if 'Deconv' in name else d))
    rb = [('stride', 1, 2), ('bottleneck', 4, 2), NE]
    add('OctreeResBlock', io, rb, module(mo.OctreeResBlock))
    add('OctreeResBlock2', io, [('stride', 1, 2), ('bottleneck', 1, 2), NE], module(mo.OctreeResBlock2))
    add('OctreeResBlocks', io + [('resblk_num', 2)],
        [('bottleneck', 4, 2), NE, ('resblk', mo.OctreeResBlock, mo.OctreeResBlock2),
         ('use_checkpoint', False, True)], module(mo.OctreeResBlocks))
    xl = T(rng.normal(size=(7, 4)))

    def lin(ne):
        def f(*a, **k):
            return flat(randomise(mo.Conv1x1(*a, **k), seed).double()(xl.clone()))
        return f
    add('Conv1x1', io, [('use_bias', False, True)], lin)
    return E


def network_catalogue(rng):
    """Networks, on a small tree with full data."""
    depth = 5
    w = gen.world(rng, depth=depth, full_depth=2, batch=2, mode='batched', nmax=60,
                  max_nodes=20000)
    while any(w.octree.nnum_nempty[d] == 0 for d in range(depth + 1)) or w.octree.normals[depth] is None:
        w = gen.world(rng, depth=depth, full_depth=2, batch=2, mode='batched', nmax=60, max_nodes=20000)
    o, ref = w.octree, w.ref
    seed = int(rng.integers(1 << 30))
    x = {ne: rows(rng, ref, depth, ne, 3, torch.float32) for ne in (False, True)}
    q = T(np.concatenate([rng.uniform(-1, 1, (30, 3)), rng.integers(0, 2, (30, 1))], 1)).float()

    def net(cls, extra=()):
        def run(ne):
            def f(*a, **k):
                torch.manual_seed(seed)
                m = cls(*a, **k).eval()
                with torch.no_grad():
                    return flat(m(x[ne].clone(), o, depth, *extra))
            return f
        return run
    mo = ocnn.models
    io = [('in_channels', 3), ('out_channels', 4)]
    interp = ('interp', 'linear', 'nearest')
    E = [Entry('LeNet', io + [('stages', 3)], [NE], net(mo.LeNet)),
         Entry('ResNet', io + [('resblock_num', 1), ('stages', 2)], [NE], net(mo.ResNet)),
         Entry('SegNet', io + [('stages', 2)], [interp, NE], net(mo.SegNet, (q,))),
         Entry('UNet', io, [interp, NE], net(mo.UNet, (q,))),
         Entry('HRNet', io, [('stages', 3, 2), ('interp', 'linear', None), NE], net(mo.HRNet))]

    def gen_net(cls, call):
        def run(ne):
            def f(*a, **k):
                torch.manual_seed(seed)
                m = cls(*a, **k).eval()
                with torch.no_grad():
                    r = call(m)
                return flat([r['logits'], r['signal']])
            return f
        return run
    ch = o.get_input_feature('ND', nempty=False).shape[1]
    E += [Entry('AutoEncoder', [('channel_in', ch), ('channel_out', 4), ('depth', depth)],
                [('full_depth', 2, None), ('feature', 'ND', None), ('code_channel', 64, 16)],
                gen_net(mo.AutoEncoder, lambda m: m(o, False))),
          Entry('OUNet', [('channel_in', ch), ('channel_out', 4), ('depth', depth)],
                [('full_depth', 2, None), ('feature', 'ND', None)],
                gen_net(mo.OUNet, lambda m: m(o, o))),
          Entry('Image2Shape', [('channel_out', 4), ('depth', depth)],
                [('full_depth', 2, None), ('code_channel', 32, 16)],
                gen_net(mo.Image2Shape, lambda m: m(torch.ones(2, 3, 224, 224) * 0.3, o)))]
    return E


def alike(mon, got, exp, key, msg):
    mon.ok(len(got) == len(exp), key + '.count', msg)
    for a, b in zip(got, exp):
        mon.ok(a.shape == b.shape and a.dtype == b.dtype, key + '.form', lambda: '%s: %s %s instead of %s %s' % (
            msg, tuple(a.shape), a.dtype, tuple(b.shape), b.dtype))
        if a.dtype.is_floating_point:
            big = float(b.detach().abs().max()) if b.numel() else 1.0
            mon.close(a, b, key, msg, rtol=1e-5, atol=1e-6 * max(big, 1e-6))
        else:
            mon.equal(a, b, key, msg)


def differs(a, b):
    return len(a) != len(b) or any(u.shape != v.shape or not torch.equal(u, v) for u, v in zip(a, b))


def conventions(rng, mon, e):
    """All ways to write the same call."""
    pos = [v for _, v in e.req]
    kw = dict(e.req)
    base = e.run(False)(*pos)
    for n, dflt, alt in e.opt:
        alike(mon, e.run(False)(*pos, **{n: dflt}), base, 'default', '%s: %s=%r' % (e.name, n, dflt))
        mon.ev('defaults_given')
    full = {n: v for n, v, _ in e.opt}
    alike(mon, e.run(False)(**dict(kw, **full)), base, 'keywords', e.name)
    alike(mon, e.run(False)(*(pos + [v for _, v, _ in e.opt])), base, 'positional', e.name)
    mon.ev('entry.' + e.name)
    for _ in range(2):
        some = {n: alt if alt is not None and rng.integers(2) else dflt for n, dflt, alt in e.opt}
        ne = bool(some.get('nempty', False))
        try:
            r1 = e.run(ne)(**dict(kw, **some))
        except Exception as err:
            # arguments that do not fit together: the other form must reject them, too
            try:
                e.run(ne)(*(pos + [some[n] for n, _, _ in e.opt]))
            except type(err):
                mon.ev('rejected_combinations')
                continue
            mon.ok(False, 'order', '%s %r: only the call by keywords fails: %r' % (e.name, some, err))
        r2 = e.run(ne)(*(pos + [some[n] for n, _, _ in e.opt]))
        alike(mon, r2, r1, 'order', '%s %r' % (e.name, some))
        if differs(r1, base):
            mon.ev('arguments_that_matter')
    mon.state(e.name, [n for n, _, _ in e.opt])


def c36_calls(case, rng, mon):
    w = gen.world(rng, nmax=60, maxdepth=5, maxfull=3, max_nodes=5000, min_depth=1)
    E = catalogue(rng, w)
    for j in rng.choice(len(E), min(len(E), 9), replace=False):
        conventions(rng, mon, E[j])


def c36_networks(case, rng, mon):
    E = network_catalogue(rng)
    conventions(rng, mon, E[case['i'] % len(E)])
    mon.ev('networks')


def c36_forms(case, rng, mon):
    """The module and the function of each operator agree."""
    w = gen.world(rng, nmax=80, maxdepth=5, maxfull=3, max_nodes=6000, min_depth=1)
    o, ref = w.octree, w.ref
    F = ocnn.nn
    for _ in range(4):
        d = int(rng.integers(1, w.depth + 1))
        ne = bool(rng.integers(2))
        c, co = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        kern = oracle.KERNELS[rng.integers(len(oracle.KERNELS))]
        kl = [int(v) for v in kern]
        st = int(rng.integers(1, 3))
        mb = [int(2e8), 200][rng.integers(2)]
        x = rows(rng, ref, d, ne, c)
        msg = 'depth %d nempty %s kernel %s stride %d' % (d, ne, kern, st)
        pairs = []
        if not (st == 2 and not ne):      # otherwise the module pads the result
            m = F.OctreeConv(c, co, kl, st, ne, max_buffer=mb).double()
            fn = internal('octree_conv', 'octree_conv')
            if fn:
                pairs.append(('conv', m(x, o, d), fn(x, m.weights, o, d, c, co, kl, st, ne, mb)))
            m = F.OctreeDWConv(c, kl, st, ne, max_buffer=mb).double()
            fn = internal('octree_dwconv', 'octree_dwconv')
            if fn:
                pairs.append(('dwconv', m(x, o, d), fn(x, m.weights, o, d, c, kl, st, ne, mb)))
        if not (st == 2 and (d == w.depth or not ne)):
            m = F.OctreeDeconv(c, co, kl, st, ne, max_buffer=mb).double()
            fn = internal('octree_conv', 'octree_deconv')
            if fn:
                pairs.append(('deconv', m(x, o, d), fn(x, m.weights, o, d, c, co, kl, st, ne, mb)))
        p1, i1 = F.OctreeMaxPool(ne, True)(x, o, d)
        p2, i2 = F.octree_max_pool(x, o, d, ne, True)
        pairs += [('maxpool', p1, p2), ('maxpool', i1, i2),
                  ('maxpool', F.OctreeMaxPool(ne)(x, o, d), p2),
                  ('unpool', F.OctreeMaxUnpool(ne)(p1, i1, o, d - 1), F.octree_max_unpool(p2, i2, o, d - 1, ne)),
                  ('avgpool', F.OctreeAvgPool(kl, st, ne)(x, o, d), F.octree_avg_pool(x, o, d, kern, st, ne)),
                  ('globalpool', F.OctreeGlobalPool(ne)(x, o, d), F.octree_global_pool(x, o, d, ne))]
        if d <= 4:
            pairs.append(('voxel', F.Octree2Voxel(ne)(x, o, d), F.octree2voxel(x, o, d, ne)))
        fn = internal('octree_interp', 'octree_nearest_upsample')
        if d < w.depth and fn:
            pairs.append(('upsample', F.OctreeUpsample('nearest', ne)(x, o, d), fn(x, o, d, ne)))
        bc = bool(rng.integers(2))
        # coordinates that are exact under the change of scale
        p = rng.integers(-300, 301, (30, 3)) / 256.0
        q = T(np.concatenate([p, rng.integers(0, w.batch, (30, 1))], 1))
        qs = q.clone()
        qs[:, :3] = (q[:, :3] + 1) * 2.0 ** (d - 1)
        for meth, fn in (('linear', F.octree_linear_pts), ('nearest', F.octree_nearest_pts)):
            e = fn(x, o, d, qs, ne, bc)
            pairs += [('interp', F.OctreeInterp(meth, ne, bc, True)(x, o, d, q), e),
                      ('interp', F.OctreeInterp(meth, ne, bc, False)(x, o, d, qs), e)]
        for key, a, b in pairs:
            alike(mon, [a], [b], 'form.' + key, msg)
            mon.ev('forms.' + key)
        feat = 'L' if o.points[w.depth] is None else 'NDLP'[:int(rng.integers(1, 5))]
        if o.points[w.depth] is not None and (o.normals[w.depth] is not None or feat == 'L'):
            alike(mon, flat(ocnn.modules.InputFeature(feat, ne)(o)), flat(o.get_input_feature(feat, ne)),
                  'form.input', feat)
            mon.ev('forms.input')
        mon.state('forms', msg, c, co, ref.keys[w.depth])


def c36_fresh(case, rng, mon):
    """Layers start with the documented values, and reset_parameters draws them anew."""
    F = ocnn.nn
    kern = oracle.KERNELS[rng.integers(len(oracle.KERNELS))]
    kl = [int(v) for v in kern]
    kd = int(np.prod(kl))
    g = int(rng.integers(1, 5))
    ci, co = g * int(rng.integers(1, 9)), g * int(rng.integers(1, 9))
    seed = int(rng.integers(1 << 30))
    bias = bool(rng.integers(2))
    cases = [
        ('conv', lambda: F.OctreeConv(ci, co, kl, 1, False, False, bias), kd * (ci + co)),
        ('deconv', lambda: F.OctreeDeconv(ci, co, kl, 1, False, True, bias), kd * (ci + co)),
        ('dwconv', lambda: F.OctreeDWConv(ci, kl, 1, False, bias), None),
        ('gconv', lambda: F.OctreeGroupConv(ci, co, kl, 1, False, bias, g), kd * (ci + co) // g),
        ('groupnorm', lambda: F.OctreeGroupNorm(ci, g), 0),
        ('instancenorm', lambda: F.OctreeInstanceNorm(ci), 0)]
    for name, make, fan in cases:
        torch.manual_seed(seed)
        m = make()
        torch.manual_seed(seed)
        m2 = make()
        sd, sd2 = m.state_dict(), m2.state_dict()
        mon.ok(list(sd) == list(sd2), 'fresh.names', name)
        for k, v in sd.items():
            mon.equal(sd2[k], v, 'fresh.seed', '%s.%s with one seed' % (name, k))
            mon.ok(bool(torch.isfinite(v).all()), 'fresh.finite', '%s.%s' % (name, k))
            if k.endswith('bias'):
                mon.ok(not bool(v.any()), 'fresh.bias', name)
            elif fan == 0:
                mon.ok(bool((v == 1).all()), 'fresh.scale', name)
        ws = [v.reshape(-1) for k, v in sd.items() if k.endswith('weights')]
        mon.ok(len(ws) == (g if name == 'gconv' else 1), 'fresh.count', name)
        mon.ok(sum('bias' in k for k in sd) == (1 if fan == 0 else bias * len(ws)), 'fresh.biases', name)
        if fan:
            check_uniform(mon, torch.cat(ws), np.sqrt(6.0 / fan), 'fresh.' + name)
        elif fan is None:
            v = torch.cat(ws)
            mon.ok(v.numel() == kd * ci, 'fresh.number', name)
            mon.ok(v.numel() < 4 or float(v.std()) > 0, 'fresh.spread', name)
        # drawn anew
        if hasattr(m, 'reset_parameters'):
            with torch.no_grad():
                for p in m.parameters():
                    p.fill_(7)
            torch.manual_seed(seed)
            m.reset_parameters()
            for k, v in m.state_dict().items():
                mon.equal(v, sd2[k], 'fresh.reset', '%s.%s' % (name, k))
            mon.ev('resets')
        mon.ev('fresh_layers')
    mon.state('fresh', kern, ci, co, g, bias)


KINDS['C36'] = {'calls': (c36_calls, 60, 900), 'networks': (c36_networks, 1.6, 16),
                'forms': (c36_forms, 50, 800), 'fresh': (c36_fresh, 30, 400)}
INFO['C36'] = {'events': ['defaults_given', 'arguments_that_matter', 'networks', 'fresh_layers', 'resets',
                          'forms.maxpool', 'forms.unpool',
                          'forms.avgpool', 'forms.globalpool', 'forms.voxel',
                          'forms.interp', 'forms.input', 'entry.OctreeConv', 'entry.Points',
                          'entry.OctreeInterp', 'entry.scatter_add'],
               'rule': 'Every public callable with arguments left out, by position, and by keyword.'}
