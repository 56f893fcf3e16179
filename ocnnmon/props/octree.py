"""C01-C10: keys, tree structure, signals, batching, growth, neighbourhoods, lookups."""
import numpy as np
import torch

from .. import gen, oracle
from ..core import to_np

import ocnn
from ocnn.octree import (Octree, Points, key2xyz, xyz2key, merge_octrees,
                         merge_points, init_octree)

KINDS, INFO = {}, {}


def T(x, dt=None):
    t = torch.from_numpy(np.ascontiguousarray(x))
    return t if dt is None else t.to(dt)


# --------------------------------------------------------------------------- shared

def check_tree(mon, o, ref, key, upto=None, from_=0):
    """The live octree is exactly the reference tree."""
    for d in range(from_, (ref.depth if upto is None else upto) + 1):
        w = 'depth %d' % d
        mon.equal(o.keys[d], ref.keys[d], key + '.keys', w)
        mon.equal(o.children[d], ref.rank[d], key + '.children', w)
        mon.equal(o.nempty_mask(d), ref.ne[d], key + '.nempty_mask', w)
        mon.ok(int(o.nnum[d]) == ref.nnum(d), key + '.nnum',
               '%s: nnum %d, expected %d' % (w, int(o.nnum[d]), ref.nnum(d)))
        mon.ok(int(o.nnum_nempty[d]) == ref.nnum(d, True), key + '.nnum_nempty',
               '%s: nnum_nempty %d, expected %d' % (w, int(o.nnum_nempty[d]), ref.nnum(d, True)))
        mon.equal(o.key(d), ref.keys[d], key + '.key()', w)
        mon.equal(o.key(d, nempty=True), ref.key(d, True), key + '.key(nempty)', w)
        mon.ev('tree_layers_compared')
        mon.ev('tree_nodes_compared', ref.nnum(d))


def snap(*objs):
    """A deep, comparable copy of octrees / point clouds / tensors."""
    out = []
    for o in objs:
        if isinstance(o, torch.Tensor):
            out.append(o.detach().clone())
        elif isinstance(o, Octree):
            s = {'int': (o.depth, o.full_depth, o.batch_size)}
            for f in ('keys', 'children', 'neighs', 'features', 'normals', 'points'):
                s[f] = [None if t is None else t.detach().clone() for t in getattr(o, f)]
            for f in ('nnum', 'nnum_nempty', 'batch_nnum', 'batch_nnum_nempty'):
                s[f] = [getattr(o, f).clone()]
            out.append(s)
        elif isinstance(o, Points):
            s = {'int': (o.batch_size,)}
            for f in ('points', 'normals', 'features', 'labels', 'batch_id', 'batch_npt'):
                t = getattr(o, f)
                s[f] = [t.detach().clone() if isinstance(t, torch.Tensor) else t]
            out.append(s)
        elif o is None:
            out.append(None)
        else:
            raise TypeError(type(o))
    return out


def same(mon, before, after, key, what=''):
    for i, (a, b) in enumerate(zip(before, after)):
        if isinstance(a, dict):
            mon.ok(a['int'] == b['int'], key, '%s[%d]: %s -> %s' % (what, i, a['int'], b['int']))
            for f in a:
                if f == 'int':
                    continue
                mon.ok(len(a[f]) == len(b[f]), key, '%s[%d].%s' % (what, i, f))
                for k, (x, y) in enumerate(zip(a[f], b[f])):
                    mon.equal(y, x, key, '%s[%d].%s[%d] changed' % (what, i, f, k))
                    if isinstance(x, torch.Tensor):
                        mon.ok(x.dtype == y.dtype, key, '%s dtype of %s' % (what, f))
        elif a is not None:
            mon.equal(b, a, key, '%s[%d] changed' % (what, i))


# --------------------------------------------------------------------------- C01

def _enc_check(mon, xyz, b, depth, bkind, rng, floats):
    want = oracle.morton(xyz, depth)
    x, y, z = (T(xyz[..., a]) for a in range(3))
    if floats == 1:      # fractional coordinates are floored
        fr = rng.integers(0, 8, xyz.shape) / 8.0
        x, y, z = (T(xyz[..., a] + fr[..., a]).float() for a in range(3))
    elif floats == 2:
        fr = rng.random(xyz.shape) * 0.999
        x, y, z = (T(xyz[..., a] + fr[..., a]) for a in range(3))
    elif floats == 3:
        x, y, z = x.int(), y.int(), z.int()
    if bkind == 'none':
        got, wb = xyz2key(x, y, z, depth=depth), np.zeros(want.shape, np.int64)
    elif bkind == 'int':
        bb = int(b.reshape(-1)[0]) if b.size else 7
        got, wb = xyz2key(x, y, z, bb, depth), np.full(want.shape, bb, np.int64)
    else:
        bt = {'long': torch.int64, 'int32': torch.int32, 'float': torch.float32}[bkind]
        got, wb = xyz2key(x, y, z, T(b).to(bt), depth), b
    mon.equal(got, want | (wb << 48), 'encode', 'depth %d b=%s floats=%d' % (depth, bkind, floats))
    mon.ok(got.dtype == torch.int64, 'encode.dtype', str(got.dtype))
    dec = key2xyz(got, depth)
    mon.ok(len(dec) == 4, 'decode.arity')
    for a in range(3):
        mon.equal(dec[a], xyz[..., a], 'decode', 'axis %d depth %d' % (a, depth))
    mon.equal(dec[3], wb, 'decode.batch', 'depth %d' % depth)
    mon.ev('keys_encoded', want.size)
    return got


def c01_random(case, rng, mon):
    depth = case['i'] % 16 + 1
    n = int(rng.choice([0, 1, 2, 500, 3000]))
    hi = 1 << depth
    xyz = rng.integers(0, hi, (n, 3))
    if n > 4:
        xyz[0], xyz[1] = 0, hi - 1
        xyz[2:n // 3] = rng.choice([0, 1, hi // 2, max(hi // 2 - 1, 0), hi - 1], (n // 3 - 2, 3))
    b = rng.integers(0, 32768, n)
    if n > 2:
        b[0], b[1] = 0, 32767
    shape = rng.integers(3)
    if shape == 1 and n % 2 == 0:
        xyz, b = xyz.reshape(2, -1, 3), b.reshape(2, -1)
    bkind = ['none', 'int', 'long', 'int32', 'float'][rng.integers(5)]
    key = _enc_check(mon, xyz, b, depth, bkind, rng, int(rng.integers(4)))
    mon.state(depth, bkind, xyz)
    # order and hierarchy, observed on the keys themselves
    k = key.reshape(-1)
    x4 = np.concatenate([xyz.reshape(-1, 3)], 1)
    if k.numel() > 1:
        s = torch.sort(k)[0]
        cells = len(np.unique(np.concatenate(
            [x4, to_np(key2xyz(k, depth)[3])[:, None]], 1), axis=0))
        mon.ok(int(torch.unique(k).numel()) == cells, 'injective',
               'distinct cells and distinct keys differ')
        _, _, _, bs = key2xyz(s, depth)
        mon.ok(bool((bs[1:] >= bs[:-1]).all()), 'order.batch_major')
    if depth > 1 and k.numel():
        base = k & ((1 << 48) - 1)
        px, py, pz, _ = key2xyz(base >> 3, depth - 1)
        for a, p in zip(range(3), (px, py, pz)):
            mon.equal(p, x4[:, a] >> 1, 'hierarchy', 'key >> 3 is not the key of the parent cell')
        mon.ev('parent_relations', k.numel())


def c01_axis(case, rng, mon):
    """Every value of every axis, every depth."""
    depth = case['i'] % 16 + 1
    v = np.arange(1 << depth, dtype=np.int64)
    other = rng.integers(0, 1 << depth, 2)
    for a in range(3):
        xyz = np.empty((v.size, 3), np.int64)
        xyz[:, a] = v
        xyz[:, (a + 1) % 3], xyz[:, (a + 2) % 3] = other
        _enc_check(mon, xyz, np.zeros(v.size, np.int64), depth, 'none', rng, 0)
    mon.state('axis', depth, other)


def c01_cells(case, rng, mon):
    """All cells of small grids; all batch indices."""
    depth = case['i'] % 4 + 1
    g = np.stack(np.meshgrid(*[np.arange(1 << depth)] * 3, indexing='ij'), -1).reshape(-1, 3)
    b = rng.integers(0, 32768, g.shape[0])
    key = _enc_check(mon, g, b, depth, 'long', rng, 0)
    zero = xyz2key(*(T(g[:, a]) for a in range(3)), depth=depth)
    mon.equal(torch.sort(zero)[0], np.arange(8 ** depth), 'dense',
              'the keys of all cells are not 0..8^d-1')
    bb = np.arange(32768)
    c = rng.integers(0, 1 << depth, (32768, 3))
    _enc_check(mon, c, bb, depth, 'long', rng, 0)
    mon.state('cells', depth, b)


def c01_decode(case, rng, mon):
    depth = case['i'] % 16 + 1
    k = rng.integers(0, 1 << (3 * depth), 2000, dtype=np.int64)
    b = rng.integers(0, 32768, 2000)
    full = k | (b << 48)
    x, y, z, bb = key2xyz(T(full), depth)
    want = oracle.unmorton(k, depth)
    for a, t in enumerate((x, y, z)):
        mon.equal(t, want[:, a], 'decode', 'axis %d, depth %d' % (a, depth))
    mon.equal(bb, b, 'decode.batch')
    mon.equal(xyz2key(x, y, z, bb, depth), full, 'reencode')
    if depth == 16:
        mon.equal(xyz2key(x, y, z, bb), full, 'default_depth')
        mon.equal(key2xyz(T(full))[1], want[:, 1], 'default_depth')
    mon.ev('keys_decoded', 2000)
    mon.state('dec', depth, full)


KINDS['C01'] = {'random': (c01_random, 640, 12000), 'axis': (c01_axis, 48, 160),
                'cells': (c01_cells, 32, 200), 'decode': (c01_decode, 320, 4000)}
INFO['C01'] = {'mult': (15, 60), 'events': ['keys_encoded', 'keys_decoded', 'parent_relations'],
               'rule': 'Coordinates, batch indices, depths 1-16 and argument types, random and '
                       'exhaustive per axis / per cell of small grids.'}


# --------------------------------------------------------------------------- C02

def _c02(mon, rng, depth, fd, cl, mode, dt=None):
    B = len(cl)
    ref = oracle.RefOctree.from_points(depth, fd, cl)
    dt = dt or (torch.float64 if rng.random() < 0.3 else torch.float32)
    if B == 1:
        pts = gen.make_points(cl[0], dtype=dt)
        want_keys = ref.point_keys[0]
    else:
        bdt = [torch.int64, torch.float32, torch.int32][rng.integers(3)]
        pts, perm, _ = gen.batched_points(rng, cl, shuffle=mode != 'sorted', dtype=dt,
                                          bdtype=bdt, b1d=rng.random() < 0.3)
        want_keys = np.concatenate(ref.point_keys)[perm]
    if rng.random() < 0.25 and pts.points.shape[0]:      # a strided view
        buf = torch.full((pts.points.shape[0], 5), 9e9, dtype=dt)
        buf[:, 1:4] = pts.points
        pts.points = buf[:, 1:4]
    o, idx = gen.build(pts, depth, fd, B)
    check_tree(mon, o, ref, 'tree')
    leaf = ref.key(depth, True)
    mon.equal(idx, np.searchsorted(leaf, want_keys), 'index',
              'the returned index is not the leaf of the point')
    mon.equal(leaf[to_np(idx)], want_keys, 'index.key')
    mon.ev('points_built', want_keys.size)
    mon.ev('octrees_built')
    mon.ok(o.depth == depth and o.full_depth == fd and o.batch_size == B, 'attributes')
    mon.ev('depth_%02d' % depth)
    mon.state(depth, fd, B, *[k for k in ref.point_keys])
    return o, ref, pts, idx


def c02_points(case, rng, mon):
    depth = int(rng.integers(1, 17)) if rng.random() < 0.4 else int(rng.integers(1, 8))
    fd = int(rng.integers(1, min(depth, 4) + 1))
    B = [1, 1, 2, 3, 5][rng.integers(5)]
    cl, names = gen.clouds(rng, depth, B, 400)
    for n in names:
        mon.ev('cloud.' + n)
    _c02(mon, rng, depth, fd, cl, 'sorted' if rng.random() < 0.3 else 'shuffled')


def c02_order(case, rng, mon):
    """The order of the input points does not matter."""
    depth, B = int(rng.integers(2, 10)), int(rng.integers(1, 4))
    fd = int(rng.integers(1, min(depth, 3) + 1))
    cl, _ = gen.clouds(rng, depth, B, 200)
    a, ref, _, _ = _c02(mon, rng, depth, fd, cl, 'sorted')
    perm = [rng.permutation(c.shape[0]) for c in cl]
    b, _, _, _ = _c02(mon, rng, depth, fd, [c[p] for c, p in zip(cl, perm)], 'shuffled')
    for d in range(depth + 1):
        mon.equal(a.keys[d], b.keys[d], 'order.keys')
        mon.equal(a.children[d], b.children[d], 'order.children')
    mon.ev('reordered_builds')


def c02_many(case, rng, mon):
    """Large batches, also with empty samples at any place."""
    B = int(rng.integers(20, 300))
    depth, fd = int(rng.integers(2, 7)), int(rng.integers(1, 3))
    cl = []
    for i in range(B):
        n = int(rng.integers(1, 30))
        k = gen.KINDS[rng.integers(len(gen.KINDS))] if rng.random() < 0.9 else 'empty'
        cl.append(gen.cloud(rng, k, n, depth)[:60])
    if sum(c.shape[0] for c in cl) == 0:
        cl[0] = gen.cloud(rng, 'single', 1, depth)
    _c02(mon, rng, depth, fd, cl, 'shuffled')
    mon.ev('large_batches')


def c02_double(case, rng, mon):
    """Double-precision points a hair beside the faces between voxels."""
    depth = int(rng.integers(1, 14))
    fd = int(rng.integers(1, min(depth, 3) + 1))
    m = 1 << depth
    cl = []
    for _ in range(int(rng.integers(1, 4))):
        n = int(rng.integers(1, 60))
        g = rng.integers(1, m, (n, 3)) if m > 2 else np.ones((n, 3), int)
        off = rng.choice([-1.0, 1.0, 0.0], (n, 3)) * 2.0 ** -rng.integers(26, 40, (n, 1))
        cl.append(g * (2.0 / m) - 1.0 + off)         # exact in double precision
    _c02(mon, rng, depth, fd, cl, 'shuffled', torch.float64)
    mon.ev('double_precision_clouds', len(cl))


def c02_single_cells(case, rng, mon):
    """Every cell of a small grid, alone and in pairs."""
    depth = int(rng.integers(1, 5))
    fd = int(rng.integers(1, depth + 1))
    m = 1 << depth
    for _ in range(6):
        c = rng.integers(0, m, (int(rng.integers(1, 3)), 3))
        off = rng.choice([0.0, 0.25, 0.5, 1 - 2.0 ** -10], c.shape)
        p = gen.quant((c + off) * (2.0 / m) - 1.0)
        _c02(mon, rng, depth, fd, [p], 'sorted')


def c02_big(case, rng, mon):
    """More points than a 16-bit count, deep trees."""
    depth = int(rng.integers(8, 17))
    n = int(rng.choice([5000, 70000]))
    kind = ['uniform', 'sphere', 'dup', 'plane'][rng.integers(4)]
    _c02(mon, rng, depth, int(rng.integers(1, 5)), [gen.cloud(rng, kind, n, depth)], 'sorted')


KINDS['C02'] = {'points': (c02_points, 700, 8000), 'order': (c02_order, 120, 1500),
                'many': (c02_many, 48, 500), 'cells': (c02_single_cells, 160, 2000),
                'double': (c02_double, 100, 1200),
                'big': (c02_big, 16, 160)}
INFO['C02'] = {'events': ['double_precision_clouds', 'octrees_built', 'points_built', 'reordered_builds', 'large_batches'],
               'rule': 'Point clouds of 15 shapes incl. voxel boundaries, cube faces (+-1), '
                       'duplicates and empty samples; depth 1-16, full depth 1-4, batch 1-300.'}


# --------------------------------------------------------------------------- C03

def leaf_oracle(cl, ns, fs, ref):
    depth = ref.depth
    keys = np.concatenate(ref.point_keys)
    leaf = ref.key(depth, True)
    idx = np.searchsorted(leaf, keys)
    cnt = np.bincount(idx, minlength=leaf.size).astype(np.float64)
    out = {}
    for name, src in (('points', cl), ('normals', ns), ('features', fs)):
        if src is None:
            out[name] = out[name + '.abs'] = None
            continue
        x = np.concatenate(src).astype(np.float64)
        if name == 'points':
            x = (x + 1) * 2.0 ** (depth - 1)
        s = np.zeros((leaf.size, x.shape[1]))
        a = np.zeros((leaf.size, x.shape[1]))
        np.add.at(s, idx, x)
        np.add.at(a, idx, np.abs(x))
        out[name], out[name + '.abs'] = s, a
    out['cnt'] = cnt[:, None]
    return out, idx


def check_leaves(mon, o, lo, depth, eps, key='leaf'):
    cnt = lo['cnt']
    tol = eps * (8 + np.sqrt(cnt))
    e = lo['points'] / cnt
    mon.close(o.points[depth], e, key + '.points', scale=lo['points.abs'] / cnt,
              rtol=float(tol.max()), atol=eps * 4)
    if lo['features'] is not None:
        mon.close(o.features[depth], lo['features'] / cnt, key + '.features',
                  scale=lo['features.abs'] / cnt, rtol=float(tol.max()), atol=eps)
    else:
        mon.ok(o.features[depth] is None, key + '.features_none')
    if lo['normals'] is not None:
        s = lo['normals']
        norm = np.linalg.norm(s, axis=1, keepdims=True)
        good = norm[:, 0] > 1e-3 * (1e-30 + np.linalg.norm(lo['normals.abs'], axis=1))
        good &= norm[:, 0] > 1e-6
        got = to_np(o.normals[depth])
        mon.ok(got.shape == s.shape, key + '.normals', 'shape %s' % (got.shape,))
        mon.ok(np.isfinite(got).all(), key + '.normals_finite')
        ln = np.linalg.norm(got.astype(np.float64), axis=1)
        mon.ok((ln <= 1 + 1e-5).all(), key + '.normals_unit', 'norm %r' % (ln.max() if ln.size else 0))
        mon.close(got[good], (s / np.maximum(norm, 1e-12))[good], key + '.normals',
                  rtol=0, atol=max(2e3 * eps * float(np.sqrt(cnt.max())), 1e-10) if good.any() else 1)
        zero = (lo['normals.abs'] == 0).all(1)
        mon.ok((got[zero] == 0).all(), key + '.normals_zero')
        mon.ev('normals_compared', int(good.sum()))
        mon.ev('zero_normals', int(zero.sum()))
    else:
        mon.ok(o.normals[depth] is None, key + '.normals_none')
    mon.ev('leaves_compared', int(cnt.size))
    mon.ev('leaves_with_several_points', int((cnt > 1).sum()))


def c03_leaves(case, rng, mon):
    depth = int(rng.integers(1, 17)) if rng.random() < 0.3 else int(rng.integers(1, 7))
    fd = int(rng.integers(1, min(depth, 4) + 1))
    B = [1, 2, 3, 6][rng.integers(4)]
    cl, _ = gen.clouds(rng, depth, B, 600 if case['i'] % 3 else 60)
    ns, fs = gen.tensors(rng, cl, rng.random() < 0.8, rng.random() < 0.8)
    dt = torch.float64 if rng.random() < 0.5 else torch.float32
    ref = oracle.RefOctree.from_points(depth, fd, cl)
    lo, _ = leaf_oracle(cl, ns, fs, ref)
    g = lambda x: None if x is None else x[0]
    if B == 1:
        pts = gen.make_points(cl[0], g(ns), g(fs), dtype=dt)
    else:
        pts, _, _ = gen.batched_points(rng, cl, ns, fs, dtype=dt)
    before = snap(pts)
    o, _ = gen.build(pts, depth, fd, B)
    check_leaves(mon, o, lo, depth, 1.2e-7 if dt == torch.float32 else 2.3e-16)
    for f in ('points', 'normals', 'features'):
        t = getattr(o, f)[depth]
        if t is not None:
            mon.ok(t.dtype == dt, 'leaf.dtype', '%s is %s for %s input' % (f, t.dtype, dt))
    same(mon, before, snap(pts), 'input_changed')
    mon.state(depth, fd, *cl)


def c03_heavy(case, rng, mon):
    """Many points in few leaves."""
    depth = int(rng.integers(1, 4))
    n = int(rng.choice([3000, 20000]))
    cl = [gen.cloud(rng, ['uniform', 'dup', 'cluster', 'octant'][rng.integers(4)], n, depth)]
    ns, fs = gen.tensors(rng, cl)
    ref = oracle.RefOctree.from_points(depth, 1, cl)
    lo, _ = leaf_oracle(cl, ns, fs, ref)
    dt = torch.float64 if rng.random() < 0.5 else torch.float32
    o, _ = gen.build(gen.make_points(cl[0], ns[0], fs[0], dtype=dt), depth, 1)
    check_leaves(mon, o, lo, depth, 1.2e-7 if dt == torch.float32 else 2.3e-16)
    mon.state('heavy', *cl)


def c03_crowd(case, rng, mon):
    """More points in one voxel than a 16-bit count holds."""
    n = int(rng.choice([32768, 33000, 40000, 65536, 66000]))
    p = gen.quant(rng.uniform(0.05, 0.2, 3) + rng.uniform(0, 0.05, (n, 3)))
    rest = gen.cloud(rng, 'uniform', 50, 2)
    cl = [np.concatenate([p, rest])[rng.permutation(n + 50)]]
    ns = [gen.normals(rng, n + 50)]
    fs = [rng.integers(-8, 9, (n + 50, 2)).astype(np.float32)]
    ref = oracle.RefOctree.from_points(2, 1, cl)
    lo, _ = leaf_oracle(cl, ns, fs, ref)
    dt = torch.float64 if rng.random() < 0.5 else torch.float32
    o, _ = gen.build(gen.make_points(cl[0], ns[0], fs[0], dtype=dt), 2, 1)
    check_leaves(mon, o, lo, 2, 1.2e-7 if dt == torch.float32 else 2.3e-16)
    mon.ev('voxels_with_more_than_32767_points')
    mon.state('crowd', *cl)


KINDS['C03'] = {'crowd': (c03_crowd, 4, 20), 'leaves': (c03_leaves, 700, 9000), 'heavy': (c03_heavy, 24, 300)}
INFO['C03'] = {'mult': (8, 40), 'events': ['leaves_compared', 'leaves_with_several_points', 'normals_compared',
                          'zero_normals', 'voxels_with_more_than_32767_points'],
               'rule': 'Clouds as for C02 with normals (zero, cancelling, unnormalised) and '
                       '1-4 feature channels, float32 and float64.'}


# --------------------------------------------------------------------------- C04

FEATS = ['N', 'D', 'L', 'P', 'F']


def feature_oracle(o, depth, feature):
    """From the averaged leaf signals (checked by C03) in float64."""
    p, n, f = (to_np(x[depth]) for x in (o.points, o.normals, o.features))
    p, n = p.astype(np.float64), n.astype(np.float64)
    loc = p - np.floor(p) - 0.5
    cols = []
    feature = feature.upper()
    if 'N' in feature:
        cols.append(n)
    if 'D' in feature:
        cols.append((loc * n).sum(1, keepdims=True))
    if 'L' in feature:
        cols.append(loc)
    if 'P' in feature:
        cols.append(p * 2.0 ** (1 - depth) - 1.0)
    if 'F' in feature:
        cols.append(f.astype(np.float64))
    return np.concatenate(cols, 1)


def c04_feature(case, rng, mon):
    w = gen.world(rng, mode=['batched', 'merged'][rng.integers(2)], nmax=150,
                  maxdepth=8 if rng.random() < 0.8 else 16, min_depth=1, neigh=False, maxfull=3)
    o, ref, depth = w.octree, w.ref, w.depth
    before = snap(o)
    lo, _ = leaf_oracle(w.clouds, w.ns, w.fs, ref)
    check_leaves(mon, o, lo, depth, 1.2e-7)
    for _ in range(4):
        k = int(rng.integers(1, 6))
        sel = ''.join(rng.permutation(FEATS)[:k])
        if rng.random() < 0.3:
            sel = sel.lower()
        want = feature_oracle(o, depth, sel)
        ok_tol = 1e-5 if depth <= 10 else 1e-3
        for nempty in (True, False):
            if rng.random() < 0.5:
                got = o.get_input_feature(sel, nempty)
            else:
                got = ocnn.modules.InputFeature(sel, nempty)(o)
            e = want if nempty else ref.pad(want, depth)
            mon.close(got, e, 'feature', '%s nempty=%s' % (sel, nempty), rtol=1e-5, atol=ok_tol)
            mon.ev('features_compared')
            mon.ev('selector_len_%d' % k)
            got.fill_(-7.0)              # the result is the caller's
    same(mon, before, snap(o), 'octree_changed')
    mon.state(gen.describe(w), *w.clouds)


def c04_to_points(case, rng, mon):
    w = gen.world(rng, nmax=150, maxdepth=8, min_depth=1, neigh=False, maxfull=3)
    o, ref, depth = w.octree, w.ref, w.depth
    before = snap(o)
    for rescale in (True, False):
        p = o.to_points(rescale=rescale) if rng.random() < 0.7 or not rescale else o.to_points()
        mon.ok(p.batch_size == w.batch, 'to_points.batch_size', str(p.batch_size))
        if w.mode == 'grow':
            e = ref.xyz(depth, True) + 0.5
        else:
            e = to_np(o.points[depth]).astype(np.float64)
        e = e * 2.0 ** (1 - depth) - 1 if rescale else e
        mon.close(p.points, e, 'to_points.points', 'rescale=%s' % rescale, rtol=1e-6, atol=1e-6)
        mon.equal(p.batch_id.reshape(-1), ref.batch(depth, True), 'to_points.batch_id')
        mon.ok(tuple(p.batch_id.shape) == (e.shape[0], 1), 'to_points.batch_id_shape')
        for f in ('normals', 'features'):
            mon.equal(getattr(p, f), getattr(o, f)[depth], 'to_points.' + f)
        mon.ev('clouds_extracted')
    same(mon, before, snap(o), 'octree_changed')
    mon.state(gen.describe(w), w.ref.keys[depth])


def c04_rebuild(case, rng, mon):
    """octree -> points -> octree is the identity on the tree (points inside voxels)."""
    depth, B = int(rng.integers(1, 9)), int(rng.integers(1, 4))
    fd = int(rng.integers(1, min(depth, 3) + 1))
    m = 1 << depth
    cl = []
    for _ in range(B):
        c = rng.integers(0, m, (int(rng.integers(1, 200)), 3))
        cl.append(gen.quant((c + rng.uniform(0.2, 0.8, c.shape)) * (2.0 / m) - 1))
    ns, fs = gen.tensors(rng, cl)
    ref = oracle.RefOctree.from_points(depth, fd, cl)
    pts, _, _ = gen.batched_points(rng, cl, ns, fs)
    o, _ = gen.build(pts, depth, fd, B)
    p = o.to_points()
    o2, idx = gen.build(p, depth, fd, B)
    check_tree(mon, o2, ref, 'rebuild')
    mon.equal(idx, np.arange(ref.nnum(depth, True)), 'rebuild.index')
    mon.close(o2.points[depth], o.points[depth], 'rebuild.points', rtol=1e-5, atol=1e-4)
    mon.close(o2.features[depth], o.features[depth], 'rebuild.features', rtol=1e-5, atol=1e-5)
    mon.ev('rebuilt')
    mon.state('rebuild', depth, *cl)


KINDS['C04'] = {'feature': (c04_feature, 420, 5000), 'to_points': (c04_to_points, 240, 3000),
                'rebuild': (c04_rebuild, 120, 1500)}
INFO['C04'] = {'events': ['features_compared', 'clouds_extracted', 'rebuilt', 'selector_len_5'],
               'rule': 'Octrees from points (built, merged) and grown; every length and order of '
                       'the selector string, both row conventions.'}


# --------------------------------------------------------------------------- C05

def c05_merge(case, rng, mon):
    depth = int(rng.integers(1, 17)) if rng.random() < 0.2 else int(rng.integers(1, 8))
    B = [1, 2, 3, 5, 9][rng.integers(5)]
    fd = int(rng.integers(1, min(depth, 3) + 1))
    cl, _ = gen.clouds(rng, depth, B, 200)
    ns, fs = gen.tensors(rng, cl, rng.random() < 0.8, rng.random() < 0.8)
    ref = oracle.RefOctree.from_points(depth, fd, cl)
    g = lambda x, i: None if x is None else x[i]
    singles = [gen.build(gen.make_points(cl[i], g(ns, i), g(fs, i)), depth, fd)[0]
               for i in range(B)]
    if rng.random() < 0.5:
        for s in singles:
            s.construct_all_neigh()
    before = snap(*singles)
    m = merge_octrees(singles)
    same(mon, before, snap(*singles), 'merge.sources_changed')
    check_tree(mon, m, ref, 'merge')
    mon.ok(m.batch_size == B and m.depth == depth and m.full_depth == fd, 'merge.attributes')
    for d in range(depth + 1):
        bn = np.bincount(ref.batch(d), minlength=B)
        be = np.bincount(ref.batch(d, True), minlength=B)
        mon.equal(m.batch_nnum[d], bn, 'merge.batch_nnum', 'depth %d' % d)
        mon.equal(m.batch_nnum_nempty[d], be, 'merge.batch_nnum_nempty', 'depth %d' % d)
    for f in ('points', 'normals', 'features'):
        src = [getattr(s, f)[depth] for s in singles]
        got = getattr(m, f)[depth]
        if src[0] is None:
            mon.ok(got is None, 'merge.%s' % f)
        else:
            mon.equal(got, torch.cat(src), 'merge.%s' % f)
    mon.ev('merged_octrees', B)
    # the batched build gives the same octree
    pts, _, _ = gen.batched_points(rng, cl, ns, fs)
    b, _ = gen.build(pts, depth, fd, B)
    check_tree(mon, b, ref, 'batched')
    for f in ('points', 'features'):
        x, y = getattr(m, f)[depth], getattr(b, f)[depth]
        if x is not None:
            mon.close(y, x, 'merge_vs_build.' + f, rtol=1e-4, atol=1e-4)
    m.construct_all_neigh()
    b.construct_all_neigh()
    for d in range(1, depth + 1):
        mon.equal(m.neighs[d], b.neighs[d], 'merge_vs_build.neigh', 'depth %d' % d)
    # children of the merged octree can be used without touching the sources
    for d in range(depth + 1):
        if m.children[d].numel():
            m.children[d][0] = 12345
            m.keys[d][0] = 12345
    same(mon, before, snap(*singles), 'merge.aliases_sources')
    mon.ev('merge_vs_batched_build')
    mon.state(depth, fd, B, *cl)


def c05_grown(case, rng, mon):
    """Merging octrees grown from split decisions; the same octree several times."""
    depth = int(rng.integers(2, 6))
    fd = int(rng.integers(1, min(3, depth) + 1))
    ws = [gen.world(rng, depth, fd, 1, 'grow', max_nodes=4000) for _ in range(int(rng.integers(1, 4)))]
    pick = [ws[k] for k in rng.integers(0, len(ws), int(rng.integers(1, 5)))]
    m = merge_octrees([w.octree for w in pick])
    for d in range(depth + 1):
        keys = np.concatenate([w.ref.keys[d] | (np.int64(i) << 48) for i, w in enumerate(pick)])
        ne = np.concatenate([w.ref.ne[d] for w in pick])
        mon.equal(m.keys[d], keys, 'merge_grown.keys')
        mon.equal(m.children[d], np.where(ne, np.cumsum(ne) - 1, -1), 'merge_grown.children')
        mon.ok(int(m.nnum[d]) == keys.size and int(m.nnum_nempty[d]) == ne.sum(), 'merge_grown.nnum')
    m.construct_all_neigh()
    for d in range(1, depth + 1):
        off = 0
        for i, w in enumerate(pick):
            n = w.ref.nnum(d)
            part = to_np(m.neighs[d])[off:off + n]
            own = w.ref.neigh(d)
            mon.equal(part, np.where(own >= 0, own + off, -1), 'merge_grown.neigh', 'depth %d' % d)
            off += n
    mon.ev('merged_grown', len(pick))
    mon.state('grown', depth, fd, *[w.ref.keys[depth] for w in pick])


def c05_many(case, rng, mon):
    B = int(rng.integers(30, 700))
    depth, fd = int(rng.integers(2, 5)), int(rng.integers(1, 3))
    cl = [gen.cloud(rng, gen.KINDS[rng.integers(len(gen.KINDS))], int(rng.integers(1, 12)), depth)[:40]
          for _ in range(B)]
    ref = oracle.RefOctree.from_points(depth, fd, cl)
    m = merge_octrees([gen.build(gen.make_points(c), depth, fd)[0] for c in cl])
    check_tree(mon, m, ref, 'merge_many')
    mon.equal(m.batch_nnum_nempty[depth], np.bincount(ref.batch(depth, True), minlength=B),
              'merge_many.batch_nnum_nempty')
    mon.ev('large_merges')
    mon.state('many', depth, *cl)


def c05_large(case, rng, mon):
    """Samples of more nodes than 16-bit counts hold."""
    ws = [gen.large_world(rng, ['full', 'grown'][case['i'] % 2], False, 1)]
    ws.append(gen.world(rng, ws[0].depth, ws[0].full_depth, 1, 'grow', neigh=False, max_nodes=80000))
    ws = [ws[i] for i in ([0, 1] if rng.random() < 0.5 else [1, 0])]
    m = merge_octrees([w.octree for w in ws])
    for d in range(ws[0].depth + 1):
        keys = np.concatenate([w.ref.keys[d] | (np.int64(i) << 48) for i, w in enumerate(ws)])
        ne = np.concatenate([w.ref.ne[d] for w in ws])
        mon.equal(m.keys[d], keys, 'large.keys')
        mon.equal(m.children[d], np.where(ne, np.cumsum(ne) - 1, -1), 'large.children')
        mon.equal(m.nnum[d], np.int64(keys.size), 'large.nnum')
        mon.equal(m.nnum_nempty[d], np.int64(ne.sum()), 'large.nnum_nempty')
        mon.equal(m.batch_nnum[d], [w.ref.nnum(d) for w in ws], 'large.batch_nnum')
        mon.equal(m.batch_nnum_nempty[d], [w.ref.nnum(d, True) for w in ws],
                  'large.batch_nnum_nempty')
    mon.ev('merges_of_large_samples', int(max(w.ref.nnum(w.depth, True) for w in ws) > 32767))
    mon.state('large', *[w.ref.ne[w.depth] for w in ws])


def c05_points(case, rng, mon):
    B = int(rng.integers(1, 7))
    cl, _ = gen.clouds(rng, 5, B, 60)
    ns, fs = gen.tensors(rng, cl, rng.random() < 0.7, rng.random() < 0.7)
    lt = [torch.float32, torch.int64, torch.int64, torch.int32, torch.uint8, torch.float64][rng.integers(6)]
    hi = {torch.int64: 1 << 50, torch.int32: 1 << 31, torch.float64: 1 << 50}.get(lt, 200)
    lsh = (1,) if rng.random() < 0.7 else ()
    ls = [rng.integers(0, hi, (c.shape[0],) + lsh) for c in cl] if rng.random() < 0.7 else None
    g = lambda x, i: None if x is None else x[i]
    fdt = [torch.float32, torch.float64][rng.integers(2)]
    ps = []
    for i in range(B):
        p = gen.make_points(cl[i], g(ns, i), None, None)
        p.features = None if fs is None else T(fs[i]).to(fdt)
        p.labels = None if ls is None else T(ls[i]).to(lt)
        ps.append(p)
    before = snap(*ps)
    upd = rng.random() < 0.8
    m = merge_points(ps) if upd else merge_points(ps, update_batch_info=False)
    same(mon, before, snap(*ps), 'merge_points.sources_changed')
    for f, src in (('points', cl), ('normals', ns), ('features', fs), ('labels', ls)):
        mon.equal(getattr(m, f), None if src is None else np.concatenate(src), 'merge_points.' + f)
        if src is not None:
            mon.ok(getattr(m, f).dtype == getattr(ps[0], f).dtype, 'merge_points.dtype', f)
    mon.ev('labelled_clouds', int(ls is not None))
    if upd:
        npt = [c.shape[0] for c in cl]
        mon.ok(m.batch_size == B, 'merge_points.batch_size')
        mon.equal(m.batch_npt, np.array(npt), 'merge_points.batch_npt')
        mon.equal(m.batch_id, np.repeat(np.arange(B), npt)[:, None], 'merge_points.batch_id')
        mon.ok(m.npt == sum(npt), 'merge_points.npt')
        # a merged point cloud builds the octree of the batch
        if sum(npt):
            o, _ = gen.build(m, 5, 2, B)
            check_tree(mon, o, oracle.RefOctree.from_points(5, 2, cl), 'merge_points.octree')
    mon.ev('merged_clouds', B)
    mon.state('pts', *cl)


KINDS['C05'] = {'merge': (c05_merge, 320, 4000), 'grown': (c05_grown, 100, 1200),
                'large': (c05_large, 1.2, 6), 'many': (c05_many, 12, 120), 'points': (c05_points, 240, 2500)}
INFO['C05'] = {'events': ['merges_of_large_samples', 'labelled_clouds', 'merged_octrees', 'merge_vs_batched_build', 'merged_grown',
                          'large_merges', 'merged_clouds'],
               'rule': 'Lists of 1-260 samples (empty ones included), built or grown, with and '
                       'without signals; depth 1-16.'}


# --------------------------------------------------------------------------- C06

def _rand_mask(rng, n, cap):
    p = rng.choice([0.0, 0.02, 0.1, 0.5, 1.0], p=[0.1, 0.2, 0.3, 0.3, 0.1])
    p = min(p, cap / 8.0 / max(n, 1))
    m = rng.random(n) < p
    if rng.random() < 0.1:
        m[:] = False
        m[rng.integers(n)] = True
    return m


def _split_tensor(rng, m):
    return torch.from_numpy(m.copy()).to(
        [torch.int32, torch.int64, torch.bool, torch.int32, torch.uint8, torch.int8, torch.int16,
         torch.float32, torch.float64, torch.float16, torch.bfloat16][rng.integers(11)])


def c06_history(case, rng, mon):
    depth = int(rng.integers(2, 8))
    fd = int(rng.integers(1, min(3, depth) + 1))
    B = int(rng.integers(1, 4))
    ref = oracle.RefOctree.start_full(depth, fd, B)
    if rng.random() < 0.5:
        o = init_octree(depth, fd, B)
    else:
        o = Octree(depth, fd, B)
        for d in range(fd + 1):
            o.octree_grow_full(d)
    frontier, ops, nb = fd, [], set(range(1, fd + 1))
    for _ in range(int(rng.integers(3, 14))):
        r = rng.random()
        if r < 0.5:
            d = frontier if rng.random() < 0.8 else int(rng.integers(fd, frontier + 1))
            m = _rand_mask(rng, ref.nnum(d), 3000)
            t = _split_tensor(rng, m)
            keep = t.clone()
            o.octree_split(t, d)
            mon.equal(t, keep, 'split.input_changed')
            ref.split(m, d)
            frontier = d          # deeper layers are stale until they are grown again
            ops.append('split%d' % d)
            mon.ev('splits')
            mon.ev('splits_all_empty', int(not m.any()))
        elif frontier < depth and ref.nnum(frontier, True) * 8 < 8000:
            upd = rng.random() < 0.7 and all(k in nb for k in range(1, frontier + 1))
            o.octree_grow(frontier + 1, update_neigh=upd)
            ref.grow(frontier + 1)
            frontier += 1
            nb = {k for k in nb if k < frontier}
            if upd:
                nb.add(frontier)
            ops.append('grow%d' % frontier)
            mon.ev('grows')
        elif frontier > fd and ref.nnum(frontier) < 6000:
            for d in range(1, frontier + 1):
                o.construct_neigh(d)
            nb = set(range(1, frontier + 1))
            ops.append('neigh')
        check_tree(mon, o, ref, 'history', upto=frontier, from_=max(0, frontier - 2))
        x, y, z, b = o.xyzb(frontier)
        mon.equal(torch.stack([x, y, z], 1), ref.xyz(frontier), 'history.xyz')
        mon.equal(b, ref.batch(frontier), 'history.batch')
    check_tree(mon, o, ref, 'history', upto=frontier)
    for d in sorted(nb):
        if d <= frontier and ref.nnum(d) < 4000:
            mon.equal(o.get_neigh(d), ref.neigh(d), 'history.neigh', 'depth %d after %s' % (d, ops))
            mon.ev('neigh_tables')
    mon.ev('histories')
    mon.state(depth, fd, B, tuple(ops), *[ref.ne[d] for d in range(fd, frontier + 1)])


def c06_replay(case, rng, mon):
    """Growing with the occupancy of a built octree reproduces that octree."""
    w = gen.world(rng, mode=['batched', 'merged'][rng.integers(2)], nmax=120, maxdepth=8,
                  maxfull=3)
    src, ref = w.octree, w.ref
    o = init_octree(w.depth, w.full_depth, w.batch)
    for d in range(w.full_depth, w.depth + 1):
        if d > w.full_depth:
            o.octree_grow(d)
        o.octree_split(src.nempty_mask(d).int(), d)
    check_tree(mon, o, ref, 'replay')
    for d in range(1, w.depth + 1):
        mon.equal(o.neighs[d], src.neighs[d], 'replay.neigh', 'depth %d' % d)
        mon.equal(o.neighs[d], ref.neigh(d), 'replay.neigh_ref', 'depth %d' % d)
    mon.ev('replayed_trees')
    mon.state(gen.describe(w), *w.clouds)


def c06_full(case, rng, mon):
    """Growing everything is the dense grid."""
    fd, B = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    depth = fd + int(rng.integers(0, 3 if fd < 3 else 2))
    o = init_octree(depth, fd, B)
    for d in range(fd + 1, depth + 1):
        o.octree_grow(d)
    for d in range(depth + 1):
        mon.equal(o.keys[d], oracle.RefOctree(d, d, B)._full(d), 'dense.keys')
        mon.equal(o.children[d], np.arange(B * 8 ** d), 'dense.children')
        mon.ok(int(o.nnum[d]) == int(o.nnum_nempty[d]) == B * 8 ** d, 'dense.nnum')
    ref = oracle.RefOctree.start_full(depth, depth, B)
    for d in range(1, depth + 1):
        mon.equal(o.neighs[d], ref.neigh(d), 'dense.neigh')
    mon.ev('dense_trees')
    mon.state('dense', fd, depth, B)


def c06_types(case, rng, mon):
    """Masks of every element type over layers of thousands of nodes."""
    B = int(rng.integers(1, 4))
    for dt in (torch.float16, torch.bfloat16, torch.uint8, torch.int8, torch.int16, torch.bool,
               torch.float32, torch.int64):
        o, ref = init_octree(5, 4, B), oracle.RefOctree.start_full(5, 4, B)
        m = rng.random(ref.nnum(4)) < rng.choice([0.1, 0.6, 1.0])
        o.octree_split(torch.from_numpy(m).to(dt), 4)
        ref.split(m, 4)
        o.octree_grow(5, update_neigh=False)
        ref.grow(5)
        check_tree(mon, o, ref, 'mask_type', from_=4)
        mon.ev('mask_types')
    mon.state('types', ref.ne[4])


def c06_large(case, rng, mon):
    """Layers with more nodes than 16-bit indices hold."""
    w = gen.large_world(rng, ['full', 'grown'][case['i'] % 2])
    check_tree(mon, w.octree, w.ref, 'large')
    for d in range(4, 6):
        mon.equal(w.octree.neighs[d], w.ref.neigh(d), 'large.neigh', 'depth %d' % d)
    x, y, z, b = w.octree.xyzb(w.depth, True)
    mon.equal(torch.stack([x, y, z], 1), w.ref.xyz(w.depth, True), 'large.xyz')
    mon.equal(b, w.ref.batch(w.depth, True), 'large.batch')
    mon.ev('large_layers')
    mon.state('large', w.ref.ne[w.depth])


KINDS['C06'] = {'types': (c06_types, 6, 60), 'large': (c06_large, 1.2, 6), 'history': (c06_history, 600, 8000), 'replay': (c06_replay, 160, 2000),
                'full': (c06_full, 24, 60)}
INFO['C06'] = {'events': ['mask_types', 'histories', 'splits', 'grows', 'splits_all_empty', 'neigh_tables',
                          'replayed_trees', 'large_layers'],
               'rule': 'Random histories of split / re-split / grow / neighbour construction over '
                       'batches of 1-3; occupancy replays of built octrees.'}


# --------------------------------------------------------------------------- C07

def c07_tables(case, rng, mon):
    w = gen.world(rng, nmax=120, maxdepth=7 if rng.random() < 0.8 else 13, min_depth=1,
                  maxfull=3, max_nodes=20000, edits=0.15)
    o, ref = w.octree, w.ref
    for d in range(1, w.depth + 1):
        mon.equal(o.neighs[d], ref.neigh(d), 'table', 'depth %d' % d)
        mon.ev('links', ref.neigh(d).size)
        mon.ev('missing_links', int((ref.neigh(d) < 0).sum()))
    # kernels, strides, row conventions, in random order; nothing may disturb the tables
    calls = [(int(rng.integers(1, w.depth + 1)), k, s, ne) for k in oracle.KERNELS
             for s in (1, 2) for ne in (False, True)]
    calls = [calls[k] for k in rng.permutation(len(calls))]
    for d, k, s, ne in calls:
        mon.equal(o.get_neigh(d, k, s, ne), ref.neigh(d, k, s, ne), 'get_neigh',
                  'depth %d kernel %s stride %d nempty %s' % (d, k, s, ne))
        mon.ev('kernel_%s_s%d_%s' % (k, s, 'ne' if ne else 'all'))
    for d in range(1, w.depth + 1):
        mon.equal(o.get_neigh(d), ref.neigh(d), 'table_disturbed', 'depth %d' % d)
        r = ref.neigh(d, '333', 2)
        mon.ok(r.shape[0] * 8 == ref.nnum(d), 'oracle.rows')
        mon.ok(o.get_neigh(d, '333', 2).shape[0] == int(o.nnum_nempty[d - 1]), 'rows')
    mon.state(gen.describe(w), *[ref.keys[d] for d in range(w.depth + 1)])


def c07_symmetry(case, rng, mon):
    """A node is the neighbour of its neighbours, with the opposite offset."""
    w = gen.world(rng, nmax=400, maxdepth=9, maxfull=4, edits=0.15)
    o = w.octree
    for d in range(1, w.depth + 1):
        for ne in (False, True):
            t = to_np(o.get_neigh(d, nempty=ne)).astype(np.int64)
            i = np.arange(t.shape[0])
            mon.equal(t[:, 13], i, 'self', 'depth %d' % d)
            rows, k = np.nonzero(t >= 0)
            mon.equal(t[t[rows, k], 26 - k], rows, 'symmetry', 'depth %d' % d)
            b = w.ref.batch(d, ne)
            mon.ok((b[t[rows, k]] == b[rows]).all(), 'crosses_samples', 'depth %d' % d)
            mon.ev('symmetric_links', rows.size)
    mon.state('sym', gen.describe(w), w.ref.keys[w.depth])


def c07_order(case, rng, mon):
    """construct_neigh per depth, repeated, equals construct_all_neigh."""
    w = gen.world(rng, mode=['batched', 'merged'][rng.integers(2)], nmax=100, maxdepth=6,
                  neigh=False, maxfull=3)
    o = w.octree
    for d in range(1, w.depth + 1):
        o.construct_neigh(d)
        if rng.random() < 0.3:
            o.construct_neigh(int(rng.integers(1, d + 1)))
    for d in range(1, w.depth + 1):
        mon.equal(o.neighs[d], w.ref.neigh(d), 'incremental', 'depth %d' % d)
    o.construct_all_neigh()
    for d in range(1, w.depth + 1):
        mon.equal(o.neighs[d], w.ref.neigh(d), 'all_again', 'depth %d' % d)
    mon.ev('incremental_constructions')
    mon.state('ord', gen.describe(w), w.ref.keys[w.depth])


def c07_history(case, rng, mon):
    """Tables read before and after a layer is split again (and grown again)."""
    w = gen.world(rng, mode='grow', nmax=60, maxdepth=5, min_depth=2, maxfull=2, max_nodes=6000)
    o, ref = w.octree, w.ref
    for d in range(1, w.depth + 1):
        o.construct_neigh(d)

    def read(upto, n):
        for _ in range(n):
            d, k = int(rng.integers(1, upto + 1)), oracle.KERNELS[rng.integers(8)]
            s, ne = int(rng.integers(1, 3)), bool(rng.integers(4))
            mon.equal(o.get_neigh(d, k, s, ne), ref.neigh(d, k, s, ne), 'history',
                      'depth %d kernel %s stride %d nempty %s' % (d, k, s, ne))
            mon.ev('tables_in_histories')

    read(w.depth, 12)
    for _ in range(int(rng.integers(1, 4))):
        d = int(rng.integers(w.full_depth, w.depth + 1))
        m = rng.permutation(ref.ne[d]) if rng.random() < 0.5 else \
            rng.random(ref.nnum(d)) < rng.choice([0.1, 0.5, 0.9])
        if d < w.depth and m.sum() * 8 > 4000:
            continue
        o.octree_split(torch.from_numpy(m.astype(np.int32)), d)
        ref.split(m, d)
        read(d, 8)
        for e in range(d + 1, w.depth + 1):
            o.octree_grow(e)
            ref.grow(e)
            o.octree_split(torch.from_numpy(np.ones(ref.nnum(e), np.int32) * 0), e)
            ref.split(np.zeros(ref.nnum(e), bool), e)
            read(e, 2)
        mon.ev('splits_between_reads')
    mon.state('hist', gen.describe(w), ref.ne[w.depth])


def c07_large(case, rng, mon):
    """Tables of more than 32768 rows (and indices), all nodes and non-empty ones."""
    w = gen.large_world(rng, ['full', 'cloud', 'grown'][case['i'] % 3])
    o, ref = w.octree, w.ref
    d = 5 if case['i'] % 3 != 1 or rng.random() < 0.5 else w.depth
    mon.equal(o.neighs[d], ref.neigh(d), 'large', '%s depth %d' % (w.mode, d))
    for _ in range(3):
        k = oracle.KERNELS[rng.integers(8)]
        s, ne = int(rng.integers(1, 3)), bool(rng.integers(2))
        mon.equal(o.get_neigh(d, k, s, ne), ref.neigh(d, k, s, ne), 'large.get_neigh',
                  '%s depth %d kernel %s stride %d nempty %s' % (w.mode, d, k, s, ne))
    mon.ev('large_tables')
    mon.state('large', ref.ne[w.depth])


def c07_reject(case, rng, mon):
    """Kernels and strides that are not there are refused, not taken for others."""
    w = gen.world(rng, maxdepth=4)
    d = int(rng.integers(1, w.depth + 1))
    for kernel, stride in (('444', 1), ('', 1), ('3333', 2), ('333', 3), ('333', 0), ('222', 4)):
        try:
            w.octree.get_neigh(d, kernel, stride, bool(rng.integers(2)))
        except Exception:
            mon.ev('rejected')
        else:
            mon.ok(False, 'accepted', 'kernel %r, stride %r' % (kernel, stride))
    mon.state('reject', w.ref.keys[w.depth])


KINDS['C07'] = {'history': (c07_history, 80, 1000), 'reject': (c07_reject, 8, 80), 'large': (c07_large, 1.8, 8), 'tables': (c07_tables, 320, 4000), 'symmetry': (c07_symmetry, 80, 1000),
                'order': (c07_order, 80, 800)}
INFO['C07'] = {'events': ['tables_in_histories', 'splits_between_reads', 'rejected', 'links', 'missing_links', 'symmetric_links', 'incremental_constructions',
                          'large_tables', 'kernel_333_s1_ne', 'kernel_222_s2_all', 'kernel_313_s2_ne'],
               'rule': 'Octrees built, merged and grown, depth 1-13, batches with empty samples; '
                       'all 8 kernels x 2 strides x both row conventions.'}


# --------------------------------------------------------------------------- C08

def _queries(rng, ref, d, n=400):
    B = ref.batch_size
    hit = rng.integers(0, ref.nnum(d), n)
    xyz, b = ref.xyz(d)[hit], ref.batch(d)[hit]
    near = np.clip(xyz[: n // 3] + rng.integers(-1, 2, (n // 3, 3)), 0, (1 << d) - 1)
    rnd = rng.integers(0, 1 << d, (n // 3, 3))
    ends = rng.choice([0, (1 << d) - 1], (n // 8, 3))
    q = np.concatenate([xyz, near, rnd, ends])
    qb = np.concatenate([b, b[: n // 3], rng.integers(0, B, n // 3), rng.integers(0, B + 1, n // 8)])
    p = rng.permutation(q.shape[0])
    return q[p], qb[p]


def c08_search(case, rng, mon):
    w = gen.world(rng, nmax=150, maxdepth=8 if rng.random() < 0.7 else 16, min_depth=1, maxfull=3,
                  neigh=False, max_nodes=20000, edits=0.15)
    o, ref = w.octree, w.ref
    before = snap(o)
    for d in rng.permutation(w.depth + 1)[:4]:
        d = int(d)
        q, b = _queries(rng, ref, d)
        for ne in (False, True):
            want = ref.index(d, q, b, ne)
            fr = rng.integers(0, 8, q.shape) / 8.0 if rng.random() < 0.6 else 0.0
            dt = torch.float32 if d < 16 else torch.float64
            qt = T(np.concatenate([q + fr, b[:, None]], 1)).to(dt)
            if np.isscalar(fr) and rng.random() < 0.5:
                qt = qt.long()
            keep = qt.clone()
            mon.equal(o.search_xyzb(qt, d, ne), want, 'search_xyzb', 'depth %d nempty %s' % (d, ne))
            mon.equal(qt, keep, 'search.input_changed')
            key = T(oracle.morton(q, d) | (b << 48))
            keep = key.clone()
            mon.equal(o.search_key(key, d, ne), want, 'search_key', 'depth %d nempty %s' % (d, ne))
            mon.equal(key, keep, 'search.input_changed')
            mon.ev('queries_found', int((want >= 0).sum()))
            mon.ev('queries_missing', int((want < 0).sum()))
            # every node finds itself
            k = ref.key(d, ne)
            mon.equal(o.search_key(T(k), d, ne), np.arange(k.size), 'search_self')
    same(mon, before, snap(o), 'octree_changed')
    mon.state(gen.describe(w), ref.keys[w.depth])


def c08_align(case, rng, mon):
    """Features carried from one octree to another, zero where there is no such node."""
    depth = int(rng.integers(2, 8)) if rng.random() < 0.85 else int(rng.integers(8, 17))
    fd = int(rng.integers(1, min(depth, 3) + 1))
    a = gen.world(rng, depth, fd, int(rng.integers(1, 4)), nmax=120, neigh=False, max_nodes=6000)
    if rng.random() < 0.3 and a.clouds is not None:
        # overlapping shapes
        cl = [np.concatenate([c[: c.shape[0] // 2], gen.cloud(rng, 'uniform', 20, depth)])
              for c in a.clouds]
        b = gen.World()
        b.ref = oracle.RefOctree.from_points(depth, fd, cl)
        pts, _, _ = gen.batched_points(rng, cl)
        b.octree, _ = gen.build(pts, depth, fd, len(cl))
    else:
        b = gen.world(rng, depth, fd, int(rng.integers(1, 4)), nmax=120, neigh=False, max_nodes=6000)
    dt = [torch.float32, torch.float64, torch.int64, torch.float16][rng.integers(4)]
    for d in range(depth + 1):
        for ne in (False, True):
            ka, kb = a.ref.key(d, ne), b.ref.key(d, ne)
            c = gen.channels(rng, 3, ka.size)
            val = (torch.randint(1, 50, (ka.size, c))).to(dt)
            keep = val.clone()
            out = ocnn.nn.octree_align(val, a.octree, b.octree, d, nempty=ne)
            pos = np.minimum(np.searchsorted(ka, kb), ka.size - 1)
            found = ka[pos] == kb
            e = np.where(found[:, None], to_np(val)[pos], 0)
            mon.equal(out, e, 'align', 'depth %d nempty %s' % (d, ne))
            mon.ok(out.dtype == dt, 'align.dtype', '%s for %s' % (out.dtype, dt))
            mon.equal(val, keep, 'align.input_changed')
            mon.ev('aligned_rows', int(found.sum()))
            mon.ev('unmatched_rows', int((~found).sum()))
    # arbitrary (unsorted, repeated, out-of-range) queries
    d = int(rng.integers(1, depth + 1))
    ka = a.ref.key(d)
    q = np.concatenate([ka[rng.integers(0, ka.size, 30)], rng.integers(0, 1 << 50, 30),
                        [ka[-1] + 1, 0, ka[0], ka[-1]]])
    q = q[rng.permutation(q.size)]
    val = torch.rand(ka.size, 2) + 1
    out = ocnn.nn.search_value(val, T(ka), T(q))
    pos = np.minimum(np.searchsorted(ka, q), ka.size - 1)
    mon.equal(out, np.where((ka[pos] == q)[:, None], to_np(val)[pos], 0), 'search_value')
    mon.state('align', a.ref.keys[depth], b.ref.keys[depth])


def twins(rng):
    """Two different octrees that agree in the number, the ends and the sum of their keys."""
    depth = int(rng.integers(2, 6))
    fd = int(rng.integers(1, 3))
    depth = max(depth, fd + 1)
    B = int(rng.integers(1, 3))
    out = []
    masks = [[], []]
    for t in range(2):
        o, ref = init_octree(depth, fd, B), oracle.RefOctree.start_full(depth, fd, B)
        for d in range(fd, depth + 1):
            if d > fd:
                o.octree_grow(d, update_neigh=False)
                ref.grow(d)
            if t == 0:
                n = ref.nnum(d)
                a = rng.random(n) < min(0.4, 300.0 / n)
                a[0] = a[-1] = True
                b = a.copy()
                i = np.nonzero(a[1:-2] & ~a[2:-1])[0] + 1       # moves up
                j = np.nonzero(a[2:-1] & ~a[1:-2])[0] + 2       # moves down
                pairs = [(u, v) for u in i for v in j if v not in (u, u + 1, u + 2)]
                if pairs and rng.random() < 0.8:
                    u, v = pairs[rng.integers(len(pairs))]
                    b[[u, v]] = False
                    b[[u + 1, v - 1]] = True
                masks[0].append(a)
                masks[1].append(b)
            m = masks[t][d - fd]
            o.octree_split(torch.from_numpy(m.astype(np.int32)), d)
            ref.split(m, d)
        w = gen.World()
        w.octree, w.ref, w.depth, w.batch = o, ref, depth, B
        out.append(w)
    return out


def c08_twins(case, rng, mon):
    a, b = twins(rng)
    if rng.random() < 0.5:
        a, b = b, a
    for d in range(a.depth + 1):
        for ne in (False, True):
            ka, kb = a.ref.key(d, ne), b.ref.key(d, ne)
            mon.ok(ka.size == kb.size, 'twins')
            val = torch.rand(ka.size, 2, dtype=torch.float64) + 1
            out = ocnn.nn.octree_align(val, a.octree, b.octree, d, nempty=ne)
            pos = np.minimum(np.searchsorted(ka, kb), ka.size - 1)
            mon.equal(out, np.where((ka[pos] == kb)[:, None], to_np(val)[pos], 0), 'twins.align',
                      'depth %d nempty %s' % (d, ne))
            mon.ev('twin_layers', int((ka != kb).any() and ka[-1] == kb[-1] and ka.sum() == kb.sum()))
            mon.equal(a.octree.search_key(T(kb), d, ne), np.where(ka[pos] == kb, pos, -1),
                      'twins.search')
    mon.state('twins', a.ref.keys[a.depth], b.ref.keys[b.depth])


def c08_large(case, rng, mon):
    w = gen.large_world(rng, neigh=False)
    o, ref, d = w.octree, w.ref, w.depth
    q, b = _queries(rng, ref, d, 4000)
    for ne in (False, True):
        mon.equal(o.search_xyzb(T(np.concatenate([q, b[:, None]], 1)).float(), d, ne),
                  ref.index(d, q, b, ne), 'large.search_xyzb')
        k = ref.key(d, ne)
        mon.equal(o.search_key(T(k), d, ne), np.arange(k.size), 'large.search_self')
        val = torch.rand(k.size, 1, dtype=torch.float64)
        pick = np.sort(rng.choice(k.size, 3000, replace=False))
        mon.equal(ocnn.nn.search_value(val, T(k), T(k[pick])), to_np(val)[pick],
                  'large.search_value')
        mon.ev('queries_in_large_layers', k.size)
    mon.state('large', ref.ne[d])


def c08_grad(case, rng, mon):
    """The gradient of looking up and aligning values, tiny layers included."""
    depth = int(rng.integers(1, 6))
    fd = int(rng.integers(1, min(depth, 2) + 1))
    a = gen.world(rng, depth, fd, int(rng.integers(1, 4)), nmax=40, neigh=False, max_nodes=3000)
    b = gen.world(rng, depth, fd, a.batch, nmax=40, neigh=False, max_nodes=3000)
    for d in range(depth + 1):
        for ne in (False, True):
            ka, kb = a.ref.key(d, ne), b.ref.key(d, ne)
            x = torch.randn(ka.size, 2, dtype=torch.float64, requires_grad=True)
            g = torch.randn(kb.size, 2, dtype=torch.float64)
            out = ocnn.nn.octree_align(x, a.octree, b.octree, d, nempty=ne)
            pos = np.minimum(np.searchsorted(kb, ka), kb.size - 1)
            found = kb[pos] == ka
            e = np.where(found[:, None], to_np(g)[pos], 0)
            if not found.any():
                continue
            mon.ok(out.requires_grad, 'align.detached', '%d rows' % ka.size)
            got, = torch.autograd.grad(out, x, g)
            mon.equal(got, e, 'align.grad', 'depth %d nempty %s' % (d, ne))
            mon.ev('alignment_gradients')
            mon.ev('alignment_gradients_of_tiny_layers', int(ka.size <= 8))
    mon.state('grad', a.ref.keys[depth], b.ref.keys[depth])


KINDS['C08'] = {'twins': (c08_twins, 60, 800), 'large': (c08_large, 1.2, 6), 'grad': (c08_grad, 80, 800), 'search': (c08_search, 280, 3000), 'align': (c08_align, 200, 2500)}
INFO['C08'] = {'events': ['twin_layers', 'queries_found', 'queries_missing', 'aligned_rows', 'unmatched_rows',
                          'queries_in_large_layers', 'alignment_gradients',
                          'alignment_gradients_of_tiny_layers'],
               'rule': 'Queries at nodes, next to nodes, at random cells, grid corners and a batch '
                       'index past the end; fractional and integer coordinates; depth 0-16.'}


# --------------------------------------------------------------------------- C09

def c09_views(case, rng, mon):
    w = gen.world(rng, nmax=200, maxdepth=8 if rng.random() < 0.7 else 16, min_depth=1, neigh=False,
                  maxfull=3, edits=0.15)
    o, ref = w.octree, w.ref
    before = snap(o)
    for d in range(w.depth + 1):
        for ne in (False, True):
            x, y, z, b = o.xyzb(d, ne)
            mon.equal(torch.stack([x, y, z], 1), ref.xyz(d, ne), 'xyzb', 'depth %d' % d)
            mon.equal(b, ref.batch(d, ne), 'xyzb.batch', 'depth %d' % d)
            mon.equal(o.batch_id(d, ne), ref.batch(d, ne), 'batch_id', 'depth %d' % d)
            mon.equal(o.key(d, ne), ref.key(d, ne), 'key', 'depth %d' % d)
            mon.ev('node_views', ref.nnum(d, ne))
        mon.equal(o.nempty_mask(d), ref.ne[d], 'nempty_mask')
    same(mon, before, snap(o), 'octree_changed')
    mon.state(gen.describe(w), ref.keys[w.depth])


def c09_pad(case, rng, mon):
    w = gen.world(rng, nmax=200, maxdepth=7, min_depth=1, neigh=False, edits=0.15, deep=0.1)
    o, ref = w.octree, w.ref
    for _ in range(6):
        d = int(rng.integers(0, w.depth + 1))
        c = gen.channels(rng, 4, ref.nnum(d))
        dt = [torch.float32, torch.float64, torch.int64, torch.float16][rng.integers(4)]
        x = (torch.randn(ref.nnum(d, True), c) * 10).to(dt)
        if rng.random() < 0.3 and dt != torch.int64:
            x[torch.rand_like(x.float()) < 0.2] = float(rng.choice([np.nan, np.inf, -np.inf]))
            mon.ev('special_values')
        if rng.random() < 0.3:
            x = torch.cat([x, x], 1)[:, :c]
        val = [None, 0.0, -1.0, 3.0, float('-inf')][rng.integers(5)]
        if dt == torch.int64 and val == float('-inf'):
            val = -5.0
        out = ocnn.nn.octree_pad(x, o, d) if val is None else ocnn.nn.octree_pad(x, o, d, val)
        mon.equal(out, ref.pad(to_np(x), d, 0.0 if val is None else val), 'pad', 'depth %d' % d)
        mon.ok(out.dtype == dt, 'pad.dtype')
        mon.equal(ocnn.nn.octree_depad(out, o, d), x, 'depad_of_pad', 'depth %d' % d)
        y = torch.randn(ref.nnum(d), c)
        if rng.random() < 0.3:
            y[torch.rand_like(y) < 0.2] = float(rng.choice([np.nan, np.inf]))
        e = ocnn.nn.octree_depad(y, o, d)
        mon.equal(e, ref.depad(to_np(y), d), 'depad', 'depth %d' % d)
        mon.ev('paddings')
        # gradients: padding is injective, depadding drops the empty rows
        z = torch.randn(ref.nnum(d, True), c, dtype=torch.float64, requires_grad=True)
        g = torch.randn(ref.nnum(d), c, dtype=torch.float64)
        ocnn.nn.octree_pad(z, o, d).backward(g)
        mon.equal(z.grad, ref.depad(to_np(g), d), 'pad.grad')
    mon.state('pad', gen.describe(w), ref.keys[w.depth])


def c09_voxel(case, rng, mon):
    w = gen.world(rng, nmax=100, maxdepth=5, min_depth=1, neigh=False, maxfull=3, edits=0.15)
    o, ref = w.octree, w.ref
    for d in range(w.depth + 1):
        if w.batch * 8 ** d > 400000:
            break
        for ne in (False, True):
            c = gen.channels(rng, 3, w.batch * 8 ** d)
            dt = torch.float64 if rng.random() < 0.5 else torch.float32
            x = (torch.rand(ref.nnum(d, ne), c) + 1).to(dt)
            f = ocnn.nn.octree2voxel if rng.random() < 0.5 else \
                (lambda a, b_, d_, n_: ocnn.nn.Octree2Voxel(n_)(a, b_, d_))
            v = f(x, o, d, ne)
            e = np.zeros((w.batch,) + (1 << d,) * 3 + (c,))
            p, b = ref.xyz(d, ne), ref.batch(d, ne)
            e[b, p[:, 0], p[:, 1], p[:, 2]] = to_np(x)
            mon.equal(v, e.astype(to_np(x).dtype), 'voxel', 'depth %d nempty %s' % (d, ne))
            mon.ok(v.dtype == dt, 'voxel.dtype')
            mon.ev('voxel_grids')
    mon.state('vox', gen.describe(w), ref.keys[w.depth])


def c09_large(case, rng, mon):
    w = gen.large_world(rng, neigh=False)
    o, ref, d = w.octree, w.ref, w.depth
    for ne in (False, True):
        x, y, z, b = o.xyzb(d, ne)
        mon.equal(torch.stack([x, y, z], 1), ref.xyz(d, ne), 'large.xyzb')
        mon.equal(b, ref.batch(d, ne), 'large.batch')
        mon.equal(o.batch_id(d, ne), ref.batch(d, ne), 'large.batch_id')
    x = torch.randn(ref.nnum(d, True), 2)
    y = ocnn.nn.octree_pad(x, o, d)
    mon.equal(y, ref.pad(to_np(x), d), 'large.pad')
    mon.equal(ocnn.nn.octree_depad(y, o, d), x, 'large.depad')
    mon.ev('large_layers')
    mon.state('large', ref.ne[d])


KINDS['C09'] = {'large': (c09_large, 1.2, 6), 'views': (c09_views, 240, 3000), 'pad': (c09_pad, 200, 2500),
                'voxel': (c09_voxel, 120, 1500)}
INFO['C09'] = {'events': ['node_views', 'paddings', 'voxel_grids', 'large_layers'],
               'rule': 'All layers of built, merged and grown octrees; both row conventions; four '
                       'element types and five padding values.'}


# --------------------------------------------------------------------------- C10

def c10_col(case, rng, mon):
    w = gen.world(rng, nmax=120, maxdepth=6, min_depth=1, maxfull=3, max_nodes=8000, edits=0.15, deep=0.1)
    o, ref = w.octree, w.ref
    before = snap(o)
    for _ in range(5):
        d = int(rng.integers(1, w.depth + 1))
        k = oracle.KERNELS[rng.integers(8)]
        s, ne = int(rng.integers(1, 3)), bool(rng.integers(2))
        c = gen.channels(rng, 4, 27 * ref.nnum(d, ne), 500000)
        dbl = rng.random() < 0.6
        f_ = gen.magnitude(rng)
        x = gen.feat(rng, ref.nnum(d, ne), c, dbl, mag=f_)
        keep = x.clone()
        neigh = ref.neigh(d, k, s, ne)
        msg = 'depth %d kernel %s stride %d nempty %s' % (d, k, s, ne)
        col = ocnn.nn.octree2col(x, o, d, k, s, ne)
        e = oracle.gather(to_np(x), neigh)
        mon.equal(col, e, 'octree2col', msg)
        mon.ok(col.dtype == x.dtype, 'octree2col.dtype')
        mon.equal(x, keep, 'input_changed')
        y = gen.feat(rng, e.size // c if c else 0, c, dbl, hostile=False, mag=f_).reshape(e.shape)
        keep = y.clone()
        back = ocnn.nn.col2octree(y, o, d, k, s, ne)
        eb = oracle.scatter(to_np(y).astype(np.float64), neigh, ref.nnum(d, ne))
        mon.close(back, eb, 'col2octree', msg, rtol=1e-12 if dbl else 1e-5,
                  atol=(1e-11 if dbl else 1e-5) * f_)
        mon.equal(y, keep, 'input_changed')
        # exact adjoints of each other
        lhs = float((to_np(col).astype(np.float64) * to_np(y)).sum())
        rhs = float((to_np(x).astype(np.float64) * to_np(back)).sum())
        mag = float(np.abs(to_np(col) * to_np(y)).sum()) + f_ * f_
        mon.ok(abs(lhs - rhs) <= (1e-11 if dbl else 1e-5) * mag, 'adjoint',
               '%s: <col(x), y> = %r but <x, col^T(y)> = %r' % (msg, lhs, rhs))
        mon.ev('gathers')
        mon.ev('rows', neigh.shape[0])
        # autograd of the gather is the scatter, and the other way round
        xg = x.detach().clone().requires_grad_(True)
        ocnn.nn.octree2col(xg, o, d, k, s, ne).backward(y)
        mon.close(xg.grad, eb, 'octree2col.grad', msg, rtol=1e-12 if dbl else 1e-5,
                  atol=(1e-11 if dbl else 1e-5) * f_)
        yg = y.detach().clone().requires_grad_(True)
        ocnn.nn.col2octree(yg, o, d, k, s, ne).backward(x.detach())
        mon.equal(yg.grad, e, 'col2octree.grad', msg)
        mon.ev('%s_s%d_%s' % (k, s, 'ne' if ne else 'all'))
    same(mon, before, snap(o), 'octree_changed')
    mon.state(gen.describe(w), ref.keys[w.depth])


def c10_special(case, rng, mon):
    """Infinite and undefined features stay in the rows that gather them."""
    w = gen.world(rng, nmax=80, maxdepth=5, min_depth=1, maxfull=3, max_nodes=5000, edits=0.15)
    o, ref = w.octree, w.ref
    for _ in range(4):
        d = int(rng.integers(1, w.depth + 1))
        k = oracle.KERNELS[rng.integers(8)]
        s, ne, c = int(rng.integers(1, 3)), bool(rng.integers(2)), int(rng.integers(1, 3))
        n = ref.nnum(d, ne)
        x = rng.normal(size=(n, c))
        x[rng.random((n, c)) < 0.2] = rng.choice([np.nan, np.inf, -np.inf])
        x[rng.choice([0, n - 1])] = rng.choice([np.nan, np.inf])
        dt = [torch.float32, torch.float16, torch.bfloat16, torch.float64][rng.integers(4)]
        t = T(x).to(dt)
        neigh = ref.neigh(d, k, s, ne)
        msg = 'depth %d kernel %s stride %d nempty %s' % (d, k, s, ne)
        with np.errstate(invalid='ignore'):
            mon.equal(ocnn.nn.octree2col(t, o, d, k, s, ne), oracle.gather(to_np(t), neigh),
                      'special.octree2col', msg)
        y = rng.normal(size=neigh.shape + (c,))
        y[rng.integers(y.shape[0])] = rng.choice([np.nan, np.inf])
        y = T(y)
        back = to_np(ocnn.nn.col2octree(y, o, d, k, s, ne))
        with np.errstate(invalid='ignore'):
            mon.close(back, oracle.scatter(to_np(y), neigh, n), 'special.col2octree', msg,
                      rtol=1e-12, atol=1e-11)
        mon.ev('special_values')
    mon.state('special', gen.describe(w), ref.keys[w.depth])


def c10_large(case, rng, mon):
    w = gen.large_world(rng)
    o, ref = w.octree, w.ref
    d = w.depth if w.mode != 'grown' else 5
    k = ['311', '113', '222', '131'][rng.integers(4)]
    s, ne = int(rng.integers(1, 3)), bool(rng.integers(2))
    neigh = ref.neigh(d, k, s, ne)
    x = torch.randn(ref.nnum(d, ne), 1, dtype=torch.float64)
    col = ocnn.nn.octree2col(x, o, d, k, s, ne)
    mon.equal(col, oracle.gather(to_np(x), neigh), 'large.octree2col')
    mon.close(ocnn.nn.col2octree(col, o, d, k, s, ne),
              oracle.scatter(to_np(col), neigh, ref.nnum(d, ne)), 'large.col2octree', atol=1e-12)
    mon.ev('large_layers')
    mon.state('large', ref.ne[w.depth], k, s, ne)


KINDS['C10'] = {'special': (c10_special, 80, 1000), 'large': (c10_large, 1.2, 6), 'col': (c10_col, 360, 4500)}
INFO['C10'] = {'events': ['special_values', 'gathers', 'rows', '333_s1_ne', '222_s2_all', 'large_layers'],
               'rule': 'Random (tree, depth, kernel, stride, row convention, channels, dtype).'}
