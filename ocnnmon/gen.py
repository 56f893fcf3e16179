"""Hostile input generators.

Coordinates are multiples of 2^-22 (or one of the listed special values), so that
p + 1, (p + 1) * 2^k and p * 2^k + 2^k are all exact in float32 and every correct
implementation puts the point into the same voxel."""
import numpy as np

from .oracle import RefOctree, voxel, morton

Q = float(1 << 22)
BELOW1 = float(np.nextafter(np.float32(1), np.float32(0)))

KINDS = ['uniform', 'sphere', 'plane', 'line', 'single', 'dup', 'corners', 'boundary',
         'below', 'cluster', 'twoclusters', 'faces', 'octant', 'dense']


def quant(p):
    return (np.round(np.clip(p, -1, 1) * Q) / Q).astype(np.float32)


def cloud(rng, kind, n, depth):
    s = 2.0 ** (depth - 1)
    if kind == 'uniform':
        p = rng.uniform(-1, 1, (n, 3))
    elif kind == 'sphere':
        v = rng.normal(size=(n, 3))
        p = v / np.linalg.norm(v, axis=1, keepdims=True) * rng.uniform(0.05, 1.0)
    elif kind == 'plane':
        p = rng.uniform(-1, 1, (n, 3))
        p[:, rng.integers(3)] = rng.uniform(-1, 1)
    elif kind == 'line':
        a, b = rng.uniform(-1, 1, (2, 3))
        p = a + (b - a) * rng.random((n, 1))
    elif kind == 'single':
        p = rng.uniform(-1, 1, (1, 3))
    elif kind == 'dup':
        p = rng.uniform(-1, 1, (max(1, n // 8), 3))
        p = p[rng.integers(0, p.shape[0], n)]
    elif kind == 'corners':
        c = np.array([(x, y, z) for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)], float)
        p = c[rng.integers(0, 8, max(1, n // 4))]
    elif kind == 'boundary':
        m = int(min(2 * s, 1 << 20))
        p = rng.integers(0, m + 1, (n, 3)) * (2.0 / m) - 1.0
    elif kind == 'below':
        m = int(min(2 * s, 1 << 20))
        p = rng.integers(1, m + 1, (n, 3)) * (2.0 / m) - 1.0 - 1.0 / Q
    elif kind == 'cluster':
        p = rng.uniform(-1, 1, 3) + rng.normal(size=(n, 3)) * (1.5 / s)
    elif kind == 'twoclusters':
        c = rng.uniform(-1, 1, (2, 3))
        p = c[rng.integers(0, 2, n)] + rng.normal(size=(n, 3)) * (0.8 / s)
    elif kind == 'faces':
        p = rng.uniform(-1, 1, (n, 3))
        a = rng.integers(0, 3, n)
        p[np.arange(n), a] = rng.choice([-1.0, 1.0], n)
    elif kind == 'octant':
        p = rng.uniform(0, 1, (n, 3)) * rng.choice([-1.0, 1.0], 3)
    elif kind == 'dense':
        dd = min(depth, 3)
        m = 1 << dd
        g = np.stack(np.meshgrid(*[np.arange(m)] * 3, indexing='ij'), -1).reshape(-1, 3)
        p = (g + rng.random(g.shape)) * (2.0 / m) - 1.0
        p = p[rng.random(p.shape[0]) < 0.9]
        p = p if p.shape[0] else g[:1] * 0.0
    elif kind == 'empty':
        p = np.zeros((0, 3))
    else:
        raise ValueError(kind)
    p = quant(p)
    if kind in ('corners', 'faces') and rng.random() < 0.5:
        p[p == 1.0] = BELOW1
    return p


def normals(rng, n):
    v = rng.normal(size=(n, 3))
    v /= np.linalg.norm(v, axis=1, keepdims=True) + 1e-30
    v = np.round(v * 1024) / 1024          # exact sums
    mode = rng.integers(5)
    if mode == 0 and n:                     # some zero normals
        v[rng.random(n) < 0.3] = 0
    if mode == 1 and n > 1:                 # cancelling pairs
        v[1::2] = -v[0::2][:v[1::2].shape[0]]
    if mode == 2:
        v *= rng.choice([0.01, 7.0])        # not unit
    return v.astype(np.float32)


def features(rng, n, c):
    if rng.random() < 0.3:
        return rng.integers(-8, 9, (n, c)).astype(np.float32)
    return rng.normal(size=(n, c)).astype(np.float32)


def clouds(rng, depth, batch, nmax=300, allow_empty=True, kinds=None):
    out = []
    names = []
    for i in range(batch):
        k = (kinds or KINDS)[rng.integers(len(kinds or KINDS))]
        if allow_empty and batch > 1 and rng.random() < 0.08:
            k = 'empty'
        n = int(rng.integers(1, nmax + 1)) if rng.random() < 0.8 else int(rng.integers(1, 6))
        out.append(cloud(rng, k, n, depth))
        names.append(k)
    if allow_empty and batch > 1 and rng.random() < 0.04:      # a single sample has points
        keep = rng.integers(batch)
        for i in range(batch):
            if i != keep:
                out[i], names[i] = cloud(rng, 'empty', 0, depth), 'empty'
    if all(c.shape[0] == 0 for c in out):
        i = rng.integers(batch)
        out[i], names[i] = cloud(rng, 'single', 1, depth), 'single'
    return out, names


class World:
    """A live octree, the reference tree it must equal, and how it was made."""
    pass


def tensors(rng, clouds_, with_normals=True, with_features=True, channel=None):
    c = channel or int(rng.integers(1, 5))
    ns = [normals(rng, p.shape[0]) for p in clouds_] if with_normals else None
    fs = [features(rng, p.shape[0], c) for p in clouds_] if with_features else None
    return ns, fs


def make_points(p, n=None, f=None, l=None, dtype=None):
    import torch
    from ocnn.octree import Points
    t = lambda x: None if x is None else torch.from_numpy(np.array(x)).to(dtype or torch.float32)
    return Points(t(p), t(n), t(f), t(l))


def batched_points(rng, cl, ns=None, fs=None, shuffle=True, dtype=None, bdtype=None, b1d=False):
    """All clouds in a single Points, the samples interleaved."""
    import torch
    from ocnn.octree import Points
    p = np.concatenate(cl)
    b = np.concatenate([np.full(c.shape[0], i) for i, c in enumerate(cl)])
    perm = rng.permutation(p.shape[0]) if shuffle else np.arange(p.shape[0])
    t = lambda x: None if x is None else torch.from_numpy(
        np.ascontiguousarray(np.concatenate(x)[perm])).to(dtype or torch.float32)
    bt = torch.from_numpy(b[perm]).to(bdtype or torch.int64)
    bt = bt if b1d else bt.unsqueeze(1)
    pts = Points(t(cl), t(ns), t(fs), batch_id=bt, batch_size=len(cl))
    return pts, perm, b[perm]


def build(pts, depth, full_depth, batch_size=1):
    from ocnn.octree import Octree
    o = Octree(depth, full_depth, batch_size)
    idx = o.build_octree(pts)
    return o, idx


def world(rng, depth=None, full_depth=None, batch=None, mode=None, nmax=200,
          maxdepth=6, min_depth=2, neigh=True, allow_empty=True, kinds=None, maxfull=4,
          max_nodes=60000, many=0.03, edits=0.0, deep=0.0):
    """An octree from points (single / batched build / merge) or grown from splits;
    with probability `deep`, a deep tree of few points; with probability `edits`, one layer is split again (and the deeper ones grown again)."""
    import torch
    from ocnn.octree import Octree, merge_octrees, init_octree
    w = World()
    if depth is None and batch is None and rng.random() < deep:      # few points, many layers
        depth, full_depth = int(rng.integers(7, 17)), full_depth or int(rng.integers(1, 3))
        batch, nmax, max_nodes = int(rng.integers(1, 4)), 8, min(max_nodes, 4000)
    depth = int(depth or rng.integers(min_depth, maxdepth + 1))
    if batch is None and full_depth is None and rng.random() < many:
        # large batches of tiny samples: the keys use the upper bits
        batch = int(rng.integers(33, min(900, max(34, max_nodes // 12))))
        full_depth, nmax = 1, 4
    full_depth = int(full_depth or rng.integers(1, min(depth, maxfull) + 1))
    batch = int(batch or (1 if rng.random() < 0.3 else rng.integers(2, 5)))
    if batch * 8 ** full_depth > max_nodes:
        full_depth = min(full_depth, 3)
    mode = mode or ['batched', 'merged', 'grow'][rng.integers(3)]
    w.depth, w.full_depth, w.batch, w.mode = depth, full_depth, batch, mode
    w.ns = w.fs = w.clouds = None
    if mode == 'grow':
        ref = RefOctree.start_full(depth, full_depth, batch)
        if rng.random() < 0.5:
            o = init_octree(depth, full_depth, batch)
        else:
            o = Octree(depth, full_depth, batch)
            for d in range(full_depth + 1):
                o.octree_grow_full(d)
        for d in range(full_depth, depth + 1):
            if d > full_depth:
                o.octree_grow(d)
                ref.grow(d)
            n = ref.nnum(d)
            if d == depth and rng.random() < 0.4:
                break                       # leaves not split: all non-empty
            p = min(1.0, rng.choice([0.02, 0.15, 0.4, 0.9, 1.0]))
            p = min(p, max_nodes / 64.0 / n)
            mask = rng.random(n) < p
            if rng.random() < 0.1:
                mask[:] = False
            o.octree_split(torch.from_numpy(mask.astype(np.int32)), d)
            ref.split(mask, d)
        w.names = ['grow']
        w.idx = None
    else:
        cl, w.names = clouds(rng, depth, batch, nmax, allow_empty, kinds)
        ns, fs = tensors(rng, cl)
        w.clouds, w.ns, w.fs = cl, ns, fs
        ref = RefOctree.from_points(depth, full_depth, cl)
        if mode == 'merged':
            os_ = [build(make_points(cl[i], ns[i], fs[i]), depth, full_depth)[0]
                   for i in range(batch)]
            o = merge_octrees(os_)
        elif batch == 1:
            o, _ = build(make_points(cl[0], ns[0], fs[0]), depth, full_depth)
        else:
            pts, _, _ = batched_points(rng, cl, ns, fs)
            o, _ = build(pts, depth, full_depth, batch)
    if neigh and mode != 'grow':
        o.construct_all_neigh()
    w.octree, w.ref = o, ref
    if edits and rng.random() < edits:
        edit(rng, w, neigh, max_nodes)
    return w


def edit(rng, w, neigh, max_nodes=8000):
    """Splits one layer of an existing octree again and grows what is below it again; at times
    as many nodes as before, so that all sizes stay what they were."""
    import torch
    o, ref = w.octree, w.ref
    sizes = [ref.nnum(e, True) for e in range(w.depth + 1)] if rng.random() < 0.4 else None
    d = int(rng.integers(w.full_depth, w.depth + 1)) if rng.random() < 0.6 else w.depth
    for e in range(d, w.depth + 1):
        if e > d:
            o.octree_grow(e, update_neigh=neigh)
            ref.grow(e)
        n = ref.nnum(e)
        p = min(rng.choice([0.1, 0.4, 0.8, 1.0]), max_nodes / 16.0 / n)
        mask = rng.random(n) < p
        if sizes and sizes[e] <= n:
            mask = rng.permutation(n) < sizes[e]
        o.octree_split(torch.from_numpy(mask.astype(np.int32)), e)
        ref.split(mask, e)
    w.clouds = w.ns = w.fs = None        # the signals of the leaves are of another tree
    w.names = list(w.names) + ['edited']
    w.mode += '+edited'


def large_world(rng, mode=None, neigh=True, batch=None):
    """Layers of more than 32768 (often more than 65536) nodes in a batch."""
    import torch
    from ocnn.octree import init_octree
    w = World()
    w.mode = mode or ['full', 'grown', 'cloud'][rng.integers(3)]
    w.batch = batch or int(rng.integers(2, 4))
    w.ns = w.fs = w.clouds = w.idx = None
    if w.mode == 'cloud':
        w.depth, w.full_depth = int(rng.integers(6, 8)), int(rng.integers(2, 6))
        w.clouds = [cloud(rng, 'uniform' if rng.random() < 0.7 else 'sphere',
                          int(rng.integers(9000, 14000)), w.depth) for _ in range(w.batch)]
        w.ns, w.fs = tensors(rng, w.clouds)
        w.ref = RefOctree.from_points(w.depth, w.full_depth, w.clouds)
        pts, _, _ = batched_points(rng, w.clouds, w.ns, w.fs)
        w.octree, w.idx = build(pts, w.depth, w.full_depth, w.batch)
        if neigh:
            w.octree.construct_all_neigh()
    else:
        w.depth, w.full_depth = (5, 5) if w.mode == 'full' else (6, 5)
        w.octree = init_octree(w.depth, w.full_depth, w.batch)
        w.ref = RefOctree.start_full(w.depth, w.full_depth, w.batch)
        if w.mode == 'grown':
            m = rng.random(w.ref.nnum(5)) < rng.choice([0.1, 0.52])
            w.octree.octree_split(torch.from_numpy(m.astype(np.int32)), 5)
            w.octree.octree_grow(6, update_neigh=neigh)
            w.ref.split(m, 5)
            w.ref.grow(6)
        d = w.depth
        m = rng.random(w.ref.nnum(d)) < (0.7 if w.mode == 'full' else rng.choice([0.15, 0.7]))
        w.octree.octree_split(torch.from_numpy(m.astype(np.int32)), d)
        w.ref.split(m, d)
    w.names = ['large', w.mode]
    return w


def describe(w):
    return (w.depth, w.full_depth, w.batch, w.mode, tuple(w.names))


def magnitude(rng):
    """Mostly 1, sometimes far from it."""
    return float(10.0 ** rng.uniform(-6, 6)) if rng.random() < 0.3 else 1.0


WIDE = (6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 48, 64, 65, 96, 100, 128, 130, 192, 257)


def many(rng, lo, hi, p=0.08, top=60000):
    """A number of points; sometimes as large as in real scans."""
    return int(top ** rng.uniform(0.7, 1)) if rng.random() < p else int(rng.integers(lo, hi))


def few(rng, lo, hi, p=0.1, top=40):
    """A number of samples, classes, ...; sometimes as large as in real training."""
    return int(rng.integers(hi, top + 1)) if rng.random() < p else int(rng.integers(lo, hi))


def channels(rng, top, rows=1, limit=300000, wide=0.1):
    """1..top channels; at times many more, as far as rows x channels stays small."""
    if rng.random() < wide:
        ok = [c for c in WIDE if c * rows <= limit]
        if ok:
            return int(ok[rng.integers(len(ok))])
    return int(rng.integers(1, top + 1))


def feat(rng, n, c, double=True, hostile=True, grad=False, mag=1.0):
    """A feature tensor (n, c), sometimes not contiguous."""
    import torch
    dt = torch.float64 if double else torch.float32
    x = torch.from_numpy(rng.normal(size=(n, c)) * mag).to(dt)
    k = rng.integers(4) if hostile else 0
    if k == 1:
        x = x.t().contiguous().t()
    elif k == 2:
        y = torch.full((n, c + 2), float('nan'), dtype=dt)
        y[:, 1:c + 1] = x
        x = y[:, 1:c + 1]
    elif k == 3:
        y = torch.full((2 * n, c), float('nan'), dtype=dt)
        y[::2] = x
        x = y[::2]
    if grad:
        x = x.detach().requires_grad_(True)
    return x
