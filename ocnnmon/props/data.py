"""C34: the datasets of the projects (readers, preprocessing, augmentation, collation)."""
import os
import random

import numpy as np
import torch

from .. import gen, oracle
from ..core import to_np
from ..sandbox import guard, scratch, project_path, quiet
from .points import check_octree_of_points

import ocnn

KINDS, INFO = {}, {}

project_path()
import datascts                                   # noqa: E402
from datascts import (scannet, seg_shapenet, modelnet40, semantic_kitti, ae_shapenet,  # noqa
                      image2shape, completion, utils)
from thsolver.config import get_config            # noqa: E402
from plyfile import PlyData, PlyElement           # noqa: E402


def N64(t):
    return to_np(t).astype(np.float64)


def flags(rng=None, distort=False, **kw):
    f = get_config().DATA.train.clone()
    f.defrost()
    f.depth, f.full_depth, f.distort = int(kw.pop('depth', 5)), 2, distort
    if distort:
        f.angle, f.interval = (0, 30, 10), (1, 1, 1)
        f.scale, f.jitter, f.uniform = 0.2, 0.1, True
        f.flip = (0.5, 0.0, 0.0)
    for k, v in kw.items():
        f[k] = v
    return f


def write_ply(path, cols, rng, text=None):
    """cols: list of (name, array, type); extra properties and a shuffled order."""
    cols = list(cols)
    if rng.random() < 0.5:
        cols.append(('extra', rng.normal(size=cols[0][1].shape[0]), 'f4'))
    cols = [cols[i] for i in rng.permutation(len(cols))]
    a = np.empty(cols[0][1].shape[0], dtype=[(n, t) for n, _, t in cols])
    for n, v, _ in cols:
        a[n] = v
    os.makedirs(os.path.dirname(path), exist_ok=True)
    text = bool(rng.integers(2)) if text is None else text
    PlyData([PlyElement.describe(a, 'vertex')], text=text).write(path)


def columns(d, ltype='u1'):
    t = [(n, d['points'][:, i], 'f4') for i, n in enumerate('xyz')]
    if 'normals' in d:
        t += [(n, d['normals'][:, i], 'f4') for i, n in enumerate(['nx', 'ny', 'nz'])]
    if 'colors' in d:
        t += [(n, d['colors'][:, i], 'u1') for i, n in enumerate(['red', 'green', 'blue'])]
    if 'labels' in d:
        t += [('label', d['labels'], ltype)]
    return t


def unit(rng, n):
    v = rng.normal(size=(n, 3))
    return (v / np.linalg.norm(v, axis=1, keepdims=True)).astype(np.float32)


def raw_cloud(rng, n=None, spread=None, labels=0, colors=False):
    n = n or gen.many(rng, 20, 150)
    s = spread or 10.0 ** rng.uniform(-1, 2)
    d = {'points': ((rng.uniform(-1, 1, (n, 3)) * rng.uniform(0.3, 1, 3) +
                     rng.uniform(-2, 2, 3)) * s).astype(np.float32), 'normals': unit(rng, n)}
    if labels:
        d['labels'] = rng.integers(0, labels, n).astype(np.int32)
    if colors:
        d['colors'] = rng.integers(0, 256, (n, 3)).astype(np.uint8)
    return d


# --------------------------------------------------------------------------- readers

def c34_read(case, rng, mon):
    n = int(rng.integers(1, 60))
    d = raw_cloud(rng, n, labels=int(rng.choice([5, 200])), colors=True)
    on, oc, ol = [bool(rng.integers(2)) for _ in range(3)]
    keys = ['points'] + ['normals'] * on + ['colors'] * oc + ['labels'] * ol
    want = {'points': (d['points'], np.float32), 'normals': (d['normals'], np.float32),
            'colors': (d['colors'].astype(np.float32), np.float32),
            'labels': (d['labels'].astype(np.int32), np.int32)}

    def check(out, keys, key):
        mon.ok(set(out.keys()) == set(keys), key + '.keys', str(sorted(out)))
        for k in keys:
            mon.equal(out[k], want[k][0], key + '.' + k)
            mon.ok(np.asarray(out[k]).dtype == want[k][1], key + '.dtype',
                   '%s: %s' % (k, np.asarray(out[k]).dtype))

    with scratch() as tmp:
        ply, npz = os.path.join(tmp, 'a.b', 'c.ply'), os.path.join(tmp, 'c.d.npz')
        present = {k: v for k, v in d.items() if k in keys or rng.random() < 0.5}
        write_ply(ply, columns(present), rng)
        np.savez(npz, **{k: v.astype(np.float64) if k != 'labels' and rng.random() < 0.5 else v
                         for k, v in present.items()})
        with guard(tmp):
            check(utils.ReadPly(on, oc, ol)(ply), keys, 'ply')
            check(utils.ReadNpz(on, oc, ol)(npz), keys, 'npz')
            if ol:             # labels of .npz files are not limited to bytes
                far = rng.choice([-1, -255, 0, 255, 256, 1191, 70000], n).astype(
                    [np.int16, np.int32, np.int64][rng.integers(3)] if rng.random() < 0.5 else np.int64)
                p3 = os.path.join(tmp, 'far.npz')
                np.savez(p3, **dict(present, labels=far))
                want['labels'] = (far.astype(np.int32), np.int32)
                check(utils.ReadFile(on, oc, ol)(p3), keys, 'npz_far')
                want['labels'] = (d['labels'].astype(np.int32), np.int32)
            r = utils.ReadFile(on, oc, ol)
            check(r(ply), keys, 'file_ply')
            check(r(npz), keys, 'file_npz')
            base = {k: d[k] for k in ('points', 'normals')}
            p2, n2 = os.path.join(tmp, 'm.ply'), os.path.join(tmp, 'm.npz')
            write_ply(p2, columns(base), rng)
            np.savez(n2, **base, labels=d['labels'])
            check(modelnet40.read_file(p2), ['points', 'normals'], 'modelnet_ply')
            check(modelnet40.read_file(n2), ['points', 'normals'], 'modelnet_npz')
            stem = os.path.join(tmp, 'm')
            check(image2shape.ReadPoints(True, 'ply')(stem), ['points', 'normals'], 'points_ply')
            np.savez(n2, **base)
            out = image2shape.ReadPoints(True, 'npz')(stem)
            check(out, ['points', 'normals'], 'points_npz')
            half = {k: v.astype(np.float16) for k, v in base.items()}
            np.savez(n2, **half)
            out = image2shape.ReadPoints(True, 'npz')(stem)
            for k in half:
                mon.equal(out[k], half[k].astype(np.float32), 'points_half')
                mon.ok(out[k].dtype == np.float32, 'points_half.dtype')
            check(completion.ReadFile(True)(p2), ['points', 'normals'], 'completion_ply')
            np.savez(n2, **base)
            raw = completion.ReadFile(True)(n2)
            for k in base:
                mon.equal(raw[k], base[k], 'completion_npz')
            # a Velodyne scan and its labels
            seq = os.path.join(tmp, 'sequences/08')
            os.makedirs(seq + '/velodyne'), os.makedirs(seq + '/labels')
            scan = rng.normal(size=(n, 4)).astype(np.float32)
            scan.tofile(seq + '/velodyne/000001.bin')
            lab = (rng.integers(0, 260, n) | (rng.integers(0, 30000, n) << 16)).astype(np.uint32)
            lab.tofile(seq + '/labels/000001.label')
            got = semantic_kitti.read_file(seq + '/velodyne/000001.bin')
            mon.equal(got['points'], scan, 'kitti.points')
            mon.equal(got['labels'].astype(np.int64) & 0xFFFFFFFF, lab.astype(np.int64),
                      'kitti.labels')
            scan.tofile(seq + '/velodyne/000002.bin')
            got = semantic_kitti.read_file(seq + '/velodyne/000002.bin')
            mon.equal(got['labels'], np.zeros(n, int), 'kitti.no_labels')
    mon.ev('files_read', 12)
    mon.state('read', d['points'], keys)


# --------------------------------------------------------------------------- preprocessing

def check_sample(mon, out, P, Nr, F, L, f, key, octree=True, atol=3e-6):
    """The output is P (normals Nr, features F, labels L), mapped by one similarity when
    distorted, clipped to the cube."""
    mask = to_np(out['inbox_mask'])
    pts = out['points']
    q = N64(pts.points)
    mon.ok(mask.shape == (P.shape[0],) and q.shape[0] == mask.sum(), key + '.mask_size')
    if f.distort:
        if mask.sum() < 12:
            return mask
        A = np.concatenate([P[mask], np.ones((mask.sum(), 1))], 1)
        X, *_ = np.linalg.lstsq(A, q, rcond=None)
        mon.close(A @ X, q, key + '.not_affine', rtol=0, atol=1e-4)
        M, t = X[:3].T, X[3]
        sc = np.linalg.norm(M, axis=1)
        if np.linalg.matrix_rank(P[mask] - P[mask].mean(0), tol=1e-2) == 3:
            mon.ok(np.ptp(sc) < 1e-2 and abs(sc[0] - 1) <= f.scale + 1e-2, key + '.scale', str(sc))
            Q = M / sc[0]
            mon.close(Q @ Q.T, np.eye(3), key + '.rotation', rtol=0, atol=2e-2)
            if Nr is not None:
                mon.close(pts.normals, Nr[mask] @ Q.T, key + '.normals', rtol=0, atol=2e-2)
        full = P @ M.T + t
    else:
        full = P
        mon.close(q, P[mask], key + '.points', rtol=0, atol=atol)
        if Nr is not None:
            mon.close(pts.normals, Nr[mask], key + '.normals', rtol=0, atol=1e-6)
    tol = 1e-3 if f.distort else 1e-5
    worst = np.abs(full).max(1)
    mon.ok((worst[mask] <= 0.99 + tol).all() and (worst[~mask] >= 0.99 - tol).all(), key + '.clip')
    if Nr is None:
        mon.ok(pts.normals is None, key + '.no_normals')
    for a, v in (('features', F), ('labels', L)):
        g = getattr(pts, a)
        if v is None:
            mon.ok(g is None, key + '.no_' + a)
        else:
            mon.close(g, v[mask], key + '.' + a, rtol=0, atol=1e-6)
    if octree:
        mon.ok(out['octree'].depth == f.depth and out['octree'].full_depth == f.full_depth,
               key + '.octree.depth')
        check_octree_of_points(mon, out['octree'], pts, f.depth, f.full_depth, key + '.octree')
    mon.ev('samples')
    mon.ev('augmented' if f.distort else 'plain')
    mon.ev('points_clipped', int((~mask).sum()))
    return mask


def bbox(p):
    return (p.min(0) + p.max(0)) / 2


def seeds(k):
    random.seed(k)
    np.random.seed(k)
    torch.manual_seed(k)


def leaves(x):
    if isinstance(x, ocnn.octree.Octree):
        return [x.keys[x.depth], x.points[x.depth]]
    if isinstance(x, ocnn.octree.Points):
        return [v for v in (x.points, x.normals, x.features, x.labels) if v is not None]
    if isinstance(x, (torch.Tensor, np.ndarray)):
        return [x]
    return []


def reproducible(mon, tr, sample, out, seed, key, idx=0):
    """The raw sample is unchanged, and equal random states give equal outputs."""
    seeds(seed)
    again = tr(sample(), idx)
    mon.ok(set(again) == set(out), key + '.fields')
    for k in out:
        for a, b in zip(leaves(out[k]), leaves(again[k])):
            mon.equal(b, a, key + '.not_reproducible', k)


def transformed(mon, rng, tr, d, key):
    keep = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in d.items()}
    sd = int(rng.integers(1 << 30))
    seeds(sd)
    out = tr(d, 0)
    for k, v in keep.items():
        mon.ok(k in d, key + '.sample_consumed', k)
        if isinstance(v, np.ndarray):
            mon.equal(d[k], v, key + '.sample_changed', k)
    reproducible(mon, tr, lambda: {k: (v.copy() if isinstance(v, np.ndarray) else v)
                                   for k, v in keep.items()}, out, sd, key)
    return out, keep


def c34_shapenet(case, rng, mon):
    f = flags(distort=bool(rng.integers(2)), depth=rng.integers(3, 7))
    d = raw_cloud(rng, labels=6)
    out, d = transformed(mon, rng, seg_shapenet.ShapeNetTransform(f), d, 'shapenet')
    p = d['points'].astype(np.float64)
    P = (p - bbox(p)) * (2 * 0.8 / np.ptp(p, 0).max())
    check_sample(mon, out, P, d['normals'].astype(np.float64), None,
                 d['labels'].astype(np.float64)[:, None], f, 'shapenet', atol=1e-4)
    mon.ok(out['points'].labels.dtype == torch.float32, 'shapenet.label_type')
    mon.ev('dataset.shapenet')
    mon.state('shapenet', d['points'], f.distort)


def c34_modelnet(case, rng, mon):
    f = flags(distort=bool(rng.integers(2)), depth=rng.integers(3, 7))
    d = raw_cloud(rng, spread=0.4)
    d['points'] -= bbox(d['points']).astype(np.float32)
    out, d = transformed(mon, rng, modelnet40.ModelNetTransform(f), d, 'modelnet')
    check_sample(mon, out, d['points'].astype(np.float64), d['normals'].astype(np.float64), None,
                 None, f, 'modelnet')
    mon.ev('dataset.modelnet')
    mon.state('modelnet', d['points'], f.distort)


# SemanticKITTI: raw id -> class of the project (position in its list of kept classes)
KITTI = {40: 1, 48: 2, 44: 3, 49: 4, 50: 5, 10: 6, 252: 6, 18: 7, 258: 7, 11: 8, 15: 9, 20: 10,
         259: 10, 70: 11, 71: 12, 72: 13, 30: 14, 254: 14, 31: 15, 253: 15, 32: 16, 255: 16, 51: 17,
         80: 18, 81: 19}
KITTI_RAW = [0, 1, 10, 11, 13, 15, 16, 18, 20, 30, 31, 32, 40, 44, 48, 49, 50, 51, 52, 60, 70, 71,
             72, 80, 81, 99, 252, 253, 254, 255, 256, 257, 258, 259]


def c34_kitti(case, rng, mon):
    f = flags(distort=bool(rng.integers(2)), depth=rng.integers(3, 7))
    n = gen.many(rng, 40, 200)
    p = rng.uniform(-1, 1, (n, 4)).astype(np.float32) * np.array([70, 70, 4, 1], np.float32)
    if rng.random() < 0.4:
        p[0, 0] = 160                                # a scan that does not fit
    p[:, 3] = rng.random(n).astype(np.float32)
    raw = rng.choice(KITTI_RAW, n)
    raw[:len(KITTI_RAW)] = KITTI_RAW
    raw[-5:] = rng.integers(0, 260, 5)      # numbers that are not in the table: unlabelled
    lab = (raw | (rng.integers(0, 60000, n) << 16)).astype(np.uint32).view(np.int32)
    d = {'points': p, 'labels': lab}
    out, d = transformed(mon, rng, semantic_kitti.KittiTransform(f), d, 'kitti')
    P = p[:, :3].astype(np.float64)
    P = (P - bbox(P)) / 100
    L = np.array([KITTI.get(int(r), 0) for r in raw], float)[:, None]
    check_sample(mon, out, P, None, p[:, 3:].astype(np.float64), L, f, 'kitti')
    mon.ev('dataset.kitti')
    mon.ev('kitti_labels', n)
    mon.state('kitti', p, f.distort)


def c34_scannet(case, rng, mon):
    f = flags(distort=case['i'] % 3 == 0, depth=rng.integers(3, 8))
    d = raw_cloud(rng, spread=float(rng.choice([2.0, 6.0])), labels=21, colors=True)
    d['colors'] = d['colors'].astype(np.float32)
    d['colors'][0] = 255
    p = d['points'].astype(np.float64)
    c = bbox(p)
    c[2] = 0.5
    P = (p - c) / 10.24
    tr = scannet.ScanNetTransform(f)
    keep = random.random
    if f.distort:                    # 0.96: no elastic distortion, shift or noise; blend 0.96
        random.random = lambda: 0.96
    try:
        out, d = transformed(mon, rng, tr, d, 'scannet')
    finally:
        random.random = keep
    F = d['colors'].astype(np.float64) / 255
    if f.distort:
        lo, hi = F.min(0), F.max(0)
        F = 0.04 * F + 0.96 * np.where(hi > lo, (F - lo) / np.maximum(hi - lo, 1e-9), F)
        m = check_sample(mon, out, P, d['normals'].astype(np.float64), None if False else F,
                         d['labels'].astype(np.float64)[:, None], f, 'scannet', octree=False)
    else:
        m = check_sample(mon, out, P, d['normals'].astype(np.float64), F,
                         d['labels'].astype(np.float64)[:, None], f, 'scannet', octree=False)
    # with all its random changes, rows stay together and colours valid
    g = f.clone()
    g.distort = True
    for k in ('angle', 'interval', 'flip'):
        g[k] = {'angle': (0, 0, 180), 'interval': (1, 1, 1), 'flip': (0.0, 0.0, 0.0)}[k]
    g.scale, g.jitter, g.uniform = 0.1, 0.1, True
    tr = scannet.ScanNetTransform(g)
    d['labels'] = np.arange(p.shape[0]).astype(np.int32)      # identity of the rows
    out, d = transformed(mon, rng, tr, d, 'scannet_full')
    mask = to_np(out['inbox_mask'])
    ids = to_np(out['points'].labels)[:, 0]
    mon.equal(ids, np.nonzero(mask)[0], 'scannet_full.labels')
    col = N64(out['points'].features)
    mon.ok(np.isfinite(col).all() and (col >= -1e-6).all() and (col <= 1 + 1e-6).all(),
           'scannet_full.colors')
    q = N64(out['points'].points)
    mon.ok(np.isfinite(q).all() and (np.abs(q) <= 0.991).all(), 'scannet_full.points')
    # z points up: rotation about z keeps the z component of the normals
    mon.close(N64(out['points'].normals)[:, 2], d['normals'][mask][:, 2], 'scannet_full.normals',
              rtol=0, atol=1e-4)
    mon.ev('dataset.scannet')
    mon.state('scannet', d['points'], f.distort)


def c34_color(case, rng, mon):
    """Each of the colour changes alone."""
    n = gen.many(rng, 5, 200)
    c = rng.integers(0, 256, (n, 3)) / 255.0
    if n > 200:                                       # few points are extreme
        c = 0.3 + 0.4 * c
        c[rng.integers(1, n, 3)] = rng.integers(0, 256, (3, 3)) / 255.0
    if rng.random() < 0.4:
        c[:, rng.integers(3)] = rng.integers(1, 256) / 255.0      # a channel without contrast
    c[0, :] = np.maximum(c[0, :], 0.1)
    c = c.astype(np.float32) if rng.random() < 0.5 else c
    src = c.copy()
    keep = random.random
    try:
        # (1) contrast only, for several blending factors >= 0.95 (no shift, no noise)
        b = float(rng.uniform(0.951, 1.0))
        random.random = lambda: b
        out = scannet.color_distort(c, 0.1, 0.05)
        x = src.astype(np.float64)
        lo, hi = x.min(0), x.max(0)
        flat = hi <= lo
        want = (1 - b) * x + b * (x - lo) / np.where(flat, 1, hi - lo)
        mon.ok(np.isfinite(out).all(), 'color.finite', 'constant channels %s' % flat)
        mon.close(np.asarray(out)[:, ~flat], want[:, ~flat], 'color.contrast', rtol=0, atol=1e-5)
        # (2) shift only: the same for every point, bounded, clipped to valid colours
        random.random = lambda: 0.0
        ratio = float(rng.choice([0.05, 0.1, 0.3]))
        out = np.asarray(scannet.color_distort(src.copy(), ratio, 0.0), np.float64)
        sh = out - x
        mon.ok((out > -1e-6).all() and (out < 1 + 1e-6).all(), 'color.range')
        free = (out > 1e-5) & (out < 1 - 1e-5)
        for k in range(3):
            v = sh[free[:, k], k]
            if v.size:
                mon.ok(np.ptp(v) < 1e-5, 'color.shift_differs')
                mon.ok(abs(v[0]) <= ratio + 1e-5, 'color.shift_range', '%g > %g' % (v[0], ratio))
                cl = ~free[:, k]
                e = np.clip(x[cl, k] + v[0], 0, 1)
                mon.close(out[cl, k], e, 'color.clip', rtol=0, atol=2e-5)
        # (3) noise: independent per value
        std = float(rng.choice([0.01, 0.05]))
        mid = np.full((4000, 3), 0.5)
        mid[:2] = [[0.499] * 3, [0.501] * 3]
        out = np.asarray(scannet.color_distort(mid, 0.0, std), np.float64)[2:] - 0.5
        mon.ok(abs(out.std() / std - 1) < 0.1 and abs(out.mean()) < std * 0.1, 'color.noise',
               '%g for %g' % (out.std(), std))
        mon.ok((np.abs(np.corrcoef(out.T) - np.eye(3)) < 0.12).all(), 'color.noise_linked')
    finally:
        random.random = keep
    mon.ev('colours_changed', n)
    mon.ev('constant_channels', int(flat.sum()))
    mon.state('color', src, b)


def box_field(rng, p, g):
    """A field of the elastic distortion: white noise on a lattice, blurred twice by boxes of three
    cells, interpolated."""
    lo = p.min(0)
    n = ((p.max(0) - lo) / g + 1e-6).astype(int) + 4
    z = rng.normal(size=tuple(n) + (3,))
    for ax in (0, 1, 2, 0, 1, 2):
        e = np.pad(z, [(1, 1) if k == ax else (0, 0) for k in range(4)])
        z = sum(np.take(e, range(k, k + n[ax]), ax) for k in range(3)) / 3
    u = (p - lo) / g + 1
    i = np.minimum(u.astype(int), n - 2)
    t = u - i
    out = 0
    for c in np.ndindex(2, 2, 2):
        w = np.prod(np.where(c, t, 1 - t), 1)
        out = out + w[:, None] * z[tuple((i + c).T)]
    return out


def c34_noise(case, rng, mon):
    """Size and smoothness of the random changes of colours and points."""
    keep = random.random
    try:
        random.random = lambda: 0.0
        # the shift of colours
        grey = np.full((6, 3), 0.5)
        grey[0], grey[1] = 0.49, 0.51
        ratio = float(rng.choice([0.1, 0.3]))
        v = np.array([np.asarray(scannet.color_distort(grey.copy(), ratio, 0.0))[2:].mean(0) - 0.5
                      for _ in range(60)])
        mon.ok(abs(np.abs(v).mean() / ratio - 0.5) < 0.14 and abs(v.mean()) < 0.3 * ratio,
               'noise.shift', 'mean %g and size %g for %g' % (v.mean(), np.abs(v).mean(), ratio))
        mon.ok((np.abs(np.corrcoef(v.T) - np.eye(3)) < 0.75).all(), 'noise.shift_linked')
        # the displacements
        g = float(rng.choice([0.1, 0.25]))
        k = np.stack(np.meshgrid(*[np.arange(2, 12)] * 3, indexing='ij'), -1)
        corners = np.stack([np.zeros(3), np.full(3, 14.2)]) * g
        d = []
        for _ in range(10):
            q = np.concatenate([k.reshape(-1, 3) * g, corners])
            d.append((scannet.elastic_distort(q.copy(), np.array([[g, 1.0]])) - q)[:-2].reshape(
                10, 10, 10, 3))
        d = np.array(d)
        s = (19 / 81) ** 1.5
        mon.ok(abs(d.std() / s - 1) < 0.2, 'noise.elastic_size', '%g instead of %g' % (d.std(), s))
        mon.ok(abs(d.mean()) < 0.06, 'noise.elastic_mean', str(d.mean()))
        for ax in (1, 2, 3):
            for lag, r in ((1, 16 / 19), (2, 10 / 19)):
                a, b = np.take(d, range(10 - lag), ax), np.take(d, range(lag, 10), ax)
                c = (a * b).mean() / (d ** 2).mean()
                mon.ok(abs(c - r) < 0.13, 'noise.elastic_smooth', 'axis %d lag %d: %g instead of %g' % (
                    ax, lag, c, r))
        cross = np.corrcoef(d.reshape(-1, 3).T) - np.eye(3)
        mon.ok((np.abs(cross) < 0.45).all(), 'noise.elastic_linked', str(cross.max()))
        # the settings of the data set
        f = flags(distort=True, depth=5)
        f.angle, f.interval, f.flip = (0, 0, 0), (1, 1, 1), (0.0, 0.0, 0.0)
        f.scale, f.jitter = 0.0, 0.0
        tr = scannet.ScanNetTransform(f)
        lat = np.stack(np.meshgrid(*[np.arange(-5, 6) * 0.1] * 3, indexing='ij'), -1).reshape(-1, 3)
        n = lat.shape[0]
        dis, exp, shift, dev = [], [], [], []
        for _ in range(12):
            xyz = (lat * 10.24).astype(np.float64)
            xyz[:, 2] += 0.5
            col = np.full((n, 3), 127.0)
            col[0], col[1] = 126, 128
            o = tr({'points': xyz.copy(), 'normals': np.tile([0.0, 0, 1], (n, 1)).astype(np.float32),
                    'colors': col, 'labels': np.zeros(n)}, 0)
            m = to_np(o['inbox_mask'])
            if not m.all():
                continue
            dis.append(N64(o['points'].points) - lat)
            c = N64(o['points'].features) - 127 / 255.0
            shift.append(c.mean(0))
            dev.append(c[2:].std(0))
            e, q = 0, lat
            for gr, mag in ((0.1, 0.2), (0.4, 0.8)):
                q = q + box_field(rng, q, gr) * mag
            exp.append(q - lat)
    finally:
        random.random = keep
    if len(dis) < 8:
        return
    shift, dev = np.array(shift), np.array(dev)
    mon.ok(abs(np.abs(shift).mean() / 0.1 - 0.5) < 0.26 and np.abs(shift).max() < 0.11,
           'noise.scannet_shift', str(np.abs(shift).mean()))
    mon.ok(abs(dev.mean() / 0.05 - 1) < 0.06, 'noise.scannet_jitter', str(dev.mean()))
    dis, exp = np.array(dis), np.array(exp)
    a, b = dis.std(), exp.std()
    c, e = [np.sqrt((np.diff(t.reshape(-1, 11, 11, 11, 3), axis=3) ** 2).mean()) for t in (dis, exp)]
    mon.ok(0.6 < a / b < 1.65, 'noise.scannet_elastic', '%g, reference %g' % (a, b))
    mon.ok(0.75 < c / e < 1.35, 'noise.scannet_elastic_fine', '%g, reference %g' % (c, e))
    mon.ev('noise_statistics')
    mon.state('noise', ratio, g, a)


def c34_elastic(case, rng, mon):
    """A smooth displacement: proportional to the magnitude, a function of the place only,
    linear within the cells of the granularity."""
    n = gen.many(rng, 30, 200)
    p = rng.uniform(0, 1, (n, 3)) * rng.uniform(0.2, 1.2, 3)
    p[n // 2:n // 2 + 5] = p[:5]                       # coincident points
    g = float(rng.choice([0.1, 0.2, 0.4]))
    lo = p.min(0)
    # an axis-parallel line inside a single cell: three equally spaced points
    ax = int(rng.integers(3))
    size = p.max(0) - lo
    cell = np.array([int(rng.integers(0, max(1, int(s // g)))) for s in size])
    inside = np.minimum((cell + np.array([0.3, 0.4, 0.6])) * g, size)
    a, b = inside.copy(), inside.copy()
    a[ax], b[ax] = (cell[ax] + 0.1) * g, (cell[ax] + 0.9) * g
    line_ok = b[ax] <= size[ax]
    if line_ok:
        p = np.concatenate([p, [lo + a, lo + (a + b) / 2, lo + b]])
    near = p[:5] + 1e-4 * g
    near = np.minimum(near, p.max(0))
    p = np.concatenate([p, near])
    k = p.shape[0]
    keep = random.random
    sd = int(rng.integers(1 << 30))
    try:
        random.random = lambda: 0.96
        q = scannet.elastic_distort(p.copy(), np.array([[g, 0.5]]))
        mon.equal(q, p, 'elastic.not_always')
        random.random = lambda: 0.1
        dis = []
        for m in (0.0, 0.05, 0.1):
            seeds(sd)
            dis.append(scannet.elastic_distort(p.copy(), np.array([[g, m]])) - p)
    finally:
        random.random = keep
    mon.close(dis[0], np.zeros_like(p), 'elastic.zero', rtol=0, atol=1e-12)
    mon.close(dis[2], 2 * dis[1], 'elastic.magnitude', rtol=1e-5, atol=1e-7)
    d = dis[2] / 0.1
    mon.ok(np.isfinite(d).all() and np.abs(d).max() < 2.5 and np.abs(d).max() > 1e-4, 'elastic.size',
           str(np.abs(d).max()))
    mon.equal(d[n // 2:n // 2 + 5], d[:5], 'elastic.coincident')
    mon.close(d[k - 5:], d[:5], 'elastic.jump', rtol=0, atol=5e-3)
    if line_ok:
        u = d[n:n + 3]
        mon.close(u[1], (u[0] + u[2]) / 2, 'elastic.not_linear_in_cell', 'granularity %g' % g, rtol=0,
                  atol=1e-4)
        mon.ev('elastic_lines')
    mon.ev('elastic')
    mon.state('elastic', p, g)


def c34_shape(case, rng, mon):
    """Auto-encoding and image-to-shape: points / points_scale, image as a tensor."""
    scale = float(rng.choice([0.5, 1.0, 128.0]))
    f = flags(distort=False, points_scale=scale, depth=rng.integers(3, 6))
    d = raw_cloud(rng)
    d['points'] = (rng.uniform(-1.05, 1.05, d['points'].shape) * scale).astype(np.float32)
    d['points'][0] = 0
    i2s = bool(case['i'] % 2)
    if i2s:
        from PIL import Image
        img = rng.integers(0, 256, (5, 7, 3)).astype(np.uint8)
        d['image'] = Image.fromarray(img)
        tr = image2shape.Image2ShapeTransform(f)
    else:
        tr = ae_shapenet.ShapeNetTransform(f)
    out, d = transformed(mon, rng, tr, d, 'shape')
    check_sample(mon, out, d['points'].astype(np.float64) / scale, d['normals'].astype(np.float64),
                 None, None, f, 'shape')
    if i2s:
        mon.close(out['image'], img.astype(np.float64).transpose(2, 0, 1) / 255, 'shape.image',
                  rtol=0, atol=1e-6)
    mon.ev('dataset.image2shape' if i2s else 'dataset.ae')
    mon.state('shape', d['points'], scale)


def c34_completion(case, rng, mon):
    f = flags(distort=False, depth=rng.integers(3, 7), points_scale=1.0)
    n = int(rng.integers(8, 60))
    d = raw_cloud(rng, n)
    tr = completion.Transform(f)
    size = 0.95
    if getattr(tr, 'points_scale', None) == 0.95 and rng.random() < 0.3:    # a setting: too large
        size = tr.points_scale = 1.3
    out, d = transformed(mon, rng, tr, d, 'completion')
    p = d['points'].astype(np.float64)
    P = (p - bbox(p)) * (2 / (np.ptp(p, 0).max() + 1e-6)) * size
    q = N64(out['points'].points)
    for v in (q, N64(out['points_gt'].points)):     # the octrees hold [-1, 1] only
        mon.ok((np.abs(v) <= 1).all(), 'completion.outside', str(np.abs(v).max()))
    m = (np.abs(P) <= 0.99).all(1)
    if size > 1:
        if (np.abs(np.abs(P) - 0.99) < 1e-4).any():
            return
        mon.close(out['points_gt'].points, P[m], 'completion.gt', rtol=0, atol=1e-5)
        mon.equal(out['points_gt'].normals, d['normals'][m], 'completion.gt_normals')
        mon.ev('completion_clipped')
        return
    mon.close(out['points_gt'].points, P, 'completion.gt', rtol=0, atol=1e-5)
    mon.equal(out['points_gt'].normals, d['normals'], 'completion.gt_normals')
    check_octree_of_points(mon, out['octree_gt'], out['points_gt'], f.depth, 2, 'completion.octree_gt')
    check_octree_of_points(mon, out['octree'], out['points'], f.depth, 2, 'completion.octree')
    mon.ok(out['points'].normals is None, 'completion.normals')
    mon.ok(2800 < q.shape[0] <= 3000, 'completion.number', str(q.shape[0]))
    # every noisy point belongs to an input point
    dist2 = ((q[:, None] - P[None]) ** 2).sum(-1)
    own = dist2.argmin(1)
    r = q - P[own]
    mon.ok(np.sqrt(dist2.min(1)).max() < 0.0095 * 7, 'completion.far', str(np.sqrt(dist2.min(1)).max()))
    gap = ((P[:, None] - P[None]) ** 2).sum(-1) + 9 * np.eye(n)
    lone = (gap.min(1) > 0.15 ** 2) & (np.abs(P).max(1) < 0.9)
    r = r[lone[own]]
    if r.shape[0] > 500:
        mon.ok((np.abs(r.std(0) / 0.0095 - 1) < 0.2).all() and
               (np.abs(r.mean(0)) < 0.0095 * 0.25).all(), 'completion.noise', str(r.std(0)))
        mon.ev('noise_estimates')
    cnt = np.bincount(own[lone[own]], minlength=n)[lone]
    if cnt.size:
        mon.ok((cnt > 3000 / n * 0.3).all() and (cnt < 3000 / n * 2.5).all(), 'completion.sampling',
               '%d points: %s' % (n, cnt))
    mon.ev('dataset.completion')
    mon.state('completion', d['points'])


# --------------------------------------------------------------------------- datasets on disk

def write_files(rng, name, tmp, k, nlabel=20, nclass=40, size=4, spread=None):
    """k samples of a data set in a folder, and its file list."""
    loc = os.path.join(tmp, 'points.npz') if name == 'image2shape' else os.path.join(tmp, 'data')
    os.makedirs(loc)
    files, raws, labels = [], [], []
    ftype = 'npz' if name == 'image2shape' else ['ply', 'npz'][rng.integers(2)]
    for i in range(k):
        d = raw_cloud(rng, spread=0.2 if name in ('modelnet', 'ae', 'image2shape') else spread,
                      labels=nlabel if name in ('shapenet', 'scannet') else 0, colors=name == 'scannet')
        if name in ('modelnet', 'ae', 'image2shape'):
            d['points'] -= bbox(d['points']).astype(np.float32)
        if name == 'scannet':
            d['colors'][0] = 255
        if name == 'shapenet':
            ftype = 'ply'
        rel = 'cat%d/f_%d' % (i % 2, i)
        path = os.path.join(loc, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if name == 'kitti':
            rel = 'seq%d/velodyne/%06d.bin' % (i % 2, i)
            path = os.path.join(loc, rel)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            os.makedirs(os.path.dirname(path).replace('velodyne', 'labels'), exist_ok=True)
            d['points'] = np.c_[rng.uniform(-60, 60, (50, 3)), rng.random(50)].astype(np.float32)
            d['labels'] = rng.choice(KITTI_RAW, 50).astype(np.uint32)
            d['points'].tofile(path)
            if i != 1:
                d['labels'].tofile(path.replace('velodyne', 'labels').replace('.bin', '.label'))
            else:
                d['labels'] = np.zeros(50, int)
            files.append(rel)
        else:
            if ftype == 'ply':
                write_ply(path + '.ply', columns(d), rng, text=False)
            else:
                np.savez(path + '.npz', **d)
            files.append(rel if name in ('ae', 'image2shape') else rel + '.' + ftype)
        if name == 'image2shape':
            from PIL import Image
            ren = os.path.join(tmp, 'renderings', rel, 'rendering')
            os.makedirs(ren)
            for v in range(24):
                rgba = np.full((size, size, 4), 255, np.uint8)
                rgba[..., 0], rgba[..., 1], rgba[..., 2] = v * 10, i * 20, 7
                Image.fromarray(rgba).save(os.path.join(ren, '%02d.png' % v))
        raws.append(d)
        labels.append(int(rng.integers(0, nclass)))
    lst = os.path.join(tmp, 'list.txt')
    with open(lst, 'w') as fid:
        for fl, l in zip(files, labels):
            fid.write('%s %d\n' % (fl, l))
    return loc, lst, ftype, files, raws, labels


def c34_dataset(case, rng, mon):
    """From files and a file list through the data set and its collate function to a batch."""
    names = ['shapenet', 'modelnet', 'scannet', 'kitti', 'ae', 'completion', 'image2shape']
    name = names[case['i'] % len(names)]
    k = int(rng.integers(2, 5))
    depth = int(rng.integers(3, 6))
    with scratch() as tmp:
        loc, lst, ftype, files, raws, labels = write_files(rng, name, tmp, k)
        mem = bool(rng.integers(2)) and name in ('ae', 'image2shape', 'kitti')
        take = int(rng.integers(1, k + 1)) if name in ('shapenet', 'modelnet') and \
            rng.random() < 0.5 else -1
        f = flags(distort=False, depth=depth, location=loc, filelist=lst, filetype=ftype,
                  points_scale=0.5, in_memory=mem, take=take)
        get = {'shapenet': datascts.get_seg_shapenet_dataset, 'modelnet': datascts.get_modelnet40_dataset,
               'scannet': datascts.get_scannet_dataset, 'kitti': datascts.get_kitti_dataset,
               'ae': datascts.get_ae_shapenet_dataset, 'completion': datascts.get_completion_dataset,
               'image2shape': datascts.get_image2shape_dataset}[name]
        with quiet(), guard(tmp):
            ds, collate = get(f)
            mon.ok(len(ds) == (take if take > 0 else k), 'dataset.size', '%d' % len(ds))
            ids = rng.permutation(len(ds))
            for epoch in range(2):
                if mem and epoch:       # all was read when the data set was made
                    os.rename(loc, loc + '.away')
                batch = collate([ds[int(i)] for i in ids])
                if mem and epoch:
                    os.rename(loc + '.away', loc)
                    mon.ev('in_memory')
        mon.ok(list(batch['filename']) == [files[i] for i in ids], 'dataset.filenames', name)
        mon.equal(np.array([int(v) for v in batch['label']]), np.array([labels[i] for i in ids]),
                  'dataset.labels', name)
        want = []
        for i in ids:
            d = raws[i]
            p = d['points'].astype(np.float64)
            if name == 'shapenet':
                p = (p - bbox(p)) * (1.6 / np.ptp(p, 0).max())
            elif name == 'scannet':
                c = bbox(p)
                c[2] = 0.5
                p = (p - c) / 10.24
            elif name == 'kitti':
                p = p[:, :3]
                p = (p - bbox(p)) / 100
            elif name in ('ae', 'image2shape'):
                p = p / 0.5
            elif name == 'completion':
                p = (p - bbox(p)) * (1.9 / (np.ptp(p, 0).max() + 1e-6))
            m = (np.abs(p) <= 0.99).all(1)
            safe = (np.abs(np.abs(p) - 0.99) > 1e-5).all()
            want.append((p, m, safe))
        if all(w[2] for w in want):
            P = np.concatenate([p[m] for p, m, _ in want])
            key = 'points_gt' if name == 'completion' else 'points'
            got = batch[key]
            if name in ('shapenet', 'kitti'):
                got, b = N64(got.points), N64(got.batch_id)[:, 0]
                mon.equal(b, np.concatenate([np.full(m.sum(), float(j))
                                             for j, (_, m, _) in enumerate(want)]), 'dataset.batch_id')
            else:
                mon.ok(isinstance(got, list) and len(got) == len(ids), 'dataset.points_list', name)
                got = np.concatenate([N64(g.points) for g in got])
            mon.close(got, P, 'dataset.points', name, rtol=0, atol=1e-4)
            if 'labels' in raws[0]:
                g = batch['points']
                g = N64(g.labels) if name in ('shapenet', 'kitti') else \
                    np.concatenate([N64(x.labels) for x in g])
                e = np.concatenate([raws[i]['labels'][w[1]] for i, w in zip(ids, want)])
                if name == 'kitti':
                    e = np.array([KITTI.get(int(v), 0) for v in e])
                mon.equal(g[:, 0], e.astype(np.float64), 'dataset.point_labels', name)
        if name != 'scannet':
            o = batch['octree_gt'] if name == 'completion' else batch['octree']
            mon.ok(o.batch_size == len(ids) and o.depth == depth, 'dataset.octree')
            ref = oracle.RefOctree.from_octree(o)
            for dd in range(1, depth + 1):
                mon.equal(o.neighs[dd], ref.neigh(dd), 'dataset.neighs')
        if name == 'image2shape':
            mon.ok(isinstance(batch['image'], torch.Tensor), 'dataset.image_tensor')
            im = N64(batch['image']) * 255
            mon.ok(im.shape == (len(ids), 3, 4, 4), 'dataset.image_shape', str(im.shape))
            mon.close(im[:, 1, 0, 0], 20.0 * ids, 'dataset.image_sample', rtol=0, atol=1e-3)
            seen = set()
            with guard(tmp), quiet():
                for _ in range(400):
                    seen.add(int(round(float(to_np(np.array(ds.read_file(
                        os.path.join(loc, files[0]))['image']))[0, 0, 0]) / 10)))
            mon.ok(seen == set(range(24)), 'dataset.views', 'renderings used: %s' % sorted(seen))
            mon.ev('renderings_seen', len(seen))
    mon.ev('datasets.' + name)
    mon.state('dataset', name, files, mem, take, [r['points'] for r in raws])


KINDS['C34'] = {'read': (c34_read, 30, 400), 'shapenet': (c34_shapenet, 30, 500),
                'modelnet': (c34_modelnet, 20, 300), 'kitti': (c34_kitti, 24, 400),
                'scannet': (c34_scannet, 24, 400), 'color': (c34_color, 24, 300),
                'elastic': (c34_elastic, 24, 300), 'noise': (c34_noise, 3, 30),
                'shape': (c34_shape, 30, 400),
                'completion': (c34_completion, 20, 300), 'dataset': (c34_dataset, 28, 280)}
INFO['C34'] = {'events': ['files_read', 'samples', 'augmented', 'plain', 'points_clipped',
                          'dataset.shapenet', 'dataset.modelnet', 'dataset.kitti', 'dataset.scannet',
                          'dataset.ae', 'dataset.image2shape', 'dataset.completion',
                          'colours_changed', 'constant_channels', 'elastic', 'elastic_lines',
                          'noise_estimates', 'noise_statistics', 'in_memory', 'completion_clipped',
                          'renderings_seen'] +
               ['datasets.' + n for n in ('shapenet', 'modelnet', 'scannet', 'kitti', 'ae',
                                          'completion', 'image2shape')],
               'mult': (7, 40),
               'rule': 'Non-trivial: a raw sample (points, labels, colours) and its settings.',
               'assumptions': ['files are written by plyfile, numpy and PIL']}
