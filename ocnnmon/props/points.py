"""C21-C24: point clouds, the data pipeline, device moves."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import torch

from .. import gen, oracle
from ..core import to_np, Violation
from .octree import T, snap, same, check_tree

import ocnn
from ocnn.octree import Octree, Points, merge_points, merge_octrees
from ocnn.dataset import Transform, CollateBatch

KINDS, INFO = {}, {}


def N64(t):
    return to_np(t).astype(np.float64)


def rnd_points(rng, n=None, dt=None, parts=None, batch=None):
    big = n is None and rng.random() < 0.03
    if n is None:
        n = int(2 ** rng.uniform(9, 17)) if big else int(rng.choice([0, 1, 2, 17, 200]))
    dt = dt or [torch.float32, torch.float64][rng.integers(2)]
    parts = parts if parts is not None else [bool(rng.integers(2)) for _ in range(3)]
    p = T(rng.normal(size=(n, 3))).to(dt)
    nm = T(gen.normals(rng, n)).to(dt) if parts[0] else None
    f = T(rng.normal(size=(n, gen.channels(rng, 4, n)))).to(dt) if parts[1] else None
    ldt = [dt, torch.int64, torch.int32, torch.uint8, torch.float64][rng.integers(5)]
    top = 9 if rng.random() < 0.6 else {torch.uint8: 256, torch.float32: 1 << 24,
                                        torch.int32: 1 << 31}.get(ldt, 1 << 50)
    low = 0 if ldt == torch.uint8 or rng.random() < 0.7 else -top + 1
    l = T(rng.integers(low, top, (n, int(rng.integers(1, 3))))).to(ldt) if parts[2] else None
    if f is not None and rng.random() < 0.2:
        f = f.to(torch.float64)
    b = None
    if batch:
        b = T(np.sort(rng.integers(0, batch, (n, 1)), 0))
    return Points(p, nm, f, l, batch_id=b, batch_size=batch or 1)


def rot(axis, a):
    c, s = np.cos(a), np.sin(a)
    m = np.eye(3)
    i, j = [(1, 2), (2, 0), (0, 1)][axis]
    m[i, i], m[j, j], m[i, j], m[j, i] = c, c, -s, s
    return m


class Model:
    """The float64 model of a point cloud under transformations (column vectors)."""

    def __init__(self, pts):
        self.p = N64(pts.points)
        self.n = None if pts.normals is None else N64(pts.normals)

    def linear(self, m):
        self.p = self.p @ m.T
        if self.n is not None:
            self.n = self.n @ m.T

    def scale(self, f):
        if (f == 1).all():
            return
        self.p = self.p * f
        if self.n is not None and not (f == f[0]).all():
            n = self.n / f
            ln = np.linalg.norm(n, axis=1, keepdims=True)
            self.n = np.where(ln > 0, n / np.maximum(ln, 1e-300), 0)


# --------------------------------------------------------------------------- C21

def c21_history(case, rng, mon):
    """A random sequence of transformations against the float64 model."""
    pts = rnd_points(rng, batch=int(rng.integers(0, 4)) or None)
    if rng.random() < 0.3:               # tiny or huge clouds
        pts.points = pts.points * float(rng.choice([1e-3, 3e-3, 100.0, 3000.0]))
    src = [pts.points, pts.normals, pts.features, pts.labels, pts.batch_id]
    keep = [None if t is None else t.clone() for t in src]
    m = Model(pts)
    log = []
    for _ in range(int(rng.integers(1, 7))):
        op = rng.integers(7)
        if op == 0:
            axes = ''.join(rng.permutation(list('xyz'))[:rng.integers(0, 4)])
            if rng.random() < 0.2:
                axes = axes + 'x'        # flipping twice
            pts.flip(axes)
            s = np.ones(3)
            for a in axes:
                s['xyz'.index(a)] *= -1
            m.linear(np.diag(s))
            log.append('flip %r' % axes)
        elif op == 1:
            ang = rng.uniform(-7, 7, 3)
            if rng.random() < 0.2:           # tiny turns
                ang = rng.uniform(-1, 1, 3) * 10.0 ** rng.uniform(-4, -1.5)
            if rng.random() < 0.5:
                ang = ang * (rng.random(3) < 0.5)
            if rng.random() < 0.2:
                ang = np.round(ang) * np.pi / 2
            t = T(ang).to(torch.float32 if rng.random() < 0.6 else torch.float64)
            kt = t.clone()
            pts.rotate(t)
            mon.equal(t, kt, 'argument_changed')
            r = rot(2, ang[2]) @ rot(1, ang[1]) @ rot(0, ang[0])
            m.linear(r)
            log.append('rotate %s' % ang)
        elif op == 2:
            d = rng.normal(size=3) * (10.0 ** rng.uniform(-4, 2) if rng.random() < 0.3 else 1.0)
            t = T(d).to(pts.points.dtype)
            kt = t.clone()
            pts.translate(t)
            mon.equal(t, kt, 'argument_changed')
            m.p = m.p + N64(kt)
            log.append('translate')
        elif op == 3:
            f = [np.full(3, rng.uniform(0.3, 2)), rng.uniform(0.3, 2, 3), np.ones(3),
                 rng.uniform(0.3, 2, 3) * rng.choice([-1, 1], 3),
                 np.array([1.0, 1.0, rng.uniform(0.3, 2)]),
                 np.array([rng.uniform(0.3, 2), 1.0, 1.0])][rng.integers(6)]
            if rng.random() < 0.25:          # factors that are almost one
                f = 1 + rng.choice([-1, 1], 3) * 10.0 ** rng.uniform(-4, -1.5, 3) * \
                    rng.integers(0, 2, 3)
                mon.ev('tiny_scalings')
            t = T(f).to(pts.points.dtype)
            kt = t.clone()
            pts.scale(t)
            mon.equal(t, kt, 'argument_changed')
            m.scale(N64(kt))
            log.append('scale %s' % f)
        elif op == 4 and pts.npt:
            lo, hi = pts.bbox()
            mon.equal(N64(lo), N64(pts.points).min(0), 'bbox')
            mon.equal(N64(hi), N64(pts.points).max(0), 'bbox')
            sc = float(rng.choice([1.0, 0.8, 2.0]))
            size = float((hi - lo).max())
            off = float(torch.maximum(lo.abs(), hi.abs()).max())
            if size < 1e-3 or off > 50 * size:
                continue
            klo, khi = lo.clone(), hi.clone()
            pts.normalize(lo, hi, sc)
            mon.equal(lo, klo, 'argument_changed')
            mon.equal(hi, khi, 'argument_changed')
            lo, hi = N64(klo), N64(khi)
            m.p = (m.p - (lo + hi) / 2) * (2 * sc / (hi - lo).max())
            mon.close(pts.points, m.p, 'normalize', '%s: size %g' % (log, size), rtol=0,
                      atol=sc * (5e-5 + 4e-6 / size))
            m.p = N64(pts.points)
            mon.ev('tiny_clouds_normalised', int(size < 0.01))
            mon.ok(N64(pts.points).max() <= sc * (1 + 1e-5) and
                   N64(pts.points).min() >= -sc * (1 + 1e-5), 'normalize.range', str(log))
            log.append('normalize')
            mon.ev('normalizations')
        elif op == 5 and m.n is not None:
            a = ['x', 'y', 'z', 'xyz'][rng.integers(4)]
            before = N64(pts.normals)
            pts.orient_normal(a)
            after = N64(pts.normals)
            if a == 'xyz':
                mon.equal(after, np.abs(before), 'orient.abs')
            else:
                k = 'xyz'.index(a)
                mon.ok((after[:, k] >= 0).all(), 'orient.side', str(log))
                mon.equal(after * np.where(after[:, k:k + 1] != before[:, k:k + 1], -1, 1) *
                          (before[:, k:k + 1] != 0), before * (before[:, k:k + 1] != 0),
                          'orient.line', str(log))
                z = before[:, k] == 0
                mon.equal(np.abs(after[z]), np.abs(before[z]), 'orient.line')
                # the sign follows the side
                mon.equal(after[~z], (before * np.sign(before[:, k:k + 1]))[~z], 'orient', str(log))
            m.n = after
            mon.ev('orientations')
            log.append('orient ' + a)
        else:
            continue
        scale = max(1.0, np.abs(m.p).max() if m.p.size else 1)
        mon.close(pts.points, m.p, 'points', str(log), rtol=1e-5, atol=1e-5 * scale)
        if m.n is not None:
            mon.close(pts.normals, m.n, 'normals', str(log), rtol=2e-4, atol=2e-4)
        else:
            mon.ok(pts.normals is None, 'normals_appeared')
        mon.ev('transformations')
        m.p = N64(pts.points)           # errors do not accumulate in the comparison
        if m.n is not None:
            m.n = N64(pts.normals)
    mon.equal(pts.features, keep[2], 'features_changed', str(log))
    mon.equal(pts.labels, keep[3], 'labels_changed', str(log))
    mon.equal(pts.batch_id, keep[4], 'batch_id_changed', str(log))
    for t, k in zip(src, keep):        # the tensors handed in still belong to the caller
        mon.equal(t, k, 'input_changed', str(log))
    mon.ok(pts.points.dtype == keep[0].dtype, 'dtype')
    mon.ok(pts.npt == keep[0].shape[0], 'npt')
    mon.state(log, keep[0].numpy())


def c21_surface(case, rng, mon):
    """Normals stay perpendicular to the surface under every transformation."""
    n = 60
    dt = torch.float64
    a, b = rng.normal(size=(2, n, 3))
    nm = np.cross(a, b)
    nm /= np.linalg.norm(nm, axis=1, keepdims=True)
    o = rng.normal(size=(n, 3))
    pts = Points(T(np.concatenate([o, o + a, o + b])), T(np.concatenate([nm] * 3)))
    for _ in range(5):
        k = rng.integers(3)
        if k == 0:
            pts.rotate(T(rng.uniform(-4, 4, 3)))
        elif k == 1:
            pts.scale(T(rng.uniform(0.3, 3, 3) * rng.choice([-1, 1], 3)))
        else:
            pts.flip(''.join(rng.permutation(list('xyz'))[:rng.integers(0, 4)]))
        pts.translate(T(rng.normal(size=3)))
        p, q = N64(pts.points), N64(pts.normals)
        o1, a1, b1 = p[:n], p[n:2 * n] - p[:n], p[2 * n:] - p[:n]
        for v in (a1, b1):
            d = np.abs((v * q[:n]).sum(1)) / np.linalg.norm(v, axis=1)
            mon.ok((d < 2e-4).all(), 'perpendicular', 'cos %r' % d.max())
        mon.close(np.linalg.norm(q, axis=1), np.ones(3 * n), 'unit', rtol=2e-5)
        mon.ev('surfaces')
    # rotations preserve distances and handedness
    p0 = N64(pts.points)
    pts.rotate(T(rng.uniform(-4, 4, 3)))
    p1 = N64(pts.points)
    i, j = rng.integers(0, 3 * n, (2, 50))
    mon.close(np.linalg.norm(p1[i] - p1[j], axis=1), np.linalg.norm(p0[i] - p0[j], axis=1),
              'isometry', rtol=1e-4, atol=1e-5)
    det0 = np.linalg.det(np.stack([p0[1] - p0[0], p0[n] - p0[0], p0[2 * n] - p0[0]]))
    det1 = np.linalg.det(np.stack([p1[1] - p1[0], p1[n] - p1[0], p1[2 * n] - p1[0]]))
    mon.close(det1, det0, 'handedness', rtol=1e-3, atol=1e-3 * (1 + abs(det0)))
    mon.state('surf', nm, o)


def c21_reject(case, rng, mon):
    pts = rnd_points(rng, n=5)
    f = np.array([1.0, 2.0, 3.0])
    f[rng.integers(3)] = 0
    keep = pts.points.clone()
    try:
        pts.scale(T(f).to(pts.points.dtype))
        raise Violation('zero_scale_accepted')
    except AssertionError:
        pass
    mon.equal(pts.points, keep, 'rejected_but_changed')
    mon.ev('rejections')
    mon.state('rej', f)


KINDS['C21'] = {'history': (c21_history, 700, 9000), 'surface': (c21_surface, 100, 1200),
                'reject': (c21_reject, 10, 20)}
INFO['C21'] = {'mult': (16, 60), 'events': ['tiny_scalings', 'transformations', 'normalizations', 'orientations', 'surfaces',
                          'rejections', 'tiny_clouds_normalised'],
               'rule': 'Random sequences of flips, rotations, translations, scalings, normalisations '
                       'and orientations of clouds of 0-200 (at times 131072) points with and without attributes.'}


# --------------------------------------------------------------------------- C22

def rows(pts):
    return {k: None if getattr(pts, k) is None else to_np(getattr(pts, k))
            for k in ('points', 'normals', 'features', 'labels', 'batch_id')}


def check_rows(mon, got, src, idx, key, msg=''):
    g = rows(got)
    for k, v in src.items():
        if v is None:
            mon.ok(g[k] is None, key + '.' + k, '%s appeared' % k)
        else:
            mon.equal(g[k], v[idx], key + '.' + k, msg)


def c22_select(case, rng, mon):
    B = int(rng.integers(1, 4)) if rng.random() < 0.9 else int(rng.integers(4, 700))
    pts = rnd_points(rng, batch=B)
    n = pts.npt
    if n:
        pts.points = T(gen.quant(np.clip(N64(pts.points), -1, 1))).to(pts.points.dtype)
    src, before = rows(pts), snap(pts)
    mask = rng.random(n) < rng.choice([0.0, 0.5, 1.0])
    kind = rng.integers(3)
    if kind == 0 or n == 0:
        out, idx = pts[T(mask)], np.nonzero(mask)[0]
    elif kind == 1:
        idx = rng.integers(0, n, int(rng.integers(0, 2 * n)))
        out = pts[T(idx)]
    else:
        a, b = sorted(rng.integers(0, n + 1, 2))
        out, idx = pts[a:b], np.arange(a, b)
    check_rows(mon, out, src, idx, 'select')
    mon.ok(out.npt == idx.size and out.batch_size == B, 'select.size')
    same(mon, before, snap(pts), 'source_changed')
    mon.ev('selections')
    # the box: open interval, per-axis bounds
    p = N64(pts.points)
    lo, hi = float(rng.choice([-1, -0.5, -0.25])), float(rng.choice([1, 0.5, 0.25]))
    if n and rng.random() < 0.7:      # points on the bounds
        q = p.copy()
        sel = rng.random(q.shape) < 0.3
        q[sel] = rng.choice([lo, hi], int(sel.sum()))
        pts.points = T(q).to(pts.points.dtype)
        p = N64(pts.points)
        src = rows(pts)
    e = ((p > lo) & (p < hi)).all(1)
    mon.equal(pts.inbox_mask(lo, hi), e, 'inbox', '%g %g' % (lo, hi))
    mon.ev('points_in_box', int(e.sum()))
    mon.ev('points_out_of_box', int((~e).sum()))
    vl, vh = np.sort(gen.quant(rng.uniform(-1, 1, (2, 3))), 0)
    ev = ((p > vl) & (p < vh)).all(1)
    mon.equal(pts.inbox_mask(T(vl).to(pts.points.dtype), T(vh).to(pts.points.dtype)), ev,
              'inbox.per_axis')
    mon.equal(pts.inbox_mask(), ((p > -1) & (p < 1)).all(1), 'inbox.default')
    if rng.random() < 0.5:
        esp = float(rng.choice([0.0, 0.25, 0.125]))
        m = pts.clip(lo, hi, esp)
        e = ((p > lo + esp) & (p < hi - esp)).all(1)
    else:
        m = pts.clip()
        t = np.float64(0.99) if pts.points.dtype == torch.float64 else np.float64(np.float32(0.99))
        e = ((p > -t) & (p < t)).all(1)
    mon.equal(m, e, 'clip.mask')
    check_rows(mon, pts, src, np.nonzero(e)[0], 'clip')
    mon.ok(pts.batch_size == B and pts.npt == int(e.sum()), 'clip.size')
    mon.ev('clips')
    mon.state(src['points'], mask, kind)


def c22_merge(case, rng, mon):
    k = int(rng.integers(1, 6)) if rng.random() < 0.95 else int(rng.integers(6, 400))
    parts = [bool(rng.integers(2)) for _ in range(3)]
    dt = [torch.float32, torch.float64][rng.integers(2)]
    c = int(rng.integers(1, 4))
    ps = []
    for _ in range(k):
        n = int(rng.choice([0, 1, 5, 40]))
        if k < 6 and rng.random() < 0.03:
            n = int(2 ** rng.uniform(9, 17))
        p = rnd_points(rng, n, dt, parts)
        if parts[1]:
            p.features = T(rng.normal(size=(n, c))).to(dt)
        if parts[2]:
            p.labels = T(rng.integers(0, int(rng.choice([5, 5, 1 << 24])), (n, 1))).to(dt)
        ps.append(p)
    before = snap(*ps)
    out = merge_points(ps)
    cat = lambda a: np.concatenate([to_np(getattr(p, a)) for p in ps])
    mon.equal(out.points, cat('points'), 'merge.points')
    for a, on in zip(('normals', 'features', 'labels'), parts):
        if on:
            mon.equal(getattr(out, a), cat(a), 'merge.' + a)
        else:
            mon.ok(getattr(out, a) is None, 'merge.none')
    npt = np.array([p.npt for p in ps])
    mon.equal(N64(out.batch_id), np.repeat(np.arange(k), npt)[:, None].astype(float), 'merge.batch_id')
    mon.equal(to_np(out.batch_npt).astype(np.int64), npt, 'merge.batch_npt')
    mon.ok(out.batch_size == k, 'merge.batch_size')
    same(mon, before, snap(*ps), 'source_changed')
    # splitting the batch again gives back the samples
    for i in range(k):
        s = out[out.batch_id[:, 0] == i]
        mon.equal(s.points, ps[i].points, 'merge.split')
        if parts[1]:
            mon.equal(s.features, ps[i].features, 'merge.split')
    flat = merge_points(ps, update_batch_info=False)
    mon.equal(flat.points, out.points, 'merge.flat')
    mon.ok(flat.batch_id is None and flat.batch_size == 1, 'merge.flat_batch')
    mon.ev('merges')
    mon.ev('merged_points', int(npt.sum()))
    mon.state(npt, parts, cat('points'))


def c22_save(case, rng, mon):
    pts = rnd_points(rng, n=int(rng.choice([1, 2, 50])), batch=2 if rng.random() < 0.5 else None)
    before = snap(pts)
    letters = {'P': 'points', 'N': 'normals', 'F': 'features', 'L': 'labels', 'B': 'batch_id'}
    info = ''.join(rng.permutation(list('PNFLB'))[:rng.integers(1, 6)])
    if 'P' not in info:
        info = 'P' + info
    if rng.random() < 0.3:
        info = info.lower()
    src = rows(pts)
    d = tempfile.mkdtemp(prefix='ocnnmon')
    try:
        f = os.path.join(d, 'a.npz')
        if rng.random() < 0.3:
            info = 'PNFL'
            pts.save(f)
        else:
            pts.save(f, info)
        with np.load(f) as z:
            want = [letters[c] for c in info.upper() if src[letters[c]] is not None]
            mon.ok(sorted(z.files) == sorted(want), 'save.fields', '%s %s' % (z.files, want))
            for k in want:
                mon.equal(z[k], src[k], 'save.npz', k)
                mon.ok(z[k].dtype == src[k].dtype, 'save.dtype', k)
        f = os.path.join(d, 'a.xyz')
        pts.save(f, info)
        got = np.loadtxt(f, ndmin=2)
        e = np.concatenate([src[k].astype(np.float64) for k in want], 1)
        mon.close(got, e, 'save.xyz', rtol=0, atol=1e-6)
        try:
            pts.save(os.path.join(d, 'a.foo'), info)
            raise Violation('save.unknown_type_accepted')
        except ValueError:
            pass
    finally:
        shutil.rmtree(d)
    same(mon, before, snap(pts), 'source_changed')
    mon.ev('files_written', 2)
    mon.state('save', info, src['points'])


def c22_reject(case, rng, mon):
    n = int(rng.integers(2, 20))
    p = torch.rand(n, 3)
    bad = [lambda: Points(torch.rand(n, 4)), lambda: Points(torch.rand(n * 3)),
           lambda: Points(p, torch.rand(n + 1, 3)), lambda: Points(p, torch.rand(n, 2)),
           lambda: Points(p, features=torch.rand(n - 1, 2)), lambda: Points(p, features=torch.rand(n)),
           lambda: Points(p, labels=torch.rand(n + 2)), lambda: Points(p, labels=torch.rand(n, 1, 1)),
           lambda: Points(p, batch_id=torch.zeros(n + 1, 1)),
           lambda: Points(p, batch_id=torch.zeros(n, 2))]
    for k, f in enumerate(bad):
        try:
            f()
        except AssertionError:
            mon.ev('rejections')
            continue
        raise Violation('malformed_input_accepted', 'form %d' % k)
    ok = Points(p, labels=torch.arange(n), batch_id=torch.zeros(n).long())
    mon.ok(tuple(ok.labels.shape) == (n, 1) and tuple(ok.batch_id.shape) == (n, 1), 'columns')
    mon.equal(ok.labels[:, 0], np.arange(n), 'columns')
    mon.comparisons += 1
    mon.state('rej', n)


KINDS['C22'] = {'select': (c22_select, 400, 5000), 'merge': (c22_merge, 240, 3000),
                'save': (c22_save, 100, 1000), 'reject': (c22_reject, 10, 30)}
INFO['C22'] = {'mult': (16, 60), 'events': ['selections', 'points_in_box', 'points_out_of_box', 'clips', 'merges',
                          'files_written', 'rejections'],
               'rule': 'Clouds of 0-200 (at times 131072) points with random subsets of attributes, boolean, index and '
                       'slice selections, boxes with points exactly on the bounds.'}


# --------------------------------------------------------------------------- C23

def check_octree_of_points(mon, o, pts, depth, full_depth, key):
    """The octree is that of the points; independent of rounding near voxel faces."""
    ref_o = Octree(depth, full_depth)
    ref_o.build_octree(pts)
    ref = oracle.RefOctree.from_octree(ref_o)
    check_tree(mon, o, ref, key)
    for a in ('points', 'normals', 'features'):
        u, v = getattr(o, a)[depth], getattr(ref_o, a)[depth]
        if v is None:
            mon.ok(u is None, key + '.' + a)
        else:
            mon.close(u, v, key + '.' + a, rtol=1e-6, atol=1e-6)
    p = (N64(pts.points) + 1) * 2.0 ** (depth - 1)
    v = np.floor(p)
    far = (np.abs(p - np.round(p)) > 1e-3).all(1)
    idx = ref.index(depth, v[far].astype(np.int64), np.zeros(int(far.sum()), np.int64), True)
    mon.ok((idx >= 0).all(), key + '.missing_leaf')


def sample_of(rng, n=None, extra=True):
    n = n or int(rng.integers(40, 200))
    s = {'points': (rng.uniform(-0.5, 0.5, (n, 3))).astype(np.float32),
         'normals': gen.normals(rng, n)}
    s['normals'] = rng.normal(size=(n, 3)).astype(np.float32)
    s['normals'] /= np.linalg.norm(s['normals'], axis=1, keepdims=True)
    if extra:
        s['label'] = int(rng.integers(0, 40))
        s['filename'] = 'f%d' % rng.integers(1000)
    return s


def c23_plain(case, rng, mon):
    """Without distortion: exactly the input, clipped."""
    depth = int(rng.integers(2, 7))
    fd = int(rng.integers(1, min(depth, 3) + 1))
    orient = ['', 'x', 'y', 'z', 'xyz'][rng.integers(5)]
    tr = Transform(depth, fd, False, [10, 10, 10], [1, 1, 1], 0.2, False, 0.1, [0.5] * 3, orient)
    s = sample_of(rng)
    s['points'] = rng.uniform(-1.1, 1.1, s['points'].shape).astype(np.float32)
    s['points'][0] = 0.1
    keep = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in s.items()}
    for rep in range(2):
        out = tr(s, 0)
        mon.ok(set(s) == set(keep), 'sample_consumed', str(sorted(s)))
        for k, v in keep.items():
            if isinstance(v, np.ndarray):
                mon.equal(s[k], v, 'sample_changed', k)
        mask = (np.abs(keep['points']) < np.float32(0.99)).all(1)
        edge = (np.abs(np.abs(keep['points']) - 0.99) < 1e-6).any(1)
        got = to_np(out['inbox_mask'])
        mon.equal(got[~edge], mask[~edge], 'inbox_mask')
        mon.equal(out['points'].points, keep['points'][got], 'points')
        n = keep['normals'][got]
        if orient == 'xyz':
            n = np.abs(n)
        elif orient:
            n = n * np.sign(n[:, ['x', 'y', 'z'].index(orient)])[:, None]
        mon.equal(out['points'].normals, n, 'normals', orient)
        mon.ok(out['label'] == keep['label'] and out['filename'] == keep['filename'], 'other_fields')
        o = out['octree']
        mon.ok(o.depth == depth and o.full_depth == fd and o.batch_size == 1, 'octree.attributes')
        check_octree_of_points(mon, o, out['points'], depth, fd, 'octree')
        mon.ev('plain_samples')
        mon.ev('points_clipped', int((~got).sum()))
    mon.state('plain', depth, fd, orient, keep['points'])


def c23_distort(case, rng, mon):
    """Every augmentation drawn is one the settings allow: the affine map is recovered from
    the output and decomposed into flip, rotation, translation and scale."""
    depth = int(rng.integers(2, 6))
    interval = rng.choice([1.0, 5.0, 30.0, 90.0], 3)
    angle = interval * rng.integers(0, 3, 3)
    if rng.random() < 0.5:
        angle = angle * (rng.random(3) < 0.4)
    scale = float(rng.choice([0.0, 0.1, 0.25]))
    uniform = bool(rng.integers(2))
    jitter = float(rng.choice([0.0, 0.05, 0.125]))
    flip = rng.choice([0.0, 0.5, 1.0], 3)
    num = float if rng.random() < 0.3 else int
    orient = '' if rng.random() < 0.5 else ['x', 'y', 'z', 'xyz'][rng.integers(4)]
    tr = Transform(depth, 2, True, [num(a) for a in angle], [num(i) for i in interval], scale,
                   uniform, jitter, [float(f) for f in flip], orient)
    s = sample_of(rng, gen.many(rng, 60, 61, 0.06))
    s['points'] = (s['points'] * (0.8 if rng.random() < 0.5 else 2.4)).astype(np.float32)
    p, n = s['points'].astype(np.float64), s['normals'].astype(np.float64)
    msg = 'angle %s interval %s scale %g uniform %s jitter %g flip %s' % (
        angle, interval, scale, uniform, jitter, flip)
    for _ in range(4):
        st = torch.get_rng_state()
        out = tr(s, 0)
        nxt = torch.get_rng_state()
        mask = to_np(out['inbox_mask'])
        q = N64(out['points'].points)
        mon.ok(mask.shape == (p.shape[0],) and q.shape[0] == mask.sum(), 'mask', msg)
        if mask.sum() < 10:
            continue
        A = np.concatenate([p[mask], np.ones((mask.sum(), 1))], 1)
        X, *_ = np.linalg.lstsq(A, q, rcond=None)
        mon.close(A @ X, q, 'not_affine', msg, rtol=0, atol=2e-5)
        M, t = X[:3].T, X[3]                     # q = M p + t
        # a point that was cut off must have left the box
        full = p @ M.T + t
        mon.ok((np.abs(full[~mask]) > 0.99 - 1e-3).any(1).all(), 'clipped_inside', msg)
        mon.ok((np.abs(full[mask]) < 0.99 + 1e-3).all(), 'not_clipped', msg)
        sc = np.linalg.norm(M, axis=1)
        mon.ok((np.abs(sc - 1) <= scale + 1e-3).all(), 'scale_range', '%s: %s' % (msg, sc))
        if uniform or scale == 0:
            mon.ok(np.ptp(sc) < 1e-3, 'scale_uniform', '%s: %s' % (msg, sc))
        elif scale >= 0.1:
            mon.ev('nonuniform_scales', int(np.ptp(sc) > 1e-3))
        tt = t / sc
        mon.ok((np.abs(tt) <= jitter + 1e-3).all(), 'jitter_range', '%s: %s' % (msg, tt))
        Q = M / sc[:, None]
        mon.close(Q @ Q.T, np.eye(3), 'not_orthogonal', msg, rtol=0, atol=2e-3)
        best, arg = 9e9, None
        fl = [[1.0] if f == 0 else [-1.0] if f == 1 else [1.0, -1.0] for f in flip]
        kk = [range(-int(a // i), int(a // i) + 1) for a, i in zip(angle, interval)]
        for f in itertools.product(*fl):
            for k in itertools.product(*kk):
                a = np.array(k) * interval * np.pi / 180
                R = rot(2, a[2]) @ rot(1, a[1]) @ rot(0, a[0]) @ np.diag(f)
                e = np.abs(R - Q).max()
                if e < best:
                    best, arg = e, (f, k)
        mon.ok(best < 3e-3, 'not_allowed', '%s: no allowed flip and rotation explains %s (%g)' % (
            msg, Q, best))
        # normals follow
        nn = n[mask] @ np.diag(arg[0]) @ (rot(2, arg[1][2] * interval[2] * np.pi / 180) @
                                          rot(1, arg[1][1] * interval[1] * np.pi / 180) @
                                          rot(0, arg[1][0] * interval[0] * np.pi / 180)).T
        if not np.ptp(sc) < 1e-7:
            nn = nn / sc
            nn /= np.linalg.norm(nn, axis=1, keepdims=True)
        got = N64(out['points'].normals)
        if orient == 'xyz':             # after the augmentation
            nn = np.abs(nn)
        elif orient:
            nn = nn * np.sign(nn[:, ['x', 'y', 'z'].index(orient)])[:, None]
            k = ['x', 'y', 'z'].index(orient)
            mon.ok((got[:, k] >= 0).all(), 'oriented', msg)
            sure = np.abs(nn[:, k]) > 0.02
            nn, got = nn[sure], got[sure]
        mon.ev('oriented_samples', int(orient != ''))
        mon.close(got, nn, 'normals', '%s %s' % (msg, orient), rtol=0, atol=5e-3)
        check_octree_of_points(mon, out['octree'], out['points'], depth, 2, 'octree')
        mon.ev('augmented_samples')
        was = (np.abs(p) > 0.99).any(1)
        mon.ev('points_brought_in', int((was & mask).sum()))
        mon.ev('points_moved_out', int((~was & ~mask).sum()))
        mon.ev('flipped', int(min(arg[0]) < 0))
        mon.ev('rotated', int(any(arg[1])))
        mon.state('aug', msg, q)
        # the same random state gives the same augmentation
        torch.set_rng_state(st)
        again = tr(s, 0)
        mon.equal(again['points'].points, out['points'].points, 'not_reproducible', msg)
        torch.set_rng_state(nxt)


def c23_spread(case, rng, mon):
    """The augmentations use the range they are given (both signs, all multiples)."""
    tr = Transform(2, 1, True, [0, 20, 0], [1, 10, 1], 0.2, True, 0.1, [0.5, 0.0, 0.0])
    s = sample_of(rng, 30)
    s['points'] = (s['points'] * 0.5).astype(np.float32)
    A = np.concatenate([s['points'].astype(np.float64), np.ones((30, 1))], 1)
    ks, fs, ss, ts = [], [], [], []
    for _ in range(250):
        out = tr(s, 0)
        if to_np(out['inbox_mask']).sum() < 30:
            continue
        X, *_ = np.linalg.lstsq(A, N64(out['points'].points), rcond=None)
        M = X[:3].T
        sc = np.linalg.norm(M, axis=1)
        Q = M / sc[:, None]
        f = np.sign(np.linalg.det(Q))
        Q = Q @ np.diag([f, 1, 1])
        ks.append(int(round(np.arctan2(Q[0, 2], Q[0, 0]) * 18 / np.pi)))
        fs.append(f)
        ss.append(sc[0])
        ts.append(X[3] / sc)
    ks, fs, ss, ts = map(np.array, (ks, fs, ss, ts))
    cnt = np.bincount(ks + 2, minlength=5)
    mon.ok(cnt.size == 5 and (cnt > len(ks) * 0.08).all(), 'angles', str(cnt))
    mon.ok(0.3 < (fs < 0).mean() < 0.7, 'flips', str((fs < 0).mean()))
    mon.ok(ss.min() < 0.85 and ss.max() > 1.15 and abs(ss.mean() - 1) < 0.04, 'scales',
           '%g %g %g' % (ss.min(), ss.max(), ss.mean()))
    mon.ok((ts.min(0) < -0.07).all() and (ts.max(0) > 0.07).all(), 'jitters', str((ts.min(0), ts.max(0))))
    mon.ok(abs(np.corrcoef(ts.T)[0, 1]) < 0.35, 'jitters_linked')
    mon.ev('spreads')
    mon.state('spread', case['i'])


def c23_collate(case, rng, mon):
    k = gen.few(rng, 1, 6, 0.1, 300)
    depth = int(rng.integers(2, 6))
    fd = int(rng.integers(1, min(3, depth) + 1))
    tr = Transform(depth, fd, bool(rng.integers(2)), [0, 5, 0], [1, 1, 1], 0.1, True, 0.05,
                   [0.0, 0.0, 0.0])
    raw = [sample_of(rng, int(rng.integers(5, 80 if k < 50 else 12))) for _ in range(k)]
    batch = [tr(s, i) for i, s in enumerate(raw)]
    before = snap(*[b['octree'] for b in batch], *[b['points'] for b in batch])
    mp = bool(rng.integers(2))
    out = (CollateBatch() if not mp and rng.random() < 0.5 else CollateBatch(merge_points=mp))(batch)
    same(mon, before, snap(*[b['octree'] for b in batch], *[b['points'] for b in batch]),
         'samples_changed')
    mon.ok(set(out) == set(batch[0]), 'fields', str(sorted(out)))
    o = out['octree']
    ref_o = merge_octrees([b['octree'] for b in batch])
    ref = oracle.RefOctree.from_octree(ref_o)
    check_tree(mon, o, ref, 'collate.octree')
    mon.ok(o.batch_size == k, 'collate.batch_size')
    for d in range(1, depth + 1):
        mon.equal(o.neighs[d], ref.neigh(d), 'collate.neigh')
        for i in range(k):      # sample i of the batch is sample i of the list
            b = ref.batch(d) == i
            mon.equal(ref.keys[d][b] & oracle.M48, batch[i]['octree'].keys[d], 'collate.order')
    for a in ('points', 'normals'):
        mon.equal(getattr(o, a)[depth], np.concatenate(
            [to_np(getattr(b['octree'], a)[depth]) for b in batch]), 'collate.' + a)
    if mp:
        mon.equal(out['points'].points, np.concatenate([to_np(b['points'].points) for b in batch]),
                  'collate.points')
        mon.equal(N64(out['points'].batch_id)[:, 0], np.repeat(
            np.arange(k), [b['points'].npt for b in batch]).astype(float), 'collate.points_batch')
    else:
        mon.ok(all(u is b['points'] for u, b in zip(out['points'], batch)) and
               len(out['points']) == k, 'collate.points_list')
    mon.ok(isinstance(out['label'], torch.Tensor), 'collate.label')
    mon.equal(out['label'], np.array([s['label'] for s in raw]), 'collate.label')
    mon.ok(list(out['filename']) == [s['filename'] for s in raw], 'collate.filename')
    for u, b in zip(out['inbox_mask'], batch):
        mon.equal(u, b['inbox_mask'], 'collate.inbox_mask')
    mon.ev('batches')
    mon.ev('batches_merged_points', int(mp))
    mon.state('collate', k, depth, *[s['points'] for s in raw])


class ListData(torch.utils.data.Dataset):
    def __init__(self, items, tr):
        self.items, self.tr = items, tr

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.tr(self.items[i], i)


def c23_loader(case, rng, mon):
    """Epochs over a cached dataset through torch's DataLoader, with and without workers."""
    depth = 4
    tr = Transform(depth, 2, False, [0, 0, 0], [1, 1, 1], 0.0, True, 0.0, [0, 0, 0])
    n = int(rng.integers(5, 9))
    items = [sample_of(rng, int(rng.integers(5, 60))) for _ in range(n)]
    data = ListData(items, tr)
    nw = case['i'] % 3
    dl = torch.utils.data.DataLoader(data, batch_size=3, num_workers=nw, shuffle=True,
                                     collate_fn=CollateBatch(merge_points=True))
    names = {s['filename'] + str(k): s for k, s in enumerate(items)}
    for k, s in enumerate(items):
        s['filename'] += str(k)
    for epoch in range(2):
        seen = []
        for batch in dl:
            cl = []
            for i, f in enumerate(batch['filename']):
                s = names[f]
                seen.append(f)
                got = batch['points'][batch['points'].batch_id[:, 0] == i]
                mon.equal(got.points, s['points'], 'loader.points')
                mon.ok(int(batch['label'][i]) == s['label'], 'loader.label')
                cl.append(s['points'])
            o = batch['octree']
            ref = oracle.RefOctree.from_octree(merge_octrees([tr(names[f], 0)['octree']
                                                              for f in batch['filename']]))
            check_tree(mon, o, ref, 'loader.octree')
            mon.equal(o.neighs[depth], ref.neigh(depth), 'loader.neigh')
            mon.ev('loader_batches')
        mon.ok(sorted(seen) == sorted(names), 'loader.exactly_once', str(seen))
        mon.ev('epochs')
    mon.state('loader', nw, *[s['points'] for s in items])


KINDS['C23'] = {'plain': (c23_plain, 160, 2000), 'distort': (c23_distort, 120, 2000),
                'spread': (c23_spread, 8, 60), 'collate': (c23_collate, 120, 1600),
                'loader': (c23_loader, 9, 60)}
INFO['C23'] = {'events': ['plain_samples', 'points_clipped', 'augmented_samples', 'oriented_samples', 'flipped',
                          'rotated', 'batches', 'batches_merged_points', 'epochs', 'spreads',
                          'nonuniform_scales', 'points_brought_in', 'points_moved_out'],
               'rule': 'Random settings and samples; the affine map of every augmentation is recovered '
                       'from the output and decomposed; batches of 1-5; data loaders with 0-2 workers.'}


# --------------------------------------------------------------------------- C24

OFIELDS = ('keys', 'children', 'neighs', 'features', 'normals', 'points')
COUNTS = ('nnum', 'nnum_nempty', 'batch_nnum', 'batch_nnum_nempty')
PFIELDS = ('points', 'normals', 'features', 'labels', 'batch_id')


def c24_octree(case, rng, mon):
    w = gen.world(rng, maxdepth=6, nmax=120, min_depth=1, max_nodes=4000,
                  neigh=bool(rng.integers(2)))
    o, ref = w.octree, w.ref
    before = snap(o)
    # a device where only shapes live: everything must have moved
    target = ['meta', torch.device('meta')][rng.integers(2)]
    m = o.to(target)
    mon.ok(m is not o, 'meta.same_object')
    mon.ok((m.depth, m.full_depth, m.batch_size) == (o.depth, o.full_depth, o.batch_size),
           'attributes')
    mon.ok(torch.device(m.device).type == 'meta', 'meta.device')
    for f in OFIELDS:
        mon.ok(len(getattr(m, f)) == len(getattr(o, f)), 'meta.layers', f)
        for d, (u, v) in enumerate(zip(getattr(m, f), getattr(o, f))):
            mon.ok((u is None) == (v is None), 'meta.missing', '%s[%d]' % (f, d))
            if v is not None:
                mon.ok(u.device.type == 'meta', 'meta.not_moved', '%s[%d]' % (f, d))
                mon.ok(u.shape == v.shape and u.dtype == v.dtype, 'meta.shape', '%s[%d]' % (f, d))
                mon.ev('tensors_moved')
    for f in COUNTS:
        if getattr(m, f).device.type == 'cpu':
            mon.equal(getattr(m, f), getattr(o, f), 'counts', f)
    # a device with another name but real contents
    c = o.to(['cpu:0', torch.device('cpu:0')][rng.integers(2)])
    same(mon, before, snap(c), 'contents')
    mon.ok(c.device == torch.device('cpu:0'), 'device')
    mon.ok(o.to('cpu') is not None and o.cpu() is not None, 'cpu')
    same(mon, before, snap(o.cpu()), 'contents')
    d = int(rng.integers(0, w.depth + 1))
    q = np.concatenate([ref.xyz(d), ref.batch(d)[:, None]], 1)
    mon.equal(c.search_xyzb(T(q).float(), d), np.arange(q.shape[0]), 'usable.search')
    c.construct_all_neigh()
    for d in range(1, w.depth + 1):
        mon.equal(c.neighs[d], ref.neigh(d), 'usable.neigh')
        mon.equal(c.get_neigh(d, '311', 2), ref.neigh(d, '311', 2), 'usable.get_neigh')
        mon.equal(c.get_neigh(d, '222', 1, True), ref.neigh(d, '222', 1, True), 'usable.get_neigh')
    for f in COUNTS:      # counts of the copy are its own
        getattr(c, f).fill_(-7)
    for f in OFIELDS:
        for k in range(len(getattr(c, f))):
            getattr(c, f)[k] = None
    same(mon, before, snap(o), 'original_changed')
    # and back
    back = o.to('cpu:0').to('cpu')
    same(mon, before, snap(back), 'round_trip')
    mon.ev('octrees_moved')
    mon.state(gen.describe(w), ref.keys[w.depth])


def c24_grow(case, rng, mon):
    """A moved octree can go on being split and grown; the original does not notice."""
    fd = int(rng.integers(1, 3))
    depth = fd + int(rng.integers(1, 3))
    B = int(rng.integers(1, 3))
    o = ocnn.octree.init_octree(depth, fd, B)
    ref = oracle.RefOctree.start_full(depth, fd, B)
    c = o.to('cpu:0')
    orig, keep = [o], [snap(o)]
    for d in range(fd, depth):
        mask = rng.random(ref.nnum(d)) < 0.4
        c.octree_split(torch.from_numpy(mask.astype(np.int32)), d)
        ref.split(mask, d)
        c.octree_grow(d + 1)
        ref.grow(d + 1)
        check_tree(mon, c, ref, 'moved', upto=d + 1)
        mon.equal(c.neighs[d + 1], ref.neigh(d + 1), 'moved.neigh')
        for u, k in zip(orig, keep):
            same(mon, k, snap(u), 'original_changed')
        orig.append(c)
        keep.append(snap(c))
        c = c.to('cpu' if c.device == torch.device('cpu:0') else 'cpu:0')
        mon.ev('grown_after_move')
    # merging octrees that were moved
    os_ = [gen.build(gen.make_points(gen.cloud(rng, 'uniform', 30, 4)), 4, 2)[0].to('cpu:0')
           for _ in range(2)]
    m = merge_octrees(os_)
    mon.equal(m.key(4) & oracle.M48, np.concatenate([to_np(t.key(4)) for t in os_]), 'merge_moved')
    mon.state('grow', depth, fd, B, ref.keys[depth])


def c24_points(case, rng, mon):
    pts = rnd_points(rng, batch=int(rng.integers(0, 4)) or None)
    if rng.random() < 0.4:
        pts = merge_points([pts])
    before = snap(pts)
    m = pts.to(['meta', torch.device('meta')][rng.integers(2)])
    mon.ok(m.batch_size == pts.batch_size, 'points.batch_size')
    mon.ok(torch.device(m.device).type == 'meta', 'points.device')
    for f in PFIELDS:
        u, v = getattr(m, f), getattr(pts, f)
        mon.ok((u is None) == (v is None), 'points.missing', f)
        if v is not None:
            mon.ok(u.device.type == 'meta', 'points.not_moved', f)
            mon.ok(u.shape == v.shape and u.dtype == v.dtype, 'points.shape', f)
            mon.ev('tensors_moved')
    c = pts.to('cpu:0')
    same(mon, before, snap(c), 'points.contents')
    c.flip('x')
    c.translate(torch.ones(3, dtype=c.points.dtype))
    if c.npt:
        c.scale(torch.tensor([1.0, 2.0, 1.5], dtype=c.points.dtype))
        c.clip()
    same(mon, before, snap(pts), 'original_changed')
    same(mon, before, snap(pts.cpu()), 'points.contents')
    same(mon, before, snap(pts.to('cpu:0').to('cpu')), 'points.round_trip')
    mon.ev('clouds_moved')
    mon.state('pts', pts.points.numpy())


def duplicate(rng, x):
    import copy
    import io
    import pickle
    how = ['deepcopy', 'pickle', 'torch.save', 'protocol2', 'workers'][rng.integers(5)]
    if how == 'deepcopy':
        return copy.deepcopy(x), how
    if how in ('pickle', 'protocol2'):
        return pickle.loads(pickle.dumps(x, protocol=2 if how == 'protocol2' else -1)), how
    if how == 'workers':        # what a data loader does with the items of its workers
        from multiprocessing.reduction import ForkingPickler
        import torch.multiprocessing as tm      # registers the reductions of tensors
        old = tm.get_sharing_strategy()
        tm.set_sharing_strategy('file_system')
        try:        # the memory is shared with what was sent: send a copy
            return pickle.loads(bytes(ForkingPickler.dumps(copy.deepcopy(x)))), how
        finally:
            tm.set_sharing_strategy(old)
    f = io.BytesIO()
    torch.save(x, f)
    f.seek(0)
    return torch.load(f, weights_only=False), how


def c24_copies(case, rng, mon):
    """Copied and pickled octrees and clouds: complete, independent, usable."""
    w = gen.world(rng, maxdepth=5, nmax=80, min_depth=1, max_nodes=4000, neigh=bool(rng.integers(2)))
    o, ref = w.octree, w.ref
    before = snap(o)
    c, how = duplicate(rng, o)
    mon.ok(type(c) is type(o) and c is not o, 'copies.type', how)
    same(mon, before, snap(c), 'copies.contents')
    mon.ok(c.device == o.device and c.depth == o.depth and c.full_depth == o.full_depth and
           c.batch_size == o.batch_size, 'copies.attributes', how)
    c.construct_all_neigh()
    for d in range(w.depth + 1):
        q = np.concatenate([ref.xyz(d), ref.batch(d)[:, None]], 1)
        mon.equal(c.search_xyzb(T(q).float(), d), np.arange(q.shape[0]), 'copies.search', how)
        if d:
            mon.equal(c.get_neigh(d, '333', 1), ref.neigh(d), 'copies.neigh', how)
            mon.equal(c.get_neigh(d, '222', 2), ref.neigh(d, '222', 2), 'copies.neigh', how)
    if w.batch == 1:
        m = merge_octrees([c, o])
        mon.ok(m.batch_size == 2, 'copies.merge', how)
        mon.equal(m.nnum, 2 * to_np(o.nnum), 'copies.merge', how)
    same(mon, before, snap(o), 'copies.original')
    o2, _ = duplicate(rng, o)
    kept = snap(o)
    for f in OFIELDS:           # contents of the copy are its own, as well as the lists
        for t in getattr(o2, f):
            if t is not None and t.numel():
                t.fill_(3)
    for f in COUNTS:
        getattr(o2, f).fill_(-7)
    for f in OFIELDS:
        for k in range(len(getattr(o2, f))):
            getattr(o2, f)[k] = None
    same(mon, kept, snap(o), 'copies.original')
    mon.ev('octrees_copied')
    mon.ev('how.' + how)
    # a cloud
    pts = rnd_points(rng, batch=int(rng.integers(0, 4)) or None)
    if rng.random() < 0.5:
        pts = merge_points([pts])
    before = snap(pts)
    c, how = duplicate(rng, pts)
    same(mon, before, snap(c), 'copies.cloud')
    mon.ok(c.batch_size == pts.batch_size and c.device == pts.device, 'copies.cloud_attributes', how)
    for f in PFIELDS:
        if getattr(c, f) is not None and getattr(c, f).numel():
            getattr(c, f).fill_(0)
    c.points = None
    same(mon, before, snap(pts), 'copies.cloud_original')
    mon.ev('how.' + how)
    # layers
    from .system import CALLS, call
    cl = None
    while cl is None or cl.model is None:
        cl = call(rng, w, CALLS[rng.integers(len(CALLS))], True) if w.depth > 1 else call(rng, w, 'avgpool', True)
        if o.neighs[w.depth] is None:
            o.construct_all_neigh()
    m = cl.model.eval()
    if any(isinstance(t, type(o)) for t in cl.inputs) and len(cl.inputs) > 1 and cl.name not in ('drop',):
        m2, how = duplicate(rng, m)
        x = cl.inputs[0].detach() if isinstance(cl.inputs[0], torch.Tensor) else cl.inputs[0]
        is_bn = isinstance(m, torch.nn.BatchNorm1d)
        ins = [x] if is_bn else [x] + list(cl.inputs[1:])
        with torch.no_grad():
            a, b = m(*ins), m2(*ins)
        mon.equal(b, a, 'copies.layer', '%s %s' % (cl.name, how))
        st = m2.state_dict()
        mon.ok(list(st) == list(m.state_dict()), 'copies.names', cl.name)
        with torch.no_grad():
            for p in m2.parameters():
                p.fill_(5)
            mon.equal(m(*ins), a, 'copies.layer_original', '%s %s' % (cl.name, how))
        mon.ev('layers_copied')
    mon.state('copies', how, ref.keys[w.depth], cl.name)


KINDS['C24'] = {'copies': (c24_copies, 60, 800), 'octree': (c24_octree, 240, 3000), 'grow': (c24_grow, 80, 1000),
                'points': (c24_points, 200, 2500)}
INFO['C24'] = {'events': ['tensors_moved', 'octrees_moved', 'grown_after_move', 'clouds_moved', 'octrees_copied',
                          'layers_copied', 'how.deepcopy', 'how.pickle', 'how.torch.save',
                          'how.workers'],
               'rule': 'Built, merged and grown octrees and clouds with random attributes, moved to '
                       "the storage-less 'meta' device (does everything move?) and to 'cpu:0' (is "
                       'everything the same?).',
               'assumptions': ["the move code is observed on 'meta' and 'cpu:0', there is no GPU"]}
