"""Independent reference models (numpy, float64/int64).  Nothing here imports ocnn."""
import numpy as np

M48 = (1 << 48) - 1


def morton(xyz, depth):
    """xyz int64 (..., 3) -> interleaved key, x is the highest bit of each triple."""
    xyz = np.asarray(xyz, np.int64)
    key = np.zeros(xyz.shape[:-1], np.int64)
    for i in range(depth):
        for a in range(3):
            key |= ((xyz[..., a] >> i) & 1) << (3 * i + 2 - a)
    return key


def unmorton(key, depth):
    key = np.asarray(key, np.int64)
    xyz = np.zeros(key.shape + (3,), np.int64)
    for i in range(depth):
        for a in range(3):
            xyz[..., a] |= ((key >> (3 * i + 2 - a)) & 1) << i
    return xyz


def voxel(points, depth):
    """The voxel of each point of [-1, 1]^3; the upper bound belongs to the last voxel.
    Exact for points that are multiples of 2^-22."""
    p = np.asarray(points, np.float64)
    v = np.floor((p + 1.0) * 2.0 ** (depth - 1)).astype(np.int64)
    return np.minimum(v, (1 << depth) - 1)


def parent(keys):
    return ((keys & M48) >> 3) | (keys & ~np.int64(M48))


KERNELS = ['333', '311', '131', '113', '222', '331', '313', '133']


def offsets(kernel):
    rng = {'3': (-1, 0, 1), '2': (0, 1), '1': (0,)}
    k = [rng[c] for c in kernel]
    return np.array([(x, y, z) for x in k[0] for y in k[1] for z in k[2]], np.int64)


class RefOctree:
    """keys[d]: sorted int64 keys of all nodes; ne[d]: non-empty flags;
    rank[d]: index among the non-empty nodes, or -1."""

    def __init__(self, depth, full_depth, batch_size):
        self.depth, self.full_depth, self.batch_size = depth, full_depth, batch_size
        self.keys = [None] * (depth + 1)
        self.ne = [None] * (depth + 1)
        self.rank = [None] * (depth + 1)
        self._xyz = {}
        self._neigh = {}

    def _finish(self, d):
        ne = self.ne[d]
        self.rank[d] = np.where(ne, np.cumsum(ne) - 1, -1)

    def _full(self, d):
        k = np.arange(1 << (3 * d), dtype=np.int64)
        b = np.arange(self.batch_size, dtype=np.int64) << 48
        return (b[:, None] | k[None, :]).reshape(-1)

    @staticmethod
    def _children(keys):
        base = ((keys & M48) << 3) | (keys & ~np.int64(M48))
        return (base[:, None] + np.arange(8)).reshape(-1)

    @classmethod
    def from_leaves(cls, depth, full_depth, batch_size, leaf_keys):
        r = cls(depth, full_depth, batch_size)
        occ = {depth: np.unique(np.asarray(leaf_keys, np.int64))}
        for d in range(depth, 0, -1):
            occ[d - 1] = np.unique(parent(occ[d]))
        r.occ = occ
        for d in range(depth + 1):
            if d <= full_depth:
                r.keys[d] = r._full(d)
                r.ne[d] = np.ones(r.keys[d].shape[0], bool) if d < full_depth else \
                    np.isin(r.keys[d], occ[d])
            else:
                r.keys[d] = cls._children(occ[d - 1])
                r.ne[d] = np.isin(r.keys[d], occ[d])
            r._finish(d)
        return r

    @classmethod
    def from_points(cls, depth, full_depth, clouds):
        ks = [morton(voxel(c, depth), depth) | (np.int64(i) << 48)
              for i, c in enumerate(clouds)]
        r = cls.from_leaves(depth, full_depth, len(clouds), np.concatenate(ks))
        r.point_keys = ks
        return r

    @classmethod
    def start_full(cls, depth, full_depth, batch_size):
        """A tree grown up to full_depth, all nodes non-empty."""
        r = cls(depth, full_depth, batch_size)
        for d in range(full_depth + 1):
            r.keys[d] = r._full(d)
            r.ne[d] = np.ones(r.keys[d].shape[0], bool)
            r._finish(d)
        return r

    def split(self, mask, d):
        mask = np.asarray(mask) != 0
        if not mask.any():
            mask = mask.copy()
            mask[0] = True
        self.ne[d] = mask
        self._finish(d)
        self._neigh.clear()

    def grow(self, d):
        self.keys[d] = self._children(self.keys[d - 1][self.ne[d - 1]])
        self.ne[d] = np.ones(self.keys[d].shape[0], bool)
        self._finish(d)
        self._xyz.pop(d, None)
        self._neigh.clear()

    @classmethod
    def from_octree(cls, octree):
        """A view of a live octree, used by monitors that meet octrees whose
        origin they do not know.  Only keys and children are read."""
        r = cls(octree.depth, octree.full_depth, octree.batch_size)
        for d in range(octree.depth + 1):
            if octree.keys[d] is None or octree.children[d] is None:
                continue
            r.keys[d] = octree.keys[d].detach().cpu().numpy().astype(np.int64)
            c = octree.children[d].detach().cpu().numpy().astype(np.int64)
            r.ne[d] = c >= 0
            r._finish(d)
        return r

    # -- geometry
    def nnum(self, d, nempty=False):
        return int(self.ne[d].sum()) if nempty else int(self.keys[d].shape[0])

    def key(self, d, nempty=False):
        return self.keys[d][self.ne[d]] if nempty else self.keys[d]

    def xyz(self, d, nempty=False):
        if d not in self._xyz or self._xyz[d].shape[0] != self.keys[d].shape[0]:
            self._xyz[d] = unmorton(self.keys[d] & M48, d)
        x = self._xyz[d]
        return x[self.ne[d]] if nempty else x

    def batch(self, d, nempty=False):
        return self.key(d, nempty) >> 48

    def index(self, d, xyz, b, nempty=False):
        """Row of the node at (xyz, b), or -1 if there is none."""
        xyz, b = np.asarray(xyz, np.int64), np.asarray(b, np.int64)
        inside = ((xyz >= 0) & (xyz < (1 << d))).all(-1) & (b >= 0) & (b < self.batch_size)
        q = morton(np.where(inside[..., None], xyz, 0), d) | (np.where(inside, b, 0) << 48)
        keys = self.keys[d]
        pos = np.searchsorted(keys, q)
        pos = np.minimum(pos, keys.shape[0] - 1)
        found = inside & (keys[pos] == q)
        pos = np.where(found, pos, -1)
        if nempty:
            pos = np.where(pos >= 0, self.rank[d][pos], -1)
        return pos

    def neigh(self, d, kernel='333', stride=1, nempty=False):
        """Expected neighbourhood table (rows, K); -1: no such node."""
        ck = (d, kernel, stride, nempty)
        if ck not in self._neigh:
            xyz, b = self.xyz(d), self.batch(d)
            if stride == 2:
                xyz, b = xyz[::8], b[::8]
            elif nempty:
                xyz, b = xyz[self.ne[d]], b[self.ne[d]]
            off = offsets(kernel)
            q = xyz[:, None, :] + off[None]
            self._neigh[ck] = self.index(
                d, q, np.broadcast_to(b[:, None], q.shape[:2]), nempty)
        return self._neigh[ck]

    def pad(self, data, d, val=0.0):
        out = np.full((self.nnum(d),) + data.shape[1:], val, data.dtype)
        out[self.ne[d]] = data
        return out

    def depad(self, data, d):
        return data[self.ne[d]]


# -- feature operators -------------------------------------------------------

def gather(data, neigh):
    out = data[np.maximum(neigh, 0)].copy()
    out[neigh < 0] = 0
    return out


def scatter(col, neigh, n):
    out = np.zeros((n, col.shape[-1]), np.float64)
    v = neigh >= 0
    np.add.at(out, neigh[v], col[v])
    return out


def conv(ref, data, w, d, kernel, stride, nempty, bias=None, padded=True):
    """data (N, Cin), w (K, Cin, Cout).  Returns (out, magnitude)."""
    neigh = ref.neigh(d, kernel, stride, nempty)
    col = gather(data, neigh)
    out = np.einsum('nkc,kco->no', col, w)
    mag = np.einsum('nkc,kco->no', np.abs(col), np.abs(w))
    if bias is not None:
        out, mag = out + bias, mag + np.abs(bias)
    if stride == 2 and not nempty and padded:
        out, mag = ref.pad(out, d - 1), ref.pad(mag, d - 1)
    return out, mag


def conv_grads(ref, data, w, g, d, kernel, stride, nempty, has_bias=False):
    neigh = ref.neigh(d, kernel, stride, nempty)
    if stride == 2 and not nempty:
        g = ref.depad(g, d - 1)
    gcol = np.einsum('no,kco->nkc', g, w)
    gd = scatter(gcol, neigh, data.shape[0])
    gw = np.einsum('nkc,no->kco', gather(data, neigh), g)
    return (gd, gw, g.sum(0)) if has_bias else (gd, gw)


def deconv(ref, data, w, d, kernel, stride, nempty, bias=None):
    """data at depth d; w (K, Cout, Cin): the transpose of conv at depth d (stride 1)
    or d + 1 (stride 2)."""
    dn = d
    if stride == 2:
        dn = d + 1
        if not nempty:
            data = ref.depad(data, d)
    neigh = ref.neigh(dn, kernel, stride, nempty)
    col = np.einsum('ni,koi->nko', data, w)
    mcol = np.einsum('ni,koi->nko', np.abs(data), np.abs(w))
    n = ref.nnum(dn, nempty)
    out, mag = scatter(col, neigh, n), scatter(mcol, neigh, n)
    if bias is not None:
        out, mag = out + bias, mag + np.abs(bias)
    return out, mag


def deconv_grads(ref, data, w, g, d, kernel, stride, nempty, has_bias=False):
    dn = d + 1 if stride == 2 else d
    x = data
    if stride == 2 and not nempty:
        x = ref.depad(data, d)
    neigh = ref.neigh(dn, kernel, stride, nempty)
    col = gather(g, neigh)                       # (rows, K, Cout)
    gx = np.einsum('nko,koi->ni', col, w)
    gw = np.einsum('nko,ni->koi', col, x)
    gd = ref.pad(gx, d) if (stride == 2 and not nempty) else gx
    return (gd, gw, g.sum(0)) if has_bias else (gd, gw)


def dwconv(ref, data, w, d, kernel, stride, nempty, bias=None):
    """w (K, 1, C)."""
    neigh = ref.neigh(d, kernel, stride, nempty)
    col = gather(data, neigh)
    out = np.einsum('nkc,kc->nc', col, w[:, 0])
    mag = np.einsum('nkc,kc->nc', np.abs(col), np.abs(w[:, 0]))
    if bias is not None:
        out, mag = out + bias, mag + np.abs(bias)
    if stride == 2 and not nempty:
        out, mag = ref.pad(out, d - 1), ref.pad(mag, d - 1)
    return out, mag


def dwconv_grads(ref, data, w, g, d, kernel, stride, nempty, has_bias=False):
    neigh = ref.neigh(d, kernel, stride, nempty)
    if stride == 2 and not nempty:
        g = ref.depad(g, d - 1)
    gd = scatter(np.einsum('nc,kc->nkc', g, w[:, 0]), neigh, data.shape[0])
    gw = np.einsum('nkc,nc->kc', gather(data, neigh), g)[:, None]
    return (gd, gw, g.sum(0)) if has_bias else (gd, gw)


def max_pool(ref, data, d, nempty):
    """Per parent the maximum over its (non-empty) children; 0 where there is none."""
    x = np.asarray(data, np.float64)
    if nempty:
        x = ref.pad(x, d, -np.inf)
    x = x.reshape(-1, 8, x.shape[1])
    out = x.max(1)
    if nempty:
        has = ref.ne[d].reshape(-1, 8).any(1)
        out[~has] = 0
    else:
        out = ref.pad(out, d - 1)
    return out, x


def avg_pool(ref, data, d, kernel, stride, nempty):
    neigh = ref.neigh(d, kernel, stride, nempty)
    cnt = (neigh >= 0).sum(1, keepdims=True)
    out = gather(data, neigh).sum(1) / np.maximum(cnt, 1)
    if stride == 2 and not nempty:
        out = ref.pad(out, d - 1)
    return out


def global_pool(ref, data, d, nempty):
    b = ref.batch(d, nempty)
    out = np.zeros((ref.batch_size, data.shape[1]))
    np.add.at(out, b, data)
    cnt = np.bincount(b, minlength=ref.batch_size)[:, None]
    return out / np.maximum(cnt, 1)


def group_norm(ref, data, d, nempty, group, w, bias, eps=1e-5):
    b = ref.batch(d, nempty)
    B, C = ref.batch_size, data.shape[1]
    cpg = C // group
    cnt = np.bincount(b, minlength=B)[:, None] * float(cpg)
    inv = 1.0 / (cnt + eps)
    fold = lambda t: np.repeat(t.reshape(B, group, cpg).sum(-1), cpg, axis=1)
    s = np.zeros((B, C))
    np.add.at(s, b, data)
    mean = fold(s * inv)
    out = data - mean[b]
    v = np.zeros((B, C))
    np.add.at(v, b, out ** 2)
    var = fold(v * inv)
    return out / np.sqrt(var + eps)[b] * w + bias


def nearest(ref, data, d, pts, nempty, bound_check=True):
    xyz = np.floor(pts[:, :3]).astype(np.int64)
    idx = ref.index(d, xyz, pts[:, 3].astype(np.int64), nempty)
    return gather(data, idx[:, None])[:, 0], idx


def linear(ref, data, d, pts, nempty):
    """Trilinear weights over the 8 surrounding voxel centres, renormalised over the
    ones that exist.  Returns (value, total weight)."""
    f = pts[:, :3] - 0.5
    i0 = np.floor(f).astype(np.int64)
    fr = f - i0
    off = offsets('222')
    w = np.where(off[None] == 1, fr[:, None], 1 - fr[:, None]).prod(-1)    # (N, 8)
    b = np.broadcast_to(pts[:, 3].astype(np.int64)[:, None], w.shape)
    idx = ref.index(d, i0[:, None] + off[None], b, nempty)
    w = np.where(idx >= 0, w, 0)
    val = (gather(data, idx) * w[..., None]).sum(1)
    tot = w.sum(1, keepdims=True)
    return val / (tot + 1e-12), tot
