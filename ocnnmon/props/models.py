"""C26-C29: sample independence, published architectures, training, decoders."""
import contextlib
import copy
import io

import numpy as np
import torch
import torch.nn.functional as F

from .. import gen, oracle
from ..core import to_np
from .octree import T, snap, same, check_tree

import ocnn
from ocnn.octree import Octree, Points, merge_octrees, merge_points

KINDS, INFO = {}, {}


def N64(t):
    return to_np(t).astype(np.float64)


# --------------------------------------------------------------------------- reference networks

class Net:
    """Evaluates a published architecture from the weights of a live model, in numpy, on the
    reference tree.  Names are those of the checkpoints."""

    def __init__(self, model, ref, nempty, train=False):
        self.w = {k: N64(v) for k, v in model.state_dict().items()}
        self.ref, self.ne, self.train = ref, nempty, train

    def has(self, name):
        return any(k.startswith(name + '.') for k in self.w)

    def count(self, name):
        ks = {k[len(name) + 1:].split('.')[0] for k in self.w if k.startswith(name + '.')}
        return len(ks)

    # layers
    def gemm(self, x, w, d, kernel, stride):
        neigh = self.ref.neigh(d, kernel, stride, self.ne)
        out = np.zeros((neigh.shape[0], w.shape[2]))
        step = max(1, int(4e6 // (w.shape[0] * w.shape[1])))
        for s in range(0, neigh.shape[0], step):
            col = oracle.gather(x, neigh[s:s + step])
            out[s:s + step] = col.reshape(col.shape[0], -1) @ w.reshape(-1, w.shape[2])
        return out

    def conv(self, p, x, d, kernel='333', stride=1):
        out = self.gemm(x, self.w[p + '.weights'], d, kernel, stride)
        if stride == 2 and not self.ne:
            out = self.ref.pad(out, d - 1)
        return out

    def deconv(self, p, x, d, kernel='222', stride=2):
        if stride == 2 and not self.ne:
            x = self.ref.depad(x, d)
        w = self.w[p + '.weights']
        dn = d + 1 if stride == 2 else d
        neigh = self.ref.neigh(dn, kernel, stride, self.ne)
        col = (x @ w.reshape(-1, w.shape[2]).T).reshape(x.shape[0], w.shape[0], w.shape[1])
        return oracle.scatter(col, neigh, self.ref.nnum(dn, self.ne))

    def bn(self, p, x):
        if self.train:
            m, v = x.mean(0), x.var(0)
        else:
            m, v = self.w[p + '.running_mean'], self.w[p + '.running_var']
        return (x - m) / np.sqrt(v + 1e-5) * self.w[p + '.weight'] + self.w[p + '.bias']

    def linear(self, p, x):
        y = x @ self.w[p + '.weight'].T
        b = self.w.get(p + '.bias')
        return y if b is None else y + b

    @staticmethod
    def relu(x):
        return np.maximum(x, 0)

    def cbr(self, p, x, d, kernel='333', stride=1, relu=True):
        y = self.bn(p + '.bn', self.conv(p + '.conv', x, d, kernel, stride))
        return self.relu(y) if relu else y

    def dbr(self, p, x, d, kernel='222', stride=2):
        return self.relu(self.bn(p + '.bn', self.deconv(p + '.deconv', x, d, kernel, stride)))

    def c1(self, p, x):
        return self.linear(p + '.linear', x)

    def c1b(self, p, x, relu=False):
        y = self.bn(p + '.bn', self.c1(p + '.conv', x))
        return self.relu(y) if relu else y

    def fbr(self, p, x):
        y = self.bn(p + '.bn', x.reshape(x.shape[0], -1) @ self.w[p + '.fc.weight'].T)
        return self.relu(y)

    def pool(self, x, d):
        return oracle.max_pool(self.ref, x, d, self.ne)[0]

    def pool_idx(self, x, d):
        out, kids = oracle.max_pool(self.ref, x, d, self.ne)
        return out, kids.argmax(1)

    def unpool(self, x, idx, d):
        """x at depth d, indices at depth d + 1"""
        v = x if self.ne else self.ref.depad(x, d)
        out = np.zeros((v.shape[0], 8, v.shape[1]))
        np.put_along_axis(out, idx[:, None, :], v[:, None, :], 1)
        out = out.reshape(-1, v.shape[1])
        return self.ref.depad(out, d + 1) if self.ne else out

    def up(self, x, d):
        v = x if self.ne else self.ref.depad(x, d)
        out = np.repeat(v, 8, axis=0)
        return self.ref.depad(out, d + 1) if self.ne else out

    # blocks
    def resblock(self, p, x, d, stride=1):
        if stride == 2:
            x = self.pool(x, d)
            d -= 1
        if self.has(p + '.conv1x1a'):       # bottleneck
            y = self.c1b(p + '.conv1x1a', x, True)
            y = self.cbr(p + '.conv3x3', y, d)
            y = self.c1b(p + '.conv1x1b', y)
            s = self.c1b(p + '.conv1x1c', x) if self.has(p + '.conv1x1c') else x
        else:
            y = self.cbr(p + '.conv3x3a', x, d)
            y = self.cbr(p + '.conv3x3b', y, d, relu=False)
            s = self.c1b(p + '.conv1x1', x) if self.has(p + '.conv1x1') else x
        return self.relu(y + s)

    def resblocks(self, p, x, d):
        for i in range(self.count(p + '.resblks')):
            x = self.resblock('%s.resblks.%d' % (p, i), x, d)
        return x

    # networks
    def lenet(self, x, depth, stages):
        for i in range(stages):
            x = self.pool(self.cbr('convs.%d' % i, x, depth - i), depth - i)
        d = depth - stages
        p, b = self.ref.xyz(d, self.ne), self.ref.batch(d, self.ne)
        v = np.zeros((self.ref.batch_size,) + (1 << d,) * 3 + (x.shape[1],))
        v[b, p[:, 0], p[:, 1], p[:, 2]] = x
        return self.linear('header.3', self.fbr('header.1', v))

    def resnet(self, x, depth, stages):
        x = self.pool(self.cbr('conv1', x, depth), depth)
        for i in range(stages - 1):
            d = depth - i - 1
            x = self.pool(self.resblocks('resblocks.%d' % i, x, d), d)
        x = oracle.global_pool(self.ref, x, depth - stages, self.ne)
        return self.linear('header.2', self.fbr('header.0', x))

    def interp(self, x, d, pts, method):
        q = pts.copy()
        q[:, :3] = (q[:, :3] + 1) * 2.0 ** (d - 1)
        f = oracle.linear if method == 'linear' else oracle.nearest
        return f(self.ref, x, d, q, self.ne)[0]

    def head(self, x):
        return self.c1('header.1', self.c1b('header.0', x, True))

    def segnet(self, x, depth, stages, pts, method):
        idx = {}
        for i in range(stages):
            d = depth - i
            x, idx[d] = self.pool_idx(self.cbr('convs.%d' % i, x, d), d)
        x = self.cbr('bottleneck', x, depth - stages)
        for i in range(stages):
            d = depth - stages + i
            x = self.cbr('deconvs.%d' % i, self.unpool(x, idx[d + 1], d), d + 1)
        return self.head(self.interp(x, depth, pts, method))

    def unet(self, x, depth, pts, method):
        c = {depth: self.cbr('conv1', x, depth)}
        n, m = self.count('encoder'), self.count('decoder')
        for i in range(n):
            d = depth - i
            y = self.cbr('downsample.%d' % i, c[d], d, '222', 2)
            c[d - 1] = self.resblocks('encoder.%d' % i, y, d - 1)
        y = c[depth - n]
        for i in range(m):
            d = depth - n + i
            y = self.dbr('upsample.%d' % i, y, d)
            y = self.resblocks('decoder.%d' % i, np.concatenate([c[d + 1], y], 1), d + 1)
        return self.head(self.interp(y, depth - n + m, pts, method))

    def hrnet(self, x, depth, stages):
        n = self.count('front.conv')
        for i in range(n - 1):
            x = self.pool(self.cbr('front.conv.%d' % i, x, depth - i), depth - i)
        x = self.cbr('front.conv.%d' % (n - 1), x, depth - n + 1)
        depth -= 1
        xs = [x]
        for s in range(stages):
            xs = [self.resblocks('branches.%d.resblocks.%d' % (s, i), v, depth - i)
                  for i, v in enumerate(xs)]
            if s == stages - 1:
                break
            xs = self.transition('transitions.%d' % s, xs, depth)
        return self.cls_header('cls_header', xs, depth)

    def transition(self, name, xs, depth):
        num = len(xs) + 1
        out = [0] * num
        for i in range(num - 1):
            for j in range(num):
                p = '%s.trans_func.%d.conv1x1' % (name, i * num + j)
                v = xs[i]
                if i < j:
                    for d in range(depth - i, depth - j, -1):
                        v = self.pool(v, d)
                    if self.has(p):
                        v = self.c1b(p, v, True)
                elif i > j:
                    if self.has(p):
                        v = self.c1b(p, v, True)
                    for d in range(depth - i, depth - j):
                        v = self.up(v, d)
                out[j] = out[j] + v
        return out

    def cls_header(self, p, xs, depth):
        xs = list(xs)
        for i in range(len(xs)):
            for d in range(depth - i, 2, -1):
                xs[i] = self.pool(xs[i], d)
        y = self.c1b(p + '.conv1x1', np.concatenate(xs, 1), True)
        y = oracle.global_pool(self.ref, y, 2, self.ne)
        return self.linear(p + '.header.1', y)

    def ae_encode(self, x, depth, fd):
        c = {depth: self.cbr('conv1', x, depth)}
        for i, d in enumerate(range(depth, fd - 1, -1)):
            c[d] = self.resblocks('encoder_blks.%d' % i, c[d], d)
            if d > fd:
                c[d - 1] = self.cbr('downsample.%d' % i, c[d], d, '222', 2)
        return c

    def predict(self, p, x):
        return self.c1(p + '.1', self.c1b(p + '.0', x, True))

    def ae_decode(self, y, depth, fd, skips=None):
        """On a tree that is already there (teacher forcing)."""
        logits = {}
        for i, d in enumerate(range(fd, depth + 1)):
            if d > fd:
                y = self.dbr('upsample.%d' % (i - 1), y, d - 1)
                if skips is not None:
                    y = y + skips(d)
            y = self.resblocks('decoder_blks.%d' % i, y, d)
            logits[d] = self.predict('predict.%d' % i, y)
        sig = np.tanh(self.predict('header', y))
        return logits, self.ref.depad(sig, depth)


# --------------------------------------------------------------------------- builders

def randomize(rng, model):
    """Weights and running statistics that make every part matter, activations of order one."""
    with torch.no_grad():
        for n, p in model.named_parameters():
            if p.dim() >= 2:
                fan = p.shape[0] * p.shape[1] if p.dim() == 3 else p.shape[1:].numel()
                k = max(1.0, fan ** 0.5) / 1.6
                if p.dim() == 3:
                    k = max(1.0, (min(p.shape[0], 8) * p.shape[1]) ** 0.5) / 1.6
                p.copy_(torch.from_numpy(rng.normal(size=tuple(p.shape)) / k))
            elif n.endswith('bias'):
                p.copy_(torch.from_numpy(rng.normal(size=tuple(p.shape)) * 0.2))
            else:
                p.copy_(torch.from_numpy(rng.uniform(0.7, 1.3, size=tuple(p.shape))))
        for n, b in model.named_buffers():
            if n.endswith('running_mean'):
                b.copy_(torch.from_numpy(rng.normal(size=tuple(b.shape)) * 0.3))
            elif n.endswith('running_var'):
                b.copy_(torch.from_numpy(rng.uniform(0.6, 2.0, size=tuple(b.shape))))
    return model


def no_dropout(model):
    for m in model.modules():
        if isinstance(m, torch.nn.Dropout):
            m.p = 0.0
    return model


class Scene:
    pass


def scene(rng, depth, fd, batch, nmax=80, nmin=10, dtype=torch.float64, kinds=None, uneven=False):
    """Clouds with normals, their merged octree, its reference tree, query points."""
    s = Scene()
    kinds = kinds or ['uniform', 'sphere', 'plane', 'cluster', 'line', 'octant', 'single']
    s.clouds = [gen.cloud(rng, kinds[rng.integers(len(kinds))], int(rng.integers(nmin, nmax + 1)),
                          depth) for _ in range(batch)]
    if uneven:          # next to a crowd, a sample of one or two points
        big, lone = rng.permutation(batch)[:2]
        s.clouds[big] = gen.cloud(rng, 'uniform', 400, depth)
        s.clouds[lone] = s.clouds[lone][:int(rng.integers(1, 3))]
    s.ns = [gen.normals(rng, c.shape[0]) + np.float32(0.01) for c in s.clouds]
    s.ref = oracle.RefOctree.from_points(depth, fd, s.clouds)
    s.depth, s.fd, s.batch = depth, fd, batch
    s.parts = []
    for c, n in zip(s.clouds, s.ns):
        o = Octree(depth, fd)
        o.build_octree(Points(T(c).to(dtype), T(n).to(dtype)))
        s.parts.append(o)
    s.octree = merge_octrees(s.parts)
    s.octree.construct_all_neigh()
    # query points: the (clamped) points themselves and points nearby
    h = 2.0 ** -depth
    pts = []
    for i, c in enumerate(s.clouds):
        q = np.concatenate([c, c + rng.normal(size=c.shape) * 2 * h])[:60]
        q = np.clip(gen.quant(q), -1 + h * 1.01, 1 - h * 1.01)
        pts.append(np.concatenate([q, np.full((q.shape[0], 1), i)], 1))
    s.pts = np.concatenate(pts)
    s.q = T(s.pts).to(dtype)
    return s


class SmallUNet(ocnn.models.UNet):
    """A UNet configured as its documentation says, by overriding config_network."""
    setup = None

    def config_network(self):
        ec, dc, eb, db, rb = self.setup
        self.encoder_channel, self.decoder_channel = ec, dc
        self.encoder_blocks, self.decoder_blocks = eb, db
        self.head_channel, self.bottleneck, self.resblk = 8, 1, rb


def network(rng, name, depth, nempty, small=True):
    """(model, settings, minimal depth)"""
    cin, cout = int(rng.integers(1, 5)), int(rng.integers(2, 7))
    if name == 'lenet':
        st = depth - 2
        m = ocnn.models.LeNet(cin, cout, st, nempty)
        return m, dict(stages=st, cin=cin)
    if name == 'resnet':
        st = int(rng.integers(1, min(depth, 6)))
        m = ocnn.models.ResNet(cin, cout, int(rng.integers(1, 3)), st, nempty)
        return m, dict(stages=st, cin=cin)
    if name == 'segnet':
        st = int(rng.integers(1, min(depth, 6)))
        it = ['linear', 'nearest'][rng.integers(2)]
        m = ocnn.models.SegNet(cin, cout, st, it, nempty)
        return m, dict(stages=st, cin=cin, interp=it)
    if name == 'unet':
        it = ['linear', 'nearest'][rng.integers(2)]
        if small:
            ne_, nd_ = int(rng.integers(1, min(4, depth - 1) + 1)), 0
            nd_ = int(rng.integers(1, ne_ + 1))
            ec = [int(c) for c in rng.integers(2, 9, ne_ + 1)]
            dc = [ec[-1]] + [int(c) for c in rng.integers(2, 9, nd_)]
            eb, db = [int(c) for c in rng.integers(1, 3, ne_)], [int(c) for c in rng.integers(1, 3, nd_)]
            rb = [ocnn.modules.OctreeResBlock2, ocnn.modules.OctreeResBlock][rng.integers(2)]

            SmallUNet.setup = (ec, dc, eb, db, rb)
            m = SmallUNet(cin, cout, it, nempty)
            lv = depth - ne_ + nd_
        else:
            m = ocnn.models.UNet(cin, cout, it, nempty)
            lv = depth
        return m, dict(cin=cin, interp=it, level=lv)
    if name == 'hrnet':
        st = int(rng.integers(1, 4)) if depth < 6 else 4
        m = ocnn.models.HRNet(cin, cout, st, nempty=nempty)
        return m, dict(stages=st, cin=cin)
    raise ValueError(name)


def run_net(name, m, cfg, x, s, octree=None, q=None):
    o = octree if octree is not None else s.octree
    if name in ('segnet', 'unet'):
        return m(x, o, s.depth, q if q is not None else s.q)
    return m(x, o, s.depth)


def inside(s, level):
    """Query points half a voxel of the interpolated level inside the cube (no bound check)."""
    h = 2.0 ** -level
    s.pts[:, :3] = np.clip(s.pts[:, :3], -1 + h * 1.01, 1 - h * 1.01)
    s.q = T(s.pts).to(s.q.dtype)


def ref_net(name, net, cfg, x, s, pts=None):
    if name == 'lenet':
        return net.lenet(x, s.depth, cfg['stages'])
    if name == 'resnet':
        return net.resnet(x, s.depth, cfg['stages'])
    if name == 'segnet':
        return net.segnet(x, s.depth, cfg['stages'], s.pts if pts is None else pts, cfg['interp'])
    if name == 'unet':
        return net.unet(x, s.depth, s.pts if pts is None else pts, cfg['interp'])
    return net.hrnet(x, s.depth, cfg['stages'])


NETS = ['lenet', 'resnet', 'segnet', 'unet', 'hrnet']


def rnd_scene_for(rng, name, nmax=70):
    if name in ('resnet', 'segnet', 'unet') and rng.random() < 0.22:      # as deep as real ones
        return int(rng.integers(7, 13)), int(rng.integers(1, 4)), 12
    depth = int(rng.integers(3, 6)) if name in ('lenet', 'hrnet') else int(rng.integers(2, 6))
    if name == 'hrnet':
        depth = int(rng.integers(4, 6)) if rng.random() < 0.85 else 6
        nmax = 25 if depth < 6 else 12
    fd = int(rng.integers(1, min(depth, 3)))
    if name in ('hrnet', 'lenet'):
        fd = min(fd, 2)
    return depth, fd, nmax


# --------------------------------------------------------------------------- C27

def c27_net(case, rng, mon):
    name = NETS[case['i'] % 5] if case['i'] % 11 else 'unet'
    big = name == 'unet' and case['i'] % 11 == 0
    depth, fd, nmax = rnd_scene_for(rng, name)
    if big:
        depth, fd, nmax = 5, 1, 25
    ne = bool(rng.integers(2))
    train = bool(rng.random() < 0.35) and depth < 7
    s = scene(rng, depth, fd, int(rng.integers(2, 4)) if train else gen.few(rng, 1, 4), nmax)
    m, cfg = network(rng, name, depth, ne, small=not big)
    if name == 'hrnet' and depth - cfg['stages'] < 2:
        m, cfg = ocnn.models.HRNet(2, 3, 1, nempty=ne), dict(stages=1, cin=2)
    m = no_dropout(randomize(rng, m.double()))
    m.train(train)
    x = T(rng.normal(size=(s.ref.nnum(depth, ne), cfg['cin'])))
    if depth > 6 or rng.random() < 0.6:
        x = x * 10 ** rng.uniform(-1, 3)
    net = Net(m, s.ref, ne, train)
    inside(s, cfg.get('level', depth))
    before = snap(s.octree)
    kx, kq = x.clone(), s.q.clone()
    with torch.set_grad_enabled(bool(rng.integers(2))):
        out = run_net(name, m, cfg, x, s)
    e = ref_net(name, net, cfg, N64(x), s)
    msg = '%s depth %d/%d nempty %s train %s %s' % (name, depth, fd, ne, train, cfg)
    scale = float(np.abs(e).max()) + 1
    mon.ok(np.isfinite(e).all(), 'oracle_finite', msg)
    tol = 1e-7
    if train:
        # statistics over a handful of rows divide by tiny deviations: how much rounding of
        # 1e-12 in the input moves the reference bounds what may be demanded
        e2 = ref_net(name, net, cfg, N64(x) * (1 + 1e-12 * rng.normal(size=tuple(x.shape))), s)
        tol = max(tol, 100 * float(np.abs(e2 - e).max()) / scale)
        mon.ev('ill_conditioned', int(tol > 1e-4))
    if tol <= 1e-4:
        mon.close(out, e, name, msg, rtol=tol, atol=0, scale=scale)
        mon.ev('compared_in_training_mode', int(train))
    mon.equal(x, kx, 'input_changed')
    mon.equal(s.q, kq, 'input_changed')
    same(mon, before, snap(s.octree), 'octree_changed')
    mon.ev('networks.' + name)
    mon.ev('networks_train' if train else 'networks_eval')
    mon.state(msg, s.ref.keys[depth])


def c27_blocks(case, rng, mon):
    """The building blocks, with every option."""
    ne = bool(rng.integers(2))
    s = scene(rng, int(rng.integers(2, 6)), int(rng.integers(1, 3)), int(rng.integers(1, 4)), 60)
    train = bool(rng.random() < 0.3)
    for _ in range(3):
        d = int(rng.integers(1, s.depth + 1))
        k = rng.integers(4)
        cin, cout = (int(v) for v in rng.integers(1, 7, 2))
        x = T(rng.normal(size=(s.ref.nnum(d, ne), cin)))
        if x.shape[0] < 4:
            train = False
        if k < 2:
            stride = int(rng.integers(1, 3)) if d > 1 else 1
            if stride == 2 and s.ref.nnum(d - 1, ne) < 4:
                train = False
            b = int(rng.integers(1, 4))
            co = cout * b if rng.random() < 0.6 else cin * (b if cin % b == 0 else 1)
            b = b if co % b == 0 and co // b > 0 else 1
            cls = [ocnn.modules.OctreeResBlock, ocnn.modules.OctreeResBlock2][k]
            m = cls(cin, co, stride, b, ne)
            f = lambda net: net.resblock('m', N64(x), d, stride)
        elif k == 2:
            n = int(rng.integers(1, 4))
            blk = [ocnn.modules.OctreeResBlock, ocnn.modules.OctreeResBlock2][rng.integers(2)]
            m = ocnn.modules.OctreeResBlocks(cin, 2 * cout, n, 2, ne, blk,
                                             use_checkpoint=bool(rng.integers(2)) and not train)
            f = lambda net: net.resblocks('m', N64(x), d)
        else:
            kern = oracle.KERNELS[rng.integers(8)]
            kl = [int(c) for c in kern]
            stride = int(rng.integers(1, 3))
            if stride == 2 and s.ref.nnum(d - 1, ne) < 4:
                train = False
            v = rng.integers(3)
            if v == 0:
                m = ocnn.modules.OctreeConvBn(cin, cout, kl, stride, ne)
                f = lambda net: net.cbr('m', N64(x), d, kern, stride, relu=False)
            elif v == 1:
                m = ocnn.modules.OctreeConvBnRelu(cin, cout, kl, stride, ne)
                f = lambda net: net.cbr('m', N64(x), d, kern, stride)
            else:
                if stride == 2 and d == s.depth:
                    stride = 1
                m = ocnn.modules.OctreeDeconvBnRelu(cin, cout, kl, stride, ne)
                f = lambda net: net.dbr('m', N64(x), d, kern, stride)
        m = randomize(rng, m.double())
        m.train(train)
        wrap = torch.nn.ModuleDict({'m': m})
        net = Net(wrap, s.ref, ne, train)
        kx = x.clone()
        out = m(x, s.octree, d)
        e = f(net)
        msg = '%s depth %d nempty %s train %s' % (m, d, ne, train)
        scale = float(np.abs(e).max()) + 1 if e.size else 1
        tol = 1e-8
        if train:
            x0 = x
            x = x0 * (1 + 1e-12 * torch.randn(x.shape, dtype=x.dtype))
            tol = max(tol, 100 * float(np.abs(f(net) - e).max()) / scale)
            x = x0
        if tol <= 1e-4:
            mon.close(out, e, 'block', msg, rtol=tol, atol=1e-9, scale=scale)
        mon.equal(x, kx, 'input_changed', msg)
        mon.ev('blocks')
        mon.ev('block.' + type(m).__name__)
        mon.state(msg, s.ref.keys[s.depth])
    for cls, fn in ((ocnn.modules.Conv1x1, lambda n, v: n.c1('m', v)),
                    (ocnn.modules.Conv1x1Bn, lambda n, v: n.c1b('m', v)),
                    (ocnn.modules.Conv1x1BnRelu, lambda n, v: n.c1b('m', v, True)),
                    (ocnn.modules.FcBnRelu, lambda n, v: n.fbr('m', v))):
        m = randomize(rng, cls(4, 3).double())
        m.eval()
        x = T(rng.normal(size=(11, 4)))
        mon.close(m(x), fn(Net(torch.nn.ModuleDict({'m': m}), s.ref, ne), N64(x)), 'dense_block',
                  cls.__name__, rtol=1e-9, atol=1e-9)


def c27_parts(case, rng, mon):
    """The parts of the high-resolution network, with up to four resolutions."""
    ne = bool(rng.integers(2))
    num = int(rng.integers(2, 5))
    depth = int(rng.integers(max(num + 1, 3), 7))
    s = scene(rng, depth, int(rng.integers(1, 3)), int(rng.integers(1, 4)), 30)
    H = ocnn.models.hrnet
    ch = [int(c) * 4 for c in rng.choice([1, 2, 3], num)]
    if rng.random() < 0.4:
        ch[-1] = ch[-2]
    xs = [T(rng.normal(size=(s.ref.nnum(depth - i, ne), ch[i]))) for i in range(num)]
    keep = [x.clone() for x in xs]

    def check(name, m, got, want):
        msg = '%s %s depth %d nempty %s' % (name, ch, depth, ne)
        mon.ok(len(got) == len(want), 'parts', msg)
        for a, b in zip(got, want):
            mon.close(a, b, 'parts.' + name, msg, rtol=1e-8, atol=1e-9,
                      scale=float(np.abs(b).max()) + 1 if b.size else 1)
        mon.ev('parts.%s.%d' % (name, num))

    prep = lambda m: randomize(rng, m.double()).eval()
    wrap = lambda m: Net(torch.nn.ModuleDict({'m': m}), s.ref, ne)
    m = prep(H.Transitions(ch, ne))
    check('transitions', m, m(xs[:-1], s.octree, depth),
          wrap(m).transition('m', [N64(x) for x in xs[:-1]], depth))
    m = prep(H.Branches(ch, int(rng.integers(1, 3)), ne))
    net = wrap(m)
    check('branches', m, m(xs, s.octree, depth),
          [net.resblocks('m.resblocks.%d' % i, N64(x), depth - i) for i, x in enumerate(xs)])
    if depth - num + 1 >= 2:
        m = prep(H.ClsHeader(ch, 3, ne))
        check('header', m, [m(xs, s.octree, depth)],
              [wrap(m).cls_header('m', [N64(x) for x in xs], depth)])
    m = prep(H.FrontLayer(ch, ne))
    net, x = wrap(m), N64(xs[0])
    for i in range(num - 2):
        x = net.pool(net.cbr('m.conv.%d' % i, x, depth - i), depth - i)
    x = net.cbr('m.conv.%d' % (num - 2), x, depth - num + 2)
    check('front', m, [m(xs[0], s.octree, depth)], [x])
    for a, b in zip(xs, keep):
        mon.equal(a, b, 'input_changed', 'parts')
    mon.state('parts', ch, ne, s.ref.keys[depth])


def c27_ae(case, rng, mon):
    """Encoders and teacher-forced decoders of the generative models."""
    kind = ['ae', 'ounet', 'i2s'][case['i'] % 3]
    fd = int(rng.integers(1, 3))
    depth = fd + int(rng.integers(1, 4))
    feature = ['ND', 'NDF', 'L', 'P', 'NLP'][rng.integers(5)]
    s = scene(rng, depth, fd, gen.few(rng, 1, 4, 0.1, 20), 30)
    if 'F' in feature:
        feature = 'ND'
    cin = sum({'N': 3, 'D': 1, 'L': 3, 'P': 3}[c] for c in feature)
    cout = int(rng.integers(1, 5))
    m = generative(rng, kind, cin, cout, depth, fd, feature)
    m = randomize(rng, m.double()).eval()
    net = Net(m, s.ref, False)
    x = N64(s.octree.get_input_feature(feature, nempty=False))
    before = snap(s.octree)
    msg = '%s depth %d/%d %s' % (kind, depth, fd, feature)
    if kind == 'ae':
        code = m.encoder(s.octree)
        c = net.ae_encode(x, depth, fd)
        e = np.tanh(net.linear('proj', c[fd]))
        mon.close(code, e, 'encoder', msg, rtol=1e-7, atol=1e-8)
        mon.ok(float(code.abs().max()) <= 1, 'code_range')
        out = m(s.octree, False)
        logits, sig = net.ae_decode(e, depth, fd)
        mon.close(m.decoder(code, s.octree)['signal'], sig, 'decoder', msg, rtol=1e-7, atol=1e-7)
    elif kind == 'ounet':
        # the target tree is another one: skips are aligned, zero where the input has no node
        t = scene(rng, depth, fd, s.batch, 30)
        bt = snap(t.octree)
        out = m(s.octree, t.octree, False)
        same(mon, bt, snap(t.octree), 'octree_changed')
        c = net.ae_encode(x, depth, fd)

        def skips(d):
            ka, kb = s.ref.keys[d], t.ref.keys[d]
            pos = np.minimum(np.searchsorted(ka, kb), ka.size - 1)
            mon.ev('skips_aligned', int((ka[pos] == kb).sum()))
            mon.ev('skips_missing', int((ka[pos] != kb).sum()))
            return np.where((ka[pos] == kb)[:, None], c[d][pos], 0)
        dec = Net(m, t.ref, False)
        logits, sig = dec.ae_decode(c[fd], depth, fd, skips)
    else:
        img = T(rng.normal(size=(s.batch, 3, 40, 40)))
        out = m(img, s.octree, False)
        with torch.no_grad():
            code = N64(m.resnet18(img)).reshape(-1, m.code_channel)
        logits, sig = net.ae_decode(code, depth, fd)
    same(mon, before, snap(s.octree), 'octree_changed')
    mon.ok(sorted(out['logits']) == list(range(fd, depth + 1)), 'levels', msg)
    for d in logits:
        mon.close(out['logits'][d], logits[d], 'logits', '%s level %d' % (msg, d), rtol=1e-7,
                  atol=1e-7, scale=float(np.abs(logits[d]).max()) + 1)
    mon.close(out['signal'], sig, 'signal', msg, rtol=1e-7, atol=1e-7)
    mon.ev('generative.' + kind)
    mon.state(msg, s.ref.keys[depth])


def generative(rng, kind, cin, cout, depth, fd, feature):
    if kind == 'ae':
        m = ocnn.models.AutoEncoder(cin, cout, depth, fd, feature)
    elif kind == 'ounet':
        m = ocnn.models.OUNet(cin, cout, depth, fd, feature)
    else:
        m = ocnn.models.Image2Shape(cout, depth, fd, 4 * int(rng.integers(1, 5)))
    return m


KINDS['C27'] = {'parts': (c27_parts, 40, 500), 'net': (c27_net, 210, 900), 'blocks': (c27_blocks, 60, 900), 'ae': (c27_ae, 24, 300)}
INFO['C27'] = {'events': ['parts.transitions.4', 'parts.branches.4', 'parts.header.3', 'parts.front.4'] + ['networks.' + n for n in NETS] +
               ['compared_in_training_mode', 'networks_eval', 'blocks', 'generative.ae', 'generative.ounet',
                'generative.i2s', 'skips_aligned', 'skips_missing', 'block.OctreeResBlock',
                'block.OctreeResBlock2', 'block.OctreeResBlocks'],
               'rule': 'Random settings of every published network (stages, depths, row convention, '
                       'interpolation, train/eval) with random weights and statistics, against a numpy '
                       'evaluation of the architecture on the reference tree.',
               'assumptions': ['parameter names are those of the published checkpoints',
                               'query points lie half a finest voxel inside the cube']}


# --------------------------------------------------------------------------- C26

def perm_rows(ref, order, d, ne):
    """Row order of the batch after its samples were permuted."""
    b = ref.batch(d, ne)
    return np.concatenate([np.nonzero(b == i)[0] for i in order])


def merged(parts):
    o = merge_octrees(parts)
    o.construct_all_neigh()
    return o


def c26_net(case, rng, mon):
    name = NETS[case['i'] % 5]
    depth, fd, nmax = rnd_scene_for(rng, name)
    ne = bool(rng.integers(2))
    B = gen.few(rng, 2, 5, 0.1 if name != 'hrnet' and depth < 6 else 0)
    uneven = name != 'hrnet' and rng.random() < 0.4
    s = scene(rng, depth, fd, B, min(nmax, 40), uneven=uneven)
    mon.ev('uneven_batches', int(uneven))
    m, cfg = network(rng, name, depth, ne)
    if name == 'hrnet' and depth - cfg['stages'] < 2:
        m, cfg = ocnn.models.HRNet(2, 3, 1, nempty=ne), dict(stages=1, cin=2)
    m = randomize(rng, m.double()).eval()
    ref = s.ref
    x = T(rng.normal(size=(ref.nnum(depth, ne), cfg['cin'])))
    b = T(ref.batch(depth, ne))
    pb = s.q[:, 3].long()
    seg = name in ('segnet', 'unet')
    msg = '%s depth %d nempty %s batch %d' % (name, depth, ne, B)
    with torch.no_grad():
        out = run_net(name, m, cfg, x, s)
        sc = float(out.abs().max()) + 1
        for i in range(B) if B < 5 else rng.permutation(B)[:4].tolist() + [B - 1]:
            q = s.q[pb == i].clone()
            q[:, 3] = 0
            alone = run_net(name, m, cfg, x[b == i], s, octree=merged([s.parts[i]]), q=q)
            part = out[pb == i] if seg else out[i:i + 1]
            mon.close(alone, part, 'alone', '%s sample %d' % (msg, i), rtol=1e-8, atol=0, scale=sc)
            mon.ev('samples_alone')
        # another order, another company
        order = rng.permutation(B)
        if rng.random() < 0.5:
            order = order[:int(rng.integers(1, B + 1))]
        if rng.random() < 0.3:
            order = np.concatenate([order, order[:1]])
        o2 = merged([s.parts[i] for i in order])
        x2 = torch.cat([x[b == int(i)] for i in order])
        qs = []
        for k, i in enumerate(order):
            q = s.q[pb == int(i)].clone()
            q[:, 3] = k
            qs.append(q)
        out2 = run_net(name, m, cfg, x2, s, octree=o2, q=torch.cat(qs))
        e = torch.cat([out[pb == int(i)] for i in order]) if seg else out[torch.from_numpy(order)]
        mon.close(out2, e, 'permuted', '%s order %s' % (msg, order), rtol=1e-8, atol=0, scale=sc)
        mon.ev('permuted_batches')
    mon.ev('net.' + name)
    mon.state(msg, order, ref.keys[depth])


def layer(rng, d, ne, c):
    """(a layer with random parameters, output depth)"""
    k = rng.integers(11)
    kern = [int(v) for v in oracle.KERNELS[rng.integers(8)]]
    st = int(rng.integers(1, 3))
    dbl = lambda m: randomize(rng, m.double()).eval()
    if k == 0:
        return dbl(ocnn.nn.OctreeConv(c, 3, kern, st, ne, use_bias=True)), d - st + 1
    if k == 1:
        return dbl(ocnn.nn.OctreeDWConv(c, kern, st, ne, use_bias=True)), d - st + 1
    if k == 2:
        return dbl(ocnn.nn.OctreeGroupConv(c, c, kern, st, ne, group=c)), d - st + 1
    if k == 3:
        return dbl(ocnn.nn.OctreeDeconv(c, 3, kern, 1, ne, use_bias=True)), d
    if k == 4:
        return dbl(ocnn.nn.OctreeGroupNorm(c, 1, ne)), d
    if k == 5:
        return dbl(ocnn.nn.OctreeInstanceNorm(c, ne)), d
    if k == 6:
        return ocnn.nn.OctreeMaxPool(ne), d - 1
    if k == 7:
        return ocnn.nn.OctreeAvgPool(kern, st, ne), d - st + 1
    if k == 8:
        return dbl(ocnn.modules.OctreeResBlock2(c, 3, 1, 1, ne)), d
    if k == 9:
        return dbl(ocnn.modules.OctreeResBlock(c, 4, 2, 2, ne)), d - 1
    return ocnn.nn.OctreeDropPath(0.7, ne).eval(), d


def c26_layers(case, rng, mon):
    depth = int(rng.integers(2, 6))
    fd = int(rng.integers(1, min(depth, 3)))
    B = gen.few(rng, 2, 5, 0.15, 300)
    s = scene(rng, depth, fd, B, 60 if B < 50 else 12, 10 if B < 50 else 1, uneven=bool(rng.random() < 0.3))
    ref = s.ref
    for _ in range(5):
        d, ne, c = int(rng.integers(1, depth + 1)), bool(rng.integers(2)), int(rng.integers(1, 4))
        m, dout = layer(rng, d, ne, c)
        if isinstance(m, ocnn.modules.OctreeResBlock) and d < 2:
            continue        # it would convolve at the root
        x = T(rng.normal(size=(ref.nnum(d, ne), c)))
        b, bo = T(ref.batch(d, ne)), T(ref.batch(dout, ne))
        msg = '%s depth %d nempty %s' % (m, d, ne)
        out = m(x, s.octree, d)
        mon.ok(out.shape[0] == bo.numel(), 'rows', msg)
        i = int(rng.integers(B))
        alone = m(x[b == i], merged([s.parts[i]]), d)
        mon.close(alone, out[bo == i], 'layer.alone', msg, rtol=1e-9, atol=1e-9)
        # changing a sample leaves all the others as they were, also in the gradients
        y = x.clone()
        y[b == i] = T(rng.normal(size=(int((b == i).sum()), c))) * 50
        mon.close(m(y, s.octree, d)[bo != i], out[bo != i], 'layer.leak', msg, rtol=1e-10,
                  atol=1e-10)
        z = x.clone().requires_grad_(True)
        w = T(rng.normal(size=tuple(out.shape)))
        (m(z, s.octree, d)[bo == i] * w[bo == i]).sum().backward()
        mon.ok(not bool((z.grad[b != i].abs() > 1e-10).any()), 'layer.grad_leak', msg)
        mon.ev('layers')
        mon.ev('layer.' + type(m).__name__)
        mon.state(msg, ref.keys[depth])
    # pooling over whole samples
    d, ne = int(rng.integers(1, depth + 1)), bool(rng.integers(2))
    x = T(rng.normal(size=(ref.nnum(d, ne), 2)))
    b = T(ref.batch(d, ne))
    g = ocnn.nn.OctreeGlobalPool(ne)
    out = g(x, s.octree, d)
    for i in range(B):
        mon.close(g(x[b == i], merged([s.parts[i]]), d), out[i:i + 1], 'layer.alone',
                  'global pool', rtol=1e-9, atol=1e-9)
    # interpolation and upsampling
    for method in ('nearest', 'linear'):
        ne = bool(rng.integers(2))
        d = int(rng.integers(1, depth + 1))
        x = T(rng.normal(size=(ref.nnum(d, ne), 2)))
        sq = s.q
        if rng.random() < 0.5:          # many queries, also round numbers of them
            n = int(rng.choice([1 << rng.integers(4, 13), 1000 * rng.integers(1, 5),
                                rng.integers(100, 5000)]))
            sq = sq[torch.from_numpy(np.sort(rng.integers(0, sq.shape[0], n)))]
            if rng.random() < 0.5:
                sq = sq[torch.from_numpy(rng.permutation(n))]
        b, pb = T(ref.batch(d, ne)), sq[:, 3].long()
        m = ocnn.nn.OctreeInterp(method, ne, bound_check=True)
        out = m(x, s.octree, d, sq)
        i = int(rng.integers(B))
        q = sq[pb == i].clone()
        q[:, 3] = 0
        mon.close(m(x[b == i], merged([s.parts[i]]), d, q), out[pb == i], 'interp.alone', method,
                  rtol=1e-9, atol=1e-9)
        y = x.clone()
        y[b == i] += 9
        mon.close(m(y, s.octree, d, sq)[pb != i], out[pb != i], 'interp.leak', method,
                  rtol=1e-10, atol=1e-10)
        mon.ev('interpolations')


def c26_generative(case, rng, mon):
    kind = ['ae', 'ounet', 'i2s'][case['i'] % 3]
    fd = int(rng.integers(1, 3))
    depth = fd + int(rng.integers(1, 3))
    B = gen.few(rng, 2, 4, 0.1, 20)
    s = scene(rng, depth, fd, B, 30, uneven=bool(rng.random() < 0.3))
    t = scene(rng, depth, fd, B, 30) if kind == 'ounet' else s
    m = randomize(rng, generative(rng, kind, 4, 3, depth, fd, 'ND').double()).eval()
    n = 8 ** fd
    msg = '%s depth %d/%d' % (kind, depth, fd)
    with torch.no_grad():
        img = T(rng.normal(size=(B, 3, 36, 36))) * T(rng.choice([0.1, 1, 30], (B, 1, 1, 1)))
        code = T(rng.uniform(-1, 1, (B * n, m.code_channel))) if kind == 'ae' else None

        def forced(tree, inp, i):
            if kind == 'ae':
                return m(tree, False)
            if kind == 'ounet':
                return m(inp, tree, False)
            return m(img if i is None else img[i:i + 1], tree, False)

        def free(i):
            if kind == 'ae':
                return m.decode_code(code if i is None else code[i * n:(i + 1) * n])
            if kind == 'ounet':
                return m(s.octree if i is None else merged([s.parts[i]]))
            return m(img if i is None else img[i:i + 1], update_octree=True)

        def near(a, b, rule):
            mon.close(a, b, rule, msg, rtol=1e-7, atol=1e-7,
                      scale=float(b.abs().max()) + 1 if b.numel() else 1)

        out = forced(t.octree, s.octree, None)
        for i in range(B):
            alone = forced(merged([t.parts[i]]), merged([s.parts[i]]), i)
            for d in range(fd, depth + 1):
                near(alone['logits'][d], out['logits'][d][T(t.ref.batch(d)) == i], 'ae.logits')
            near(alone['signal'], out['signal'][T(t.ref.batch(depth, True)) == i], 'ae.signal')
            mon.ev('samples_alone')
        # free decoding, one shape at a time or together
        res = free(None)
        both = res['octree_out']
        for i in range(B):
            r1 = free(i)
            one = r1['octree_out']
            alive = True
            for d in range(fd, depth + 1):
                k, b = both.keys[d], both.batch_id(d)
                if alive:
                    mon.equal(k[b == i] & oracle.M48, one.keys[d], 'decode.keys', 'level %d' % d)
                    near(r1['logits'][d], res['logits'][d][b == i], 'decode.logits')
                    # rounding decides a tie, what follows may differ
                    lg = N64(r1['logits'][d])
                    if lg.size and np.abs(lg[:, 1] - lg[:, 0]).min() < 1e-6:
                        alive = False
                        break
                    if both.nempty_mask(d)[b == i].any():
                        mon.equal(both.nempty_mask(d)[b == i], one.nempty_mask(d), 'decode.split')
                alive = alive and bool(both.nempty_mask(d)[b == i].any())
            if alive:
                bl = both.batch_id(depth, True) == i
                near(one.features[depth], both.features[depth][bl], 'decode.signal')
                mon.ev('decoded_alone')
                mon.ev('decoded_alone.' + kind)
    mon.state('gen', kind, depth, fd, s.ref.keys[depth])


KINDS['C26'] = {'net': (c26_net, 60, 800), 'layers': (c26_layers, 120, 1600),
                'generative': (c26_generative, 24, 300)}
INFO['C26'] = {'events': ['samples_alone', 'permuted_batches', 'layers', 'interpolations',
                          'decoded_alone.ae', 'decoded_alone.ounet', 'decoded_alone.i2s',
                          'uneven_batches'] + ['net.' + n for n in NETS],
               'rule': 'Batches of 2-4 shapes in evaluation mode: every sample alone, batches in other '
                       'orders and company, perturbed neighbours in the batch.'}


# --------------------------------------------------------------------------- C28

def loss_case(rng, case):
    """(loss function of a model, model, scene)"""
    k = case['i'] % 7
    if k < 5:
        name = NETS[k]
        depth, fd, nmax = rnd_scene_for(rng, name)
        ne = bool(rng.integers(2))
        s = scene(rng, depth, fd, 3, min(nmax, 30), kinds=['uniform', 'sphere'])
        m, cfg = network(rng, name, depth, ne)
        if name == 'hrnet':
            m, cfg = ocnn.models.HRNet(2, 3, 1 + int(depth > 4), nempty=ne), dict(stages=1, cin=2)
        x = T(rng.normal(size=(s.ref.nnum(depth, ne), cfg['cin'])))
        m = no_dropout(randomize(rng, m.double()))
        rows = s.pts.shape[0] if name in ('segnet', 'unet') else s.batch
        lab = T(rng.integers(0, 2, rows))

        def loss(mm):
            return F.cross_entropy(run_net(name, mm, cfg, x, s), lab)
        return name, loss, m, s
    fd = int(rng.integers(1, 3))
    depth = fd + int(rng.integers(1, 3))
    s = scene(rng, depth, fd, 2, 25)
    t = scene(rng, depth, fd, 2, 25) if rng.random() < 0.6 else s     # OUNet: output tree
    name = ['ae', 'ounet'][k - 5]
    m = randomize(rng, generative(rng, name, 4, 3, depth, fd, 'ND').double())

    def loss(mm):
        tree = s.octree if name == 'ae' else t.octree
        out = mm(tree, False) if name == 'ae' else mm(s.octree, tree, False)
        r = 0
        for d, l in out['logits'].items():
            r = r + F.cross_entropy(l, tree.nempty_mask(d).long())
        return r + (out['signal'] ** 2).mean()
    return name, loss, m, s


def c28_gradient(case, rng, mon):
    """Directional finite differences of the loss, per parameter tensor, in double precision."""
    name, loss, m, s = loss_case(rng, case)
    train = bool(rng.random() < 0.5)
    m.train(train)
    for mod in m.modules():     # running statistics stay put, the loss is a function
        if isinstance(mod, torch.nn.BatchNorm1d):
            mod.momentum = 0.0
    L = loss(m)
    m.zero_grad()
    L.backward()
    params = [(n, p) for n, p in m.named_parameters()]
    missing = [n for n, p in params if p.grad is None]
    mon.ok(not missing, 'no_gradient', '%s: %s' % (name, missing))
    mon.ok(all(torch.isfinite(p.grad).all() for _, p in params), 'gradient_not_finite', name)
    grads = {n: p.grad.detach().clone() for n, p in params}
    picks = [params[i] for i in rng.permutation(len(params))[:5]]
    L0 = float(L)

    def at(vs, h):
        with torch.no_grad():
            for p, v in vs:
                p.add_(v, alpha=h)
            r = float(loss(m))
            for p, v in vs:
                p.sub_(v, alpha=h)
        return r

    for group in [[q] for q in picks] + [params]:
        vs, g = [], 0.0
        for n, p in group:
            v = T(rng.normal(size=tuple(p.shape)))
            v = v / (v.norm() + 1e-30)
            if len(group) > 1:
                v = v / np.sqrt(len(group))
            vs.append((p, v))
            g += float((grads[n] * v).sum())
        good, fds = False, []
        for h in (1e-6, 1e-7, 1e-5, 3e-8):    # a kink of ReLU / max may lie within one step
            fd = (at(vs, h) - at(vs, -h)) / (2 * h)
            fds.append(fd)
            noise = 1e-13 * (abs(L0) + 1) / h
            if abs(fd - g) <= 2e-3 * abs(g) + 20 * noise + 1e-7:
                good = True
                break
        if not good:
            # one-sided derivatives differ at a kink: the gradient must be one of them or between
            h = 1e-6
            a, b = (at(vs, h) - L0) / h, (L0 - at(vs, -h)) / h
            lo, hi = min(a, b), max(a, b)
            good = lo - 2e-3 * abs(g) - 1e-6 <= g <= hi + 2e-3 * abs(g) + 1e-6 and hi - lo > 1e-5
        mon.ok(good, 'gradient', lambda: '%s %s train %s: gradient %r, differences %r' % (
            name, group[0][0] if len(group) == 1 else 'all', train, g, fds))
        mon.ev('directional_derivatives')
    mon.ev('model.' + name)
    mon.state(name, train, s.ref.keys[s.depth])


def amp_case(rng, i):
    """(loss and outputs of a model, model, scene) in single precision."""
    k = i % 8
    if k < 5:
        name = NETS[k]
        depth, fd, nmax = rnd_scene_for(rng, name)
        ne = bool(rng.integers(2))
        s = scene(rng, depth, fd, 3, min(nmax, 30), dtype=torch.float32, kinds=['uniform', 'sphere'])
        m, cfg = network(rng, name, depth, ne)
        if name == 'hrnet':
            m, cfg = ocnn.models.HRNet(2, 3, 1 + int(depth > 4), nempty=ne), dict(stages=1, cin=2)
        x = T(rng.normal(size=(s.ref.nnum(depth, ne), cfg['cin']))).float()
        s.q = s.q.float()
        m = no_dropout(randomize(rng, m))

        def loss(mm):
            out = run_net(name, mm, cfg, x, s)
            return F.cross_entropy(out.float(), torch.zeros(out.shape[0], dtype=torch.long)), [out]
        return name, loss, m, s
    fd = int(rng.integers(1, 3))
    depth = fd + int(rng.integers(1, 3))
    s = scene(rng, depth, fd, 2, 25, dtype=torch.float32)
    name = ['ae', 'ounet', 'i2s'][k - 5]
    m = randomize(rng, generative(rng, name, 4, 3, depth, fd, 'ND'))
    img = torch.randn(2, 3, 224, 224)

    def loss(mm):
        out = (mm(s.octree, False) if name == 'ae' else mm(s.octree, s.octree, False)
               if name == 'ounet' else mm(img, s.octree, False))
        r = 0
        for d, l in out['logits'].items():
            r = r + F.cross_entropy(l.float(), s.octree.nempty_mask(d).long())
        r = r + (out['signal'].float() ** 2).mean()
        return r, list(out['logits'].values()) + [out['signal']]
    return name, loss, m, s


def c28_amp(case, rng, mon):
    """Mixed precision: networks train with gradients of the type of the parameters, and compute
    in evaluation what they compute in single precision, up to the rounding of bfloat16."""
    name, loss, m, s = amp_case(rng, case['i'])
    amp = lambda: torch.autocast('cpu', dtype=torch.bfloat16)
    for train in (False, True):
        m.train(train)
        res = []
        for ctx in (contextlib.nullcontext(), amp()):
            m.zero_grad()
            with ctx:
                L, outs = loss(m)
            L.backward()
            missing = [n for n, p in m.named_parameters() if p.grad is None]
            mon.ok(not missing, 'amp.no_gradient', '%s: %s' % (name, missing))
            mon.ok(all(p.grad.dtype == p.dtype == torch.float32 and bool(torch.isfinite(p.grad).all())
                       for p in m.parameters()), 'amp.gradients', name)
            mon.ok(all(bool(torch.isfinite(o).all()) for o in outs), 'amp.finite', name)
            res.append((torch.cat([o.detach().double().flatten() for o in outs]),
                        torch.cat([p.grad.double().flatten() for p in m.parameters()])))
        (a, ga), (b, gb) = res
        if not train:       # (batch statistics of few rows amplify the rounding)
            far = float((a - b).norm() / (a.norm() + 1e-9))
            mon.ok(far < (0.5 if name == 'segnet' else 0.15), 'amp.outputs', '%s %g' % (name, far))
            cos = float(ga @ gb / (ga.norm() * gb.norm() + 1e-30))
            mon.ok(cos > 0.2 or float(ga.norm()) < 1e-3, 'amp.direction', '%s %g' % (name, cos))
        else:
            mon.ok(all(v.dtype == torch.float32 for n, v in m.named_buffers() if 'running' in n),
                   'amp.statistics', name)
    # recomputation in mixed precision repeats the same arithmetic
    ne, d = bool(rng.integers(2)), s.depth
    blk = [ocnn.modules.OctreeResBlock, ocnn.modules.OctreeResBlock2][rng.integers(2)]
    a = randomize(rng, ocnn.modules.OctreeResBlocks(3, 4, 2, 2, ne, blk)).eval()
    b = ocnn.modules.OctreeResBlocks(3, 4, 2, 2, ne, blk, use_checkpoint=True).eval()
    b.load_state_dict(a.state_dict())
    xs = [T(rng.normal(size=(s.ref.nnum(d, ne), 3))).float()]
    xs = [xs[0].clone().requires_grad_(True) for _ in range(2)]
    for q, x in ((a, xs[0]), (b, xs[1])):
        with amp():
            y = q(x, s.octree, d)
        q.out = y.detach().float()
        y.float().square().sum().backward()
    mon.close(b.out, a.out, 'amp.checkpoint', rtol=1e-6, atol=1e-6)
    mon.close(xs[1].grad, xs[0].grad, 'amp.checkpoint_grad', rtol=1e-6, atol=1e-6,
              scale=float(xs[0].grad.abs().max()))
    mon.ev('mixed_precision.' + name)
    mon.state('amp', name, s.ref.keys[s.depth])


def c28_checkpoint(case, rng, mon):
    """Recomputing activations changes neither outputs nor gradients."""
    s = scene(rng, int(rng.integers(2, 6)), int(rng.integers(1, 3)), int(rng.integers(1, 4)), 60)
    ne = bool(rng.integers(2))
    d = int(rng.integers(1, s.depth + 1))
    if s.ref.nnum(d, ne) < 4:
        d = s.depth
    cin, cout = int(rng.integers(1, 5)), 2 * int(rng.integers(1, 4))
    blk = [ocnn.modules.OctreeResBlock, ocnn.modules.OctreeResBlock2][rng.integers(2)]
    n = int(rng.integers(1, 4))
    a = randomize(rng, ocnn.modules.OctreeResBlocks(cin, cout, n, 2, ne, blk).double())
    b = ocnn.modules.OctreeResBlocks(cin, cout, n, 2, ne, blk, use_checkpoint=True).double()
    b.load_state_dict(a.state_dict())
    train = bool(rng.integers(2)) and s.ref.nnum(d, ne) >= 4
    a.train(train), b.train(train)
    x = T(rng.normal(size=(s.ref.nnum(d, ne), cin)))
    needs = rng.random() < 0.7       # the input of a network or of frozen layers needs no gradient
    if rng.random() < 0.3:           # a part of the block is frozen
        for (k, p), (_, q) in zip(a.named_parameters(), b.named_parameters()):
            if rng.random() < 0.4:
                p.requires_grad_(False), q.requires_grad_(False)
    if not needs and not any(p.requires_grad for p in a.parameters()):
        needs = True
    xa, xb = (x.clone().requires_grad_(needs) for _ in range(2))
    oa, ob = a(xa, s.octree, d), b(xb, s.octree, d)
    g = T(rng.normal(size=tuple(oa.shape)))
    wrt = [[v] * needs + [p for p in m.parameters() if p.requires_grad] for v, m in ((xa, a), (xb, b))]
    names = ['data'] * needs + [k for k, p in a.named_parameters() if p.requires_grad]
    mon.close(ob, oa, 'checkpoint.out', rtol=1e-9, atol=1e-9)
    mon.ok(ob.requires_grad == oa.requires_grad, 'checkpoint.requires_grad', needs)
    if rng.random() < 0.5:           # accumulated, or asked for
        oa.backward(g)
        ob.backward(g)
        ga, gb = ([v.grad for v in w] for w in wrt)
        mon.ok(all((p.grad is None) == (q.grad is None) for p, q in zip(a.parameters(), b.parameters())),
               'checkpoint.which')
    else:
        ga, gb = (torch.autograd.grad(v, w, g) for v, w in zip((oa, ob), wrt))
    for k, p, q in zip(names, ga, gb):
        mon.ok(q is not None, 'checkpoint.none', k)
        mon.close(q, p, 'checkpoint.grad', k, rtol=1e-7, atol=1e-9, scale=float(p.abs().max()) + 1)
    # the wrapper for a single operator, whose input may need no gradient
    op = randomize(rng, ocnn.nn.OctreeConv(cin, cout, nempty=ne).double())
    for needs in (False, True):
        xa, xb = (x.clone().requires_grad_(needs) for _ in range(2))
        oa = op(xa, s.octree, d)
        ob = ocnn.modules.modules.ckpt_conv_wrapper(lambda v, o: op(v, o, d), xb, s.octree)
        mon.close(ob, oa, 'wrapper.out', rtol=1e-9, atol=1e-9)
        g = T(rng.normal(size=tuple(oa.shape)))
        grads = []
        for o in (oa, ob):
            op.zero_grad()
            o.backward(g)
            grads.append(op.weights.grad.clone())
        mon.close(grads[1], grads[0], 'wrapper.grad', rtol=1e-8, atol=1e-9)
        if needs:
            mon.close(xb.grad, xa.grad, 'wrapper.grad_data', rtol=1e-8, atol=1e-9)
    mon.ev('checkpointed')
    mon.state('ckpt', n, d, ne, train, s.ref.keys[s.depth])


def settings(m):
    return ([(n, x.training) for n, x in m.named_modules()],
            [(n, p.requires_grad, p.dtype) for n, p in m.named_parameters()],
            [(n, x.momentum, x.eps, x.track_running_stats) for n, x in m.named_modules()
             if isinstance(x, torch.nn.BatchNorm1d)])


def modes_kept(mon, m, f, what):
    """A forward pass leaves every part in the mode it was put in."""
    st = copy.deepcopy(m.state_dict())
    for train in (True, False):
        m.train(train)
        want = settings(m)
        try:
            f(m)
        except ValueError:           # batch statistics of a single row
            mon.ok(train, 'mode', what)
        mon.ok(settings(m) == want, 'mode_changed', '%s train %s' % (what, train))
        mon.ev('passes_keeping_modes')
    m.load_state_dict(st)


def c28_single(case, rng, mon):
    """Batches of a single sample, in both modes."""
    name = NETS[case['i'] % 5]
    depth, fd, nmax = rnd_scene_for(rng, name)
    ne = bool(rng.integers(2))
    s = scene(rng, depth, fd, 1, min(nmax, 30))
    m, cfg = network(rng, name, depth, ne)
    if name == 'hrnet':
        m, cfg = ocnn.models.HRNet(2, 3, 1 + int(depth > 4), nempty=ne), dict(stages=1, cin=2)
    m = randomize(rng, m.double())
    x = T(rng.normal(size=(s.ref.nnum(depth, ne), cfg['cin'])))
    torch.set_grad_enabled(bool(rng.integers(2)))
    try:
        modes_kept(mon, m, lambda mm: run_net(name, mm, cfg, x, s), name)
    finally:
        torch.set_grad_enabled(True)
    mon.ev('single_samples')
    mon.state('single', name, s.ref.keys[depth])


def c28_state(case, rng, mon):
    """A model rebuilt from its saved state computes the same; statistics move in training only."""
    name, loss, m, s = loss_case(rng, case)
    m.eval()
    st = {k: v.clone() for k, v in m.state_dict().items()}
    with torch.no_grad():
        l0 = float(loss(m))
    for k, v in m.state_dict().items():
        mon.equal(v, st[k], 'eval_changes_state', '%s %s' % (name, k))
    modes_kept(mon, m, loss, name)
    f = io.BytesIO()
    torch.save(m.state_dict(), f)
    f.seek(0)
    m2 = randomize(rng, copy.deepcopy(m)).eval()
    with torch.no_grad():
        l1 = float(loss(m2))
    mon.ev('other_weights_other_loss', int(l1 != l0))
    m2.load_state_dict(torch.load(f))
    with torch.no_grad():
        mon.ok(float(loss(m2)) == l0, 'reload', name)
        m3 = copy.deepcopy(m)
        mon.ok(float(loss(m3)) == l0, 'deepcopy', name)
    mon.ev('reloads')
    # training: the loss goes down, the running statistics move
    m.train()
    for mod in m.modules():
        if isinstance(mod, torch.nn.BatchNorm1d):
            mod.momentum = 0.1
    old = {k: v.clone() for k, v in m.named_buffers() if 'running' in k}
    a = loss(m)
    m.zero_grad()
    a.backward()
    ps = [p for p in m.parameters() if p.grad is not None]
    gn = float(sum((p.grad ** 2).sum() for p in ps)) ** 0.5
    if gn > 1e-4:       # some step against the gradient reduces the loss
        w0, bs = [p.detach().clone() for p in ps], []
        for length in (1e-5, 1e-6, 1e-7, 1e-8):
            for p, w in zip(ps, w0):
                p.data = w.clone()
            opt = torch.optim.SGD(ps, lr=length / gn)
            opt.step()
            with torch.no_grad():
                bs.append(float(loss(m)))
            if bs[-1] < float(a):
                break
        mon.ok(bs[-1] < float(a), 'step_increases_loss', '%s: %r -> %r (|g| %r)' % (
            name, float(a), bs, gn))
    moved = sum(int(not torch.equal(v, old[k])) for k, v in m.named_buffers() if k in old)
    mon.ok(moved == len(old), 'statistics_frozen', '%s: %d of %d moved' % (name, moved, len(old)))
    mon.ev('training_steps')
    mon.state('state', name, s.ref.keys[s.depth])


def c28_fit(case, rng, mon):
    """A small network overfits a small batch."""
    s = scene(rng, 4, 2, 3, 40, nmin=20, kinds=['uniform', 'sphere', 'plane'], dtype=torch.float32)
    ne = bool(rng.integers(2))
    torch.manual_seed(int(rng.integers(1 << 30)))
    x = s.octree.get_input_feature('NDP', ne)
    name = ['resnet', 'unet'][case['i'] % 2]
    if name == 'resnet':
        m = no_dropout(ocnn.models.ResNet(7, 3, 1, 2, ne))
        lab = torch.arange(3)
        f = lambda: m(x, s.octree, 4)
    else:
        m, _ = network(np.random.default_rng(5), 'unet', 4, ne)
        m = type(m)(7, 3, 'linear', ne)
        lab = (s.q[:, 3].long())
        f = lambda: m(x, s.octree, 4, s.q)
    opt = torch.optim.Adam(m.parameters(), lr=0.01)
    m.train()
    ls = []
    for _ in range(30):
        l = F.cross_entropy(f(), lab)
        opt.zero_grad()
        l.backward()
        opt.step()
        ls.append(float(l))
    mon.ok(np.isfinite(ls).all(), 'fit.finite')
    mon.ok(min(ls[-5:]) < 0.6 * ls[0], 'fit', '%s: %r' % (name, ls[::5]))
    mon.ev('fits')
    mon.state('fit', name, ne, s.ref.keys[4])


KINDS['C28'] = {'amp': (c28_amp, 16, 60), 'single': (c28_single, 15, 150), 'gradient': (c28_gradient, 42, 560), 'checkpoint': (c28_checkpoint, 40, 600),
                'state': (c28_state, 28, 350), 'fit': (c28_fit, 8, 80)}
INFO['C28'] = {'events': ['mixed_precision.' + n for n in NETS + ['ae', 'ounet', 'i2s']] + ['passes_keeping_modes', 'single_samples', 'directional_derivatives', 'checkpointed', 'reloads', 'training_steps',
                          'fits', 'model.ounet', 'model.hrnet', 'model.ae'],
               'rule': 'Every published network, train and eval mode: directional derivatives per '
                       'parameter tensor by finite differences in double precision; recomputation; '
                       'save / load; optimisation steps.'}


# --------------------------------------------------------------------------- C29

def c29_deep(case, rng, mon):
    """Deep trees: a split everywhere or almost nowhere, level by level."""
    c29_decode(case, rng, mon, True)
    mon.ev('deep_trees')


def c29_decode(case, rng, mon, deep=False):
    kind = ['ae', 'ounet', 'i2s'][case['i'] % 3]
    fd = int(rng.integers(1, 3))
    depth = fd + int(rng.integers(1, 4))
    B = gen.few(rng, 1, 4, 0.12, 20)
    if deep:
        fd, depth, B = int(rng.integers(1, 4)), int(rng.integers(6, 8)), int(rng.integers(1, 3))
    elif rng.random() < 0.2:
        fd, B = 3, int(rng.integers(1, 3))
        depth = 3 + int(rng.integers(0, 3))
        mon.ev('full_depth_3')
    elif rng.random() < 0.1:
        depth = fd      # nothing but the full tree
        mon.ev('full_tree_only')
    dbl = bool(rng.random() < 0.6)
    dt = torch.float64 if dbl else torch.float32
    cout = int(rng.integers(1, 5))
    m = randomize(rng, generative(rng, kind, 4, cout, depth, fd, 'ND').to(dt)).eval()
    with torch.no_grad():           # how much is split
        bias = 0.0 if deep else float(rng.choice([0, 0, 1.5, -1.5, -1e4, 1e4]))
        for n, p in m.named_parameters():
            if n.startswith('predict') and n.endswith('linear.bias') and p.shape[0] == 2:
                p[1] += bias
        if deep:
            est = B * 8 ** fd
            for k in range(fd, depth + 1):      # bounds the number of nodes
                free = est * 8 < 3000 or k == depth
                bias = float(rng.choice([0, 0.5, -0.5, 1e4])) if free and rng.random() < 0.6 else -1e4
                est = est * 8 if bias > -1e4 else 8
                p = dict(m.named_parameters())
                p = [v for n, v in p.items() if n.startswith('predict.%d.' % (k - fd))
                     and n.endswith('linear.bias')][0]
                p[1] += bias
            bias = 0
    if bias == 1e4 and B * 8 ** depth > 20000:
        return
    src = None
    # the input may be full beyond the full depth of the network
    sfd = fd if rng.random() < 0.6 else int(rng.integers(fd, min(depth, 4) + 1))
    mon.ev('input_of_larger_full_depth', int(sfd != fd))
    grad = bool(rng.random() < 0.3)
    with torch.set_grad_enabled(grad):
        if kind == 'ae':
            code = T(rng.uniform(-1, 1, (B * 8 ** fd, m.code_channel))).to(dt)
            kc = code.clone()
            if rng.random() < 0.5:
                out = m.decode_code(code)
            else:
                src = scene(rng, depth, sfd, B, 30, dtype=dt)
                before = snap(src.octree)
                out = m(src.octree, True)
                same(mon, before, snap(src.octree), 'octree_changed')
                code = m.encoder(src.octree)
                kc = code.clone()
            again = lambda o: m.decoder(code, o, False)
        elif kind == 'ounet':
            src = scene(rng, depth, sfd, B, 30, dtype=dt)
            before = snap(src.octree)
            out = m(src.octree)
            same(mon, before, snap(src.octree), 'octree_changed')
            again = lambda o: m(src.octree, o, False)
            code = kc = torch.zeros(1)
        else:
            img = T(rng.normal(size=(B, 3, 36, 36))).to(dt)
            if rng.random() < 0.5:
                out = m(img, update_octree=True)
            else:
                out = m.decode_code(m.resnet18(img).view(-1, m.code_channel))
            again = lambda o: m(img, o, False)
            code = kc = torch.zeros(1)
    mon.equal(code, kc, 'input_changed')
    o = out['octree_out']
    msg = '%s depth %d/%d batch %d bias %g' % (kind, depth, fd, B, bias)
    mon.ok((o.depth, o.full_depth, o.batch_size) == (depth, fd, B), 'attributes', msg)
    mon.ok(sorted(out['logits']) == list(range(fd, depth + 1)), 'levels', msg)
    # the tree is the one the predictions describe
    ref = oracle.RefOctree.start_full(depth, fd, B)
    for d in range(fd, depth + 1):
        lg = N64(out['logits'][d])
        if d > fd:
            ref.grow(d)
        mon.ok(lg.shape == (ref.nnum(d), 2), 'logits.rows', '%s level %d: %s' % (msg, d, lg.shape))
        mask = lg[:, 1] > lg[:, 0]
        ref.split(mask, d)
        mon.ev('levels_decoded')
        mon.ev('nodes_split', int(mask.sum()))
        mon.ev('nodes_kept', int((~mask).sum()))
        mon.ev('levels_without_split', int(not mask.any()))
    check_tree(mon, o, ref, 'tree')
    for d in range(1, depth + 1):
        mon.equal(o.neighs[d], ref.neigh(d), 'neigh', '%s level %d' % (msg, d))
    sig = out['signal']
    mon.ok(tuple(sig.shape) == (ref.nnum(depth, True), cout), 'signal.rows', msg)
    mon.ok(bool(torch.isfinite(sig).all()) and float(sig.abs().max()) <= 1, 'signal.range', msg)
    mon.equal(o.features[depth], sig, 'signal.stored', msg)
    pts = o.to_points()
    mon.close(pts.points, (ref.xyz(depth, True) + 0.5) * 2.0 ** (1 - depth) - 1, 'points', msg,
              rtol=1e-6, atol=1e-6)
    mon.ok(pts.batch_size == B, 'points.batch')
    mon.equal(N64(pts.batch_id)[:, 0], ref.batch(depth, True).astype(float), 'points.batch')
    # teacher forcing on the decoded tree gives the same predictions and does not touch the tree
    before = snap(o)
    with torch.no_grad():
        tf = again(o)
    same(mon, before, snap(o), 'octree_changed', msg)
    t = dict(rtol=1e-8, atol=1e-8) if dbl else dict(rtol=2e-3, atol=2e-3)
    for d in range(fd, depth + 1):
        mon.close(tf['logits'][d], N64(out['logits'][d]), 'teacher_forcing.logits', msg,
                  scale=float(out['logits'][d].abs().max()) if not dbl else None, **t)
    mon.close(tf['signal'], N64(sig), 'teacher_forcing.signal', msg, **t)
    mon.ok(tf['octree_out'] is o, 'octree_out', msg)
    if grad and dbl:
        sum(l.sum() for l in out['logits'].values()).backward()
        mon.ev('differentiable_decodes')
    mon.ev('decoded.' + kind)
    mon.state(msg, ref.keys[depth])


KINDS['C29'] = {'deep': (c29_deep, 15, 200), 'decode': (c29_decode, 90, 1200)}
INFO['C29'] = {'events': ['input_of_larger_full_depth', 'deep_trees', 'decoded.ae', 'decoded.ounet', 'decoded.i2s', 'nodes_split', 'nodes_kept',
                          'levels_without_split', 'full_depth_3', 'full_tree_only'],
               'rule': 'Random codes, images and input shapes; random weights with the split bias from '
                       'never to always; the tree rebuilt from the returned predictions.'}

for _p in INFO:
    INFO[_p]['mult'] = (3, 20)
