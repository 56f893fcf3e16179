"""C11-C20: convolutions, pooling, interpolation, normalisation, drop path."""
import copy

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
import torch.nn.functional as F

from .. import gen, oracle
from ..core import to_np
from .octree import T, snap, same

import ocnn
from ocnn.nn import OctreeConv, OctreeDeconv, OctreeDWConv, OctreeGroupConv

KINDS, INFO = {}, {}

F32 = dict(rtol=3e-5, atol=2e-6)
F64 = dict(rtol=1e-11, atol=1e-12)


def tol(dbl):
    return F64 if dbl else F32


def rel(dbl):
    """Relative to the magnitudes that were summed up, for features of any size."""
    return dict(tol(dbl), atol=1e-30)


def N64(t):
    return to_np(t).astype(np.float64)


def small_world(rng, maxdepth=5, nmax=90, max_nodes=6000, **kw):
    kw.setdefault('min_depth', 1)
    kw.setdefault('edits', 0.15)
    kw.setdefault('deep', 0.1)
    return gen.world(rng, nmax=nmax, maxdepth=maxdepth, maxfull=3, max_nodes=max_nodes, **kw)


def kernel_list(rng, k):
    """The list forms in which a kernel can be written."""
    full = [int(c) for c in k]
    if k in ('333', '222') and rng.random() < 0.5:
        return [full[0]]
    if k == '311' and rng.random() < 0.3:
        return [3, 1]
    if k == '133' and rng.random() < 0.3:
        return [1, 3]
    return full


def set_params(rng, m, bias=True):
    """Values that make every weight matter; nothing near zero."""
    with torch.no_grad():
        for n, p in m.named_parameters():
            v = rng.normal(size=tuple(p.shape)) + 0.05
            p.copy_(torch.from_numpy(v))


class Cfg:
    pass


def conv_cfg(rng, w, deconv=False, cmax=6, base=None):
    """A random configuration; with `base`, that one at another layer of the tree w."""
    c = Cfg()
    c.kernel = oracle.KERNELS[rng.integers(8)]
    c.stride = int(rng.integers(1, 3))
    c.nempty = bool(rng.integers(2))
    c.dbl = bool(rng.random() < 0.5)
    c.cin, c.cout = (int(v) for v in rng.integers(1, cmax + 1, 2))
    c.bias = bool(rng.integers(2))
    if base is not None:
        for f in ('kernel', 'stride', 'nempty', 'dbl', 'cin', 'cout', 'bias'):
            setattr(c, f, getattr(base, f))
    if deconv and c.stride == 2:
        c.d = int(rng.integers(0, w.depth))
        c.dn, c.dout = c.d + 1, c.d + 1
    else:
        c.d = int(rng.integers(1, w.depth + 1))
        c.dn, c.dout = c.d, (c.d - 1 if c.stride == 2 else c.d)
    c.n_in, c.n_out = w.ref.nnum(c.d, c.nempty), w.ref.nnum(c.dout, c.nempty)
    c.rows = w.ref.neigh(c.dn, c.kernel, c.stride, c.nempty).shape[0]
    if base is None and rng.random() < 0.12:
        kdim = oracle.offsets(c.kernel).shape[0]
        for f in ('cin', 'cout'):
            if rng.random() < 0.7:
                setattr(c, f, gen.channels(rng, cmax, c.rows * kdim, 500000, 1))
    c.msg = 'depth %d kernel %s stride %d nempty %s %s %d->%d bias %s' % (
        c.d, c.kernel, c.stride, c.nempty, 'f64' if c.dbl else 'f32', c.cin, c.cout, c.bias)
    c.dt = torch.float64 if c.dbl else torch.float32
    return c


def buffers(rng, c, in_conv, kdim):
    """A max_buffer that makes the rows be processed in chunks of a chosen size."""
    r = int(rng.choice([1, 2, 3, 7, max(1, c.rows // 3), max(1, c.rows // 2),
                        max(1, c.rows - 1), c.rows, c.rows + 1, 10 ** 6]))
    if c.rows / r > 400:
        r = max(1, c.rows // 400)
    if c.rows <= 400 and rng.random() < 0.15:      # smaller than one row: one row per chunk
        return int(rng.integers(1, kdim * in_conv + 1))
    return r * kdim * in_conv + int(rng.integers(0, kdim * in_conv))


def make_conv(rng, c, deconv=False):
    cls = OctreeDeconv if deconv else OctreeConv
    kdim = oracle.offsets(c.kernel).shape[0]
    c.direct = bool(rng.random() < 0.4)
    kw = {}
    if not c.direct and rng.random() < 0.7:
        kw['max_buffer'] = buffers(rng, c, c.cout if deconv else c.cin, kdim)
    m = cls(c.cin, c.cout, kernel_list(rng, c.kernel), c.stride, c.nempty,
            direct_method=c.direct, use_bias=c.bias, **kw).to(c.dt)
    set_params(rng, m)
    c.msg += ' direct %s buffer %s' % (c.direct, kw.get('max_buffer'))
    c.wt = N64(m.weights)
    c.bs = N64(m.bias) if c.bias else None
    return m


# --------------------------------------------------------------------------- C11

def _forward(mon, rng, w, deconv):
    ref, o = w.ref, w.octree
    c = conv_cfg(rng, w, deconv)
    m = make_conv(rng, c, deconv)
    x = gen.feat(rng, c.n_in, c.cin, c.dbl, mag=gen.magnitude(rng))
    keep, kw_ = x.clone(), m.weights.detach().clone()
    with torch.set_grad_enabled(bool(rng.integers(2))):
        out = m(x, o, c.d)
    f = oracle.deconv if deconv else oracle.conv
    e, mag = f(ref, N64(x), c.wt, c.d, c.kernel, c.stride, c.nempty, c.bs)
    name = 'deconv' if deconv else 'conv'
    mon.close(out, e, name, c.msg, scale=mag, **rel(c.dbl))
    mon.ok(out.dtype == c.dt, name + '.dtype', c.msg)
    mon.equal(x, keep, 'input_changed', c.msg)
    mon.equal(m.weights.detach(), kw_, 'weights_changed', c.msg)
    mon.ev(name + '_calls')
    mon.ev('%s_s%d_%s_%s' % (name, c.stride, 'ne' if c.nempty else 'all',
                             'direct' if c.direct else 'buffered'))
    mon.ev('output_rows', c.n_out)
    mon.state(name, c.msg, ref.keys[w.depth])


def c11_conv(case, rng, mon):
    w = small_world(rng)
    before = snap(w.octree)
    for _ in range(8):
        _forward(mon, rng, w, deconv=False)
    for _ in range(8):
        _forward(mon, rng, w, deconv=True)
    same(mon, before, snap(w.octree), 'octree_changed')


def c11_dense(case, rng, mon):
    """On a full grid the octree convolution is the dense 3D convolution of torch."""
    d, B = int(rng.integers(1, 5)), int(rng.integers(1, 3))
    if d == 4:
        B = 1
    o = ocnn.octree.init_octree(d, d, B)
    n = 1 << d
    c = conv_cfg(rng, gen_full(o, d, B))
    c.d = d
    c.n_in = B * n ** 3
    c.stride, c.nempty = 1, bool(rng.integers(2))
    c.rows = c.n_in
    m = make_conv(rng, c)
    x = gen.feat(rng, c.n_in, c.cin, c.dbl)
    out = m(x, o, d)
    off = oracle.offsets(c.kernel)
    k = [int(v) for v in c.kernel]
    wt = m.weights.detach().view(*k, c.cin, c.cout).permute(4, 3, 0, 1, 2)
    g = ocnn.nn.octree2voxel(x, o, d, c.nempty).permute(0, 4, 1, 2, 3)
    pad = []
    for v in reversed(k):
        pad += [0, 1] if v == 2 else [v // 2, v // 2]
    e = F.conv3d(F.pad(g, pad), wt, m.bias.detach() if c.bias else None)
    got = ocnn.nn.octree2voxel(out.detach(), o, d, c.nempty).permute(0, 4, 1, 2, 3)
    mag = F.conv3d(F.pad(g.abs(), pad), wt.abs())
    mon.close(got, e, 'dense', c.msg, scale=N64(mag) + 1, **tol(c.dbl))
    mon.ev('dense_comparisons')
    mon.state('dense', c.msg)


def gen_full(o, d, B):
    w = gen.World()
    w.octree, w.depth, w.full_depth, w.batch = o, d, d, B
    w.ref = oracle.RefOctree.start_full(d, d, B)
    return w


def c11_large(case, rng, mon):
    """Layers of more than 32768 rows."""
    w = gen.large_world(rng)
    w.ref._neigh.clear()
    for deconv in (False, True):
        for _ in range(20):
            c = conv_cfg(rng, w, deconv, cmax=2)
            if 20000 < c.rows and c.rows * oracle.offsets(c.kernel).shape[0] < 1500000:
                break
        m = make_conv(rng, c, deconv)
        x = gen.feat(rng, c.n_in, c.cin, c.dbl)
        with torch.no_grad():
            out = m(x, w.octree, c.d)
        e, mag = (oracle.deconv if deconv else oracle.conv)(
            w.ref, N64(x), c.wt, c.d, c.kernel, c.stride, c.nempty, c.bs)
        mon.close(out, e, 'large', c.msg, scale=mag, **tol(c.dbl))
        mon.ev('large_layers', int(c.rows > 32768))
    mon.state('large', w.ref.ne[w.depth])


KINDS['C11'] = {'large': (c11_large, 1.6, 8), 'conv': (c11_conv, 220, 3000), 'dense': (c11_dense, 80, 800)}
INFO['C11'] = {'events': ['conv_calls', 'deconv_calls', 'dense_comparisons',
                          'conv_s2_all_buffered', 'deconv_s2_all_direct', 'conv_s1_ne_direct',
                          'large_layers'],
               'rule': 'Random (tree, depth, kernel, stride, row convention, channels, dtype, bias, '
                       'method, chunking) configurations.'}


# --------------------------------------------------------------------------- C12

def _grads(mon, rng, w, deconv):
    ref, o = w.ref, w.octree
    c = conv_cfg(rng, w, deconv, cmax=5)
    m = make_conv(rng, c, deconv)
    x = gen.feat(rng, c.n_in, c.cin, c.dbl, grad=True, mag=gen.magnitude(rng))
    need_x, need_w = [(True, True), (True, False), (False, True)][rng.integers(3)] \
        if rng.random() < 0.5 else (True, True)
    x.requires_grad_(need_x)
    m.weights.requires_grad_(need_w)
    out = m(x, o, c.d)
    g = gen.feat(rng, out.shape[0], out.shape[1], c.dbl, mag=gen.magnitude(rng))
    keep = [t.detach().clone() for t in (x, g, m.weights)]
    times = 2 if rng.random() < 0.3 else 1     # gradients accumulate
    for t in range(times):
        out.backward(g, retain_graph=t + 1 < times)
    f = oracle.deconv_grads if deconv else oracle.conv_grads
    e = f(ref, N64(x), c.wt, N64(g), c.d, c.kernel, c.stride, c.nempty, c.bias)
    a = f(ref, np.abs(N64(x)), np.abs(c.wt), np.abs(N64(g)), c.d, c.kernel, c.stride, c.nempty,
          c.bias)
    name = 'deconv' if deconv else 'conv'
    t = rel(c.dbl)
    if need_x:
        mon.close(x.grad, times * e[0], name + '.grad_data', c.msg, scale=times * a[0], **t)
        mon.ok(x.grad.dtype == c.dt, name + '.grad_dtype')
    else:
        mon.ok(x.grad is None, name + '.grad_unwanted')
    if need_w:
        mon.close(m.weights.grad, times * e[1], name + '.grad_weights', c.msg,
                  scale=times * a[1], **t)
    if c.bias:
        mon.close(m.bias.grad, times * e[2], name + '.grad_bias', c.msg, scale=times * a[2], **t)
    for u, v in zip((x, g, m.weights), keep):
        mon.equal(u.detach(), v, 'input_changed', c.msg)
    mon.ev(name + '_gradients')
    mon.ev('grad_%s_s%d_%s_%s' % (name, c.stride, 'ne' if c.nempty else 'all',
                                  'direct' if c.direct else 'buffered'))
    mon.state(name, c.msg, ref.keys[w.depth])


def c12_grads(case, rng, mon):
    w = small_world(rng)
    before = snap(w.octree)
    for _ in range(6):
        _grads(mon, rng, w, False)
        _grads(mon, rng, w, True)
    same(mon, before, snap(w.octree), 'octree_changed')


def c12_others(case, rng, mon):
    """Depth-wise and group convolutions."""
    w = small_world(rng)
    ref, o = w.ref, w.octree
    for _ in range(5):
        c = conv_cfg(rng, w, cmax=5)
        m = make_dw(rng, c)
        x = gen.feat(rng, c.n_in, c.cin, c.dbl, grad=True, mag=gen.magnitude(rng))
        frozen = [None, None, 'data', 'weights'][rng.integers(4)]
        if frozen == 'data':
            x = x.detach()
        if frozen == 'weights':
            m.weights.requires_grad_(False)
        out = m(x, o, c.d)
        g = gen.feat(rng, out.shape[0], out.shape[1], c.dbl, mag=gen.magnitude(rng))
        out.backward(g)
        a_ = (ref, N64(x), c.wt, N64(g), c.d, c.kernel, c.stride, c.nempty, c.bias)
        e = oracle.dwconv_grads(*a_)
        a = oracle.dwconv_grads(*(np.abs(v) if isinstance(v, np.ndarray) else v for v in a_))
        got = [x.grad, m.weights.grad] + ([m.bias.grad] if c.bias else [])
        for n, u, v, s in zip(('data', 'weights', 'bias'), got, e, a):
            if n == frozen:
                mon.ok(u is None, 'dwconv.frozen', c.msg)
                mon.ev('frozen_inputs')
                continue
            mon.close(u, v, 'dwconv.grad_' + n, c.msg, scale=s, **rel(c.dbl))
        mon.ev('dwconv_gradients')
    for _ in range(3):
        c = conv_cfg(rng, w, cmax=3)
        group = int(rng.integers(1, 4))
        m = OctreeGroupConv(c.cin * group, c.cout * group, kernel_list(rng, c.kernel), c.stride,
                            c.nempty, c.bias, group).to(c.dt)
        set_params(rng, m)
        x = gen.feat(rng, c.n_in, c.cin * group, c.dbl, grad=True, mag=gen.magnitude(rng))
        frozen = rng.random() < 0.3
        if frozen:
            x = x.detach()
        out = m(x, o, c.d)
        g = gen.feat(rng, out.shape[0], out.shape[1], c.dbl, mag=gen.magnitude(rng))
        out.backward(g)
        xs, gs = N64(x), N64(g)
        wk, bk = group_params(m)
        for i in range(group):
            a_ = (ref, xs[:, i * c.cin:(i + 1) * c.cin], N64(wk[i]),
                  gs[:, i * c.cout:(i + 1) * c.cout], c.d, c.kernel, c.stride, c.nempty, c.bias)
            e = oracle.conv_grads(*a_)
            a = oracle.conv_grads(*(np.abs(v) if isinstance(v, np.ndarray) else v for v in a_))
            if not frozen:
                mon.close(x.grad[:, i * c.cin:(i + 1) * c.cin], e[0], 'group.grad_data', c.msg,
                          scale=a[0], **rel(c.dbl))
            mon.close(wk[i].grad, e[1], 'group.grad_weights', c.msg, scale=a[1], **rel(c.dbl))
            if c.bias:
                mon.close(bk[i].grad, e[2], 'group.grad_bias', c.msg, scale=a[2], **rel(c.dbl))
        mon.ev('group_gradients')
    mon.state('others', gen.describe(w), ref.keys[w.depth], int(rng.integers(1 << 40)))


def group_params(m):
    """The weights / biases per group, as named in the state dict."""
    p = dict(m.named_parameters())
    ws = [p[k] for k in sorted((k for k in p if k.endswith('weights')),
                               key=lambda s: int(s.split('.')[1]))]
    bs = [p[k] for k in sorted((k for k in p if k.endswith('bias')),
                               key=lambda s: int(s.split('.')[1]))]
    return ws, bs


def make_dw(rng, c):
    kdim = oracle.offsets(c.kernel).shape[0]
    kw = {}
    if rng.random() < 0.7:
        kw['max_buffer'] = buffers(rng, c, c.cin, kdim)
    m = OctreeDWConv(c.cin, kernel_list(rng, c.kernel), c.stride, c.nempty, c.bias, **kw).to(c.dt)
    set_params(rng, m)
    c.msg += ' buffer %s' % kw.get('max_buffer')
    c.wt = N64(m.weights)
    c.bs = N64(m.bias) if c.bias else None
    return m


def c12_interleaved(case, rng, mon):
    """Several forward passes before the backward passes, in any order; two octrees."""
    ws = [small_world(rng, maxdepth=4, nmax=50, max_nodes=2500) for _ in range(2)]
    runs = []
    for _ in range(5):
        w = ws[rng.integers(2)]
        deconv = bool(rng.integers(2))
        c = conv_cfg(rng, w, deconv, cmax=4)
        m = make_conv(rng, c, deconv)
        x = gen.feat(rng, c.n_in, c.cin, c.dbl, grad=True)
        out = m(x, w.octree, c.d)
        runs.append((w, deconv, c, m, x, out))
    # one layer applied twice (shared weights)
    for k in rng.permutation(len(runs)):
        w, deconv, c, m, x, out = runs[k]
        g = gen.feat(rng, out.shape[0], out.shape[1], c.dbl)
        out.backward(g)
        f = oracle.deconv_grads if deconv else oracle.conv_grads
        e = f(w.ref, N64(x), c.wt, N64(g), c.d, c.kernel, c.stride, c.nempty)
        a = f(w.ref, np.abs(N64(x)), np.abs(c.wt), np.abs(N64(g)), c.d, c.kernel, c.stride,
              c.nempty)
        mon.close(x.grad, e[0], 'interleaved.grad_data', c.msg, scale=a[0], **tol(c.dbl))
        mon.close(m.weights.grad, e[1], 'interleaved.grad_weights', c.msg, scale=a[1],
                  **tol(c.dbl))
        mon.ev('interleaved_backwards')
    mon.state('inter', *[w.ref.keys[w.depth] for w in ws])


def c12_shared(case, rng, mon):
    """One layer (or equally configured ones) applied to several trees and depths
    before the backward passes run in any order: gradients of the weights add up."""
    ws = [small_world(rng, maxdepth=4, nmax=50, max_nodes=2500) for _ in range(2)]
    kind = ['conv', 'deconv', 'dw'][rng.integers(3)]
    base = conv_cfg(rng, ws[0], kind == 'deconv', cmax=3)
    if kind == 'dw':
        base.cout = base.cin
    kdim = oracle.offsets(base.kernel).shape[0]
    kw = {}
    if rng.random() < 0.5:
        kw['max_buffer'] = int(rng.integers(1, 40)) * kdim * max(base.cin, base.cout)
    kl = kernel_list(rng, base.kernel)
    one = bool(rng.integers(2))
    direct = bool(rng.random() < 0.3)

    def make():
        if kind == 'dw':
            m = OctreeDWConv(base.cin, kl, base.stride, base.nempty, base.bias, **kw)
        else:
            cls = OctreeDeconv if kind == 'deconv' else OctreeConv
            m = cls(base.cin, base.cout, kl, base.stride, base.nempty,
                    direct_method=direct, use_bias=base.bias, **kw)
        m = m.to(base.dt)
        set_params(rng, m)
        return m

    runs, m = [], make()
    for _ in range(int(rng.integers(2, 6))):
        w = ws[rng.integers(2)]
        c = conv_cfg(rng, w, kind == 'deconv', base=base)
        c.cout = base.cout
        m = m if one else make()
        x = gen.feat(rng, c.n_in, c.cin, c.dbl, grad=True)
        runs.append((w, c, m, x, m(x, w.octree, c.d)))
    f = {'conv': oracle.conv_grads, 'deconv': oracle.deconv_grads, 'dw': oracle.dwconv_grads}[kind]
    gs = [gen.feat(rng, r[4].shape[0], r[4].shape[1], base.dbl) for r in runs]
    order = rng.permutation(len(runs))
    if rng.random() < 0.3:
        sum((runs[k][4] * gs[k]).sum() for k in order).backward()
    else:
        for k in order:
            runs[k][4].backward(gs[k])
    tot = {}
    for (w, c, m, x, out), g in zip(runs, gs):
        a_ = (w.ref, N64(x), N64(m.weights), N64(g), c.d, c.kernel, c.stride, c.nempty, c.bias)
        e = f(*a_)
        a = f(*(np.abs(v) if isinstance(v, np.ndarray) else v for v in a_))
        mon.close(x.grad, e[0], 'shared.grad_data', '%s %s' % (kind, c.msg), scale=a[0],
                  **tol(c.dbl))
        t = tot.setdefault(id(m), [m, 0, 0, 0, 0])
        t[1], t[2] = t[1] + e[1], t[2] + a[1]
        if c.bias:
            t[3], t[4] = t[3] + e[2], t[4] + a[2]
    for m, e, a, eb, ab in tot.values():
        mon.close(m.weights.grad, e, 'shared.grad_weights', '%s %s' % (kind, base.msg), scale=a,
                  **tol(base.dbl))
        if base.bias:
            mon.close(m.bias.grad, eb, 'shared.grad_bias', base.msg, scale=ab, **tol(base.dbl))
    mon.ev('shared_layer_backwards', len(runs))
    mon.state('shared', kind, base.msg, *[w.ref.keys[w.depth] for w in ws])


def c12_second(case, rng, mon):
    """Gradients of gradients (penalties on gradients), whatever the method and chunking."""
    w = small_world(rng, maxdepth=4, nmax=60, max_nodes=2500)
    for _ in range(5):
        kind = ['conv', 'deconv', 'dw'][rng.integers(3)]
        c = conv_cfg(rng, w, kind == 'deconv', cmax=4)
        m = make_dw(rng, c) if kind == 'dw' else make_conv(rng, c, kind == 'deconv')
        fwd, bwd = {'conv': (oracle.conv, oracle.conv_grads),
                    'deconv': (oracle.deconv, oracle.deconv_grads),
                    'dw': (oracle.dwconv, oracle.dwconv_grads)}[kind]
        x = gen.feat(rng, c.n_in, c.cin, c.dbl, grad=True)
        out = m(x, w.octree, c.d)
        v = gen.feat(rng, out.shape[0], out.shape[1], c.dbl, grad=True)
        pars = [m.weights] + ([m.bias] if c.bias else [])
        first = torch.autograd.grad(out, [x] + pars, v, create_graph=True)
        us = [gen.feat(rng, t.numel(), 1, c.dbl).view(t.shape) for t in first]
        second = torch.autograd.grad(sum((a * b).sum() for a, b in zip(first, us)),
                                     [x, m.weights, v])
        at = (c.d, c.kernel, c.stride, c.nempty)

        def want(f):
            xs, ws, vs, ux, uw = (f(N64(t)) for t in (x, m.weights, v, us[0], us[1]))
            bs = f(N64(us[2])).reshape(1, -1) if c.bias else None
            return (bwd(w.ref, xs, uw, vs, *at)[0], bwd(w.ref, ux, ws, vs, *at)[1],
                    fwd(w.ref, ux, ws, *at, bs)[0] + fwd(w.ref, xs, uw, *at)[0])
        for n, g, e, a in zip(('data', 'weights', 'grad'), second, want(lambda t: t), want(np.abs)):
            mon.close(g, e, '%s.second_%s' % (kind, n), c.msg, scale=a, **tol(c.dbl))
        mon.ev('second_derivatives')
        mon.state('second', kind, c.msg, w.ref.keys[w.depth])


KINDS['C12'] = {'second': (c12_second, 60, 800), 'shared': (c12_shared, 80, 1000), 'grads': (c12_grads, 160, 2400), 'others': (c12_others, 120, 1600),
                'interleaved': (c12_interleaved, 80, 1000)}
INFO['C12'] = {'events': ['second_derivatives', 'conv_gradients', 'deconv_gradients', 'dwconv_gradients',
                          'group_gradients', 'frozen_inputs', 'interleaved_backwards', 'shared_layer_backwards',
                          'grad_conv_s2_all_buffered', 'grad_deconv_s2_ne_buffered'],
               'rule': 'Random (tree, depth, kernel, stride, row convention, channels, dtype, bias, '
                       'method, chunking); gradients against the transposed reference operators.'}


# --------------------------------------------------------------------------- C13

MIXES = [(torch.bfloat16, torch.float32), (torch.float32, torch.float64),
         (torch.float64, torch.float32)]


def rms(x):
    return float(np.sqrt(np.mean(np.square(x)))) if np.size(x) else 0.0


def c13_methods(case, rng, mon):
    """All execution strategies of one layer agree, forward and backward."""
    w = small_world(rng, maxdepth=5)
    o = w.octree
    for _ in range(3):
        deconv = bool(rng.integers(2))
        c = conv_cfg(rng, w, deconv, cmax=5)
        cls = OctreeDeconv if deconv else OctreeConv
        kdim = oracle.offsets(c.kernel).shape[0]
        ic = c.cout if deconv else c.cin
        ref_m = cls(c.cin, c.cout, [int(v) for v in c.kernel], c.stride, c.nempty,
                    direct_method=True, use_bias=c.bias).double()
        set_params(rng, ref_m)
        x0 = gen.feat(rng, c.n_in, c.cin, True, hostile=False)
        if not c.dbl:            # representable in single precision
            with torch.no_grad():
                for p in ref_m.parameters():
                    p.copy_(p.float().double())
            x0 = x0.float().double()
        g0 = None

        def run(m, dt, ctx=None, dev_in=None):
            nonlocal g0
            x = x0.to(dev_in or dt).clone().requires_grad_(True)
            if ctx is None:
                out = m(x, o, c.d)
            else:
                with ctx:
                    out = m(x, o, c.d)
            if g0 is None:
                g0 = torch.from_numpy(rng.normal(size=tuple(out.shape))).float().double()
            mon.ok(tuple(out.shape) == tuple(g0.shape), 'shape', c.msg)
            out.backward(g0.to(out.dtype))
            return [out.detach(), x.grad] + [p.grad for p in m.parameters()]

        base = run(ref_m, torch.float64)
        f = oracle.deconv if deconv else oracle.conv
        fg = oracle.deconv_grads if deconv else oracle.conv_grads
        args = (np.abs(N64(ref_m.weights)),)
        mags = [f(w.ref, np.abs(N64(x0)), args[0], c.d, c.kernel, c.stride, c.nempty,
                  np.abs(N64(ref_m.bias)) if c.bias else None)[1]]
        ga = fg(w.ref, np.abs(N64(x0)), args[0], np.abs(N64(g0)), c.d, c.kernel, c.stride,
                c.nempty, c.bias)
        mags += list(ga)
        sq = (N64(x0) ** 2, N64(ref_m.weights) ** 2)
        roots = [f(w.ref, sq[0], sq[1], c.d, c.kernel, c.stride, c.nempty,
                   N64(ref_m.bias) ** 2 if c.bias else None)[0]]
        roots += list(fg(w.ref, sq[0], sq[1], N64(g0) ** 2, c.d, c.kernel, c.stride, c.nempty, c.bias))
        sqrt_sums = {n: np.sqrt(np.maximum(v, 0)) for n, v in
                     zip(('out', 'grad_data', 'grad_weights', 'grad_bias'), roots) if v is not None}
        rows = [1, 2, 3, 5, max(1, c.rows // 2), max(1, c.rows - 1), c.rows, c.rows + 1]
        rows = [r for r in rows if c.rows / r <= 500]
        plans = [dict(direct_method=False)] + \
                [dict(direct_method=False, max_buffer=int(r) * kdim * ic + int(rng.integers(0, kdim * ic)))
                 for r in rng.choice(rows, min(3, len(rows)), replace=False)]
        if 0 < c.rows <= 300:      # a limit below the size of one row
            plans.append(dict(direct_method=False, max_buffer=int(rng.integers(1, kdim * ic + 1))))
        for dt in (torch.float64, torch.float32):
            for plan in plans + [dict(direct_method=True)]:
                m = cls(c.cin, c.cout, [int(v) for v in c.kernel], c.stride, c.nempty,
                        use_bias=c.bias, **plan).to(dt)
                m.load_state_dict(ref_m.state_dict())
                got = run(m, dt)
                # inputs not representable in single precision are rounded first
                t = F64 if dt == torch.float64 else dict(rtol=4e-5, atol=4e-6)
                for n, u, v, s in zip(('out', 'grad_data', 'grad_weights', 'grad_bias'), got, base,
                                      mags):
                    mon.close(u, v, 'method.' + n, '%s %s %s' % (c.msg, plan, dt), scale=s, **t)
                    mon.ok(u.dtype == dt, 'method.dtype', c.msg)
                mon.ev('strategies_compared')
                if plan.get('max_buffer'):
                    mon.ev('chunked_runs')
        # mixed precision
        for plan in (plans[0], plans[-1], dict(direct_method=True)):
            m = cls(c.cin, c.cout, [int(v) for v in c.kernel], c.stride, c.nempty,
                    use_bias=c.bias, **plan)
            m.load_state_dict(ref_m.state_dict())
            ctx = torch.autocast('cpu', dtype=torch.bfloat16)
            got = run(m, torch.float32, ctx)
            for n, u, v, s in zip(('out', 'grad_data', 'grad_weights', 'grad_bias'), got, base, mags):
                mon.close(u, v, 'autocast.' + n, '%s %s' % (c.msg, plan), scale=s, rtol=0.03,
                          atol=0.03)
                # independent errors of the products (0.3%, seen up to 0.6%)
                if N64(v).size >= 50:
                    far = rms(N64(u) - N64(v)) / (rms(sqrt_sums[n]) + 1e-30)
                    mon.ok(far < 0.015, 'autocast.rms_' + n, '%s %s %g' % (c.msg, plan, far))
                    mon.ev('autocast_sums')
            mon.ok(all(p.grad.dtype == torch.float32 for p in m.parameters()), 'autocast.grad_dtype')
            mon.ev('autocast_runs')
        # features and parameters of different types, as between the layers of a mixed network
        for plan in plans:
            for tx, tw in MIXES:
                m = cls(c.cin, c.cout, [int(v) for v in c.kernel], c.stride, c.nempty,
                        use_bias=c.bias, **plan).to(tw)
                m.load_state_dict(ref_m.state_dict())
                got = run(m, tw, None, tx)
                t = 0.03 if torch.bfloat16 in (tx, tw) else 4e-5
                for n, u, v, s in zip(('out', 'grad_data', 'grad_weights', 'grad_bias'), got, base,
                                      mags):
                    mon.close(u, v, 'mixed.' + n, '%s %s %s %s' % (c.msg, plan, tx, tw), scale=s,
                              rtol=t, atol=t)
                # (adding the bias in place keeps the type; the common type is as good)
                mon.ok(got[0].dtype in (tx, torch.promote_types(tx, tw) if c.bias else tx) and
                       got[1].dtype == tx, 'mixed.dtype')
                mon.ok(all(p.grad.dtype == tw for p in m.parameters()), 'mixed.grad_dtype')
                mon.ev('mixed_type_runs')
        mon.state(c.msg, w.ref.keys[w.depth])


def c13_dw(case, rng, mon):
    """Chunk sizes of the depth-wise convolution, and mixed precision of stacks."""
    w = small_world(rng, maxdepth=5)
    o = w.octree
    c = conv_cfg(rng, w, cmax=5)
    kdim = oracle.offsets(c.kernel).shape[0]
    base = None
    x0 = gen.feat(rng, c.n_in, c.cin, True, hostile=False)
    ref_m = OctreeDWConv(c.cin, [int(v) for v in c.kernel], c.stride, c.nempty, c.bias).double()
    set_params(rng, ref_m)
    g = None
    for r in [None, 0, 1, 2, 3, max(1, c.rows // 2), max(1, c.rows - 1), c.rows, c.rows + 1]:
        if r is not None and c.rows / max(r, 1) > 400:
            continue
        kw = {} if r is None else dict(max_buffer=max(1, r * kdim * c.cin))
        m = OctreeDWConv(c.cin, [int(v) for v in c.kernel], c.stride, c.nempty, c.bias, **kw).double()
        m.load_state_dict(ref_m.state_dict())
        x = x0.clone().requires_grad_(True)
        out = m(x, o, c.d)
        if g is None:
            g = torch.randn_like(out)
        out.backward(g)
        got = [out, x.grad, m.weights.grad]
        if base is None:
            base = [t.detach().clone() for t in got]
        for n, u, v in zip(('out', 'grad_data', 'grad_weights'), got, base):
            mon.close(u, v, 'dwconv.chunk.' + n, '%s rows %s' % (c.msg, r), rtol=1e-10,
                      atol=1e-10, scale=np.abs(N64(v)).max() if v.numel() else 1)
        mon.ev('chunked_runs')
    e, mag = oracle.dwconv(w.ref, N64(x0), N64(ref_m.weights), c.d, c.kernel, c.stride, c.nempty,
                           N64(ref_m.bias) if c.bias else None)
    mon.close(base[0], e, 'dwconv.out', c.msg, scale=mag, **F64)
    # single precision, and features and parameters of different types
    args = (w.ref, np.abs(N64(x0)), np.abs(N64(ref_m.weights)))
    for tx, tw in MIXES + [(torch.float32, torch.float32)]:
        m = OctreeDWConv(c.cin, [int(v) for v in c.kernel], c.stride, c.nempty, c.bias).to(tw)
        m.load_state_dict(ref_m.state_dict())
        x = x0.to(tx).clone().requires_grad_(True)
        out = m(x, o, c.d)
        mon.ok(out.dtype in (tx, torch.promote_types(tx, tw) if c.bias else tx), 'mixed.dtype',
               '%s %s' % (tx, tw))
        out.backward(g.to(out.dtype))
        t = 0.03 if torch.bfloat16 in (tx, tw) else 4e-5
        mon.close(out, e, 'mixed.out', c.msg, scale=mag, rtol=t, atol=t)
        for n, u, v in zip(('grad_data', 'grad_weights'), (x.grad, m.weights.grad), base[1:]):
            # bounded by the sum of the magnitudes
            sc = float(np.abs(N64(g)).sum() * max(np.abs(N64(x0)).max(), args[2].max()) / 4 + 1) \
                if v.numel() and g.numel() else 1
            sc = min(sc, 30 * (float(np.abs(N64(v)).max()) + 1)) if v.numel() else 1
            mon.close(u, v, 'mixed.' + n, '%s %s %s' % (c.msg, tx, tw), scale=sc, rtol=t, atol=t)
        mon.ok(m.weights.grad.dtype == tw and x.grad.dtype == tx, 'mixed.grad_dtype')
        mon.ev('mixed_type_runs')
    # group convolutions in mixed precision
    m = OctreeGroupConv(2 * c.cin, 2 * c.cout, [int(v) for v in c.kernel], c.stride, c.nempty,
                        c.bias, 2)
    set_params(rng, m)
    x = gen.feat(rng, c.n_in, 2 * c.cin, False)
    full = m(x, o, c.d)
    with torch.autocast('cpu', dtype=torch.bfloat16):
        half = m(x, o, c.d)
    mon.close(half, full, 'autocast.group', c.msg, rtol=0.03, atol=0.05,
              scale=float(full.abs().max()) + 1 if full.numel() else 1)
    mon.ev('autocast_runs')
    mon.state('dw', c.msg, w.ref.keys[w.depth])


class Largest(TorchDispatchMode):
    """Watches every operation below autograd: the largest floating tensor newly allocated."""

    def __init__(self):
        super().__init__()
        self.size, self.op, self.ops = 0, None, 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        self.ops += 1
        known = {t.untyped_storage().data_ptr() for t in args if isinstance(t, torch.Tensor)}
        for t in out if isinstance(out, (tuple, list)) else [out]:
            if isinstance(t, torch.Tensor) and t.is_floating_point() and \
                    t.untyped_storage().data_ptr() not in known and t.numel() > self.size:
                self.size, self.op = t.numel(), str(func)
        return out


def c13_limit(case, rng, mon):
    """The temporary arrays of buffered execution keep to the limit, forward and backward."""
    w = small_world(rng, maxdepth=5)
    for _ in range(4):
        kind = ['conv', 'deconv', 'dw'][rng.integers(3)]
        c = conv_cfg(rng, w, kind == 'deconv', cmax=5)
        kdim = oracle.offsets(c.kernel).shape[0]
        ic = c.cout if kind == 'deconv' else c.cin
        limit = int(rng.integers(1, max(2, min(400, c.rows)))) * kdim * ic - int(rng.integers(0, 3))
        if c.rows * kdim * ic / max(limit, kdim * ic) > 300:
            continue
        kl = [int(v) for v in c.kernel]
        if kind == 'dw':
            m = OctreeDWConv(c.cin, kl, c.stride, c.nempty, c.bias, max_buffer=limit)
        else:
            cls = OctreeDeconv if kind == 'deconv' else OctreeConv
            m = cls(c.cin, c.cout, kl, c.stride, c.nempty, use_bias=c.bias, max_buffer=limit)
        x = gen.feat(rng, c.n_in, c.cin, False, grad=True)
        with Largest() as seen:
            out = m(x, w.octree, c.d)
            out.sum().backward()
        ok = max(limit, kdim * ic, 2 * x.numel(), 2 * out.numel(), 2 * m.weights.numel(), c.rows * c.cout)
        whole = c.rows * kdim * ic
        mon.ok(seen.size <= ok, 'limit', '%s %s limit %d: %s makes %d elements (of %d)' % (
            kind, c.msg, limit, seen.op, seen.size, whole))
        mon.ok(seen.ops > 5, 'limit.watched')
        mon.ev('limited_runs', int(whole > ok))
        mon.state('limit', kind, c.msg, limit, w.ref.keys[w.depth])


KINDS['C13'] = {'limit': (c13_limit, 60, 600), 'methods': (c13_methods, 120, 1600), 'dw': (c13_dw, 120, 1600)}
INFO['C13'] = {'events': ['limited_runs', 'autocast_sums', 'strategies_compared', 'chunked_runs', 'autocast_runs', 'mixed_type_runs'],
               'rule': 'One layer, one input: direct, buffered and chunked execution (chunks of 1, 2, '
                       '3, n/2, n-1, n, n+1 rows), single, double and mixed precision.'}


# --------------------------------------------------------------------------- C14

def c14_dw(case, rng, mon):
    w = small_world(rng)
    before = snap(w.octree)
    for _ in range(8):
        c = conv_cfg(rng, w)
        m = make_dw(rng, c)
        x = gen.feat(rng, c.n_in, c.cin, c.dbl, mag=gen.magnitude(rng))
        keep = x.clone()
        out = m(x, w.octree, c.d)
        e, mag = oracle.dwconv(w.ref, N64(x), c.wt, c.d, c.kernel, c.stride, c.nempty, c.bs)
        mon.close(out, e, 'dwconv', c.msg, scale=mag, **rel(c.dbl))
        mon.ok(out.dtype == c.dt, 'dwconv.dtype')
        mon.equal(x, keep, 'input_changed')
        # a change of one channel is seen in that channel only
        ch = int(rng.integers(c.cin))
        y = x.clone()
        y[:, ch] += 1.0
        other = [k for k in range(c.cin) if k != ch]
        mon.close(m(y, w.octree, c.d)[:, other], out[:, other], 'dwconv.channel_leak', c.msg,
                  rtol=1e-6, atol=1e-6, scale=mag[:, other])
        mon.ev('dwconv_calls')
        mon.ev('dw_s%d_%s' % (c.stride, 'ne' if c.nempty else 'all'))
        mon.state('dw', c.msg, w.ref.keys[w.depth])
    same(mon, before, snap(w.octree), 'octree_changed')


def c14_group(case, rng, mon):
    w = small_world(rng)
    for _ in range(6):
        c = conv_cfg(rng, w, cmax=4)
        group = int(rng.integers(1, 5))
        if rng.random() < 0.12:
            group = int(rng.choice([5, 6, 8, 9, 16, 32]))
            c.cin, c.cout = min(c.cin, 4), min(c.cout, 4)
        m = OctreeGroupConv(c.cin * group, c.cout * group, kernel_list(rng, c.kernel), c.stride,
                            c.nempty, c.bias, group).to(c.dt)
        set_params(rng, m)
        x = gen.feat(rng, c.n_in, c.cin * group, c.dbl, mag=gen.magnitude(rng))
        out = m(x, w.octree, c.d)
        wk, bk = group_params(m)
        mon.ok(len(wk) == group, 'group.params')
        es, ms = [], []
        for i in range(group):
            e, mag = oracle.conv(w.ref, N64(x)[:, i * c.cin:(i + 1) * c.cin], N64(wk[i]), c.d,
                                 c.kernel, c.stride, c.nempty, N64(bk[i]) if c.bias else None)
            es.append(e)
            ms.append(mag)
        mon.close(out, np.concatenate(es, 1), 'group', c.msg + ' groups %d' % group,
                  scale=np.concatenate(ms, 1), **rel(c.dbl))
        mon.ev('group_calls')
        mon.state('group', group, c.msg, w.ref.keys[w.depth])


KINDS['C14'] = {'dw': (c14_dw, 200, 2600), 'group': (c14_group, 160, 2000)}
INFO['C14'] = {'events': ['dwconv_calls', 'group_calls', 'dw_s2_all', 'dw_s1_ne'],
               'rule': 'Random (tree, depth, kernel, stride, row convention, channels, groups).'}


# --------------------------------------------------------------------------- C15

def pool_data(rng, n, c, dbl):
    x = gen.feat(rng, n, c, dbl)
    k = rng.integers(6)
    with torch.no_grad():
        if k == 0:
            x = -x.abs() - 0.5                  # all negative
        elif k == 1:
            x = torch.round(x)                  # ties
        elif k == 2:
            x = torch.full_like(x, -3.25)       # all equal
        elif k == 3:
            x = x * 1e30
        elif rng.random() < 0.5:
            x = x * gen.magnitude(rng)
    return x


def c15_large(case, rng, mon):
    c15_pool(case, rng, mon, gen.large_world(rng, neigh=False), 1)
    mon.ev('large_layers')


def c15_pool(case, rng, mon, w=None, rounds=6):
    big = w is not None
    w = w or small_world(rng, maxdepth=6, nmax=150, max_nodes=12000)
    ref, o = w.ref, w.octree
    before = snap(o)
    for _ in range(rounds):
        d, ne = int(rng.integers(1, w.depth + 1)), bool(rng.integers(2))
        c = gen.channels(rng, 4, ref.nnum(d, ne))
        if big:
            d, c = w.depth, int(rng.integers(1, 3))
        dbl = bool(rng.integers(2))
        x = pool_data(rng, ref.nnum(d, ne), c, dbl)
        keep = x.clone()
        msg = 'depth %d nempty %s' % (d, ne)
        if rng.random() < 0.5:
            out, idx = ocnn.nn.octree_max_pool(x, o, d, ne, return_indices=True)
            un = lambda v, i: ocnn.nn.octree_max_unpool(v, i, o, d - 1, ne)
        else:
            out, idx = ocnn.nn.OctreeMaxPool(ne, return_indices=True)(x, o, d)
            un = lambda v, i: ocnn.nn.OctreeMaxUnpool(ne)(v, i, o, d - 1)
        mon.equal(ocnn.nn.octree_max_pool(x, o, d, ne), out, 'pool.indices_flag', msg)
        e, kids = oracle.max_pool(ref, to_np(x), d, ne)
        mon.equal(N64(out), e, 'max_pool', msg)
        mon.ok(out.dtype == x.dtype, 'max_pool.dtype')
        mon.equal(x, keep, 'input_changed', msg)
        # the reported winner is a child that attains the maximum
        has = ref.ne[d].reshape(-1, 8).any(1) if ne else np.ones(kids.shape[0], bool)
        ii = to_np(idx)
        mon.ok(ii.shape == (kids.shape[0], c), 'indices.shape', str(ii.shape))
        mon.ok(((ii >= 0) & (ii < 8)).all(), 'indices.range')
        won = np.take_along_axis(kids, ii[:, None, :], 1)[:, 0]
        mon.equal(won[has], kids.max(1)[has], 'indices', msg)
        mon.ev('parents_pooled', kids.shape[0])
        mon.ev('parents_without_children', int((~has).sum()))
        # unpooling sends a value to the winner, zero to its siblings
        y = (torch.randn(ref.nnum(d - 1, ne), c, dtype=x.dtype) + 3) * gen.magnitude(rng)
        ky = y.clone()
        u = un(y, idx)
        yv = N64(y) if ne else ref.depad(N64(y), d - 1)
        eu = np.zeros(kids.shape)
        np.put_along_axis(eu, ii[:, None, :], yv[:, None, :], 1)
        eu = eu.reshape(-1, c)
        if ne:
            eu = ref.depad(eu, d)
        mon.equal(N64(u), eu, 'max_unpool', msg)
        mon.equal(y, ky, 'input_changed', msg)
        mon.ok(u.dtype == y.dtype, 'max_unpool.dtype')
        mon.ev('unpoolings')
        # gradients follow the winner
        xg = torch.from_numpy(np.random.permutation(x.numel()).reshape(tuple(x.shape))).to(x.dtype)
        xg = (xg - xg.mean() if xg.numel() else xg).requires_grad_(True)
        o2, i2 = ocnn.nn.octree_max_pool(xg, o, d, ne, return_indices=True)
        g = torch.randn(o2.shape, dtype=x.dtype) * gen.magnitude(rng)
        o2.backward(g)
        gv = N64(g) if ne else ref.depad(N64(g), d - 1)
        gv = np.where(has[:, None], gv, 0)
        eg = np.zeros(kids.shape)
        np.put_along_axis(eg, to_np(i2)[:, None, :], gv[:, None, :], 1)
        eg = eg.reshape(-1, c)
        mon.equal(N64(xg.grad), ref.depad(eg, d) if ne else eg, 'max_pool.grad', msg)
        # of equal maxima, the reported one receives all of it
        xt = x.detach().clone().requires_grad_(True)
        o3, i3 = ocnn.nn.octree_max_pool(xt, o, d, ne, return_indices=True)
        o3.backward(g)
        eg = np.zeros(kids.shape)
        np.put_along_axis(eg, to_np(i3)[:, None, :], gv[:, None, :], 1)
        eg = eg.reshape(-1, c)
        mon.equal(N64(xt.grad), ref.depad(eg, d) if ne else eg, 'max_pool.tie_grad', msg)
        mon.ev('tied_maxima', int(((kids == kids.max(1, keepdims=True)).sum(1) > 1)[has].sum()))
        yg = y.clone().requires_grad_(True)
        uu = un(yg, idx)
        gu = torch.randn(uu.shape, dtype=x.dtype) * gen.magnitude(rng)
        uu.backward(gu)
        full = ref.pad(N64(gu), d) if ne else N64(gu)
        ey = np.take_along_axis(full.reshape(kids.shape), ii[:, None, :], 1)[:, 0]
        if ne:
            ey = np.where(has[:, None], ey, ey * 0 + to_np(yg.grad) * 0)
            mon.equal(N64(yg.grad)[has], ey[has], 'max_unpool.grad', msg)
        else:
            mon.equal(N64(yg.grad), ref.pad(ey, d - 1), 'max_unpool.grad', msg)
        mon.ev('pool_gradients')
        mon.state(gen.describe(w), d, ne, c, ref.keys[w.depth])
    same(mon, before, snap(o), 'octree_changed')


KINDS['C15'] = {'large': (c15_large, 1.6, 8), 'pool': (c15_pool, 280, 4000)}
INFO['C15'] = {'events': ['parents_pooled', 'parents_without_children', 'unpoolings',
                          'pool_gradients', 'large_layers', 'tied_maxima'],
               'rule': 'Features with all-negative, tied, equal and huge values on built, merged and '
                       'grown octrees (grown ones have non-empty parents without non-empty child).'}


# --------------------------------------------------------------------------- C16

def c16_avg(case, rng, mon):
    w = small_world(rng, maxdepth=6, nmax=120, max_nodes=8000)
    ref, o = w.ref, w.octree
    before = snap(o)
    for _ in range(7):
        d, ne = int(rng.integers(1, w.depth + 1)), bool(rng.integers(2))
        c = gen.channels(rng, 4, ref.nnum(d, ne))
        k, s = oracle.KERNELS[rng.integers(8)], int(rng.integers(1, 3))
        dbl = bool(rng.integers(2))
        f_ = gen.magnitude(rng)
        x = gen.feat(rng, ref.nnum(d, ne), c, dbl, mag=f_)
        if rng.random() < 0.3:
            x = x * 0 + 2.5 * f_
        keep = x.clone()
        msg = 'depth %d kernel %s stride %d nempty %s' % (d, k, s, ne)
        if rng.random() < 0.5:
            f = lambda v: ocnn.nn.octree_avg_pool(v, o, d, k, s, ne)
        else:
            m = ocnn.nn.OctreeAvgPool(kernel_list(rng, k), s, ne)
            f = lambda v: m(v, o, d)
        out = f(x)
        e = oracle.avg_pool(ref, N64(x), d, k, s, ne)
        t = dict(rtol=1e-11, atol=1e-12 * f_) if dbl else dict(rtol=1e-5, atol=2e-6 * f_)
        mon.close(out, e, 'avg_pool', msg, scale=float(x.abs().max()) if x.numel() else 1, **t)
        mon.ok(out.dtype == x.dtype, 'avg_pool.dtype')
        mon.equal(x, keep, 'input_changed')
        mon.ev('avg_pools')
        mon.ev('avg_s%d_%s' % (s, 'ne' if ne else 'all'))
        # gradient: the transposed averaging
        xg = x.detach().clone().requires_grad_(True)
        out = f(xg)
        g = torch.randn(out.shape, dtype=x.dtype)
        out.backward(g)
        neigh = ref.neigh(d, k, s, ne)
        cnt = np.maximum((neigh >= 0).sum(1), 1)[:, None, None]
        gv = N64(g)
        if s == 2 and not ne:
            gv = ref.depad(gv, d - 1)
        col = np.broadcast_to(gv[:, None, :] / cnt, neigh.shape + (c,))
        mon.close(xg.grad, oracle.scatter(col, neigh, x.shape[0]), 'avg_pool.grad', msg,
                  rtol=1e-11 if dbl else 1e-5, atol=1e-11 if dbl else 5e-6, scale=np.abs(gv).max() * 8 if gv.size else 1)
        mon.state(msg, c, ref.keys[w.depth])
    same(mon, before, snap(o), 'octree_changed')


def low_world(rng):
    """Samples of hundreds to thousands of nodes, and features of 8 or 11 bits."""
    if rng.random() < 0.4:
        w = gen.world(rng, depth=int(rng.integers(9, 13)), full_depth=int(rng.integers(1, 4)),
                      batch=int(rng.integers(1, 4)), mode='batched', nmax=200, neigh=False)
    else:
        w = gen.world(rng, depth=int(rng.integers(4, 6)), full_depth=4,
                      batch=int(rng.integers(1, 4)), mode='grow', max_nodes=50000)
    return w


def low_case(rng, w, c=None):
    d = int(rng.integers(max(1, w.depth - 2), w.depth + 1))
    ne = bool(rng.integers(2))
    dt = [torch.float16, torch.bfloat16][rng.integers(2)]
    c = c or gen.channels(rng, 3, w.ref.nnum(d, ne))
    x = torch.randn(w.ref.nnum(d, ne), c) + float(rng.choice([0, 1, 3]))
    x = (x * float(rng.choice([1, 1, 30]))).to(dt)
    eps = 2.0 ** -10 if dt == torch.float16 else 2.0 ** -7
    return d, ne, dt, x, eps


def low_amp(mon, what, msg, f, x):
    """Mixed precision: the result is that of single precision, up to the rounding of bfloat16."""
    a, b = (x.detach().float().requires_grad_(True) for _ in range(2))
    e = f(a)
    with torch.autocast('cpu', dtype=torch.bfloat16):
        out = f(b)
    g = torch.randn(e.shape)
    e.backward(g)
    out.backward(g.to(out.dtype))
    scale = float(1 + x.abs().max())
    mon.close(out.float(), e, 'amp.' + what, msg, rtol=2.0 ** -7, atol=2.0 ** -7, scale=scale)
    mon.close(b.grad, a.grad, 'amp.%s_grad' % what, msg, rtol=2.0 ** -6, atol=2.0 ** -6,
              scale=float(1 + a.grad.abs().max()) if x.numel() else 1)
    mon.ok(b.grad.dtype == torch.float32, 'amp.dtype', msg)
    mon.ev('mixed_precision')


def c16_low(case, rng, mon):
    """Half-precision features: the result is the mean, up to the rounding of the type."""
    w = low_world(rng)
    if w.mode != 'grow':
        w.octree.construct_all_neigh()
    for _ in range(4):
        d, ne, dt, x, eps = low_case(rng, w)
        out = ocnn.nn.octree_global_pool(x, w.octree, d, ne)
        msg = 'depth %d nempty %s %s' % (d, ne, dt)
        mon.ok(out.dtype == dt, 'low.dtype', msg)
        mon.close(out, oracle.global_pool(w.ref, N64(x), d, ne), 'low.global_pool', msg,
                  rtol=eps, atol=1e-3 * float(1 + x.abs().max()))
        mon.ev('half_precision_pools')
        if d:
            k, st = oracle.KERNELS[rng.integers(8)], int(rng.integers(1, 3))
            f = lambda v: ocnn.nn.octree_avg_pool(v, w.octree, d, k, st, ne)
            e = oracle.avg_pool(w.ref, N64(x), d, k, st, ne)
            mon.close(f(x), e, 'low.avg_pool', '%s kernel %s stride %d' % (msg, k, st), rtol=eps,
                      atol=1e-3 * eps * float(1 + x.abs().max()))
            low_amp(mon, 'avg_pool', msg, f, x)
    mon.state('low', gen.describe(w), w.ref.ne[w.depth])


def c16_large(case, rng, mon):
    """Samples with tens of thousands of nodes."""
    c16_global(case, rng, mon, gen.large_world(rng, neigh=False))
    mon.ev('large_layers')


def c16_many(case, rng, mon):
    """Batches of many samples of very different sizes."""
    B = int(rng.integers(10, 80))
    cl = [gen.cloud(rng, gen.KINDS[rng.integers(len(gen.KINDS))],
                    int(rng.choice([1, 2, 40, 300])), 5) for _ in range(B)]
    w = gen.World()
    w.depth, w.full_depth, w.batch, w.mode, w.names = 5, 2, B, 'batched', ['many']
    w.clouds = cl
    w.ref = oracle.RefOctree.from_points(5, 2, cl)
    w.octree, _ = gen.build(gen.batched_points(rng, cl)[0], 5, 2, B)
    c16_global(case, rng, mon, w)
    mon.ev('large_batches')


def c16_global(case, rng, mon, w=None):
    w = w or small_world(rng, maxdepth=7, nmax=200, max_nodes=12000, neigh=False)
    ref, o = w.ref, w.octree
    before = snap(o)
    for _ in range(6):
        d, ne = int(rng.integers(0, w.depth + 1)), bool(rng.integers(2))
        c = gen.channels(rng, 4, ref.nnum(d, ne))
        dbl = bool(rng.integers(2))
        f_ = gen.magnitude(rng)
        x = (gen.feat(rng, ref.nnum(d, ne), c, dbl) + float(rng.choice([0, 5, -7]))) * f_
        keep = x.clone()
        f = (lambda v: ocnn.nn.octree_global_pool(v, o, d, ne)) if rng.random() < 0.5 else \
            (lambda v: ocnn.nn.OctreeGlobalPool(ne)(v, o, d))
        out = f(x)
        msg = 'depth %d nempty %s' % (d, ne)
        e = oracle.global_pool(ref, N64(x), d, ne)
        mon.close(out, e, 'global_pool', msg, rtol=1e-11 if dbl else 3e-5,
                  atol=(1e-11 if dbl else 1e-5) * f_,
                  scale=float(x.abs().max()) if x.numel() else 1)
        mon.ok(out.dtype == x.dtype, 'global_pool.dtype')
        mon.equal(x, keep, 'input_changed')
        cnt = np.bincount(ref.batch(d, ne), minlength=w.batch)
        mon.ev('global_pools')
        mon.ev('samples_without_nodes', int((cnt == 0).sum()))
        xg = x.detach().clone().requires_grad_(True)
        g = torch.randn(out.shape, dtype=x.dtype)
        f(xg).backward(g)
        eg = (N64(g) / np.maximum(cnt, 1)[:, None])[ref.batch(d, ne)]
        mon.close(xg.grad, eg, 'global_pool.grad', msg, rtol=1e-5, atol=1e-6)
        mon.state('global', msg, c, ref.keys[w.depth])
    same(mon, before, snap(o), 'octree_changed')


KINDS['C16'] = {'low': (c16_low, 20, 240), 'large': (c16_large, 1, 8), 'many': (c16_many, 8, 80),
                'avg': (c16_avg, 220, 3000), 'global': (c16_global, 160, 2000)}
INFO['C16'] = {'events': ['mixed_precision', 'half_precision_pools', 'avg_pools', 'avg_s2_all', 'avg_s1_ne', 'global_pools',
                          'samples_without_nodes', 'large_layers', 'large_batches'],
               'rule': 'All kernels, strides and row conventions; batches with empty samples.'}


# --------------------------------------------------------------------------- C17

def query_points(rng, ref, d, n, inside_margin=None, frac=16):
    """Points in [0, 2^d) units + batch: near nodes, at centres, on faces, anywhere."""
    m = 1 << d
    hit = rng.integers(0, ref.nnum(d), n)
    p = ref.xyz(d)[hit].astype(np.float64)
    b = ref.batch(d)[hit]
    mode = rng.integers(0, 5, n)
    fr = rng.integers(0, frac, (n, 3)) / float(frac)
    p = p + np.where((mode == 1)[:, None], 0.5, fr)              # centres
    p = np.where((mode == 2)[:, None], p + rng.integers(-1, 2, (n, 3)), p)   # next voxels
    rnd = rng.integers(0, m * frac, (n, 3)) / float(frac)
    p = np.where((mode == 3)[:, None], rnd, p)
    b = np.where(mode == 3, rng.integers(0, ref.batch_size, n), b)
    p = np.clip(p, 0, m - 1.0 / frac)
    if inside_margin:
        p = np.clip(p, inside_margin, m - inside_margin)
    return p, b


def c17_large(case, rng, mon):
    c17_interp(case, rng, mon, gen.large_world(rng, neigh=False), 2)
    mon.ev('large_layers')


def c17_interp(case, rng, mon, w=None, rounds=6):
    big = w is not None
    w = w or small_world(rng, maxdepth=7 if rng.random() < 0.8 else 11, nmax=120, max_nodes=8000,
                         neigh=False)
    ref, o = w.ref, w.octree
    before = snap(o)
    for _ in range(rounds):
        d, ne = int(rng.integers(1, w.depth + 1)), bool(rng.integers(2))
        c = gen.channels(rng, 3, ref.nnum(d, ne))
        if big:
            d = w.depth
        method = ['nearest', 'linear'][rng.integers(2)]
        bc = bool(rng.random() < 0.7)
        n = int(rng.choice([1, 2, 300, 300, 1 << rng.integers(2, 13), 500 * rng.integers(1, 9)])) \
            if not big else int(rng.choice([40000, 32768, 65536, 50000]))
        if d == 0 or (method == 'linear' and not bc and d < 1):
            bc = True
        p, b = query_points(rng, ref, d, n, 0.5 if method == 'linear' and not bc else None)
        if bc and rng.random() < 0.5:       # some points outside of the cube
            out_ = rng.random(n) < 0.3
            p = np.where(out_[:, None], p + rng.integers(-2, 3, (n, 3)) * rng.choice([1.0, 1 << d], (n, 1)), p)
            mon.ev('points_outside', int(((p < 0) | (p >= 1 << d)).any(1).sum()))
        dbl = bool(rng.integers(2))
        f_ = gen.magnitude(rng)
        x = gen.feat(rng, ref.nnum(d, ne), c, dbl, mag=f_)
        pdt = torch.float64 if dbl and rng.random() < 0.7 else torch.float32
        pts = np.concatenate([p, b[:, None]], 1)
        form = rng.integers(3)
        if form == 0:       # functional
            q = T(pts).to(pdt)
            fn = ocnn.nn.octree_linear_pts if method == 'linear' else ocnn.nn.octree_nearest_pts
            f = lambda v: fn(v, o, d, q, ne, bc)
        elif form == 1:
            q = T(pts).to(pdt)
            m = ocnn.nn.OctreeInterp(method, ne, bc, rescale_pts=False)
            f = lambda v: m(v, o, d, q)
        else:               # points in [-1, 1]
            u = pts.copy()
            u[:, :3] = u[:, :3] * 2.0 ** (1 - d) - 1.0
            q = T(u).to(pdt)
            m = ocnn.nn.OctreeInterp(method, ne, bc)
            f = lambda v: m(v, o, d, q)
        keep = [x.clone(), q.clone()]
        out = f(x)
        msg = '%s depth %d nempty %s bound_check %s form %d' % (method, d, ne, bc, form)
        if method == 'nearest':
            e, idx = oracle.nearest(ref, N64(x), d, pts, ne)
            mon.equal(N64(out), e, 'nearest', msg)
            mon.ev('nearest_hits', int((idx >= 0).sum()))
            mon.ev('nearest_misses', int((idx < 0).sum()))
        else:
            e, tot = oracle.linear(ref, N64(x), d, pts, ne)
            mon.close(out, e, 'linear', msg, rtol=1e-7 if dbl and pdt == torch.float64 else 1e-4,
                      atol=(1e-7 if dbl and pdt == torch.float64 else 2e-5) * f_,
                      scale=float(x.abs().max()) if x.numel() else 1)
            mon.ev('linear_hits', int((tot > 0).sum()))
            mon.ev('linear_misses', int((tot == 0).sum()))
            # constants are reproduced wherever there is any feature
            one = f(torch.full_like(x, 3.0))
            mon.close(one, np.where(tot > 0, 3.0, 0.0) * np.ones((1, c)), 'linear.constant', msg,
                      rtol=1e-5, atol=1e-5)
        mon.ok(out.dtype == x.dtype, 'dtype', msg)
        mon.equal(x, keep[0], 'input_changed', msg)
        mon.equal(q, keep[1], 'input_changed', msg)
        # gradient: the adjoint
        xg = x.detach().clone().requires_grad_(True)
        y = f(xg)
        g = torch.randn(y.shape, dtype=y.dtype)
        y.backward(g)
        z = torch.randn(x.shape, dtype=x.dtype)
        lhs = float((f(z).double() * g.double()).sum())
        rhs = float((z.double() * xg.grad.double()).sum())
        mag = float((f(z).abs().double() * g.abs().double()).sum()) + 1
        mon.ok(abs(lhs - rhs) <= 2e-4 * mag, 'grad', '%s: %r %r' % (msg, lhs, rhs))
        mon.ev('form_%d' % form)
        mon.state(msg, c, ref.keys[w.depth], pts)
    same(mon, before, snap(o), 'octree_changed')


def c17_low(case, rng, mon):
    """Half-precision features."""
    w = low_world(rng)
    for _ in range(4):
        d, ne, dt, x, eps = low_case(rng, w)
        p, b = query_points(rng, w.ref, d, 200)
        out_ = rng.random(200) < 0.2
        p = np.where(out_[:, None], p + rng.integers(-2, 3, (200, 3)) * 2.0 ** d, p)
        pts = np.concatenate([p, b[:, None]], 1)
        msg = 'depth %d nempty %s %s' % (d, ne, dt)
        out = ocnn.nn.octree_nearest_pts(x, w.octree, d, T(pts).float(), ne, True)
        mon.equal(N64(out), oracle.nearest(w.ref, N64(x), d, pts, ne)[0], 'low.nearest', msg)
        lin = ocnn.nn.octree_linear_pts(x, w.octree, d, T(pts).float(), ne, True)
        mon.close(lin, oracle.linear(w.ref, N64(x), d, pts, ne)[0], 'low.linear', msg,
                  rtol=eps, atol=1e-3 * float(1 + x.abs().max()))
        mon.ok(out.dtype == lin.dtype == dt, 'low.dtype', msg)
        mon.ev('half_precision_queries', 400)
        for fn in (ocnn.nn.octree_nearest_pts, ocnn.nn.octree_linear_pts):
            low_amp(mon, fn.__name__, msg, lambda v: fn(v, w.octree, d, T(pts).float(), ne, True), x)
    mon.state('low', gen.describe(w), w.ref.ne[w.depth])


def c17_nodes(case, rng, mon):
    """Queries at the nodes themselves return their features, with both methods."""
    w = small_world(rng, maxdepth=7, nmax=150, neigh=False)
    ref, o = w.ref, w.octree
    for ne in (False, True):
        d = int(rng.integers(1, w.depth + 1))
        x = gen.feat(rng, ref.nnum(d, ne), 2, True)
        p = np.concatenate([ref.xyz(d, ne) + 0.5, ref.batch(d, ne)[:, None]], 1)
        for method in ('nearest', 'linear'):
            got = ocnn.nn.OctreeInterp(method, ne, True, rescale_pts=False)(x, o, d, T(p))
            mon.close(got, N64(x), 'nodes.' + method, 'depth %d nempty %s' % (d, ne), rtol=1e-9,
                      atol=1e-9)
        mon.ev('node_queries', p.shape[0])
    if w.clouds is not None and not any(k in ('corners', 'faces', 'boundary', 'dense')
                                        for k in w.names):
        # the points the octree was built from find their own leaf
        cl = [np.asarray(c, np.float64) for c in w.clouds]
        p = np.concatenate(cl)
        b = np.concatenate([np.full(c.shape[0], i) for i, c in enumerate(cl)])
        if p.shape[0] and (np.abs(p) < 1).all():
            d = w.depth
            x = gen.feat(rng, ref.nnum(d, True), 1, True)
            keys = np.concatenate(ref.point_keys)
            want = N64(x)[np.searchsorted(ref.key(d, True), keys)]
            q = torch.from_numpy(np.concatenate([p, b[:, None]], 1))
            got = ocnn.nn.OctreeInterp('nearest', True)(x, o, d, q)
            mon.equal(got, want, 'own_points')
            mon.ev('own_points', p.shape[0])
    mon.state('nodes', gen.describe(w), ref.keys[w.depth])


KINDS['C17'] = {'low': (c17_low, 16, 200), 'large': (c17_large, 1.6, 8), 'interp': (c17_interp, 220, 3000), 'nodes': (c17_nodes, 100, 1200)}
INFO['C17'] = {'events': ['mixed_precision', 'half_precision_queries', 'nearest_hits', 'nearest_misses', 'linear_hits', 'linear_misses',
                          'points_outside', 'node_queries', 'own_points', 'large_layers', 'form_0', 'form_1',
                          'form_2'],
               'rule': 'Query points at centres, faces, neighbouring and random voxels, outside the '
                       'cube with bound check; both methods, row conventions and coordinate scales.',
               'assumptions': ['without bound check, linear queries stay half a voxel inside the cube']}


# --------------------------------------------------------------------------- C18

def c18_deep(case, rng, mon):
    """Trees of depth 10 to 16."""
    w = small_world(rng, maxdepth=16, min_depth=10, nmax=25, max_nodes=4000, neigh=False,
                    mode=['batched', 'merged'][rng.integers(2)])
    c18_upsample(case, rng, mon, w)
    mon.ev('deep_trees')


def c18_low(case, rng, mon):
    """Half-precision features."""
    w = low_world(rng)
    for _ in range(4):
        d, ne, dt, x, eps = low_case(rng, w)
        t = int(rng.integers(d, w.depth + 1))
        xyz, b = w.ref.xyz(t, ne), w.ref.batch(t, ne)
        msg = '%d -> %d nempty %s %s' % (d, t, ne, dt)
        out = ocnn.nn.OctreeUpsample('nearest', ne)(x, w.octree, d, t)
        idx = w.ref.index(d, xyz >> (t - d), b, ne)
        mon.equal(N64(out), oracle.gather(N64(x), idx[:, None])[:, 0], 'low.nearest', msg)
        lin = ocnn.nn.OctreeUpsample('linear', ne)(x, w.octree, d, t)
        p = np.concatenate([(xyz + 0.5) * 2.0 ** (d - t), b[:, None]], 1)
        mon.close(lin, oracle.linear(w.ref, N64(x), d, p, ne)[0], 'low.linear', msg,
                  rtol=eps, atol=1e-3 * float(1 + x.abs().max()))
        mon.ok(out.dtype == lin.dtype == dt, 'low.dtype', msg)
        mon.ev('half_precision_upsamplings')
        for me in ('nearest', 'linear'):
            up = ocnn.nn.OctreeUpsample(me, ne)
            low_amp(mon, 'upsample', '%s %s' % (me, msg), lambda v: up(v, w.octree, d, t), x)
    mon.state('low', gen.describe(w), w.ref.ne[w.depth])


def c18_large(case, rng, mon):
    c18_upsample(case, rng, mon, gen.large_world(rng, neigh=False), 2)
    mon.ev('large_layers')


def c18_upsample(case, rng, mon, w=None, rounds=6):
    w = w or small_world(rng, maxdepth=7 if rng.random() < 0.9 else 10, nmax=120, max_nodes=9000,
                         neigh=False)
    ref, o = w.ref, w.octree
    before = snap(o)
    for _ in range(rounds):
        d = int(rng.integers(0, w.depth))
        if rounds < 6 or (w.depth > 9 and rng.random() < 0.5):
            d = w.depth - 1 - int(rng.integers(0, 2))
        t = [None, d, d + 1, int(rng.integers(d, w.depth + 1))][rng.integers(4)]
        ne = bool(rng.integers(2))
        c = gen.channels(rng, 3, ref.nnum(w.depth if t is None else t))
        method = ['nearest', 'linear'][rng.integers(2)]
        dbl = bool(rng.integers(2))
        f_ = gen.magnitude(rng)
        x = gen.feat(rng, ref.nnum(d, ne), c, dbl, mag=f_)
        keep = x.clone()
        m = ocnn.nn.OctreeUpsample(method, ne)
        f = (lambda v: m(v, o, d)) if t is None else (lambda v: m(v, o, d, t))
        msg = '%s %d -> %s nempty %s' % (method, d, t, ne)
        out = f(x)
        tt = d + 1 if t is None else t
        if tt == d:
            mon.equal(out, keep, 'same_depth', msg)
        else:
            xyz, b = ref.xyz(tt, ne), ref.batch(tt, ne)
            if method == 'nearest':
                idx = ref.index(d, xyz >> (tt - d), b, ne)
                e = oracle.gather(N64(x), idx[:, None])[:, 0]
                mon.equal(N64(out), e, 'nearest', msg)
            else:
                p = np.concatenate([(xyz + 0.5) * 2.0 ** (d - tt), b[:, None]], 1)
                e, _ = oracle.linear(ref, N64(x), d, p, ne)
                mon.close(out, e, 'linear', msg, rtol=1e-7 if dbl else 2e-5,
                          atol=(1e-7 if dbl else 5e-6) * f_, scale=float(x.abs().max()) if x.numel() else 1)
        mon.ok(out.dtype == x.dtype, 'dtype')
        mon.equal(x, keep, 'input_changed', msg)
        mon.ok(out.shape[0] == ref.nnum(tt, ne), 'rows', msg)
        mon.ev('upsamplings.%s' % method)
        mon.ev('levels_%d' % (tt - d))
        # adjoint
        xg = x.detach().clone().requires_grad_(True)
        y = f(xg)
        g = torch.randn(y.shape, dtype=y.dtype)
        y.backward(g)
        z = torch.randn(x.shape, dtype=x.dtype)
        fz = f(z)
        lhs = float((fz.double() * g.double()).sum())
        rhs = float((z.double() * xg.grad.double()).sum())
        mag = float((fz.abs().double() * g.abs().double()).sum()) + 1
        mon.ok(abs(lhs - rhs) <= 2e-4 * mag, 'grad', '%s: %r %r' % (msg, lhs, rhs))
        mon.state(msg, c, ref.keys[w.depth])
    same(mon, before, snap(o), 'octree_changed')


KINDS['C18'] = {'low': (c18_low, 20, 240), 'deep': (c18_deep, 40, 500), 'large': (c18_large, 1.6, 8),
                'upsample': (c18_upsample, 280, 4000)}
INFO['C18'] = {'events': ['mixed_precision', 'half_precision_upsamplings', 'upsamplings.nearest', 'upsamplings.linear', 'levels_0', 'levels_1',
                          'levels_2', 'deep_trees', 'large_layers'],
               'rule': 'Random (tree, source depth, target depth, method, row convention, dtype).'}


# --------------------------------------------------------------------------- C19

def norm_reference(ref, x, d, ne, group, wt, bs, eps):
    """Straightforward per-sample group normalisation in torch (autograd friendly)."""
    b = torch.from_numpy(ref.batch(d, ne))
    rows = []
    order = []
    for i in range(ref.batch_size):
        idx = torch.nonzero(b == i)[:, 0]
        if idx.numel() == 0:
            continue
        v = x[idx].reshape(idx.numel(), group, -1)
        mu = v.mean((0, 2), keepdim=True)
        var = ((v - mu) ** 2).mean((0, 2), keepdim=True)
        y = (v - mu) / torch.sqrt(var + eps)
        rows.append(y.reshape(idx.numel(), -1))
        order.append(idx)
    if not rows:
        return x * 0
    out = torch.cat(rows)
    inv = torch.argsort(torch.cat(order))
    return out[inv] * wt + bs


def c19_low(case, rng, mon):
    """Half-precision features: statistics over thousands of nodes are not lost."""
    w = low_world(rng)
    for _ in range(4):
        group, cpg = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        d, ne, dt, x, eps = low_case(rng, w, group * cpg)
        m = ocnn.nn.OctreeGroupNorm(group * cpg, group, ne).to(dt)
        set_params(rng, m)
        msg = 'depth %d nempty %s %s groups %d x %d' % (d, ne, dt, group, cpg)
        with torch.no_grad():
            out = m(x, w.octree, d)
        e = norm_reference(w.ref, x.double(), d, ne, group, m.weights.detach().double(),
                           m.bias.detach().double(), 1e-5)
        b = w.ref.batch(d, ne)
        big = np.bincount(b, minlength=w.batch)[b] * cpg > 100
        mon.ok(out.dtype == dt, 'low.dtype', msg)
        mon.close(out[T(big)], N64(e)[big], 'low.norm', msg, rtol=4 * eps, atol=4 * eps)
        mon.ok(bool(torch.isfinite(out).all()), 'low.finite', msg)
        mon.ev('half_precision_norms')
    mon.state('low', gen.describe(w), w.ref.ne[w.depth])


def c19_large(case, rng, mon):
    c19_norm(case, rng, mon, gen.large_world(rng, neigh=False), 2)
    mon.ev('large_layers')


def c19_norm(case, rng, mon, w=None, rounds=5):
    w = w or small_world(rng, maxdepth=6, nmax=200, max_nodes=9000, neigh=False)
    ref, o = w.ref, w.octree
    before = snap(o)
    for _ in range(rounds):
        d, ne = int(rng.integers(1, w.depth + 1)), bool(rng.integers(2))
        d = w.depth if rounds < 5 else d
        group, cpg = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        if rng.random() < 0.12:
            group, cpg = ((1, 64), (64, 1), (32, 2), (8, 8), (16, 1), (33, 3), (32, 4),
                          (2, 48))[rng.integers(8)]
        C = group * cpg
        dbl = bool(rng.integers(2))
        dt = torch.float64 if dbl else torch.float32
        inst = cpg == 1 and rng.random() < 0.7
        m = ocnn.nn.OctreeInstanceNorm(C, ne) if inst else ocnn.nn.OctreeGroupNorm(C, group, ne)
        m = m.to(dt)
        set_params(rng, m)
        mean, std = float(rng.choice([0, 1, -3])), float(rng.choice([1, 1, 1, 0.1, 20, 1e4, 1e-3]))
        x = gen.feat(rng, ref.nnum(d, ne), C, dbl) * std + mean
        x = x + torch.arange(C, dtype=dt) * float(rng.choice([0, 0.5]))
        keep = x.clone()
        msg = 'depth %d nempty %s channels %d groups %d' % (d, ne, C, group)
        x.requires_grad_(True)
        out = m(x, o, d)
        wt, bs = m.weights.detach().double(), m.bias.detach().double()
        xr = keep.double().clone().requires_grad_(True)
        wr, br = wt.clone().requires_grad_(True), bs.clone().requires_grad_(True)
        e = norm_reference(ref, xr, d, ne, group, wr, br, 1e-5)
        # an epsilon in the element count is tolerated: relative 1e-5 / count of the mean
        b = ref.batch(d, ne)
        cnt = np.maximum(np.bincount(b, minlength=w.batch), 1) * float(cpg)
        mu = np.zeros((w.batch, C))
        np.add.at(mu, b, np.abs(N64(keep)))
        mu = (mu.reshape(w.batch, group, cpg).sum(-1) / cnt[:, None]).repeat(cpg, 1)
        va = np.zeros((w.batch, C))
        dev = N64(keep)
        mm = np.zeros((w.batch, C))
        np.add.at(mm, b, dev)
        mm = (mm.reshape(w.batch, group, cpg).sum(-1) / cnt[:, None]).repeat(cpg, 1)
        np.add.at(va, b, (dev - mm[b]) ** 2)
        va = (va.reshape(w.batch, group, cpg).sum(-1) / cnt[:, None]).repeat(cpg, 1)
        sd = np.sqrt(va + 1e-5)
        slack = (3e-5 / cnt[:, None] * mu / sd)[b] * np.abs(N64(wt)) + \
            (0 if dbl else (2e-5 * (mu + 1) / sd)[b] * np.abs(N64(wt)))
        diff = np.abs(N64(out) - N64(e))
        lim = slack + (2e-5 if dbl else 3e-4) * (1 + np.abs(N64(e)))
        mon.ok(out.shape == e.shape, 'norm.shape', msg)
        mon.elements += diff.size
        mon.ok((diff <= lim).all() and np.isfinite(diff).all(), 'norm', lambda: '%s: %r expected %r' % (
            msg, N64(out)[~(diff <= lim)][:3], N64(e)[~(diff <= lim)][:3]))
        mon.ok(out.dtype == dt, 'norm.dtype')
        mon.equal(x.detach(), keep, 'input_changed')
        mon.ev('norms.' + ('instance' if inst else 'group'))
        mon.ev('empty_samples', int((np.bincount(b, minlength=w.batch) == 0).sum()))
        # gradients (well conditioned groups)
        if dbl and std == 1 and (cnt.min() > 6) and (sd[np.unique(b)] > 0.2).all():
            g = torch.randn(out.shape, dtype=dt)
            out.backward(g)
            e.backward(g.double())
            for n, u, v in (('data', x.grad, xr.grad), ('weights', m.weights.grad, wr.grad),
                            ('bias', m.bias.grad, br.grad)):
                mon.close(u.reshape(v.shape), v, 'norm.grad_' + n, msg, rtol=1e-3, atol=1e-3,
                          scale=float(v.abs().max()) if v.numel() else 1)
            mon.ev('norm_gradients')
        mon.state(msg, inst, ref.keys[w.depth])
    same(mon, before, snap(o), 'octree_changed')


KINDS['C19'] = {'low': (c19_low, 16, 200), 'large': (c19_large, 1.6, 8), 'norm': (c19_norm, 280, 4000)}
INFO['C19'] = {'events': ['half_precision_norms', 'norms.instance', 'norms.group', 'norm_gradients', 'empty_samples',
                          'large_layers'],
               'rule': 'Random (tree, depth, row convention, channels, groups, offset and spread).'}


# --------------------------------------------------------------------------- C20

def c20_drop(case, rng, mon):
    many = rng.random() < 0.2
    w = small_world(rng, maxdepth=3 if many else 5, nmax=20 if many else 80, max_nodes=8000,
                    neigh=False, batch=int(rng.integers(5, 40)) if many else None)
    ref, o = w.ref, w.octree
    before = snap(o)
    for _ in range(5):
        d, ne = int(rng.integers(1, w.depth + 1)), bool(rng.integers(2))
        c = gen.channels(rng, 3, ref.nnum(d, ne))
        p = float(rng.choice([0.0, 0.1, 0.5, 0.9, 1.0]))
        scale = bool(rng.integers(2))
        dbl = bool(rng.integers(2))
        m = ocnn.nn.OctreeDropPath(p, ne, scale)
        train = bool(rng.random() < 0.7)
        m.train(train)
        x = gen.feat(rng, ref.nnum(d, ne), c, dbl) + 4
        acc = 1e-5
        if rng.random() < 0.2:
            dt = [torch.float16, torch.bfloat16][rng.integers(2)]
            x, acc = x.to(dt), 0.02
            mon.ev('half_precision_calls')
        keep = x.clone()
        b = ref.batch(d, ne)
        kw = {}
        custom = rng.random() < 0.4
        if custom:            # the caller can say which sample a row belongs to
            b = rng.integers(0, w.batch, x.shape[0])
            kw['batch_id'] = torch.from_numpy(b)
        x.requires_grad_(True)
        out = m(x, o, d, **kw)
        msg = 'p %g scale %s train %s nempty %s depth %d' % (p, scale, train, ne, d)
        mon.equal(x.detach(), keep, 'input_changed')
        mon.ok(out.dtype == keep.dtype, 'dtype')
        if not train or p == 0:
            mon.equal(out, keep, 'identity', msg)
            mon.ev('identity_calls')
        else:
            k = 1.0 / (1 - p) if scale and p < 1 else 1.0
            r = N64(out) / N64(keep)
            for i in np.unique(b):
                f = r[b == i]
                zero, one = (f == 0).all(), (np.abs(f - k) < acc * k).all()
                mon.ok(zero or one, 'factor', lambda: '%s: factors of sample %d: %r' % (
                    msg, i, np.unique(f)[:5]))
                if p == 1.0:
                    mon.ok(zero, 'always_dropped', msg)
                mon.ev('samples_dropped' if zero else 'samples_kept')
            out.sum().backward()
            mon.close(x.grad, r, 'grad', msg, rtol=acc, atol=1e-6)
        mon.state(msg, c, custom, ref.keys[w.depth])
    same(mon, before, snap(o), 'octree_changed')


def c20_rate(case, rng, mon):
    """Each sample is kept with the stated probability, independently of the others."""
    B = int(rng.integers(2, 6)) if case['i'] % 2 else int(rng.integers(9, 70))
    o = ocnn.octree.init_octree(1, 1, B)
    mon.ev('large_batches', int(B > 8))
    p = float(rng.choice([0.1, 0.25, 0.5, 0.8]))
    m = ocnn.nn.OctreeDropPath(p, bool(rng.integers(2)))
    m.train()
    x = torch.ones(8 * B, 1)
    n = 2500
    kept = np.stack([(m(x, o, 1).view(B, 8)[:, 0] > 0).numpy() for _ in range(n)])
    q = 1 - p
    s = np.sqrt(p * q / n)
    mon.ok((np.abs(kept.mean(0) - q) < 5.5 * s).all(), 'rate', 'p %g: kept %r' % (p, kept.mean(0)))
    mon.ev('rate_trials', n * B)
    cov = np.cov(kept.astype(float).T) / (p * q)
    off = cov - np.diag(np.diag(cov))
    mon.ok((np.abs(off) < 6 / np.sqrt(n)).all(), 'independent', 'correlation %r' % off)
    lag = np.corrcoef(kept[1:, 0], kept[:-1, 0])[0, 1]
    mon.ok(abs(lag) < 6 / np.sqrt(n), 'independent_calls', 'lag correlation %r' % lag)
    # rows of some of the samples only, named by the caller
    k = int(rng.integers(1, B + 1))
    ids = rng.permutation(B)[:k].repeat(int(rng.integers(1, 3)))
    rows_, bt = torch.ones(ids.size, 1), torch.from_numpy(ids)
    kept = np.stack([(m(rows_, o, 1, bt)[:, 0] > 0).numpy() for _ in range(n)])
    mon.ok((np.abs(kept.mean(0) - q) < 5.5 * s).all(), 'named.rate', 'p %g: %r' % (p, kept.mean(0)))
    cov = np.cov(kept.astype(float).T).reshape(ids.size, ids.size) / (p * q)
    same_ = ids[:, None] == ids[None]
    mon.ok((np.abs(cov[~same_]) < 6 / np.sqrt(n)).all(), 'named.independent', 'correlation %r' % cov)
    mon.ok(all((kept[:, ids == i] == kept[:, ids == i][:, :1]).all() for i in ids), 'named.factor')
    mon.ev('rows_of_named_samples', n * ids.size)
    # the mean is preserved by the scaling
    tot = np.mean([float(m(x, o, 1).mean()) for _ in range(600)])
    mon.ok(abs(tot - 1) < 6 * np.sqrt(p / q / (600 * B)), 'unbiased', 'mean %r' % tot)
    mon.state('rate', B, p)


def c20_low(case, rng, mon):
    """Small and large probabilities, for features of every type: rate and factor."""
    n = 60000
    o = ocnn.octree.Octree(2, 2, n)
    ids = torch.arange(n) if rng.random() < 0.5 else torch.from_numpy(rng.permutation(n))
    for dt, eps in ((torch.float16, 2e-3), (torch.bfloat16, 1.2e-2), (torch.float32, 1e-6),
                    (torch.float64, 1e-6)):
        p = float(rng.choice([5e-4, 1e-3, 2e-3, 3e-3, 7e-3, 0.013, 0.03, 0.1, 0.5, 0.97, 0.995, 0.999]))
        scale = bool(rng.integers(2))
        m = ocnn.nn.OctreeDropPath(p, bool(rng.integers(2)), scale)
        m.train()
        out = m(torch.ones(n, 1, dtype=dt), o, 2, ids)
        mon.ok(out.dtype == dt, 'low.dtype')
        out = N64(out)[:, 0]
        k = 1 / (1 - p) if scale else 1.0
        msg = '%s p %g scale %s' % (dt, p, scale)
        mon.ok(((out == 0) | (np.abs(out - k) <= eps * k)).all(), 'low.factor',
               lambda: '%s: %r' % (msg, np.unique(out)))
        lost = (out == 0).sum()
        mon.ok(abs(lost - n * p) < 6.5 * np.sqrt(n * p * (1 - p)) + 3, 'low.rate',
               '%s: %d of %d dropped' % (msg, lost, n))
        mon.ev('small_rates_and_types')
        mon.state('low', msg)


KINDS['C20'] = {'low': (c20_low, 8, 60), 'drop': (c20_drop, 280, 4000), 'rate': (c20_rate, 24, 200)}
INFO['C20'] = {'events': ['small_rates_and_types', 'identity_calls', 'samples_dropped', 'samples_kept', 'rate_trials',
                          'large_batches', 'rows_of_named_samples'],
               'rule': 'Probabilities 0..1, train / eval, explicit and derived sample indices; drop '
                       'frequencies over 2500 calls (5.5 sigma).'}


# --------------------------------------------------------------------------- locality

def local(mon, rng, name, msg, f, x, ones=None):
    """Not-a-number and infinite values in some rows stay where these rows are used.

    Which rows are used is found with indicator features: `ones` (f, with weights of one)
    is non-negative, so that it is positive exactly where a marked row takes part."""
    n = x.shape[0]
    if n == 0:
        return
    marked = rng.random(n) < float(rng.choice([0, 0.05, 0.3, 0.7]))
    marked[rng.choice([0, n - 1, int(rng.integers(n))])] = True
    if rng.random() < 0.5:
        marked[0] = True
    mk = torch.from_numpy(marked)
    with torch.no_grad():
        used = to_np((ones or f)(mk[:, None].to(x.dtype).expand(-1, x.shape[1]).contiguous()))
        used = (used > 0).any(1)
        clean = f(x)
        y = x.clone()
        y[mk] = float(rng.choice([np.nan, np.inf, -np.inf]))
        out = f(y)
    mon.ok(out.shape == clean.shape, name + '.local.shape', msg)
    mon.close(N64(out)[~used], N64(clean)[~used], name + '.local', msg, rtol=1e-5, atol=1e-30,
              scale=float(x.abs().max()) * 50 + 1)
    mon.ok(bool((~torch.isfinite(out)).any(1)[torch.from_numpy(used)].all()),
           name + '.local.lost', msg)
    mon.ev('rows_kept_finite', int((~used).sum()))


def all_ones(m):
    """A copy of a layer with weights of one and without bias."""
    u = copy.deepcopy(m)
    with torch.no_grad():
        for n, p in u.named_parameters():
            p.fill_(0.0 if 'bias' in n else 1.0)
    return u


def c11_local(case, rng, mon):
    w = small_world(rng)
    for _ in range(4):
        dec = bool(rng.integers(2))
        c = conv_cfg(rng, w, dec)
        m = make_conv(rng, c, dec)
        u = all_ones(m)
        local(mon, rng, 'deconv' if dec else 'conv', c.msg, lambda v: m(v, w.octree, c.d),
              gen.feat(rng, c.n_in, c.cin, c.dbl), lambda v: u(v, w.octree, c.d))
    mon.state('local', c.msg, w.ref.keys[w.depth])


def c14_local(case, rng, mon):
    w = small_world(rng)
    for _ in range(3):
        c = conv_cfg(rng, w)
        m = make_dw(rng, c)
        u = all_ones(m)
        local(mon, rng, 'dwconv', c.msg, lambda v: m(v, w.octree, c.d),
              gen.feat(rng, c.n_in, c.cin, c.dbl), lambda v: u(v, w.octree, c.d))
    mon.state('local', c.msg, w.ref.keys[w.depth])


def c15_local(case, rng, mon):
    w = small_world(rng, maxdepth=6, nmax=150, max_nodes=12000)
    ref, o = w.ref, w.octree
    for _ in range(3):
        d, ne = int(rng.integers(1, w.depth + 1)), bool(rng.integers(2))
        c = gen.channels(rng, 3, ref.nnum(d, ne))
        x = gen.feat(rng, ref.nnum(d, ne), c, bool(rng.integers(2)))
        f = lambda v: ocnn.nn.octree_max_pool(v, o, d, ne)
        # an infinite value may win or lose: only the other rows are looked at
        n = x.shape[0]
        mk = torch.from_numpy(rng.random(n) < 0.3)
        mk[0] = True
        avg = to_np(ocnn.nn.octree_avg_pool(mk[:, None].double(), o, d, '222', 2, ne))[:, 0]
        y = x.clone()
        y[mk] = float(rng.choice([np.nan, np.inf, -np.inf]))
        mon.equal(N64(f(y))[~(avg > 0)], N64(f(x))[~(avg > 0)], 'max_pool.local',
                  'depth %d nempty %s' % (d, ne))
        mon.ev('rows_kept_finite', int((~(avg > 0)).sum()))
        # values sent to the winners reach these only
        _, idx = ocnn.nn.octree_max_pool(x, o, d, ne, return_indices=True)
        local(mon, rng, 'max_unpool', 'depth %d nempty %s' % (d, ne),
              lambda v: ocnn.nn.octree_max_unpool(v, idx[:, :1].expand(-1, v.shape[1]), o, d - 1, ne),
              gen.feat(rng, ref.nnum(d - 1, ne), 1, True)) if not (ref.ne[d].sum() < ref.ne[d].size and ne) else None
    mon.state('local', d, ne, ref.keys[w.depth])


def c16_local(case, rng, mon):
    w = small_world(rng, maxdepth=6, nmax=120, max_nodes=8000)
    ref, o = w.ref, w.octree
    for _ in range(4):
        d, ne = int(rng.integers(1, w.depth + 1)), bool(rng.integers(2))
        k, s = oracle.KERNELS[rng.integers(8)], int(rng.integers(1, 3))
        x = gen.feat(rng, ref.nnum(d, ne), 2, bool(rng.integers(2)))
        local(mon, rng, 'avg_pool', 'depth %d kernel %s stride %d nempty %s' % (d, k, s, ne),
              lambda v: ocnn.nn.octree_avg_pool(v, o, d, k, s, ne), x)
        local(mon, rng, 'global_pool', 'depth %d nempty %s' % (d, ne),
              lambda v: ocnn.nn.octree_global_pool(v, o, d, ne), x)
    mon.state('local', d, ne, ref.keys[w.depth])


def c17_local(case, rng, mon):
    w = small_world(rng, maxdepth=7, nmax=120, max_nodes=8000, neigh=False)
    ref, o = w.ref, w.octree
    for _ in range(4):
        d, ne = int(rng.integers(1, w.depth + 1)), bool(rng.integers(2))
        p, b = query_points(rng, ref, d, 300)
        p = np.floor(p) + rng.uniform(0.05, 0.95, p.shape) * 0.5 + 0.5 * rng.integers(0, 2, p.shape) * 0.9
        bc = bool(rng.integers(2))
        if not bc:
            p = np.clip(p, 0.51, (1 << d) - 0.51)
        q = T(np.concatenate([p, b[:, None]], 1))
        x = gen.feat(rng, ref.nnum(d, ne), 2, True)
        for fn in (ocnn.nn.octree_nearest_pts, ocnn.nn.octree_linear_pts):
            local(mon, rng, fn.__name__, 'depth %d nempty %s bound_check %s' % (d, ne, bc),
                  lambda v: fn(v, o, d, q, ne, bc), x)
    mon.state('local', d, ne, ref.keys[w.depth])


def c18_local(case, rng, mon):
    w = small_world(rng, maxdepth=7, nmax=120, max_nodes=9000, neigh=False)
    ref, o = w.ref, w.octree
    for _ in range(4):
        d = int(rng.integers(0, w.depth))
        t, ne = int(rng.integers(d + 1, w.depth + 1)), bool(rng.integers(2))
        x = gen.feat(rng, ref.nnum(d, ne), 2, bool(rng.integers(2)))
        for method in ('nearest', 'linear'):
            m = ocnn.nn.OctreeUpsample(method, ne)
            local(mon, rng, 'upsample', '%s %d -> %d nempty %s' % (method, d, t, ne),
                  lambda v: m(v, o, d, t), x)
    mon.state('local', d, t, ne, ref.keys[w.depth])


def c19_local(case, rng, mon):
    """A sample, or a group, with a value that is not finite leaves the others alone."""
    w = small_world(rng, maxdepth=6, nmax=200, max_nodes=9000, neigh=False)
    ref, o = w.ref, w.octree
    for _ in range(4):
        d, ne = int(rng.integers(1, w.depth + 1)), bool(rng.integers(2))
        group, cpg = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        m = ocnn.nn.OctreeGroupNorm(group * cpg, group, ne)
        set_params(rng, m)
        x = gen.feat(rng, ref.nnum(d, ne), group * cpg, False)
        b = ref.batch(d, ne)
        if x.shape[0] == 0:
            continue
        bad, g = int(rng.choice(b)), int(rng.integers(group))
        y = x.clone()
        rows = np.nonzero(b == bad)[0]
        y[int(rng.choice(rows)), g * cpg + int(rng.integers(cpg))] = float(rng.choice([np.nan, np.inf]))
        with torch.no_grad():
            out, clean = N64(m(y, o, d)), N64(m(x, o, d))
        keep = np.ones(out.shape, bool)
        keep[np.ix_(rows, range(g * cpg, (g + 1) * cpg))] = False
        mon.close(out[keep], clean[keep], 'norm.local', 'depth %d nempty %s groups %d x %d' % (
            d, ne, group, cpg), rtol=1e-4, atol=1e-4)
        mon.ev('rows_kept_finite', int(keep.sum()))
    mon.state('local', d, ne, ref.keys[w.depth])


for p_, f_, n_ in (('C11', c11_local, 40), ('C14', c14_local, 30), ('C15', c15_local, 40),
                   ('C16', c16_local, 40), ('C17', c17_local, 50), ('C18', c18_local, 40),
                   ('C19', c19_local, 40)):
    KINDS[p_]['local'] = (f_, n_, n_ * 12)
    INFO[p_]['events'] = INFO[p_]['events'] + ['rows_kept_finite']
