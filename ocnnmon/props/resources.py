"""C38: what was computed is released again; recomputation and buffers keep their promise."""
import copy
import gc
import io
import weakref

import numpy as np
import torch
from torch.multiprocessing.reductions import StorageWeakRef
from torch.utils._python_dispatch import TorchDispatchMode

from .. import gen, oracle
from .octree import T
from . import models as M
from . import points as P
from . import system as S

import ocnn
from ocnn.octree import Octree, Points, merge_octrees

KINDS, INFO = {}, {}


class Storages(TorchDispatchMode):
    """Weak references to the storage of everything that any operation returns."""

    def __init__(self, floats=False):
        super().__init__()
        self.refs, self.seen, self.ops, self.floats = [], set(), 0, floats

    def note(self, t, name):
        if self.floats and not (isinstance(t, torch.Tensor) and t.dtype.is_floating_point):
            return
        if isinstance(t, torch.Tensor) and t.layout == torch.strided and t.numel():
            s = t.untyped_storage()
            if s.nbytes() and s._cdata not in self.seen:
                self.seen.add(s._cdata)
                self.refs.append((StorageWeakRef(s), name, s.nbytes()))

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        self.ops += 1
        for t in out if isinstance(out, (tuple, list)) else [out]:
            self.note(t, str(func))
        return out

    def alive(self, owned=()):
        # a weak reference keeps the address from being used again
        own = {t.untyped_storage()._cdata for t in owned}
        out = {}
        for r, name, nb in self.refs:
            if not r.expired() and r.cdata not in own:
                out[r.cdata] = (name, nb)
        return list(out.values())


class Generations:
    """What is alive after each of several repetitions, and of each at the end."""

    def __init__(self, owned=()):
        self.watches, self.refs, self.at_once, self.owned = [], [], [], list(owned)

    def watch(self):
        self.watches.append(Storages())
        return self.watches[-1]

    def alive(self, k):
        return (self.watches[k].alive(self.owned),
                [type(r()).__name__ for r in self.refs[k] if r() is not None])

    def add(self, refs):
        """The caller has dropped everything of this repetition."""
        self.refs.append(refs)
        now = self.alive(-1)
        if any(now):
            gc.collect()
            now = self.alive(-1)
        self.at_once.append(now)

    def check(self, mon, msg):
        end = [self.alive(k) for k in range(len(self.refs))]
        for i, what in enumerate(['tensors', 'objects']):
            # one generation may be the first one that needed some table
            mon.ok(sum(bool(e[i]) for e in end) < 2, what + '_kept', lambda: '%s: %s' % (
                msg, [e[i][:4] for e in end]))
            # the last ones are kept until the next ones come
            mon.ok(not all(e[i] for e in self.at_once), 'last_' + what + '_kept', lambda: '%s: %s' % (
                msg, [e[i][:4] for e in self.at_once]))
        mon.ev('storages_watched', sum(len(w.refs) for w in self.watches))
        mon.ev('objects_watched', sum(map(len, self.refs)))


def same_shape_world(rng, depth, fd, batch, mode):
    return gen.world(rng, depth=depth, full_depth=fd, batch=batch, mode=mode, nmax=60,
                     allow_empty=False, max_nodes=4000)


def c38_release(case, rng, mon):
    """The same call on several new octrees; when all is dropped nothing may be left of more than
    the last of them."""
    pick = S.CALLS[case['i'] % len(S.CALLS)]
    depth, fd = int(rng.integers(3, 6)), int(rng.integers(1, 3))
    batch = int(rng.integers(1, 4))
    mode = ['batched', 'merged', 'grow'][rng.integers(3)]
    seed = int(rng.integers(1 << 30))

    def once(k, watch):
        w = same_shape_world(np.random.default_rng([seed, k]), depth, fd, batch, mode)
        c = S.call(np.random.default_rng(seed), w, pick)      # the same settings each time
        if watch is None:
            c.run()
            return [], None
        with watch:
            c.run()
        for x in list(c.inputs) + (list(c.model.parameters()) if c.model is not None else []):
            if isinstance(x, torch.Tensor):
                x.grad = None
        objs = [weakref.ref(x) for x in c.inputs if isinstance(x, (Octree, Points))]
        objs.append(weakref.ref(w.octree))
        if keep and c.model is not None:        # the layer lives on, what it worked on does not
            models.append(c.model)
            g.owned += list(c.model.parameters()) + list(c.model.buffers())
        return objs, c.name

    g, models, keep = Generations(), [], bool(rng.integers(2))
    once(0, None)                       # tables and the like are made at the first use
    for k in range(1, 4):
        try:
            refs, name = once(k, g.watch())
        except (RuntimeError, NotImplementedError):
            return mon.ev('unwatchable')
        g.add(refs)
    msg = '%s on octrees of depth %d/%d, batch %d (%s)' % (name, depth, fd, batch, mode)
    g.check(mon, msg)
    mon.ev('calls_released')
    mon.ev('layers_living_on', len(models))
    mon.ev('released.' + pick)
    mon.state(pick, depth, fd, batch, mode, [w.ops for w in g.watches])


def c38_steps(case, rng, mon):
    """A model in training and in evaluation over new octrees, the model staying alive."""
    name = (M.NETS + ['ae', 'ounet'])[case['i'] % 7]
    depth, fd = (5, 2) if name == 'hrnet' else (4, 2)
    ne = bool(rng.integers(2)) and name in M.NETS
    if name in M.NETS:
        m, cfg = M.network(rng, name, depth, ne)
        if name == 'hrnet':
            m, cfg = ocnn.models.HRNet(2, 3, 1, nempty=ne), dict(stages=1, cin=2)
    else:
        m = M.generative(rng, name, 4, 3, depth, fd, 'ND')
    m = m.double()
    train = bool(rng.integers(2))
    m.train(train)
    opt = torch.optim.SGD(m.parameters(), lr=1e-6)

    def step(watch):
        s = M.scene(rng, depth, fd, 3, 40)
        o = s.octree
        with watch:
            with torch.set_grad_enabled(train):
                if name in M.NETS:
                    x = T(rng.normal(size=(s.ref.nnum(depth, ne), cfg['cin'])))
                    M.inside(s, cfg.get('level', depth))
                    out = M.run_net(name, m, cfg, x, s)
                elif name == 'ae':
                    out = m(o, False)
                else:
                    out = m(o, o, False) if train or rng.random() < 0.5 else m(o)
            if train:
                ts = [t for t in S.flat([out['logits'], out['signal']] if isinstance(out, dict) else out)]
                sum((t ** 2).mean() for t in ts).backward()
        if train:
            opt.step()
            opt.zero_grad(set_to_none=True)
        else:
            mon.ok(not any(t.requires_grad for t in S.flat(
                [out['logits'], out['signal']] if isinstance(out, dict) else out)), 'graph_kept', name)
        return [weakref.ref(o)]
    step(Storages())
    g = Generations(list(m.parameters()) + list(m.buffers()))
    for _ in range(3):
        g.add(step(g.watch()))
    msg = '%s nempty %s %s' % (name, ne, 'training' if train else 'evaluation')
    g.check(mon, msg)
    mon.ev('training_steps' if train else 'evaluation_steps', 4)
    mon.state(msg, [w.ops for w in g.watches])


def saved(f, owned, limit):
    """(result, bytes of floating storages that are kept for the backward pass)"""
    kept, own = {}, {t.untyped_storage()._cdata for t in owned}

    def pack(t):
        if t.dtype.is_floating_point:
            s = t.untyped_storage()
            # what is saved stays alive, so that addresses tell storages apart
            kept[s._cdata] = max(kept.get(s._cdata, 0), t.numel() * t.element_size())
        return t
    watch = Storages(floats=True)
    with watch, torch.autograd.graph.saved_tensors_hooks(pack, lambda t: t):
        out = f()
    # also what is kept elsewhere, in the context of a function or an attribute
    for again in (True, False):
        total = dict(kept)
        for r, name, nb in watch.refs:
            if not r.expired() and r.cdata not in own:
                total[r.cdata] = max(total.get(r.cdata, 0), nb)
        total.pop(out.untyped_storage()._cdata, None)
        if again and sum(total.values()) > limit:
            gc.collect()
    return out, sum(total.values())


def c38_saved(case, rng, mon):
    """What is kept between forward and backward: recomputation keeps less than storing, buffered
    convolutions keep no more than input and weights."""
    w = gen.world(rng, depth=int(rng.integers(3, 6)), nmax=120, max_nodes=6000, allow_empty=False)
    o, ref = w.octree, w.ref
    d = int(rng.integers(2, w.depth + 1))
    ne = bool(rng.integers(2))
    c = int(rng.choice([4, 8]))
    n = ref.nnum(d, ne)
    x = torch.from_numpy(rng.normal(size=(n, c)))
    x.requires_grad_(bool(rng.integers(2)))
    kern = oracle.KERNELS[rng.integers(8)]
    kl = [int(v) for v in kern]
    kd = int(np.prod(kl))
    mb = int(rng.choice([kd * c, kd * c * max(n // 2, 1), 200000000]))
    m = [lambda: ocnn.nn.OctreeConv(c, 4, kl, 1, ne, False, False, mb),
         lambda: ocnn.nn.OctreeDeconv(c, 4, kl, 1, ne, False, False, mb),
         lambda: ocnn.nn.OctreeDWConv(c, kl, 1, ne, False, mb)][rng.integers(3)]().double()
    limit = (x.numel() + 2 * sum(p.numel() for p in m.parameters())) * 8
    out, kept = saved(lambda: m(x, o, d), [x] + list(m.parameters()), limit)
    # one more output, should the implementation keep it
    mon.ok(kept <= limit + out.numel() * 8, 'buffer_kept', '%s on %d rows keeps %d bytes, input and '
           'twice the weights are %d' % (m, n, kept, limit))
    mon.ev('layers_measured')
    if n >= 8:
        k = int(rng.integers(2, 5))
        blk = [ocnn.modules.OctreeResBlock, ocnn.modules.OctreeResBlock2][rng.integers(2)]
        a = ocnn.modules.OctreeResBlocks(c, c, k, 1, ne, blk, False).double().train()
        b = ocnn.modules.OctreeResBlocks(c, c, k, 1, ne, blk, True).double().train()
        b.load_state_dict(a.state_dict())
        most = (k + 1) * x.numel() * 8 + 4096
        (oa, ka), (ob, kb) = [saved(lambda: q(x, o, d), [x] + list(q.parameters()) +
                                    list(q.buffers()), most if q is b else 1e12) for q in (a, b)]
        mon.close(ob, oa, 'recomputed', rtol=1e-12, atol=1e-12)
        # only the inputs of the blocks are kept
        mon.ok(kb <= most, 'activations_kept', '%d blocks on %d x %d rows keep '
               '%d bytes with and %d without recomputation' % (k, n, c, kb, ka))
        mon.ok(ka > kb, 'nothing_saved', '%d %d' % (ka, kb))
        mon.ev('recomputations_measured')
    mon.state('saved', kern, mb, n, d, c, ref.keys[d][:60])


def c38_data(case, rng, mon):
    """Samples and batches of a data pipeline are released when the loop goes on."""
    tr = P.Transform(4, 2, True, [30.0] * 3, [1.0] * 3, 0.1, False, 0.05, [0.5] * 3)
    items = [P.sample_of(rng, int(rng.integers(20, 60))) for _ in range(6)]
    data = P.ListData(items, tr)
    collate = ocnn.dataset.CollateBatch(bool(rng.integers(2)))
    dl = torch.utils.data.DataLoader(data, batch_size=2, collate_fn=collate, shuffle=True)
    g = Generations()
    for epoch in range(3):
        refs = []
        with g.watch():
            for batch in dl:
                o = batch['octree']
                p = batch['points']
                refs += [weakref.ref(q) for q in [o] + (p if isinstance(p, list) else [p])]
                ocnn.nn.octree2voxel(o.get_input_feature('P', True), o, 4, True)
                o.to_points()
            del batch, o, p
        g.add(refs)
    g.check(mon, 'data pipeline')
    mon.ev('epochs_released', 3)
    mon.state('data', [w.ops for w in g.watches], sum(map(len, g.refs)))


def c38_build(case, rng, mon):
    """Clouds are transformed, octrees built, merged, copied, stored and searched, and dropped."""
    depth, fd = int(rng.integers(2, 6)), int(rng.integers(1, 3))
    batch = int(rng.integers(1, 7))
    c = int(rng.integers(0, 4))
    acts = [a for a in range(10) if rng.random() < 0.6]

    def once():
        pts, os_ = [], []
        for i in range(batch):
            n = int(rng.integers(1, 60))
            p = Points(torch.from_numpy(rng.uniform(-0.9, 0.9, (n, 3))).float(),
                       torch.from_numpy(rng.normal(size=(n, 3))).float(),
                       torch.from_numpy(rng.normal(size=(n, c))).float() if c else None)
            if 0 in acts:
                p.rotate(torch.tensor([0.1, 0.2, 0.3]))
                p.clip(-1, 1)
            if 1 in acts:
                p.orient_normal('x')
                p.flip('xz')
            o = Octree(depth, fd)
            o.build_octree(p)
            pts.append(p)
            os_.append(o)
        objs = pts + os_
        mo = merge_octrees(os_)
        mp = ocnn.octree.merge_points(pts)
        objs += [mo, mp]
        if 2 in acts:
            mo.construct_all_neigh()
        if 3 in acts:
            objs.append(mo.to_points())
        if 4 in acts:
            objs.append(copy.deepcopy(mo))
        if 5 in acts:
            f = io.BytesIO()
            torch.save([mo, mp], f)
            f.seek(0)
            objs += torch.load(f, weights_only=False)
        if 6 in acts:
            q = torch.cat([mp.points, torch.zeros(mp.npt, 1)], dim=1)
            mo.search_xyzb(torch.cat([(mp.points + 1) * 2 ** (depth - 1), q[:, 3:]], dim=1), depth, True)
        if 7 in acts:
            o = ocnn.octree.init_octree(depth, min(fd, depth), batch, 'cpu')
            objs.append(o)
            for d in range(min(fd, depth), depth):
                o.octree_split(torch.ones(int(o.nnum[d]), dtype=torch.int32), d)
                o.octree_grow(d + 1)
                if int(o.nnum[d + 1]) > 4000:
                    break
        if 8 in acts:
            mo.get_input_feature('NDLP' + 'F' * bool(c), False)
        if 9 in acts:
            o = Octree(depth, fd, batch)
            o.build_octree(mp)
            objs.append(o)
        return [weakref.ref(x) for x in objs]
    once()
    g = Generations()
    for _ in range(3):
        with g.watch():
            refs = once()
        g.add(refs)
    msg = 'batch %d, depth %d/%d, %s' % (batch, depth, fd, acts)
    g.check(mon, msg)
    mon.ev('builds_released', 3)
    mon.state('build', msg)


KINDS['C38'] = {'release': (c38_release, 82, 1230), 'steps': (c38_steps, 42, 420),
                'saved': (c38_saved, 120, 1500), 'data': (c38_data, 20, 200),
                'build': (c38_build, 60, 1500)}
INFO['C38'] = {'events': ['layers_living_on', 'objects_watched', 'calls_released', 'storages_watched', 'training_steps', 'evaluation_steps',
                          'layers_measured', 'recomputations_measured', 'builds_released', 'epochs_released'],
               'mult': (4, 25),
               'rule': 'Every public call, networks in training and evaluation, data pipelines: weak '
                       'references to every storage that any operation made, and to octrees and clouds.'}
