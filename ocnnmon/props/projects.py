"""C32, C33: the solvers of the segmentation, classification and generative projects."""
import os

import numpy as np
import torch
from types import SimpleNamespace as NS

from .. import gen, oracle
from ..core import to_np, REPO
from ..sandbox import guard, scratch, no_cuda, project_path, quiet
from .octree import check_tree

import ocnn
from ocnn.octree import Octree, Points
from ocnn.dataset import CollateBatch

KINDS, INFO = {}, {}

project_path()
import segmentation            # noqa: E402
import classification          # noqa: E402
import autoencoder             # noqa: E402
import completion              # noqa: E402
import image2shape             # noqa: E402
import thsolver                # noqa: E402
from thsolver.tracker import AverageTracker  # noqa: E402
from thsolver.config import get_config       # noqa: E402


def N64(t):
    return to_np(t).astype(np.float64)


def solver(cls, **flags):
    """A solver as thsolver makes it, without a GPU."""
    no_cuda()
    s = object.__new__(cls)
    s.FLAGS = NS(**{k: NS(**v) if isinstance(v, dict) else v for k, v in flags.items()})
    s.is_master, s.world_size, s.device, s.disable_tqdm = True, 1, 'cpu', True
    s.start_epoch, s.eval_rst, s.best_val = 1, {}, None
    s.model = None
    return s


def softmax(x):
    e = np.exp(x - x.max(1, keepdims=True))
    return e / e.sum(1, keepdims=True)


def cross_entropy(x, y):
    x = x - x.max(1, keepdims=True)
    lp = x - np.log(np.exp(x).sum(1, keepdims=True))
    return -lp[np.arange(y.shape[0]), y].mean()


class PointHead:
    """Stands for a network: the logits of a query point are an exact function of the point
    and its sample index, so that the oracle knows them for every point of every cloud."""

    def __init__(self, rng, nout, gain=4.0):
        self.w = torch.from_numpy(rng.normal(size=(4, nout)) * 37).float()
        self.gain, self.calls = gain, []

    def logits(self, q):
        q = q.float()
        t = q[:, 0:1] * self.w[0]
        for k in (1, 2, 3):
            t = t + (q[:, k:k + 1] + 0.37) * self.w[k]
        return torch.remainder(t, self.gain) - self.gain / 2

    def __call__(self, data, octree, depth, query_pts):
        self.calls.append((data, octree, depth, query_pts))
        return self.logits(query_pts)

    def of(self, xyz, b):
        q = torch.cat([xyz, torch.full((xyz.shape[0], 1), float(b))], 1)
        return N64(self.logits(q))

    def train(self, *a):
        return self

    def eval(self):
        return self


class LabelTransform(ocnn.dataset.Transform):
    def preprocess(self, s, idx):
        t = lambda k: torch.from_numpy(np.array(s[k]))
        return {'points': Points(t('points'), t('normals'), t('features'), t('labels'))}


def seg_batch(rng, num_class, low, distort=False, octree=True, k=None, filenames=None):
    """A collated batch and, per sample, the transformed cloud it was made from."""
    depth, fd = int(rng.integers(2, 6)), int(rng.integers(1, 3))
    tr = LabelTransform(depth, fd, distort, [0, 180, 0], [1, 1, 1], 0.3, True, 0.3, [0.5, 0, 0])
    raw, out = [], []
    k = k or gen.few(rng, 1, 4)
    ltype = np.float32 if rng.random() < 0.5 else np.int32
    for i in range(k):
        n = gen.many(rng, 5, 120, 0.04, 20000)
        p = rng.uniform(-1.0, 1.0, (n, 3)).astype(np.float32) * 0.9
        p[0] = 0.05
        if rng.random() < 0.3:
            p[n // 2:] = p[:n - n // 2]              # coincident points
        present = rng.integers(low, num_class, int(rng.integers(1, num_class + 1)))
        s = {'points': p, 'normals': gen.normals(rng, n),
             'features': rng.random((n, 3)).astype(np.float32),
             'labels': rng.choice(present, (n, 1)).astype(ltype)}
        while True:
            o = tr(s, i)
            if o['points'].points.shape[0] > 1:
                break
        if not octree:
            del o['octree']
        o['label'], o['filename'] = 0, filenames[i] if filenames else 'f%d.ply' % i
        raw.append({'n': n, 'points': o['points'].points.clone(),
                    'labels': to_np(o['points'].labels)[:, 0].astype(np.int64).copy(),
                    'normals': to_np(o['points'].normals).copy(),
                    'features': to_np(o['points'].features).copy(),
                    'mask': to_np(o['inbox_mask']).copy(), 'filename': o['filename']})
        out.append(o)
    batch = CollateBatch(merge_points=octree)(out)
    return batch, raw, depth, fd


FEATS = ['ND', 'NDF', 'L', 'P', 'NF', 'NDFLP']


def seg_solver(rng, num_class, mask, depth, fd, feature, nempty, mode=None, **kw):
    data = {'depth': depth, 'full_depth': fd}
    other = {'depth': depth + 1, 'full_depth': fd} if rng.random() < 0.5 else data
    data = {'train': data, 'test': data}
    if mode:                       # the settings of the other mode may differ
        data['test' if mode == 'train' else 'train'] = other
    s = solver(segmentation.SegSolver, LOSS={'mask': mask, 'num_class': num_class},
               MODEL={'feature': feature, 'nempty': nempty, 'channel': 3},
               DATA=NS(train=NS(**data['train']), test=NS(**data['test'])), **kw)
    s.model = PointHead(rng, num_class)
    return s


def check_call(mon, s, raw, depth, fd, feature, nempty, key):
    """What the network was given: the octree of the clouds, its features, the points."""
    data, octree, d, q = s.model.calls[-1]
    mon.ok(d == depth and octree.depth == depth and octree.full_depth == fd, key + '.depth')
    mon.equal(N64(q)[:, :3], np.concatenate([N64(r['points']) for r in raw]), key + '.query')
    mon.equal(N64(q)[:, 3], np.concatenate([np.full(r['points'].shape[0], i, float)
                                            for i, r in enumerate(raw)]), key + '.query_sample')
    # points of the pipeline are not on a grid: take the ones that are clearly inside a voxel
    ref = oracle.RefOctree.from_octree(octree)
    ok = octree.batch_size == len(raw)
    mon.ok(ok, key + '.batch_size', '%d' % octree.batch_size)
    for i, r in enumerate(raw):
        p = (N64(r['points']) + 1) * 2.0 ** (depth - 1)
        v = np.floor(p)
        far = (np.abs(p - np.round(p)) > 1e-3).all(1)
        idx = ref.index(depth, v[far].astype(np.int64), np.full(int(far.sum()), i), True)
        mon.ok((idx >= 0).all(), key + '.leaf_missing')
    for dd in range(1, depth + 1):
        mon.equal(octree.neighs[dd], ref.neigh(dd), key + '.neighs')
    mon.equal(data, octree.get_input_feature(feature, nempty), key + '.data', feature)


def metric(pred, lab, C):
    ins = np.array([((pred == k) & (lab == k)).sum() for k in range(C)], float)
    uni = np.array([((pred == k) | (lab == k)).sum() for k in range(C)], float)
    has = np.array([(lab == k).any() for k in range(C)])
    iou = (ins[has] / (uni[has] + 1e-10)).sum() / (has.sum() + 1e-10)
    return ins, uni, iou


def c32_step(case, rng, mon):
    C = gen.few(rng, 2, 8, 0.12, 300)
    low = int(rng.integers(-1, 1))
    mask = int(rng.choice([low - 1, low, 0, -1]))
    feature, nempty = FEATS[rng.integers(len(FEATS))], bool(rng.integers(2))
    octree = bool(rng.integers(2))
    batch, raw, depth, fd = seg_batch(rng, C, max(low, 0) if mask < 0 else low,
                                      distort=bool(rng.integers(2)), octree=octree)
    mode = 'train' if rng.random() < 0.5 else 'test'
    s = seg_solver(rng, C, mask, depth, fd, feature, nempty, mode)
    lab = np.concatenate([r['labels'] for r in raw])
    log = np.concatenate([s.model.of(r['points'], i) for i, r in enumerate(raw)])
    keep = lab > mask
    if not keep.any():
        return
    pred = log[keep].argmax(1)
    want = {'loss': cross_entropy(log[keep], lab[keep]), 'accu': (pred == lab[keep]).mean()}
    ins, uni, iou = metric(pred, lab[keep], C)

    out = (s.train_step if mode == 'train' else s.test_step)(batch)
    check_call(mon, s, raw, depth, fd, feature, nempty, 'input')
    for k, v in want.items():
        mon.close(float(out['%s/%s' % (mode, k)]), v, k, '%s mask %d' % (mode, mask), rtol=1e-4,
                  atol=1e-5)
    names = {'train/loss', 'train/accu'}
    if mode == 'test':
        mon.close(float(out['test/mIoU']), iou, 'mIoU', 'labels %s' % np.bincount(lab[keep]),
                  rtol=1e-5, atol=1e-6)
        for k in range(C):
            mon.close(float(out['test/intsc_%d' % k]), ins[k], 'intersection', 'class %d' % k)
            mon.close(float(out['test/union_%d' % k]), uni[k], 'union', 'class %d' % k)
        names = {'test/loss', 'test/accu', 'test/mIoU'} | {
            'test/%s_%d' % (n, k) for k in range(C) for n in ('intsc', 'union')}
        mon.ev('test_steps')
        mon.ev('classes_without_labels', int((np.bincount(lab[keep], minlength=C) == 0).sum()))
    mon.ok(set(out) == names, 'names', str(sorted(out)))
    mon.ev('segmentation_steps')
    mon.ev('octrees_built_from_points', int(not octree))
    mon.ev('points_with_ignored_labels', int((~keep).sum()))
    mon.state('seg', C, mask, mode, lab, log)


def c32_gradient(case, rng, mon):
    """The training loss trains: its gradient reaches the logits of the labelled points only."""
    C = gen.few(rng, 2, 5, 0.12, 300)
    batch, raw, depth, fd = seg_batch(rng, C, 0)
    s = seg_solver(rng, C, 0, depth, fd, 'ND', False)
    head = s.model
    n = sum(r['points'].shape[0] for r in raw)
    leaf = torch.from_numpy(np.concatenate(
        [head.of(r['points'], i) for i, r in enumerate(raw)])).float().requires_grad_()
    s.model = lambda data, octree, depth, query_pts: leaf
    lab = np.concatenate([r['labels'] for r in raw])
    if not (lab > 0).any():
        return
    s.train_step(batch)['train/loss'].backward()
    g = softmax(N64(leaf))
    g[np.arange(n), lab] -= 1
    g[lab <= 0] = 0
    mon.close(leaf.grad, g / (lab > 0).sum(), 'gradient', rtol=1e-4, atol=1e-6)
    mon.ev('loss_gradients')
    mon.state('grad', lab)


def c32_epoch(case, rng, mon):
    """Part mIoU of an epoch: intersections and unions averaged over the batches first."""
    C = gen.few(rng, 2, 7, 0.12, 250)
    mask = int(rng.integers(-1, 1)) if C > 2 else -1
    tr, ins, uni = AverageTracker(), [], []
    s = None
    for _ in range(gen.few(rng, 1, 5, 0.06, 20)):
        batch, raw, depth, fd = seg_batch(rng, C, 0)
        s = seg_solver(rng, C, mask, depth, fd, 'ND', False)
        lab = np.concatenate([r['labels'] for r in raw])
        log = np.concatenate([s.model.of(r['points'], i) for i, r in enumerate(raw)])
        keep = lab > mask
        if not keep.any():
            continue
        a, b, _ = metric(log[keep].argmax(1), lab[keep], C)
        ins.append(a)
        uni.append(b)
        tr.update(s.test_step(batch))
    if not ins:
        return
    with quiet():
        s.result_callback(tr, 3)
    ins, uni = np.mean(ins, 0), np.mean(uni, 0)
    part = (ins / (uni + 1e-10))[mask + 1:].sum() / (C - mask - 1)
    mon.close(tr.average()['test/mIoU_part'], part, 'mIoU_part', 'classes %d, mask %d' % (C, mask),
              rtol=1e-5, atol=1e-6)
    mon.ev('epochs_scored')
    mon.state('epoch', ins, uni)


def c32_vote(case, rng, mon):
    """Evaluation: several epochs of differently augmented and clipped clouds, in varying
    batches; every point ends up with the sum of its own votes."""
    C = gen.few(rng, 2, 6, 0.12, 210)
    epochs, nscene = gen.few(rng, 1, 4, 0.06, 12), gen.few(rng, 1, 5, 0.06, 30)
    names = [['s%d.ply', 'a.b/c%d.ply', 'x/y/z%d.npz', 'scene_%d.chunk_1.ply'][rng.integers(4)] % i
             for i in range(nscene)]
    npts = [gen.many(rng, 5, 100, 0.03, 30000) for _ in names]
    feature, nempty = FEATS[rng.integers(len(FEATS))], bool(rng.integers(2))
    octree = bool(rng.integers(2))
    depth, fd = int(rng.integers(2, 5)), 2
    scenes = [{'points': (rng.uniform(-0.95, 0.95, (n, 3))).astype(np.float32),
               'normals': gen.normals(rng, n), 'features': rng.random((n, 3)).astype(np.float32),
               'labels': rng.integers(0, C, (n, 1)).astype(np.float32)} for n in npts]
    for sc in scenes:
        sc['points'][0] = 0.02
    tr = LabelTransform(depth, fd, True, [0, 0, 180], [1, 1, 1], 0.2, True, 0.2, [0, 0, 0])
    with scratch() as tmp:
        s = seg_solver(rng, C, -255, depth, fd, feature, nempty, 'test',
                       SOLVER={'eval_epoch': epochs})
        s.logdir = os.path.join(tmp, 'logs')
        os.makedirs(s.logdir)
        votes = {n: 0.0 for n in names}
        clipped = 0
        for e in range(epochs):
            order = rng.permutation(nscene)
            if rng.random() < 0.3:          # a file may be listed more than once
                order = np.concatenate([order, rng.permutation(nscene)[:int(rng.integers(1, 3))]])
                mon.ev('repeated_files')
            size = int(rng.integers(1, order.size + 1))
            for c in range(0, order.size, size):
                ids = order[c:c + size]
                samples, raw = [], []
                for j in ids:
                    o = tr(scenes[j], j)
                    if not octree:
                        del o['octree']
                    o['label'], o['filename'] = 0, names[j]
                    raw.append({'points': o['points'].points.clone()})
                    samples.append(o)
                    m = to_np(o['inbox_mask'])
                    clipped += int((~m).sum())
                    p = np.zeros((npts[j], C))
                    p[m] = softmax(s.model.of(raw[-1]['points'], len(raw) - 1))
                    votes[names[j]] = votes[names[j]] + p
                batch = CollateBatch(merge_points=octree)(samples)
                batch['epoch'] = e
                with guard(tmp):
                    s.eval_step(batch)
                check_call(mon, s, raw, depth, fd, feature, nempty, 'input')
                for j in set(ids.tolist()):
                    mon.close(s.eval_rst[names[j]], votes[names[j]], 'votes', names[j], rtol=1e-4,
                              atol=1e-5)
            files = sorted(os.path.relpath(os.path.join(r, f), s.logdir)
                           for r, _, fs in os.walk(s.logdir) for f in fs)
            if e < epochs - 1:
                mon.ok(files == [], 'files_early', str(files))
        mon.ok(files == sorted(n[:-4] + '.eval.npz' for n in names), 'files', str(files))
        for n in names:
            prob = np.load(os.path.join(s.logdir, n[:-4] + '.eval.npz'))['prob']
            mon.close(prob, votes[n], 'saved', n, rtol=1e-4, atol=1e-5)
    mon.ev('voting_epochs', epochs)
    mon.ev('points_clipped_in_evaluation', clipped)
    mon.ev('result_files', nscene)
    mon.state('vote', names, [v for v in votes.values()])


class RowHead:
    """Stands for a classification network: logits given per sample."""

    def __init__(self, logits):
        self.l, self.calls = logits, []

    def __call__(self, data, octree, depth):
        self.calls.append((data, octree, depth))
        return self.l


def c32_class(case, rng, mon):
    C, k = gen.few(rng, 2, 9, 0.2, 300), gen.few(rng, 1, 6, 0.15, 70)
    feature, nempty = FEATS[rng.integers(len(FEATS))], bool(rng.integers(2))
    w = gen.world(rng, mode='merged', batch=k, maxdepth=5, nmax=60, allow_empty=False)
    if 'F' in feature and w.octree.features[w.depth] is None:
        feature = 'ND'
    x = gen.feat(rng, k, C, False, False)
    lab = torch.from_numpy(rng.integers(0, C, k))
    s = solver(classification.ClsSolver, LOSS={'num_class': C},
               MODEL={'feature': feature, 'nempty': nempty})
    s.model = RowHead(x.clone().requires_grad_())
    mode = 'train' if rng.random() < 0.5 else 'test'
    out = (s.train_step if mode == 'train' else s.test_step)({'octree': w.octree, 'label': lab})
    data, o, d = s.model.calls[-1]
    mon.ok(d == w.depth, 'depth')
    check_tree(mon, o, w.ref, 'octree')
    mon.equal(data, w.octree.get_input_feature(feature, nempty), 'data', feature)
    y = to_np(lab)
    mon.ok(set(out) == {mode + '/loss', mode + '/accu'}, 'names', str(sorted(out)))
    mon.close(float(out[mode + '/loss']), cross_entropy(N64(x), y), 'loss', rtol=1e-4, atol=1e-5)
    mon.close(float(out[mode + '/accu']), (N64(x).argmax(1) == y).mean(), 'accu', rtol=1e-5)
    mon.ok(out['train/loss'].requires_grad if mode == 'train' else
           not out['test/loss'].requires_grad, 'graph', 'training needs the graph, testing must not')
    mon.ev('classification_steps')
    mon.state('cls', C, k, x, y)


def same_model(mon, a, b, run, key):
    sa, sb = a.state_dict(), b.state_dict()
    mon.ok(type(a) is type(b), key + '.type', '%s %s' % (type(a), type(b)))
    mon.ok({k: tuple(v.shape) for k, v in sa.items()} == {k: tuple(v.shape) for k, v in sb.items()},
           key + '.parameters')
    a.load_state_dict(sb)
    a.eval(), b.eval()
    with torch.no_grad():
        mon.close(run(a), run(b), key + '.output', rtol=1e-4, atol=1e-4)


def c32_model(case, rng, mon):
    """The solver builds the network of its flags."""
    ne = bool(rng.integers(2))
    c, nout, stages = int(rng.integers(1, 5)), int(rng.integers(2, 6)), int(rng.integers(1, 4))
    interp = ['nearest', 'linear'][rng.integers(2)]
    name = ['lenet', 'resnet', 'hrnet', 'segnet', 'unet'][case['i'] % 5]
    depth = 5 if name in ('unet', 'hrnet') else stages + 2
    w = gen.world(rng, depth=depth, full_depth=2, mode='merged', batch=2, nmax=40, allow_empty=False,
                  kinds=['uniform', 'sphere', 'plane'])
    o = w.octree
    x = gen.feat(rng, w.ref.nnum(depth, ne), c, False, False)
    q = torch.from_numpy(np.concatenate([np.c_[p * 0.9, np.full(len(p), i)] for i, p in
                                         enumerate(w.clouds)])).float()
    flags = NS(name=name.upper() if rng.random() < 0.3 else name, channel=c, nout=nout,
               stages=stages, interp=interp, nempty=ne, resblock_num=1)
    m = ocnn.models
    if name in ('segnet', 'unet'):
        s = solver(segmentation.SegSolver)
        direct = m.SegNet(c, nout, stages, interp=interp, nempty=ne) if name == 'segnet' else \
            m.UNet(c, nout, interp=interp, nempty=ne)
        run = lambda net: net(x, o, depth, q)
    else:
        s = solver(classification.ClsSolver)
        if name == 'hrnet':
            stages = flags.stages = 3
        direct = {'lenet': lambda: m.LeNet(c, nout, stages, nempty=ne),
                  'resnet': lambda: m.ResNet(c, nout, 1, stages, nempty=ne),
                  'hrnet': lambda: m.HRNet(c, nout, stages=stages, nempty=ne)}[name]()
        run = lambda net: net(x, o, depth)
    same_model(mon, s.get_model(flags), direct, run, 'model.' + name)
    mon.ev('models_built')
    mon.state('model', name, ne, c, nout, stages, interp)


CONFIGS = ['cls_m40', 'cls_m40_hrnet', 'seg_shapenet', 'seg_scannet', 'seg_kitti',
           'seg_scannet_eval']


def load_config(name):
    cfg = get_config().clone()
    cfg.defrost()
    cfg.merge_from_file(os.path.join(REPO, 'projects/configs', name + '.yaml'))
    return cfg


def c32_config(case, rng, mon):
    """Every shipped configuration drives its solver: steps run and the settings agree."""
    name = CONFIGS[case['i'] % len(CONFIGS)]
    cfg = load_config(name)
    C = cfg.LOSS.num_class
    mon.ok(cfg.MODEL.nout == C, 'config.classes', name)
    width = {'N': 3, 'D': 1, 'L': 3, 'P': 3,
             'F': 1 if 'kitti' in name else 3}
    mon.ok(cfg.MODEL.channel == sum(width[f] for f in cfg.MODEL.feature.upper()), 'config.channel',
           name)
    if not name.endswith('eval'):
        mon.ok(cfg.DATA.train.depth == cfg.DATA.test.depth, 'config.depth', name)
    if name.startswith('seg'):
        s = solver(segmentation.SegSolver)
        s.FLAGS = cfg
        cfg.DATA.train.depth = cfg.DATA.test.depth = 4
        s.model = PointHead(rng, C)
        batch, raw, depth, fd = seg_batch(rng, C, 0, distort=False)
        feature = cfg.MODEL.feature
        if name.endswith('eval'):
            with scratch() as tmp:
                s.logdir = tmp
                batch['epoch'] = cfg.SOLVER.eval_epoch - 1
                with guard(tmp):
                    s.eval_step(batch)
                for i, r in enumerate(raw):
                    p = np.zeros((r['n'], C))
                    p[r['mask']] = softmax(s.model.of(r['points'], i))
                    got = np.load(os.path.join(tmp, r['filename'][:-4] + '.eval.npz'))['prob']
                    mon.close(got, p, 'config.eval', name, rtol=1e-4, atol=1e-5)
        else:
            lab = np.concatenate([r['labels'] for r in raw])
            if not (lab > cfg.LOSS.mask).any():
                return
            out = s.test_step(batch)
            mon.ok(len(out) == 3 + 2 * C, 'config.names', name)
            tr = AverageTracker()
            tr.update(out)
            with quiet():
                s.result_callback(tr, 1)
            if cfg.SOLVER.best_val:
                mon.ok('test/' + cfg.SOLVER.best_val.split(':')[1] in tr.value, 'config.best_val',
                       '%s: %s' % (name, cfg.SOLVER.best_val))
        check_call(mon, s, raw, depth, fd, feature, cfg.MODEL.nempty, 'config.input')
    else:
        s = solver(classification.ClsSolver)
        s.FLAGS = cfg
        w = gen.world(rng, depth=5, full_depth=2, mode='merged', batch=3, nmax=60, allow_empty=False)
        net = s.get_model(cfg.MODEL).eval()
        s.model = net
        out = s.test_step({'octree': w.octree, 'label': torch.tensor([0, 1, 2])})
        mon.ok(np.isfinite(float(out['test/loss'])), 'config.loss', name)
        if cfg.SOLVER.best_val:
            mon.ok('test/' + cfg.SOLVER.best_val.split(':')[1] in out, 'config.best_val', name)
    mon.ev('configurations')
    mon.state('config', name, case['i'])


class Tap:
    """Passes calls on to a network and keeps what it answered."""

    def __init__(self, net):
        self.net, self.out = net, None

    def __call__(self, *a, **k):
        self.out = self.net(*a, **k)
        return self.out


SOURCES = {'cls_m40': 'modelnet', 'cls_m40_hrnet': 'modelnet', 'seg_shapenet': 'shapenet',
           'seg_scannet': 'scannet', 'seg_kitti': 'kitti', 'seg_scannet_eval': 'scannet',
           'ae_shapenet': 'ae', 'completion': 'completion', 'image2shape': 'image2shape'}


def flow(rng, mon, name, cls, mode):
    """From files, through the data set and the network of a shipped configuration, to the numbers
    the solver reports: (solver, batch, what the network said, what the solver said, files)."""
    from .data import write_files
    cfg = load_config(name)
    f = cfg.DATA[mode]
    s = solver(cls)
    s.FLAGS = cfg
    k = int(rng.integers(2, 4))
    with scratch() as tmp:
        loc, lst, ftype, files, raws, labels = write_files(
            rng, SOURCES[name], tmp, k, nlabel=cfg.LOSS.num_class, size=40, spread=2.0)
        f.location, f.filelist, f.filetype = loc, lst, ftype
        with quiet(), guard(tmp):
            ds, collate = s.get_dataset(f)
            mon.ok(len(ds) == k, 'flow.size', '%s: %d of %d' % (name, len(ds), k))
            batch = collate([ds[i] for i in range(k)])
    mon.ok(list(batch['filename']) == files, 'flow.files', name)
    torch.manual_seed(int(rng.integers(1 << 30)))
    s.model = Tap(s.get_model(cfg.MODEL))
    s.model.net.train(mode == 'train')
    if SOURCES[name] in ('shapenet', 'scannet', 'kitti'):
        pts = batch['points']
        lab = torch.cat([p.labels for p in pts]) if isinstance(pts, list) else pts.labels
        if int((lab > cfg.LOSS.mask).sum()) < 2:
            return None
    out = (s.train_step if mode == 'train' else s.test_step)(batch)
    for n, v in out.items():
        mon.ok(n.startswith(mode + '/'), 'flow.names', n)
        mon.ok(np.isfinite(float(v)), 'flow.finite', '%s %s' % (name, n))
    if mode == 'train':
        out['train/loss'].backward()
        dead = [n for n, p in s.model.net.named_parameters() if p.grad is None]
        mon.ok(not dead, 'flow.untrained', str(dead[:4]))
    mon.ev('flows.' + name)
    mon.state('flow', name, mode, [r['points'] for r in raws])
    return s, batch, s.model.out, {n[len(mode) + 1:]: float(v) for n, v in out.items()}, labels


def c32_flow(case, rng, mon):
    name = CONFIGS[case['i'] % 5]
    mode = ['train', 'test'][rng.integers(2)]
    cls = segmentation.SegSolver if name.startswith('seg') else classification.ClsSolver
    r = flow(rng, mon, name, cls, mode)
    if r is None:
        return
    s, batch, x, out, labels = r
    if name.startswith('seg'):
        C, x = s.FLAGS.LOSS.num_class, N64(x)
        y = to_np(batch['points'].labels)[:, 0].astype(np.int64)
        mon.ok(x.shape == (y.size, C), 'flow.rows', '%s: %s, %d labels' % (name, x.shape, y.size))
        b = to_np(batch['points'].batch_id)[:, 0].astype(int)
        mon.equal(np.bincount(b, minlength=len(labels)),
                  np.array([int(m.sum()) for m in batch['inbox_mask']]), 'flow.points', name)
        x, y = x[y > s.FLAGS.LOSS.mask], y[y > s.FLAGS.LOSS.mask]
        if mode == 'test':
            p = x.argmax(1)
            for c in range(C):
                mon.ok(out['intsc_%d' % c] == ((p == c) & (y == c)).sum(), 'flow.intersection', name)
                mon.ok(out['union_%d' % c] == ((p == c) | (y == c)).sum(), 'flow.union', name)
    else:
        x, y = N64(x), np.array(labels)
    mon.close(out['loss'], cross_entropy(x, y), 'flow.loss', name, rtol=1e-3, atol=1e-4)
    mon.close(out['accu'], (x.argmax(1) == y).mean(), 'flow.accu', name, rtol=1e-4, atol=1e-5)
    if out.get('mIoU') is not None:
        mon.ok(0 <= out['mIoU'] <= 1 + 1e-6, 'flow.miou', name)


KINDS['C32'] = {'flow': (c32_flow, 5, 50), 'step': (c32_step, 60, 800), 'gradient': (c32_gradient, 20, 200),
                'epoch': (c32_epoch, 30, 400), 'vote': (c32_vote, 30, 400),
                'class': (c32_class, 40, 500), 'model': (c32_model, 5, 60),
                'config': (c32_config, 12, 60)}
INFO['C32'] = {'events': ['flows.' + n for n in CONFIGS[:5]] + [
                          'segmentation_steps', 'test_steps', 'octrees_built_from_points',
                          'points_with_ignored_labels', 'classes_without_labels', 'loss_gradients',
                          'epochs_scored', 'voting_epochs', 'repeated_files', 'points_clipped_in_evaluation',
                          'result_files', 'classification_steps', 'models_built', 'configurations'],
               'mult': (6, 60),
               'rule': 'Non-trivial: a batch with its labels, the metric values of an epoch, the '
                       'accumulated votes of a set of scenes.',
               'assumptions': ['.cuda() of tensors, octrees and clouds is replaced by the identity',
                               'networks are replaced by a known function of the query points, '
                               'except in the kinds "model" and "config"']}


# --------------------------------------------------------------------------- C33

def target(rng, k=None, depth=None, fd=None, nmax=120):
    """A merged octree with normals and points, and the raw clouds."""
    depth = depth or int(rng.integers(3, 6))
    fd = fd or int(rng.integers(1, min(3, depth - 1) + 1))
    k = k or gen.few(rng, 1, 4, 0.1, 30)
    cl, _ = gen.clouds(rng, depth, k, nmax, False)
    ns = [gen.normals(rng, c.shape[0]) for c in cl]
    pts = [gen.make_points(c, n) for c, n in zip(cl, ns)]
    os_ = [gen.build(p, depth, fd)[0] for p in pts]
    o = ocnn.octree.merge_octrees(os_)
    o.construct_all_neigh()
    ref = oracle.RefOctree.from_points(depth, fd, cl)
    # per leaf: mean normal (normalised), mean point -> displacement
    key = np.concatenate([oracle.morton(oracle.voxel(c, depth), depth) | (np.int64(i) << 48)
                          for i, c in enumerate(cl)])
    leaves = ref.key(depth, True)
    row = np.searchsorted(leaves, key)
    cnt = np.bincount(row, minlength=leaves.shape[0])[:, None]
    mean = lambda v: np.stack([np.bincount(row, v[:, j], leaves.shape[0]) for j in range(3)], 1) / cnt
    P = mean((np.concatenate(cl).astype(np.float64) + 1) * 2.0 ** (depth - 1))
    nn = mean(np.concatenate(ns).astype(np.float64))
    ln = np.linalg.norm(nn, axis=1, keepdims=True)
    nn = nn / np.maximum(ln, 1e-12)
    # a mean point on the upper face of the cube: frac() of an integer is 0, not 1
    frac = P - np.floor(P + 1e-9)
    dis = ((frac - 0.5) * nn).sum(1, keepdims=True)
    sure = (np.abs(P - np.round(P)) > 1e-4).all(1) & ((ln[:, 0] > 1e-3) | (ln[:, 0] == 0))
    return o, ref, np.concatenate([nn, dis], 1), sure, cl, ns, pts, depth, fd


def model_out(rng, ref, depth, fd, grad=False):
    lo = {}
    for d in range(fd, depth + 1):
        lo[d] = torch.from_numpy(rng.normal(size=(ref.nnum(d), 2)) * 3).float()
        if rng.random() < 0.2:
            lo[d] = lo[d] * 30
    sig = torch.from_numpy(rng.normal(size=(ref.nnum(depth, True), 4))).float()
    if grad:
        lo = {d: v.requires_grad_() for d, v in lo.items()}
        sig.requires_grad_()
    return {'logits': lo, 'signal': sig, 'octree_out': None}


def check_losses(mon, out, mo, ref, sig, sure, depth, fd, prefix, key):
    want = {}
    for d in range(fd, depth + 1):
        x, y = N64(mo['logits'][d]), ref.ne[d].astype(np.int64)
        want['loss_%d' % d] = cross_entropy(x, y)
        want['accu_%d' % d] = (x.argmax(1) == y).mean()
    err = ((sig - N64(mo['signal'])) ** 2).sum(1)
    mon.ok(set(out) == {prefix + k for k in list(want) + ['loss_reg', 'loss']}, key + '.names',
           str(sorted(out)))
    for k, v in want.items():
        mon.close(float(out[prefix + k]), v, key + '.' + k.split('_')[0], k, rtol=1e-4, atol=1e-5)
    if sure.all():
        mon.close(float(out[prefix + 'loss_reg']), err.mean(), key + '.regression', rtol=1e-4,
                  atol=1e-5)
        mon.ev('regression_losses')
    tot = sum(float(out[prefix + k]) for k in want if 'loss' in k) + float(out[prefix + 'loss_reg'])
    mon.close(float(out[prefix + 'loss']), tot, key + '.total', rtol=1e-4, atol=1e-5)
    mon.ev('losses', len(want))


class Recorder:
    def __init__(self, out):
        self.out, self.args = out, None

    def __call__(self, *a, **k):
        self.args = (a, k)
        return self.out


def bound(args, names):
    """Positional and keyword arguments under their names."""
    a, k = args
    return {**dict(zip(names, a)), **k}


def c33_loss(case, rng, mon):
    deep = rng.random() < 0.15
    o, ref, sig, sure, cl, ns, pts, depth, fd = target(
        rng, k=int(rng.integers(1, 3)), depth=int(rng.integers(9, 13)), nmax=20) if deep else target(rng)
    mon.ev('deep_targets', int(deep))
    kind = ['ae', 'completion', 'i2s'][case['i'] % 3]
    mo = model_out(rng, ref, depth, fd, grad=True)
    rec = Recorder(mo)
    mode = 'train' if rng.random() < 0.5 else 'test'
    if kind == 'ae':
        s = solver(autoencoder.AutoEncoderSolver)
        batch, names = {'octree': o}, ['octree', 'update_octree']
        want = {'octree': o, 'update_octree': False}
    elif kind == 'completion':
        s = solver(completion.CompletionSolver)
        o_in = target(rng, k=len(cl), depth=depth, fd=fd)[0]
        batch, names = {'octree': o_in, 'octree_gt': o}, ['octree_in', 'octree_out', 'update_octree']
        want = {'octree_in': o_in, 'octree_out': o, 'update_octree': False}
    else:
        s = solver(image2shape.Image2ShapeSolver)
        img = torch.rand(len(cl), 3, 8, 8)
        batch, names = {'octree': o, 'image': img}, ['image', 'octree', 'update_octree']
        want = {'image': img, 'octree': o, 'update_octree': False}
    s.model = rec
    out = (s.train_step if mode == 'train' else s.test_step)(batch)
    got = bound(rec.args, names)
    mon.ok(set(got) == set(want), kind + '.arguments', str(sorted(got)))
    for k, v in want.items():
        if isinstance(v, Octree):
            mon.ok(isinstance(got[k], Octree), kind + '.' + k)
            mon.equal(got[k].keys[depth], v.keys[depth], kind + '.' + k)
        elif isinstance(v, torch.Tensor):
            mon.equal(got[k], v, kind + '.' + k)
        else:
            mon.ok(got[k] is v, kind + '.' + k, repr(got[k]))
    check_losses(mon, out, mo, ref, sig, sure, depth, fd, mode + '/', kind)
    if mode == 'train':
        out['train/loss'].backward()
        for d, x in mo['logits'].items():
            g = softmax(N64(x))
            g[np.arange(g.shape[0]), ref.ne[d].astype(np.int64)] -= 1
            mon.close(x.grad, g / g.shape[0], kind + '.gradient', 'depth %d' % d, rtol=1e-3,
                      atol=1e-6)
        if sure.all():
            mon.close(mo['signal'].grad, 2 * (N64(mo['signal']) - sig) / sig.shape[0],
                      kind + '.signal_gradient', rtol=1e-3, atol=1e-6)
        mon.ev('gradients')
    mon.ev('tasks.' + kind)
    mon.state('loss', kind, depth, fd, [N64(v) for v in mo['logits'].values()])


def decoded(rng, k=None):
    """An octree as a decoder leaves it: grown from splits, a signal at the leaves."""
    w = gen.world(rng, mode='grow', batch=k, maxdepth=5, neigh=False, max_nodes=6000)
    n = w.ref.nnum(w.depth, True)
    sig = rng.normal(size=(n, 4)) * rng.choice([0.1, 1.0, 5.0])
    if rng.random() < 0.3 and n:
        sig[rng.random(n) < 0.2] = 0
    w.octree.features[w.depth] = torch.from_numpy(sig).float()
    w.sig = N64(w.octree.features[w.depth])
    return w


def expected_points(w):
    d = w.depth
    xyz = w.ref.xyz(d, True).astype(np.float64)
    b = w.ref.batch(d, True)
    n = w.sig[:, :3] / np.maximum(np.linalg.norm(w.sig[:, :3], axis=1, keepdims=True), 1e-12)
    p = (xyz + 0.5 + w.sig[:, 3:] * n) / 2.0 ** (d - 1) - 1.0
    out = np.concatenate([p, n], 1)
    return [out[b == i] for i in range(w.batch)]


def c33_points(case, rng, mon):
    w = decoded(rng)
    s = solver(autoencoder.AutoEncoderSolver)
    out = s.octree2pts(w.octree)
    want = expected_points(w)
    mon.ok(len(out) == w.batch, 'samples', '%d, expected %d' % (len(out), w.batch))
    for i in range(w.batch):
        mon.close(out[i], want[i], 'points', 'sample %d depth %d' % (i, w.depth), rtol=1e-5,
                  atol=2e-5)
    mon.ev('point_clouds', w.batch)
    mon.ev('empty_point_clouds', sum(p.shape[0] == 0 for p in want))
    mon.state('pts', w.sig, w.ref.keys[w.depth])


def c33_files(case, rng, mon):
    """eval_step saves the input and the output of each sample under its own name."""
    k = gen.few(rng, 1, 4, 0.1, 20)
    w = decoded(rng, k)
    i2s = bool(case['i'] % 2)
    ext = ['', '.ply', '.npz'][rng.integers(3)]
    if ext and rng.random() < 0.4:
        names = ['%s.v%d%s' % (['shape', 'cat/x', 'a/b.c/y'][rng.integers(3)], i, ext) for i in range(k)]
        mon.ev('names_with_dots')
    else:
        names = ['%s%d%s' % (['shape', 'cat/x', 'a/b/y'][rng.integers(3)], i, ext) for i in range(k)]
    rec = Recorder({'octree_out': w.octree, 'logits': {}, 'signal': None})
    clouds = [gen.make_points(c, gen.normals(rng, c.shape[0]))
              for c in gen.clouds(rng, 4, k, 50, False)[0]]
    img8 = rng.integers(0, 256, (k, 6, 7, 3)).astype(np.uint8)
    img = torch.from_numpy(img8).permute(0, 3, 1, 2).float() / 255
    with scratch() as tmp:
        if i2s:
            s = solver(image2shape.Image2ShapeSolver)
            batch = {'image': img, 'filename': names, 'points': clouds}
        else:
            s = solver([autoencoder.AutoEncoderSolver, completion.CompletionSolver][rng.integers(2)])
            o_in = target(rng, k=k)[0]
            batch = {'octree': o_in, 'filename': names, 'points': clouds}
        s.model, s.logdir = rec, tmp
        with guard(tmp), torch.no_grad():
            s.eval_step(batch)
        got = bound(rec.args, ['image' if i2s else 'octree', 'update_octree'])
        mon.ok(got.get('update_octree') is True, 'not_decoding')
        if i2s:
            mon.equal(got['image'], img, 'eval_image')
        files = sorted(os.path.relpath(os.path.join(r, f), tmp)
                       for r, _, fs in os.walk(tmp) for f in fs)
        stem = [n[:n.rfind('.')] if '.' in n else n for n in names]
        want = sorted(x + e for x in stem for e in ('.img.png' if i2s else '.in.xyz', '.out.xyz'))
        mon.ok(files == want, 'files', '%s, expected %s' % (files, want))
        exp = expected_points(w)
        for i, x in enumerate(stem):
            text = np.loadtxt(os.path.join(tmp, x + '.out.xyz'), ndmin=2)
            mon.close(text.reshape(-1, 6), exp[i], 'output_file', names[i], rtol=1e-5, atol=2e-5)
            if i2s:
                from PIL import Image
                mon.equal(np.array(Image.open(os.path.join(tmp, x + '.img.png'))), img8[i],
                          'image_file', names[i])
            else:
                text = np.loadtxt(os.path.join(tmp, x + '.in.xyz'), ndmin=2)
                mon.close(text, np.c_[N64(clouds[i].points), N64(clouds[i].normals)], 'input_file',
                          names[i], rtol=0, atol=1e-6)
    mon.ev('files', len(files))
    mon.state('files', names, w.sig)


def c33_model(case, rng, mon):
    """Networks of the flags and of the shipped configurations, trained for a step and decoded
    end to end through the solver."""
    kind = ['ae_shapenet', 'completion', 'image2shape'][case['i'] % 3]
    cfg = load_config(kind)
    depth, fd = 4, int(rng.integers(2, 4))
    cfg.MODEL.depth, cfg.MODEL.full_depth = depth, fd
    for part in ('train', 'test'):
        cfg.DATA[part].depth, cfg.DATA[part].full_depth = depth, fd
    cls = {'ae_shapenet': autoencoder.AutoEncoderSolver, 'completion': completion.CompletionSolver,
           'image2shape': image2shape.Image2ShapeSolver}[kind]
    s = solver(cls)
    s.FLAGS = cfg
    torch.manual_seed(int(rng.integers(1 << 30)))
    s.model = s.get_model(cfg.MODEL)
    k = 2
    o, ref, sig, sure, cl, ns, pts, _, _ = target(rng, k=k, depth=depth, fd=fd)
    batch = {'octree': o, 'filename': ['p%d' % i for i in range(k)], 'points': pts}
    if kind == 'completion':
        batch['octree_gt'] = o
        batch['octree'] = target(rng, k=k, depth=depth, fd=fd)[0]
    if kind == 'image2shape':
        batch['image'] = torch.rand(k, 3, 64, 64)
    s.model.train()
    out = s.train_step(batch)
    names = {'train/%s_%d' % (n, d) for n in ('loss', 'accu') for d in range(fd, depth + 1)}
    mon.ok(set(out) == names | {'train/loss_reg', 'train/loss'}, 'real.names', str(sorted(out)))
    mon.ok(all(np.isfinite(float(v)) for v in out.values()), 'real.finite')
    out['train/loss'].backward()
    dead = [n for n, p in s.model.named_parameters() if p.grad is None]
    mon.ok(not dead, 'real.untrained', str(dead[:4]))
    s.model.eval()
    with scratch() as tmp:
        s.logdir = tmp
        with guard(tmp), torch.no_grad():
            s.eval_step(batch)
        for i in range(k):
            p = np.loadtxt(os.path.join(tmp, 'p%d.out.xyz' % i), ndmin=2)
            mon.ok(p.size == 0 or p.shape[1] == 6, 'real.output')
            if p.size:
                ln = np.linalg.norm(p[:, 3:], axis=1)
                mon.ok((np.abs(ln - 1) < 1e-3).all() or (ln < 1e-3).any(), 'real.normals')
    # every setting of the network reaches it
    if kind != 'image2shape':
        feature = ['N', 'D', 'L', 'ND', 'NDL', 'NDP'][rng.integers(6)]
        width = sum({'N': 3, 'D': 1, 'L': 3, 'P': 3}[f] for f in feature)
        cfg.MODEL.feature, cfg.MODEL.channel = feature, width
    cout = int(rng.integers(1, 8))
    cfg.MODEL['nout' if kind == 'completion' else 'channel_out'] = cout
    net = s.get_model(cfg.MODEL).eval()
    with torch.no_grad():
        mo = net(*([torch.rand(k, 3, 64, 64)] if kind == 'image2shape' else []) + [batch['octree']],
                 **({'octree_out': o, 'update_octree': False} if kind == 'completion' else
                    {'update_octree': False}))
    mon.ok(mo['signal'].shape == (int((o if kind == 'completion' else batch['octree']).nnum_nempty[depth]), cout),
           'real.settings', '%s %s' % (kind, tuple(mo['signal'].shape)))
    mon.ok(sorted(mo['logits']) == list(range(fd, depth + 1)), 'real.settings', kind)
    mon.ev('real_networks')
    mon.state('real', kind, fd, case['i'])


def c33_flow(case, rng, mon):
    name = ['ae_shapenet', 'completion', 'image2shape'][case['i'] % 3]
    mode = ['train', 'test'][rng.integers(2)]
    cls = {'ae_shapenet': autoencoder.AutoEncoderSolver, 'completion': completion.CompletionSolver,
           'image2shape': image2shape.Image2ShapeSolver}[name]
    s, batch, mo, out, labels = flow(rng, mon, name, cls, mode)
    o = batch['octree_gt' if name == 'completion' else 'octree']
    depth, fd = s.FLAGS.MODEL.depth, s.FLAGS.MODEL.full_depth
    mon.ok((o.depth, o.full_depth, o.batch_size) == (depth, fd, len(labels)), 'flow.octree')
    mon.ok(sorted(mo['logits']) == list(range(fd, depth + 1)), 'flow.levels')
    for d, l in mo['logits'].items():
        x, y = N64(l), (to_np(o.children[d]) >= 0).astype(np.int64)
        mon.close(out['loss_%d' % d], cross_entropy(x, y), 'flow.loss', name, rtol=1e-3, atol=1e-4)
        mon.close(out['accu_%d' % d], (x.argmax(1) == y).mean(), 'flow.accu', name, rtol=1e-4,
                  atol=1e-5)
    mon.close(out['loss'], sum(v for k, v in out.items() if k.startswith('loss_')), 'flow.total',
              name, rtol=1e-3, atol=1e-4)


KINDS['C33'] = {'loss': (c33_loss, 60, 900), 'points': (c33_points, 60, 900),
                'files': (c33_files, 24, 300), 'flow': (c33_flow, 3, 30), 'model': (c33_model, 3, 36)}
INFO['C33'] = {'events': ['flows.ae_shapenet', 'flows.completion', 'flows.image2shape', 'losses', 'regression_losses', 'gradients', 'tasks.ae', 'tasks.completion',
                          'tasks.i2s', 'point_clouds', 'files', 'deep_targets', 'names_with_dots', 'real_networks'],
               'mult': (10, 60),
               'rule': 'Non-trivial: predicted logits and signals, decoded octrees with signals.',
               'assumptions': ['.cuda() of tensors, octrees and clouds is replaced by the identity']}
