"""C35: the offline tools (checkpoint tools, data preparation, merging of predictions)."""
import contextlib
import io
import json
import math
import os
import shutil
import sys
import types
import zipfile

import numpy as np
import torch

from .. import gen
from ..core import to_np, REPO
from ..sandbox import guard, scratch, project_path
from .data import write_ply, columns, unit, KITTI_RAW  # noqa: F401

import ocnn
from plyfile import PlyData, PlyElement

KINDS, INFO = {}, {}
project_path()


def N64(x):
    return to_np(x).astype(np.float64)


class Miniball:
    """Stands for the package cyminiball, which is not installed: an enclosing ball."""

    def __init__(self):
        self.calls, self.valid = [], True

    def compute(self, points, details=False):
        p = np.asarray(points, np.float64)
        c = p.mean(0)
        for i in range(1, 200):
            c = c + (p[((p - c) ** 2).sum(1).argmax()] - c) / (i + 1)
        r2 = ((p - c) ** 2).sum(1).max()
        self.calls.append((p.copy(), c, r2, self.valid))
        return (c, r2, {'is_valid': self.valid}) if details else (c, r2)


def tool(root, name, argv, main=True, folder='tools', cwd=None, stubs=None):
    """Runs a tool of /repo as a program whose project folder is root/projects, so that its
    data folders are inside the scratch folder.  Returns (globals, stdout)."""
    src = os.path.join(REPO, 'projects', folder, name + '.py')
    path = os.path.join(root, 'projects', folder, name + '.py')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    shutil.copyfile(src, path)
    code = compile(open(src).read(), src, 'exec')
    g = {'__name__': '__main__' if main else name, '__file__': path, '__builtins__': __builtins__}
    out, argv0, cwd0 = io.StringIO(), sys.argv, os.getcwd()
    saved = {k: sys.modules.get(k) for k in (stubs or {})}
    sys.argv = [path] + [str(a) for a in argv]
    sys.modules.update(stubs or {})
    try:
        os.chdir(cwd or root)
        with guard(root), contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            exec(code, g)
    finally:
        os.chdir(cwd0)
        sys.argv = argv0
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return g, out.getvalue()


def call(root, g, fn, *args, **kw):
    """A function of a loaded tool, guarded."""
    cwd0 = os.getcwd()
    try:
        os.chdir(root)
        with guard(root), contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            return g[fn](*args, **kw)
    finally:
        os.chdir(cwd0)


def tree(root):
    return sorted(os.path.relpath(os.path.join(r, f), root)
                  for r, _, fs in os.walk(root) for f in fs)


def put(path, data=b''):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode())


def get(path):
    with open(path, 'rb') as f:
        return f.read()


def vertex(path):
    return PlyData.read(path)['vertex']


# --------------------------------------------------------------------------- checkpoints

def c35_upgrade(case, rng, mon):
    old, want = {}, {}
    t = lambda *s: torch.from_numpy(rng.normal(size=s)).float()
    mods = ['conv1', 'downsample.%d', 'upsample.%d', 'decoder.%d.upsample', 'header.downsample%d', 'encoder.0.resblks.%d.conv3x3a', 'decoder.%d.conv3x3b']
    for j in range(int(rng.integers(1, 8))):
        m = mods[rng.integers(len(mods))]
        m = m % j if '%' in m else '%s.%d' % (m, j)
        k = 8 if 'sample' in m else 27
        cin, cout = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        new = t(k, cin, cout)
        key = m + '.conv.weights'
        old[key] = new.permute(2, 1, 0).reshape(cout, cin * k) if rng.random() < 0.7 else \
            new.permute(2, 1, 0).reshape(cout, cin, k).contiguous()
        want[key] = new
        for n, v in (('weight', t(cout)), ('bias', t(cout)), ('running_mean', t(cout)),
                     ('running_var', t(cout).abs()), ('num_batches_tracked', torch.tensor(int(rng.integers(99))))):
            old['%s.bn.%s' % (m, n)] = want['%s.bn.%s' % (m, n)] = v
    for j in range(int(rng.integers(1, 4))):
        a, b = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        w = t(a, b)
        if rng.random() < 0.5:
            old['header.%d.conv1x1.conv1x1.weight' % j] = w.unsqueeze(2)
            want['header.%d.conv.linear.weight' % j] = w
        else:
            old['header.%d.conv1x1.weight' % j] = w.unsqueeze(2)
            want['header.%d.linear.weight' % j] = w
            old['header.%d.conv1x1.bias' % j] = want['header.%d.linear.bias' % j] = t(a)
    keys = [list(old)[i] for i in rng.permutation(len(old))]
    with scratch() as tmp:
        name = os.path.join(tmp, 'ckpt.v1', 'unet.pth')
        os.makedirs(os.path.dirname(name))
        torch.save({k: old[k] for k in keys}, name)
        before = get(name)
        tool(tmp, 'upgrade_ckpt', [name])
        mon.ok(get(name) == before, 'upgrade.input_changed')
        out = torch.load(os.path.join(tmp, 'ckpt.v1', 'unet.upgrade.pth'))
    mon.ok(set(out) == set(want), 'upgrade.names', str(sorted(set(out) ^ set(want))))
    for k in want:
        mon.equal(out[k], want[k], 'upgrade.values', k)
    mon.ev('tensors_upgraded', len(want))
    mon.state('upgrade', sorted(want), [tuple(v.shape) for v in want.values()])


def c35_upgrade_model(case, rng, mon):
    """A network in the old layout loads after the upgrade."""
    m = ocnn.models.SegNet(3, 4, 2, nempty=True) if case['i'] % 2 else \
        ocnn.models.LeNet(3, 4, 3, nempty=False)
    want = m.state_dict()
    old = {}
    for k, v in want.items():
        if k.endswith('conv.weights'):
            k8 = v.shape[0]
            # the tool tells 2x2x2 kernels by the names of the layers
            if k8 != (8 if 'downsample' in k or 'upsample' in k else 27):
                continue
            old[k] = v.permute(2, 1, 0).reshape(v.shape[2], -1)
        else:
            old[k] = v
    with scratch() as tmp:
        name = os.path.join(tmp, 'm.pth')
        torch.save(old, name)
        tool(tmp, 'upgrade_ckpt', [name])
        out = torch.load(os.path.join(tmp, 'm.upgrade.pth'))
    mon.ok(set(out) == set(old), 'upgrade_model.names')
    for k in out:
        mon.equal(out[k], want[k], 'upgrade_model.values', k)
    mon.ev('tensors_upgraded', len(out))
    mon.state('upgrade_model', case['i'])


def c35_parse(case, rng, mon):
    names = ['conv1.weight', 'conv1.bias', 'head.conv1.weight', 'bn.num', 'head.fc', 'x']
    ck = {str(n): torch.zeros([int(v) for v in rng.integers(1, 6, int(rng.integers(0, 4)))])
          for n in rng.permutation(names)[:int(rng.integers(1, 7))]}
    skips = [['head'], ['conv1', 'bn'], ['nothing'], [], ['weight', 'fc']][rng.integers(5)]
    with scratch() as tmp:
        torch.save(ck, os.path.join(tmp, 'a.pth'))
        argv = ['--ckpt', os.path.join(tmp, 'a.pth')] + (['--skips'] + skips if skips else [])
        _, out = tool(tmp, 'parse_ckpt', argv)
    want, tot = [], 0
    for n, v in ck.items():
        if any(s in n for s in skips):
            continue
        size = int(np.prod(v.shape))
        want.append('%d, %s, [%s], %d' % (len(want), n, '; '.join(map(str, v.shape)), size))
        tot += size
    lines = [l.replace('.0', '') for l in out.strip().split('\n')]
    mon.ok(lines == want + ['Total parameters: %d' % tot], 'parse', '%s, expected %s' % (lines, want))
    mon.ev('variables_listed', len(want))
    mon.state('parse', want)


def c35_cleanup(case, rng, mon):
    with scratch() as tmp:
        root = os.path.join(tmp, 'logs')
        keep, gone = set(), set()
        for c in range(int(rng.integers(1, 4))):
            for r in range(int(rng.integers(1, 4))):
                base = os.path.join('cat%d' % c, 'ratio_%d' % r)
                put(os.path.join(root, base, 'log.csv'), 'x')
                keep.add(os.path.join(base, 'log.csv'))
                if rng.random() < 0.2:
                    continue                                  # no checkpoints here
                os.makedirs(os.path.join(root, base, 'checkpoints'))
                n = int(rng.integers(0, 6))
                fs = sorted('%05d.%s' % (e, x) for e in rng.permutation(20)[:n] * 10
                            for x in ('model.pth', 'solver.tar'))
                if rng.random() < 0.2:
                    fs = fs[:1]
                order = [fs[i] for i in rng.permutation(len(fs))]
                for f in order:
                    put(os.path.join(root, base, 'checkpoints', f), f)
                for i, f in enumerate(fs):
                    (keep if len(fs) == 1 or i == len(fs) - 2 else gone).add(
                        os.path.join(base, 'checkpoints', f))
        put(os.path.join(root, 'summary.csv'), 's')
        put(os.path.join(root, 'cat0', 'notes.txt'), 's')
        put(os.path.join(tmp, 'other', 'checkpoints', '00001.model.pth'), 's')
        keep |= {'summary.csv', 'cat0/notes.txt'}
        tool(tmp, 'cleanup_ckpt', [root])
        mon.ok(set(tree(root)) == keep, 'cleanup', 'wrongly removed %s, wrongly kept %s' % (
            sorted(keep - set(tree(root))), sorted(set(tree(root)) - keep)))
        mon.ok(tree(os.path.join(tmp, 'other')) == ['checkpoints/00001.model.pth'], 'cleanup.other')
        for f in keep:
            if 'checkpoints' in f:
                mon.ok(get(os.path.join(root, f)).decode() == os.path.basename(f), 'cleanup.content')
    mon.ev('checkpoints_removed', len(gone))
    mon.ev('files_kept', len(keep))
    mon.state('cleanup', sorted(keep), sorted(gone))


# --------------------------------------------------------------------------- data preparation

def c35_ply(case, rng, mon):
    import utils as tool_utils
    n = int(rng.integers(1, 80))
    p, nn = rng.normal(size=(n, 3)) * 10, unit(rng, n)
    col, lab = rng.integers(0, 256, (n, 3)), rng.integers(0, 256, (n, 1))
    on, oc, ol, text = [bool(rng.integers(2)) for _ in range(4)]
    with scratch() as tmp:
        f = os.path.join(tmp, 'a', 'b.ply')
        if rng.random() < 0.5:
            os.makedirs(os.path.dirname(f))
        with guard(tmp):
            tool_utils.save_points_to_ply(f, p, nn if on else None, col if oc else None,
                                          lab if ol else None, text)
        v = vertex(f)
        names = list('xyz') + ['nx', 'ny', 'nz'] * on + ['red', 'green', 'blue'] * oc + ['label'] * ol
        mon.ok([q.name for q in v.properties] == names, 'ply.properties')
        for i, a in enumerate('xyz'):
            mon.close(v[a], p[:, i].astype(np.float32), 'ply.points', rtol=1e-5)
        if on:
            for i, a in enumerate(['nx', 'ny', 'nz']):
                mon.close(v[a], nn[:, i], 'ply.normals', rtol=1e-5)
        if oc:
            for i, a in enumerate(['red', 'green', 'blue']):
                mon.equal(v[a], col[:, i], 'ply.colors')
        if ol:
            mon.equal(v['label'], lab[:, 0], 'ply.labels')
        mon.ok((b'ascii' in get(f)[:40]) == text, 'ply.format')
    mon.ev('clouds_saved')
    mon.state('ply', p, on, oc, ol)


def c35_kitti(case, rng, mon):
    with scratch() as tmp:
        root = os.path.join(tmp, 'data')
        os.makedirs(root)
        names = {}
        zs = {k: zipfile.ZipFile(os.path.join(root, 'data_odometry_%s.zip' % k), 'w')
              for k in ('labels', 'velodyne')}
        for s in range(22):
            seq = '%02d' % s
            ids = sorted(int(v) for v in rng.permutation(40)[:int(rng.integers(1, 5))])
            names[seq] = ['dataset/sequences/%s/velodyne/%06d.bin' % (seq, i) for i in ids]
            for i in [ids[j] for j in rng.permutation(len(ids))]:
                zs['velodyne'].writestr('dataset/sequences/%s/velodyne/%06d.bin' % (seq, i), b'%d' % i)
                if s < 11:
                    zs['labels'].writestr('dataset/sequences/%s/labels/%06d.label' % (seq, i), b'l')
        for z in zs.values():
            z.close()
        tool(tmp, 'seg_kitti', ['--root_folder', root])
        seqs = {'val': ['08'], 'test': ['%02d' % s for s in range(11, 22)],
                'train': ['%02d' % s for s in range(11) if s != 8]}
        seqs['train_val'] = seqs['train'] + ['08']
        for k, ss in seqs.items():
            lines = open(os.path.join(root, k + '.txt')).read().split('\n')
            mon.ok(lines[-1] == '' and lines[:-1] == [n + ' 0' for s in ss for n in names[s]],
                   'kitti.filelist', k)
        for n in names['08']:
            mon.ok(get(os.path.join(root, n)).decode() == str(int(n[-10:-4])), 'kitti.unzip')
        mon.ok(os.path.exists(os.path.join(root, names['00'][0].replace('velodyne', 'labels')
                                           .replace('.bin', '.label'))), 'kitti.unzip_labels')
    mon.ev('file_lists', 4)
    mon.state('kitti', names)


SHAPENET = ['02691156', '02773838', '02954340', '02958343', '03001627', '03261776', '03467517',
            '03624134', '03636649', '03642806', '03790512', '03797390', '03948459', '04099429',
            '04225987', '04379243']
PARTS = [4, 2, 2, 4, 4, 3, 3, 2, 4, 2, 6, 2, 3, 3, 3, 3]


def c35_shapenet(case, rng, mon):
    with scratch() as tmp:
        root = os.path.join(tmp, 'projects/data/shapenet_segmentation')
        txt = os.path.join(root, 'shapenetcore_partanno_segmentation_benchmark_v0_normal')
        data, off = {}, 0
        for i, c in enumerate(SHAPENET):
            os.makedirs(os.path.join(txt, c))
            for j in range(int(rng.integers(1, 3))):
                n = int(rng.integers(2, 12))
                lab = rng.integers(0, PARTS[i], n)
                raw = np.c_[rng.normal(size=(n, 3)), unit(rng, n), lab + off]
                name = 'f%03x_%d' % (int(rng.integers(1 << 12)), j)
                np.savetxt(os.path.join(txt, c, name + '.txt'), raw, fmt='%.6f')
                data[c + '/' + name] = (raw, lab)
            off += PARTS[i]
        split = {'train': [], 'val': [], 'test': []}
        for k in data:
            split[['train', 'val', 'test'][rng.integers(3)]].append(k)
        for k in split:
            split[k] = [split[k][i] for i in rng.permutation(len(split[k]))]
            put(os.path.join(txt, 'train_test_split', 'shuffled_%s_file_list.json' % k),
                json.dumps(['shape_data/' + s for s in split[k]]))
        tool(tmp, 'seg_shapenet', ['--run', 'txt_to_ply'])
        tool(tmp, 'seg_shapenet', ['--run', 'generate_filelist'])
        mon.ok(tree(os.path.join(root, 'points')) == sorted(k + '.ply' for k in data), 'shapenet.files')
        for k, (raw, lab) in data.items():
            v = vertex(os.path.join(root, 'points', k + '.ply'))
            mon.close(np.stack([v[a] for a in ('x', 'y', 'z', 'nx', 'ny', 'nz')], 1), raw[:, :6],
                      'shapenet.values', k, rtol=1e-5, atol=1e-5)
            mon.equal(v['label'], lab, 'shapenet.labels', k)
        for i, c in enumerate(SHAPENET):
            for k, parts in (('train_val', ['train', 'val']), ('test', ['test'])):
                got = open(os.path.join(root, 'filelist', '%s_%s.txt' % (c, k))).read().split('\n')
                want = ['%s.ply %d' % (s, i) for q in parts for s in split[q] if s.startswith(c)]
                mon.ok([g for g in got if g] == want, 'shapenet.filelist', '%s %s' % (c, k))
    mon.ev('files_converted', len(data))
    mon.ev('file_lists', 32)
    mon.state('shapenet', sorted(data))


I2S = ['02691156', '02828884', '02933112', '02958343', '03001627', '03211117', '03636649',
       '03691459', '04090263', '04256520', '04379243', '04401088', '04530566']


class Sampler:
    """Records what trimesh.sample.sample_surface was given and returned."""

    def __enter__(self):
        import trimesh.sample
        self.mod, self.orig, self.calls = trimesh.sample, trimesh.sample.sample_surface, []

        def f(mesh, count, *a, **k):
            r = self.orig(mesh, count, *a, **k)
            self.calls.append((mesh.copy(), count, np.array(r[0]), np.array(r[1])))
            return r
        trimesh.sample.sample_surface = f
        return self

    def __exit__(self, *_):
        self.mod.sample_surface = self.orig


def rnd_mesh(rng):
    import trimesh
    k = rng.integers(3)
    m = [lambda: trimesh.creation.box(extents=rng.uniform(0.3, 2, 3)),
         lambda: trimesh.creation.icosphere(subdivisions=1, radius=float(rng.uniform(0.3, 2))),
         lambda: trimesh.creation.cylinder(0.5, 1.5, sections=7)][k]()
    m.apply_translation(rng.uniform(-1, 1, 3))
    return m


def on_mesh(points, normals, v, f):
    """Every point lies on a triangle whose normal it carries."""
    tri = v[f]
    nf = np.cross(tri[:, 1] - tri[:, 0], tri[:, 2] - tri[:, 0])
    nf /= np.linalg.norm(nf, axis=1, keepdims=True)
    same = (normals[:, None] * nf[None]).sum(-1) > 1 - 1e-4
    plane = np.abs(((points[:, None] - tri[None, :, 0]) * nf[None]).sum(-1)) < 1e-4
    ins = np.ones_like(plane)
    for i in range(3):
        e = tri[:, (i + 1) % 3] - tri[:, i]
        c = np.cross(np.broadcast_to(e, (points.shape[0],) + e.shape), points[:, None] - tri[None, :, i])
        ins &= (c * nf[None]).sum(-1) > -1e-4
    return (same & plane & ins).any(1)


def c35_image2shape(case, rng, mon):
    with scratch() as tmp:
        root = os.path.join(tmp, 'projects/data/ShapeNetV1')
        meshes = {}
        for c in I2S:
            os.makedirs(os.path.join(root, 'shapenet.mesh', c))
            os.makedirs(os.path.join(root, 'renderings', c))
            for j in range(int(rng.integers(0, 4))):
                m, name = rnd_mesh(rng), '%s/s%d.%d' % (c, j, case['i'])
                m.export(os.path.join(root, 'shapenet.mesh', name + '.obj'))
                meshes[name] = m
        num = int(rng.integers(5, 40))
        with Sampler() as s:
            tool(tmp, 'image2shape', ['--run', 'mesh2points', '--sample_num', num])
        mon.ok(len(s.calls) == len(meshes), 'i2s.meshes')
        mon.ok(tree(os.path.join(root, 'points.ply')) == sorted(k + '.ply' for k in meshes), 'i2s.files')
        pts = {}
        for k, m in meshes.items():
            v = vertex(os.path.join(root, 'points.ply', k + '.ply'))
            a = np.stack([v[q] for q in ('x', 'y', 'z', 'nx', 'ny', 'nz')], 1).astype(np.float64)
            mon.ok(a.shape[0] == num, 'i2s.number')
            mon.ok(on_mesh(a[:, :3], a[:, 3:], np.array(m.vertices), np.array(m.faces)).all(),
                   'i2s.surface', k)
            pts[k] = a
        tool(tmp, 'image2shape', ['--run', 'ply2npz'])
        mon.ok(tree(os.path.join(root, 'points.npz')) == sorted(k + '.npz' for k in meshes), 'i2s.npz')
        for k, a in pts.items():
            z = np.load(os.path.join(root, 'points.npz', k + '.npz'))
            mon.equal(z['points'], a[:, :3].astype(np.float32).astype(np.float16), 'i2s.half_points')
            mon.equal(z['normals'], a[:, 3:].astype(np.float32).astype(np.float16), 'i2s.half_normals')
        have = [k for k in meshes if rng.random() < 0.8]
        for k in have:
            os.makedirs(os.path.join(root, 'renderings', k))
        os.makedirs(os.path.join(root, 'renderings', I2S[0], 'no_points'))
        tool(tmp, 'image2shape', ['--run', 'create_filelist'])
        train, test = [], []
        for c in I2S:
            f = sorted(k for k in have if k.startswith(c))
            n = int(len(f) * 0.8)
            train, test = train + f[:n], test + f[n:]
        for k, want in (('train', train), ('test', test)):
            t = open(os.path.join(root, 'filelist', 'image2shape.%s.txt' % k)).read()
            mon.ok([x for x in t.split('\n') if x] == want, 'i2s.filelist', k)
    mon.ev('meshes_sampled', len(meshes))
    mon.ev('files_converted', len(meshes))
    mon.ev('file_lists', 2)
    mon.state('i2s', sorted(meshes), have, num)


def c35_ae(case, rng, mon):
    with scratch() as tmp:
        root = os.path.join(tmp, 'projects/data/ae_shapenet')
        data = {}
        for pre in ('shape', 'test.scans'):
            for j in range(int(rng.integers(1, 5))):
                n = int(rng.integers(1, 30))
                d = {'points': rng.normal(size=(n, 3)).astype(np.float32), 'normals': unit(rng, n)}
                name = 'c%d/m.%d' % (j % 2, j)
                write_ply(os.path.join(root, pre + '.ply', name + '.ply'), columns(d), rng, text=False)
                data[pre, name] = d
            put(os.path.join(root, pre + '.ply', 'c0', 'readme.txt'), 'x')
        lists = {}
        for f in ('filelist_test', 'filelist_train', 'filelist_test_scans'):
            lists[f] = ['c%d/m%d' % (i, rng.integers(100)) for i in range(int(rng.integers(1, 6)))]
            put(os.path.join(root, f + '.txt'),
                ''.join('%s.points %d\n' % (s, i) for i, s in enumerate(lists[f])))
        tool(tmp, 'ae_shapenet', ['--run', 'convert_ply_to_numpy'])
        tool(tmp, 'ae_shapenet', ['--run', 'create_filelist'])
        for (pre, name), d in data.items():
            z = np.load(os.path.join(root, pre + '.npz', name + '.npz'))
            mon.equal(z['points'], d['points'], 'ae.points')
            mon.equal(z['normals'], d['normals'], 'ae.normals')
            mon.ok(z['points'].dtype == np.float32, 'ae.dtype')
        got = [k for k in tree(root) if '.npz/' in k]
        mon.ok(got == sorted('%s.npz/%s.npz' % k for k in data), 'ae.files', str(got))
        for f, names in lists.items():
            for suf in ('.npz', '.ply'):
                t = open(os.path.join(root, f + suf + '.txt')).read()
                mon.ok(t == ''.join('%s%s %d\n' % (s, suf, i) for i, s in enumerate(names)),
                       'ae.filelist', f + suf)
    mon.ev('files_converted', len(data))
    mon.ev('file_lists', 6)
    mon.state('ae', [d['points'] for d in data.values()])


def c35_modelnet(case, rng, mon):
    ball = Miniball()
    stub = types.ModuleType('cyminiball')
    stub.compute = ball.compute
    align, norm = bool(rng.integers(2)), bool(rng.integers(3))
    num = int(rng.integers(8, 40))
    with scratch() as tmp:
        root = os.path.join(tmp, 'projects/data/ModelNet40')
        src = os.path.join(root, 'ModelNet40')
        cats = ['airplane', 'car', 'cone', 'laptop'] + ['z%02d' % i for i in range(36)]
        meshes, broken = {}, 0
        for c in cats:
            for sub in ('train', 'test'):
                os.makedirs(os.path.join(src, c, sub))
                for j in range(2 if c[0] == 'a' or rng.random() < 0.1 else 1):
                    m, name = rnd_mesh(rng), '%s/%s/%s_%04d' % (c, sub, c, 10 * j + 1)
                    text = m.export(file_type='off')
                    text = text if isinstance(text, str) else text.decode()
                    if rng.random() < 0.3:
                        text, broken = 'OFF' + text[4:], broken + 1     # the known flaw of the data
                    put(os.path.join(src, name + '.off'), text)
                    meshes[name] = m
        for n in ('cone/train/cone_0117', 'laptop/train/laptop_0104'):
            put(os.path.join(src, n + '.off'), 'OFF\n0 0 0\n')
        put(os.path.join(src, 'car/train/notes.txt'), 'x')
        os.makedirs(os.path.join(root, 'flags'))
        ball.valid = bool(rng.random() < 0.8)
        opts = ['--sample_num', num, '--align_y', ['false', 'True'][align],
                '--normalize', ['False', 'true'][norm]]
        with Sampler() as s:
            tool(tmp, 'cls_modelnet', ['--run', 'convert_mesh_to_points'] + opts,
                 stubs={'cyminiball': stub})
        sub = 'ModelNet40.ply' + '.y' * align + '.normalize' * norm
        order = [k for t in ('train', 'test') for k in sorted(meshes) if '/%s/' % t in k]
        mon.ok(tree(os.path.join(root, sub)) == sorted(k + '.ply' for k in meshes), 'modelnet.files')
        mon.ok(len(s.calls) == len(meshes) and len(ball.calls) == len(meshes) * norm, 'modelnet.calls')
        for i, k in enumerate(order):
            mesh, count, p, idx = s.calls[i]
            v = np.array(meshes[k].vertices)
            if align:
                v = np.stack([v[:, 1], v[:, 2], v[:, 0]], 1)
            o = lambda x: x[np.lexsort(np.round(x, 4).T)]
            mon.close(o(np.array(mesh.vertices)), o(v), 'modelnet.mesh', k, rtol=1e-4, atol=1e-4)
            nrm = np.array(mesh.face_normals)[idx]
            if norm:
                c = (p.min(0) + p.max(0)) / 2
                p = (p - c) / (np.ptp(p, 0).max() / 2 + 1e-6)
                q, c, r2, ok = ball.calls[i]
                mon.close(q, p, 'modelnet.box', k, rtol=1e-6, atol=1e-6)
                if ok:
                    p = (p - c) / np.sqrt(r2)
            a = vertex(os.path.join(root, sub, k + '.ply'))
            a = np.stack([a[x] for x in ('x', 'y', 'z', 'nx', 'ny', 'nz')], 1)
            mon.ok(count == num and a.shape[0] == num, 'modelnet.number')
            mon.close(a, np.c_[p, nrm], 'modelnet.points', k, rtol=1e-5, atol=1e-5)
        g, _ = tool(tmp, 'cls_modelnet', ['--run', 'generate_points_filelist'] + opts,
                    stubs={'cyminiball': stub})
        for t in ('train', 'test'):
            for ratio in [None, 0.01, 0.02, 0.05, 0.1, 0.2, 0.5, 1.0]:
                name = 'm40_%s.txt' % t if ratio is None else 'm40_%.02f_%s.txt' % (ratio, t)
                path = os.path.join(root, 'filelist', name)
                if t == 'test' and ratio is not None and ratio < 1:
                    mon.ok(not os.path.exists(path), 'modelnet.filelist_extra', name)
                    continue
                want = []
                for j, c in enumerate(sorted(cats)):
                    f = sorted(k for k in meshes if k.startswith('%s/%s/' % (c, t)))
                    f = f[:math.ceil(len(f) * (ratio or 1.0))]
                    want += ['%s.ply %d' % (k, j) for k in f]
                got = open(path).read().split('\n')
                mon.ok(got[-1] == '' and got[:-1] == want, 'modelnet.filelist', name)
        # moving a kind of files
        des = os.path.join(tmp, 'moved')
        call(tmp, g, 'move_files', os.path.join(root, sub), des, '.ply')
        mon.ok(tree(des) == sorted(k + '.ply' for k in meshes) and tree(os.path.join(root, sub)) == [],
               'modelnet.move')
    mon.ev('meshes_sampled', len(meshes))
    mon.ev('headers_repaired', broken)
    mon.ev('file_lists', 10)
    mon.state('modelnet', sorted(meshes), align, norm, num)


# --------------------------------------------------------------------------- scannet

CLASS20 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 24, 28, 33, 34, 36, 39]


def write_mesh(path, v, f, props, rng):
    """props: list of (name, values, type)."""
    a = np.empty(v.shape[0], dtype=[('x', 'f4'), ('y', 'f4'), ('z', 'f4')] + [(n, t) for n, _, t in props])
    for i, n in enumerate('xyz'):
        a[n] = v[:, i]
    for n, x, _ in props:
        a[n] = x
    b = np.empty(f.shape[0], dtype=[('vertex_indices', 'i4', (3,))])
    b['vertex_indices'] = f
    os.makedirs(os.path.dirname(path), exist_ok=True)
    PlyData([PlyElement.describe(a, 'vertex'), PlyElement.describe(b, 'face')]).write(path)


def scan(rng):
    m = rnd_mesh(rng)
    small = 1.0 if rng.random() < 0.5 else float(10 ** rng.uniform(-1.7, -0.5))   # triangles of scans
    v, f = np.array(m.vertices * small, np.float32), np.array(m.faces)
    extra = rng.uniform(-1, 1, (3, 3)).astype(np.float32)           # vertices without a face
    return np.concatenate([v, extra]), f


def normals_of(v, f):
    v = v.astype(np.float64)
    n = np.zeros_like(v)
    c = np.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]]) / 2
    for i in range(3):
        np.add.at(n, f[:, i], c)
    ln = np.linalg.norm(n, axis=1, keepdims=True)
    return n / np.maximum(ln, 1e-8), ln[:, 0] > 1e-4


def c35_scannet(case, rng, mon):
    s200, align = bool(case['i'] % 2), bool(rng.integers(2))
    ext = ['.ply', '.npz'][rng.integers(2)]
    with scratch() as tmp:
        pin, pout = os.path.join(tmp, 'raw'), os.path.join(tmp, 'out')
        g, _ = tool(tmp, 'seg_scannet', ['--scannet200'] if s200 else [], main=False)
        ids = list(g['class_ids200']) if s200 else CLASS20
        mon.ok(list(g['class_ids']) == ids, 'scannet.classes')
        with zipfile.ZipFile(os.path.join(tmp, 'l.zip'), 'w') as z:
            z.writestr('scannetv2_val.txt', 'scene.ply 0\n')
        os.makedirs(pout)
        shutil.move(os.path.join(tmp, 'l.zip'), os.path.join(pout, 'filelist.zip'))
        cats = {'cat %d' % i: int(v) for i, v in enumerate(rng.permutation(ids)[:6])}
        cats['odd'] = 1200                                            # an id without a class
        put(os.path.join(pout, 'scannetv2-labels.combined.tsv'),
            'id\traw_category\n' + ''.join('%d\t%s\n' % (v, k) for k, v in cats.items()))
        scenes = {}
        for part, folder in (('train', 'scans'), ('test', 'scans_test')):
            os.makedirs(os.path.join(pin, folder))
            for j in range(int(rng.integers(1, 4))):
                sid = 'scene%04d_0%d' % (rng.integers(1000), j)
                v, f = scan(rng)
                n = v.shape[0]
                col = rng.integers(0, 256, (n, 3))
                base = os.path.join(pin, folder, sid, sid)
                rgba = [(c, col[:, i], 'u1') for i, c in enumerate(['red', 'green', 'blue'])] + \
                    [('alpha', np.full(n, 255), 'u1')]
                write_mesh(base + '_vh_clean_2.ply', v, f, rgba, rng)
                a = rng.uniform(0, 6.28)
                A = np.eye(4)
                A[:2, :2] = [[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]
                A[:3, 3] = rng.uniform(-2, 2, 3)
                put(base + '.txt', 'colorHeight = 968\naxisAlignment = %s \nnumDepthFrames = 5\n' %
                    ' '.join('%f' % x for x in A.reshape(-1)))
                A = np.array([float('%f' % x) for x in A.reshape(-1)]).reshape(4, 4)
                lab = None
                if part == 'train' and not s200:
                    lab = rng.integers(0, 41, n)
                    write_mesh(base + '_vh_clean_2.labels.ply', v, f, rgba + [('label', lab, 'u2')], rng)
                elif part == 'train':
                    # segments have arbitrary numbers, some equal in their lower bits
                    sid9 = np.arange(9)
                    if rng.random() < 0.7:
                        sid9 = rng.choice(1 << 14, 9, False) + rng.choice([0, 1 << 15, 1 << 16, 3 << 17], 9)
                        for q in range(0, 8, 2):
                            if rng.random() < 0.6:
                                sid9[q + 1] = sid9[q] + (1 << int(rng.integers(14, 22)))
                        if np.unique(sid9).size < 9:
                            sid9 = np.arange(9) << 15
                    seg = sid9[rng.integers(0, 9, n)]
                    put(base + '_vh_clean_2.0.010000.segs.json', json.dumps({'segIndices': seg.tolist()}))
                    groups, lab = [], np.zeros(n, int)
                    perm = rng.permutation(sid9)
                    for q, name in enumerate(rng.permutation(list(cats) + ['unknown'])[:4]):
                        segs = perm[2 * q:2 * q + 2].tolist()
                        groups.append({'label': str(name), 'segments': segs})
                        c = cats.get(str(name), 0)
                        lab[np.isin(seg, segs)] = c if c in ids else 0
                    put(base + '_vh_clean.aggregation.json', json.dumps({'segGroups': groups}))
                scenes[part + '/' + sid] = (v, f, col, A, lab)
        for v, f, _, _, _ in scenes.values():
            c = np.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]]).astype(np.float64)
            ln = np.linalg.norm(c, axis=1, keepdims=True)
            nf, area = g['face_normal'](v, f)
            ok = ln[:, 0] > 1e-3
            mon.close(nf[ok], (c / np.maximum(ln, 1e-9))[ok], 'scannet.face_normal', rtol=0, atol=1e-4)
            mon.close(area, ln / 2, 'scannet.face_area', rtol=1e-4, atol=1e-6)
        old = None
        if rng.random() < 0.5:                       # a scene that was done before stays
            old = sorted(scenes)[0]
            put(os.path.join(pout, old + ext), 'done')
        argv = ['--path_in', pin, '--path_out', pout, '--suffix_out', ext]
        argv += ['--align_axis'] * align + ['--scannet200'] * s200
        tool(tmp, 'seg_scannet', argv)
        mon.ok(os.path.exists(os.path.join(pout, 'scannetv2_val.txt')), 'scannet.filelist')
        for k, (v, f, col, A, lab) in scenes.items():
            path = os.path.join(pout, k + ext)
            if k == old:
                mon.ok(get(path) == b'done', 'scannet.overwritten')
                continue
            w = v.astype(np.float64)
            if align:
                w = w @ A[:3, :3].T + A[:3, 3]
            nv, sure = normals_of(w, f)
            if ext == '.ply':
                u = vertex(path)
                P = np.stack([u[x] for x in 'xyz'], 1)
                Nn = np.stack([u[x] for x in ('nx', 'ny', 'nz')], 1)
                Cc = np.stack([u[x] for x in ('red', 'green', 'blue')], 1)
                Ll = u['label']
            else:
                u = np.load(path)
                P, Nn, Cc, Ll = u['points'], u['normals'], u['colors'], u['labels']
                mon.ok((P.dtype, Nn.dtype, Cc.dtype, Ll.dtype) == (np.float32,) * 3 + (np.int32,),
                       'scannet.dtypes')
            mon.close(P, w, 'scannet.points', k, rtol=1e-5, atol=1e-5)
            mon.close(np.asarray(Nn)[sure], nv[sure], 'scannet.normals', k, rtol=0, atol=3e-4)
            mon.equal(np.asarray(Cc).astype(int), col, 'scannet.colors', k)
            if lab is not None:
                mon.equal(np.asarray(Ll).astype(int), np.array([ids.index(x) if x in ids else 0 for x in lab]),
                          'scannet.labels', k)
                mon.equal(np.loadtxt(os.path.join(pout, k + '.txt')), lab.astype(float), 'scannet.txt', k)
            else:
                mon.ok(not os.path.exists(os.path.join(pout, k + '.txt')), 'scannet.test_labels')
        mon.ev('scans_converted', len(scenes))
    mon.state('scannet', s200, align, ext, sorted(scenes))


def c35_chunks(case, rng, mon):
    from pathlib import Path
    n = int(rng.integers(4000, 9000)) if rng.random() < 0.3 else int(rng.integers(9000, 30000))
    crop, stride = 1.0, 0.5
    ext = rng.choice([0.75, 1.5, 2.25, 1.0, 1.25, 1.75], 3) * np.array([1, 1, 0.4])
    p = np.round((rng.uniform(0, 1, (n, 3)) * ext + rng.uniform(-3, 2, 3)) * 64) / 64
    pc = np.c_[p, unit(rng, n), rng.integers(0, 256, (n, 3)), rng.integers(0, 21, n)]
    pc[:, 3:6] = np.round(pc[:, 3:6] * 128) / 128
    with scratch() as tmp:
        g, _ = tool(tmp, 'seg_scannet', [], main=False)
        call(tmp, g, 'generate_chunks', Path(tmp) / 'out.ply', pc.astype(np.float32), crop, stride)
        lo, hi = p.min(0), p.max(0)
        want = []
        if ((hi - lo) >= crop).any():
            num = (np.ceil(np.maximum(hi - lo - crop, 0) / stride) + 1).astype(int)
            cover = np.zeros(n, bool)
            for i in range(num[0]):
                for j in range(num[1]):
                    for k in range(num[2]):
                        a = lo + np.array([i, j, k]) * stride
                        m = ((p >= a) & (p <= a + crop)).all(1)
                        cover |= m
                        if m.sum() >= 3000:
                            want.append(m)
            assert cover.all()
        files = [f for f in tree(tmp) if f.startswith('out.')]
        mon.ok(files == sorted('out.chunk_%d.%s' % (c, e) for c in range(len(want))
                               for e in ('ply', 'mask.npy')), 'chunks.files', str(files))
        for c, m in enumerate(want):
            mon.equal(np.load(os.path.join(tmp, 'out.chunk_%d.mask.npy' % c)), m, 'chunks.mask')
            u = vertex(os.path.join(tmp, 'out.chunk_%d.ply' % c))
            a = np.stack([u[x] for x in ('x', 'y', 'z', 'nx', 'ny', 'nz', 'red', 'green', 'blue', 'label')],
                         1)
            mon.equal(a.astype(np.float64), pc[m].astype(np.float32).astype(np.float64), 'chunks.points')
    mon.ev('chunks', len(want))
    mon.state('chunks', p)


def c35_merge(case, rng, mon):
    """Probabilities of scans and of their chunks to labels, and the score of the labels."""
    s200 = bool(rng.integers(2))
    with scratch() as tmp:
        g, _ = tool(tmp, 'seg_scannet', ['--scannet200'] if s200 else [], main=False)
        ids = np.array(g['class_ids200'] if s200 else CLASS20)
        C = len(ids)
        pin, pred, out = [os.path.join(tmp, x) for x in ('in', 'pred', 'out')]
        os.makedirs(pin), os.makedirs(pred)
        lines, total = [], {}
        for s in range(int(rng.integers(1, 4))):
            scan_, n = 'scene%04d_0%d' % (rng.integers(999), s), int(rng.integers(3, 60))
            total[scan_] = np.zeros((n, C))
            whole = rng.random() < 0.5
            if whole:
                p = rng.random((n, C))
                np.savez(os.path.join(pred, scan_ + '.eval.npz'), prob=p)
                total[scan_] += p
                lines.append(scan_)
            if not whole or rng.random() < 0.5:
                for c in rng.permutation(14)[:int(rng.integers(1, 14))]:
                    m = rng.random(n) < 0.5
                    p = rng.random((m.sum(), C))
                    name = '%s.chunk_%d' % (scan_, c)
                    np.savez(os.path.join(pred, name + '.eval.npz'), prob=p)
                    np.save(os.path.join(pin, name + '.mask.npy'), m)
                    total[scan_][m] += p
                    lines.append(name)
        lines = [lines[i] for i in rng.permutation(len(lines))]
        put(os.path.join(tmp, 'list.txt'), ''.join(x + '.ply 0\n' for x in lines))
        opt = ['--scannet200'] * s200
        tool(tmp, 'seg_scannet', ['--run', 'generate_output_seg', '--path_in', pin, '--path_pred', pred,
                                  '--path_out', out, '--filelist', os.path.join(tmp, 'list.txt')] + opt)
        mon.ok(tree(out) == sorted(k + '.txt' for k in total), 'merge.files', str(tree(out)))
        labels = {}
        for k, p in total.items():
            labels[k] = np.loadtxt(os.path.join(out, k + '.txt'), ndmin=1)
            mon.equal(labels[k], ids[p.argmax(1)].astype(float), 'merge.labels', k)
        # score
        ins, uni, acc = np.zeros(C), np.zeros(C), []
        for k, l in labels.items():
            gt = np.where(rng.random(l.shape[0]) < 0.5, l, rng.choice(ids, l.shape[0]))
            gt = np.where(rng.random(l.shape[0]) < 0.2, rng.choice([0, 13, 25], l.shape[0]), gt)
            gt[0] = ids[1]
            np.savetxt(os.path.join(pin, k + '.txt'), gt, fmt='%d')
            m = np.isin(gt, ids[1:])
            acc.append((gt[m] == l[m]).mean())
            for i, c in enumerate(ids):
                ins[i] += ((gt[m] == c) & (l[m] == c)).sum()
                uni[i] += ((gt[m] == c) | (l[m] == c)).sum()
        put(os.path.join(out, 'notes.csv'), 'x')
        _, text = tool(tmp, 'seg_scannet', ['--run', 'calc_iou', '--path_in', pin, '--path_pred', out] + opt)
        val = {l.split(':')[0]: float(l.split(':')[1]) for l in text.split('\n')
               if l.startswith(('Accu:', 'IoU:')) and ',' not in l}
        mon.close(val['Accu'], np.mean(acc), 'score.accuracy', rtol=0, atol=2e-6)
        mon.close(val['IoU'], (ins / (uni + 1e-10))[1:].mean(), 'score.iou', rtol=0, atol=2e-6)
    mon.ev('predictions_merged', len(lines))
    mon.ev('chunk_ids_above_9', sum('chunk_1' in x and len(x.split('chunk_')[1]) == 2 for x in lines))
    mon.ev('scores')
    mon.state('merge', lines, total)


def c35_scripts(case, rng, mon):
    """The driver scripts start the right commands and summarise the right numbers.  os.system
    is replaced by a recorder."""
    cmds = []
    keep = os.system
    os.system = lambda c: cmds.append(c) or 0
    try:
        with scratch() as tmp:
            if case['i'] % 2:
                run = ['train', 'train_all', 'test', 'validate'][rng.integers(4)]
                tool(tmp, 'run_seg_scannet', ['--run', run, '--gpu', '3', '--alias', 'my', '--port', '77'],
                     folder='scripts')
                mon.ok(len(cmds) == {'train': 1, 'train_all': 1, 'test': 2, 'validate': 3}[run],
                       'scripts.number', str(cmds))
                opts = [c.split() for c in cmds]
                for c in opts:
                    mon.ok(c[0] == 'python' and os.path.exists(os.path.join(REPO, 'projects', c[1])),
                           'scripts.program', str(c))
                    for i, w in enumerate(c):
                        if w == '--config':
                            mon.ok(os.path.exists(os.path.join(REPO, 'projects', c[i + 1])),
                                   'scripts.config', str(c))
                val = lambda c, k: c[c.index(k) + 1]
                mon.ok(val(opts[0], 'SOLVER.gpu') == '3,' and val(opts[0], 'SOLVER.alias').endswith('my'),
                       'scripts.options')
                if run in ('test', 'validate'):
                    # the predictions of the first command are the input of the second
                    log = 'logs/scannet/D10_2cm_eval_' + val(opts[0], 'SOLVER.alias')
                    mon.ok(val(opts[1], '--path_pred') == log, 'scripts.link')
                    if run == 'validate':
                        mon.ok(val(opts[2], '--path_pred') == val(opts[1], '--path_out'), 'scripts.link')
                        mon.ok(val(opts[0], 'DATA.test.filelist') == val(opts[1], '--filelist'),
                               'scripts.filelist')
                mon.ev('scripts.scannet')
            else:
                ratios = [0.1, 1.0] if rng.integers(2) else [1.0]
                iou = {}
                names = ['Aero', 'Bag', 'Cap', 'Car', 'Chair', 'EarPhone', 'Guitar', 'Knife', 'Lamp',
                         'Laptop', 'Motor', 'Mug', 'Pistol', 'Rocket', 'Skate', 'Table']
                tests = np.array([341, 14, 11, 153, 693, 14, 159, 80, 285, 78, 51, 38, 41, 12, 31, 842])
                for r in ratios:
                    for c, nm in zip(SHAPENET, names):
                        iou[r, c] = round(float(rng.uniform(0.1, 0.99)), 3)
                        put(os.path.join(tmp, 'logs/seg_shapenet/al/%s_%s/ratio_%.2f/log.csv' % (c, nm, r)),
                            'Epoch: 1, test/mIoU: 0.111, x\nEpoch: 2, test/loss: 0.2, test/mIoU: %.3f, '
                            'test/mIoU_part: 0.5' % iou[r, c])
                tool(tmp, 'run_seg_shapenet', ['--alias', 'al', '--depth', 6, '--ratios'] + ratios,
                     folder='scripts')
                mon.ok(len(cmds) == 16 * len(ratios), 'scripts.number')
                for i, c in enumerate(cmds):
                    k = i % 16
                    w = c.split()
                    val = lambda key: w[w.index(key) + 1]
                    mon.ok(SHAPENET[k] in val('DATA.train.filelist') and SHAPENET[k] in
                           val('DATA.test.filelist') and int(val('MODEL.nout')) == PARTS[k] ==
                           int(val('LOSS.num_class')) and val('DATA.train.depth') == '6' ==
                           val('DATA.test.depth') and val('MODEL.stages') == '4', 'scripts.command', c)
                text = open(os.path.join(tmp, 'logs/seg_shapenet/al/summaries.csv')).read().split('\n')
                for r in ratios:
                    line = [l for l in text if l.startswith('Ratio:%.2f' % r)][0].split(', ')
                    x = np.array([iou[r, c] for c in SHAPENET])
                    mon.close(np.array([float(v) for v in line[1:17]]), x, 'scripts.summary', rtol=0, atol=1e-9)
                    mon.close(np.array([float(v) for v in line[17:19]]),
                              np.array([x.mean(), (x * tests).sum() / tests.sum()]), 'scripts.mean',
                              rtol=0, atol=6e-4)
                mon.ev('scripts.shapenet')
    finally:
        os.system = keep
    mon.ev('commands', len(cmds))
    mon.state('scripts', cmds, case['i'])


class Wget(types.ModuleType):
    """Stands for the network: 'downloads' an archive made by the case."""

    def __init__(self, content):
        super().__init__('wget')
        self.calls, self.content = [], content

    def download(self, url, out=None, bar=None):
        self.calls.append((url, out))
        archive(out, self.content)
        return out


def archive(path, content):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with zipfile.ZipFile(path, 'w') as z:
        for k, v in content.items():
            z.writestr(k, v)


ARCHIVES = [('ae_shapenet', 'download_point_clouds', 'ae_shapenet', 'ae_shapenet.zip', True),
            ('cls_modelnet', 'download_m40', 'ModelNet40', 'ModelNet40.zip', True),
            ('seg_shapenet', 'download_shapenet_segmentation', 'shapenet_segmentation',
             'shapenetcore_partanno_segmentation_benchmark_v0_normal.zip', False)]


def c35_archive(case, rng, mon):
    """Archives are fetched unless they are there, and unpacked into the data folder."""
    name, run, folder, zname, keeps = ARCHIVES[case['i'] % 3]
    content = {'d%d/f%d.txt' % (i % 2, i): 'x' * int(rng.integers(0, 50))
               for i in range(int(rng.integers(1, 6)))}
    stub = types.ModuleType('cyminiball')
    stub.compute = None
    with scratch() as tmp:
        root = os.path.join(tmp, 'projects/data', folder)
        there = bool(rng.integers(2)) and keeps
        if there:
            archive(os.path.join(root, zname), content)
        if rng.random() < 0.5:
            put(os.path.join(root, 'other/kept.txt'), 'k')
        for again in range(2):
            w = Wget(content)
            tool(tmp, name, ['--run', run], stubs={'wget': w, 'cyminiball': stub})
            n = int(not keeps or (not again and not there))
            mon.ok(len(w.calls) == n, 'archive.downloads', '%s: %s' % (name, w.calls))
            for url, out in w.calls:
                mon.ok(os.path.realpath(os.path.join(tmp, out)) ==
                       os.path.realpath(os.path.join(root, zname)), 'archive.place', out)
                mon.ok(url.startswith('http'), 'archive.url', url)
            for k, v in content.items():
                path = os.path.join(root, k)
                mon.ok(os.path.exists(path) and open(path).read() == v, 'archive.unpacked',
                       '%s: %s' % (name, k))
        have = tree(root)
        mon.ok('other/kept.txt' not in have or open(os.path.join(root, 'other/kept.txt')).read() == 'k',
               'archive.others')
        mon.ev('archives_unpacked')
    mon.state('archive', name, sorted(content.items()), there)


KINDS['C35'] = {'archive': (c35_archive, 6, 60), 'upgrade': (c35_upgrade, 12, 200), 'upgrade_model': (c35_upgrade_model, 2, 4),
                'parse': (c35_parse, 12, 200), 'cleanup': (c35_cleanup, 20, 300),
                'ply': (c35_ply, 20, 300), 'kitti': (c35_kitti, 4, 50), 'shapenet': (c35_shapenet, 6, 80),
                'image2shape': (c35_image2shape, 4, 40), 'ae': (c35_ae, 8, 100),
                'modelnet': (c35_modelnet, 4, 40), 'scannet': (c35_scannet, 12, 200),
                'chunks': (c35_chunks, 8, 80), 'merge': (c35_merge, 16, 240),
                'scripts': (c35_scripts, 6, 40)}
INFO['C35'] = {'events': ['tensors_upgraded', 'variables_listed', 'checkpoints_removed', 'files_kept',
                          'clouds_saved', 'file_lists', 'files_converted', 'meshes_sampled',
                          'headers_repaired', 'scans_converted', 'chunks', 'predictions_merged',
                          'chunk_ids_above_9', 'scores', 'commands', 'archives_unpacked'],
               'mult': (5, 30),
               'rule': 'Non-trivial: the set of input files of a tool and its options.',
               'assumptions': ['tools run inside the process on files of a scratch folder, an audit hook '
                               'stops and reports every write, removal or command outside of it',
                               'downloads are replaced by a stand-in that writes an archive',
                               'cyminiball is not installed and replaced by a recording stand-in']}
