"""Scratch folders, a file-system guard, and CPU stand-ins for .cuda().

guard(folder) watches the interpreter's audit events while code under test runs: any
attempt to write, remove, rename or execute something outside the scratch folder is
stopped before it happens, and reported."""
import contextlib
import os
import shutil
import sys
import tempfile

from .core import Violation, REPO

_active = []
_installed = False

_PATHS = {'os.remove': (0,), 'os.unlink': (0,), 'os.rmdir': (0,), 'os.rename': (0, 1),
          'os.truncate': (0,), 'os.link': (1,), 'os.symlink': (1,), 'os.chmod': (0,),
          'os.chown': (0,), 'os.mkdir': (0,), 'shutil.rmtree': (0,), 'shutil.move': (0, 1),
          'shutil.copyfile': (1,)}
_EXEC = ('os.system', 'subprocess.Popen', 'os.exec', 'os.posix_spawn', 'os.spawn', 'os.fork',
         'os.forkpty', 'os.kill', 'os.killpg', 'socket.connect')


def _inside(path, root):
    if isinstance(path, int):
        return True
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    p = os.path.realpath(os.path.join(os.getcwd(), str(path)))
    return p == root or p.startswith(root + os.sep) or p.startswith('/dev/null')


def _hook(event, args):
    if not _active:
        return
    g = _active[-1]
    if event == 'open':
        path, mode, flags = args
        write = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or \
            (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        if write:
            g['writes'] += 1
            if not _inside(path, g['root']):
                g['bad'].append('open %r for writing' % (path,))
                raise PermissionError('guard: ' + g['bad'][-1])
    elif event in _PATHS:
        for i in _PATHS[event]:
            g['changes'] += 1
            if not _inside(args[i], g['root']):
                g['bad'].append('%s %r' % (event, args[i]))
                raise PermissionError('guard: ' + g['bad'][-1])
    elif event in _EXEC:
        g['bad'].append('%s %r' % (event, args))
        raise PermissionError('guard: ' + g['bad'][-1])


@contextlib.contextmanager
def guard(root):
    global _installed
    if not _installed:
        sys.addaudithook(_hook)
        _installed = True
    g = {'root': os.path.realpath(root), 'bad': [], 'writes': 0, 'changes': 0}
    _active.append(g)
    try:
        yield g
    finally:
        _active.pop()
        if g['bad']:
            raise Violation('outside_scratch', '; '.join(g['bad'][:5]))


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='ocnnmon-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


_cuda_done = False


def no_cuda():
    """The solvers move everything to the GPU; here .cuda() stays on the CPU."""
    global _cuda_done
    if _cuda_done:
        return
    import torch
    from ocnn.octree import Octree, Points
    same = lambda self, *a, **k: self
    torch.Tensor.cuda = same
    torch.nn.Module.cuda = same
    Octree.cuda = same
    Points.cuda = same
    _cuda_done = True


def project_path():
    for p in (os.path.join(REPO, 'projects'), os.path.join(REPO, 'projects', 'tools')):
        if p not in sys.path:
            sys.path.append(p)


@contextlib.contextmanager
def quiet():
    with open(os.devnull, 'w') as f:
        with contextlib.redirect_stdout(f), contextlib.redirect_stderr(f):
            yield
