"""Operator mutants of the library and the projects, against the checks.

  mutate.py count [FILE ...]
  mutate.py run OUT.jsonl [--every N] [--offset K] [--seed S (shuffles)] [-w WORKERS] [FILE ...]

Every mutant changes one expression or statement of one file.  The checks mapped to the file run
in order until one reports a violation.  Survivors are listed for reading: each is either
equivalent or shows a gap.  Works on copies under /dev/shm, never on /repo."""
import ast
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
OC = 'ocnn/octree/'
MAP = {
    OC + 'octree.py': 'C02 C04 C05 C08 C03 C07 C06 C24 C09 C29',
    OC + 'shuffled_key.py': 'C01',
    OC + 'points.py': 'C22 C21 C05 C24 C04 C23 C30',
    'ocnn/dataset.py': 'C23',
    'ocnn/utils.py': 'C31 C19 C30',
    'ocnn/nn/octree_conv.py': 'C11 C12 C13 C30',
    'ocnn/nn/octree_dwconv.py': 'C14 C12',
    'ocnn/nn/octree_gconv.py': 'C14 C12',
    'ocnn/nn/octree_pool.py': 'C15 C16',
    'ocnn/nn/octree_interp.py': 'C17 C18',
    'ocnn/nn/octree_norm.py': 'C19',
    'ocnn/nn/octree_drop.py': 'C20',
    'ocnn/nn/octree_align.py': 'C08',
    'ocnn/nn/octree_pad.py': 'C09',
    'ocnn/nn/octree2vox.py': 'C09',
    'ocnn/nn/octree2col.py': 'C10',
    'ocnn/modules/modules.py': 'C27 C04 C28',
    'ocnn/modules/resblocks.py': 'C27 C28',
    'ocnn/models/lenet.py': 'C27', 'ocnn/models/resnet.py': 'C27', 'ocnn/models/segnet.py': 'C27',
    'ocnn/models/unet.py': 'C27 C28', 'ocnn/models/hrnet.py': 'C27',
    'ocnn/models/ounet.py': 'C29 C27', 'ocnn/models/autoencoder.py': 'C29 C27',
    'ocnn/models/image2shape.py': 'C29 C27',
    'projects/segmentation.py': 'C32', 'projects/classification.py': 'C32',
    'projects/autoencoder.py': 'C33', 'projects/completion.py': 'C33',
    'projects/image2shape.py': 'C33',
}
for _f in sorted(os.listdir(REPO + '/projects/datascts')):
    if _f.endswith('.py') and _f != '__init__.py':
        MAP['projects/datascts/' + _f] = 'C34'
for _d in ('tools', 'scripts'):
    for _f in sorted(os.listdir(REPO + '/projects/' + _d)):
        if _f.endswith('.py'):
            MAP['projects/%s/%s' % (_d, _f)] = 'C35'

for _f in list(MAP):
    if _f.startswith('ocnn/') and 'dataset' not in _f:
        MAP[_f] += ' C36'

CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='],
       ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'],
       ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['//'], ast.Div: ['*'], ast.FloorDiv: ['/', '*'],
       ast.Mod: ['//'], ast.LShift: ['>>'], ast.RShift: ['<<'], ast.BitAnd: ['|'],
       ast.BitOr: ['&'], ast.Pow: ['*'], ast.MatMult: ['*']}
NAMES = {'max': 'min', 'min': 'max', 'any': 'all', 'all': 'any', 'zeros': 'ones', 'ones': 'zeros',
         'new_zeros': 'new_ones', 'new_ones': 'new_zeros', 'zeros_like': 'ones_like',
         'argmax': 'argmin', 'argmin': 'argmax', 'ceil': 'floor', 'floor': 'ceil', 'round': 'floor',
         'sum': 'mean', 'mean': 'sum', 'logical_and': 'logical_or', 'logical_or': 'logical_and',
         'cos': 'sin', 'sin': 'cos', 'gt': 'ge', 'lt': 'le', 'eq': 'ne', 'ge': 'gt',
         'float': 'double', 'long': 'int', 'rand': 'randn', 'randn': 'rand', 'sqrt': 'abs'}


def sites(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    start = [0]
    for ln in lines:
        start.append(start[-1] + len(ln) + 1)

    def off(l, c):
        return start[l - 1] + len(lines[l - 1].encode()[:c].decode())

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)

    out = []

    def add(n, new, what, sp=None):
        a, b = sp or span(n)
        if src[a:b] != new:
            out.append((a, b, new, n.lineno, what))

    def text(n):
        a, b = span(n)
        return src[a:b]

    def between(l, r):
        return span(l)[1], span(r)[0]

    def visit(n, skip=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + n.args.kw_defaults:
                    if d is not None:
                        visit(d)
            for b in body:
                visit(b)
            return
        if isinstance(n, ast.If) and 'main' in ast.dump(n.test) and '__name__' in ast.dump(n.test):
            return
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            f = text(n.value.func)
            if f in ('print', 'tqdm.write') or 'add_argument' in f:
                return
            add(n, 'pass', 'drop statement')
        if isinstance(n, ast.AugAssign):
            add(n, 'pass', 'drop statement')
        if isinstance(n, ast.Assign):
            t = n.targets[0]
            if isinstance(t, (ast.Subscript, ast.Attribute)):
                add(n, 'pass', 'drop statement')
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(n, ast.While):
                add(n.test, '(True)', 'condition true')
                add(n.test, '(False)', 'condition false')
        if isinstance(n, ast.Continue):
            add(n, 'pass', 'drop continue')
        if isinstance(n, ast.Break):
            add(n, 'pass', 'drop break')
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sp = between(n.left, n.comparators[0])
            for o in CMP.get(type(n.ops[0]), []):
                add(n, ' %s ' % o, 'compare', sp)
        if isinstance(n, ast.BinOp) and not (isinstance(n.left, ast.Constant) and
                                             isinstance(n.left.value, str)):
            a, b = between(n.left, n.right)
            mid = src[a:b]
            tok = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
                   ast.Mod: '%', ast.LShift: '<<', ast.RShift: '>>', ast.BitAnd: '&',
                   ast.BitOr: '|', ast.Pow: '**', ast.MatMult: '@'}[type(n.op)]
            for o in BIN.get(type(n.op), []):
                if mid.count(tok) == 1:
                    add(n, mid.replace(tok, o), 'operator', (a, b))
        if isinstance(n, ast.BoolOp):
            a, b = between(n.values[0], n.values[1])
            mid = src[a:b]
            new = mid.replace('and', 'or') if isinstance(n.op, ast.And) else mid.replace('or', 'and')
            add(n, new, 'bool', (a, b))
        if isinstance(n, ast.UnaryOp):
            add(n, '(' + text(n.operand) + ')', 'unary')
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), 'flip')
            elif isinstance(v, int):
                add(n, str(v + 1), 'const+1')
                if v:
                    add(n, str(v - 1), 'const-1')
            elif isinstance(v, float):
                add(n, repr(v * 2 if v else 1.0), 'const*2')
            return
        if isinstance(n, ast.JoinedStr):
            return
        if isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
            if name in NAMES:
                a, b = span(f)
                add(f, NAMES[name], 'name', (b - len(name), b))
            if isinstance(f, ast.Attribute) and not n.args and not n.keywords:
                add(n, text(f.value), 'drop call .%s()' % name)
            for i, k in enumerate(n.keywords):
                if k.arg is None:
                    continue
                prev = (n.keywords[i - 1].value if i else n.args[-1] if n.args else None)
                if prev is not None:
                    add(n, '', 'drop keyword ' + k.arg, (span(prev)[1], span(k.value)[1]))
                elif len(n.keywords) == 1:
                    add(n, '', 'drop keyword ' + k.arg, (span(k)[0], span(k)[1]))
            if len(n.args) >= 2:
                for i in range(len(n.args) - 1):
                    x, y = n.args[i], n.args[i + 1]
                    if isinstance(x, ast.Starred) or isinstance(y, ast.Starred):
                        continue
                    a, b = span(x)[0], span(y)[1]
                    add(n, text(y) + src[span(x)[1]:span(y)[0]] + text(x), 'swap', (a, b))
        if isinstance(n, ast.Tuple) and isinstance(getattr(n, 'ctx', None), ast.Load) and \
                len(n.elts) == 2:
            x, y = n.elts
            add(n, text(y) + src[span(x)[1]:span(y)[0]] + text(x), 'swap pair',
                (span(x)[0], span(y)[1]))
        for name, fld in ast.iter_fields(n):
            if name in ('annotation', 'returns', 'decorator_list', 'type_comment', 'ctx'):
                continue
            for c in fld if isinstance(fld, list) else [fld]:
                if isinstance(c, ast.AST):
                    visit(c)

    visit(tree)
    seen, res = set(), []
    for m in out:
        if m[:3] in seen:
            continue
        seen.add(m[:3])
        try:
            ast.parse(src[:m[0]] + m[2] + src[m[1]:])
        except SyntaxError:
            continue
        res.append(dict(file=path, a=m[0], b=m[1], new=m[2], line=m[3], what=m[4],
                        old=src[m[0]:m[1]], text=lines[m[3] - 1].strip()))
    return src, res


def main():
    cmd, argv = sys.argv[1], sys.argv[2:]
    opts = {}
    for k in ('--every', '--offset', '-w', '-j', '--seed'):
        if k in argv:
            i = argv.index(k)
            opts[k] = int(argv[i + 1])
            del argv[i:i + 2]
    out = argv.pop(0) if cmd == 'run' else None
    files = [f for f in MAP if not argv or any(a in f for a in argv)]
    every, offset = opts.get('--every', 1), opts.get('--offset', 0)
    todo = []
    for f in files:
        src, res = sites(f)
        if cmd == 'count':
            print('%-40s %4d' % (f, len(res)))
        todo += [(src, m) for m in res]
    todo = todo[offset::every]
    if '--seed' in opts:
        random.Random(opts['--seed']).shuffle(todo)
    print('%d mutants' % len(todo), flush=True)
    if cmd == 'count':
        return
    done = set()
    if os.path.exists(out):
        for line in open(out):
            d = json.loads(line)
            done.add((d['file'], d['a'], d['b'], d['new']))
    q = queue.Queue()
    for t in todo:
        m = t[1]
        if (m['file'], m['a'], m['b'], m['new']) not in done:
            q.put(t)
    lock = threading.Lock()
    fid = open(out, 'a')

    def work(w):
        base = '/dev/shm/mut.%d.%d' % (os.getpid(), w)
        repo = base + '/repo'
        shutil.copytree(REPO, repo, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        env = dict(os.environ, OCNN_REPO=repo, OCNN_OUT=base + '/out', PYTHONHASHSEED='0',
                   VERIF_SEED=str(opts.get('--seed', 1)), VERIF_BUDGET='240')
        while True:
            try:
                src, m = q.get_nowait()
            except queue.Empty:
                break
            path = os.path.join(repo, m['file'])
            with open(path, 'w') as f:
                f.write(src[:m['a']] + m['new'] + src[m['b']:])
            m['result'], m['odd'], t0 = 'SURVIVED', [], time.time()
            for prop in MAP[m['file']].split():
                cmdl = 'ulimit -v 40000000; exec timeout -k 5 400 ./check.sh %s quick -j %d' % (
                    prop, opts.get('-j', 2))
                p = subprocess.run(['bash', '-c', cmdl], cwd=VERIF, env=env, text=True,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode == 1 and 'VIOLATION property' in p.stdout:
                    m['result'] = prop
                    break
                if p.returncode != 0:
                    m['odd'].append((prop, p.returncode, p.stdout[-300:]))
            m['sec'] = round(time.time() - t0, 1)
            with open(path, 'w') as f:
                f.write(src)
            with lock:
                fid.write(json.dumps(m) + '\n')
                fid.flush()
        shutil.rmtree(base)

    ts = [threading.Thread(target=work, args=(w,)) for w in range(opts.get('-w', 4))]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == '__main__':
    main()
