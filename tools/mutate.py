"""Measures the checks by mutation: plants one small syntactic change at a time
in a scratch copy of the package, discards those the existing tests catch, and
runs the checks of the properties the file serves until one reports it.

Usage: mutate.py COUNT SEED OUT.jsonl [file ...]     (development only)
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys

PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src/reor'
ALL = {
    'simplex_projection.py': ['C01', 'C04'],
    'furthest_sum.py': ['C02', 'C20'],
    'spg.py': ['C03', 'C08'],
    '_random_matrix.py': ['C04', 'C20', 'C11'],
    '_validation.py': ['C12'],
    'archetypal_analysis.py': ['C20', 'C22', 'C03', 'C04', 'C06', 'C08', 'C21', 'C09', 'C07', 'C05', 'C10', 'C11', 'C12'],
    'gpnh_convex_coding.py': ['C20', 'C03', 'C04', 'C06', 'C08', 'C21', 'C09', 'C07', 'C05', 'C10', 'C11', 'C12', 'C13'],
    'mtd_convex_coding.py': ['C13', 'C20', 'C03', 'C04', 'C06', 'C08', 'C21', 'C09', 'C07', 'C05', 'C10', 'C11', 'C12'],
    'gpnh_convex_coding_crom.py': ['C14', 'C13', 'C03', 'C04', 'C06', 'C08', 'C21', 'C09', 'C07', 'C05', 'C10', 'C11', 'C12'],
    'fembv.py': ['C15', 'C16', 'C17', 'C20', 'C06', 'C09', 'C07', 'C05', 'C10', 'C11', 'C12'],
    'fembv_kmeans.py': ['C17', 'C16', 'C15', 'C20', 'C06', 'C09', 'C07', 'C05', 'C10', 'C11', 'C12'],
    'fembv_varx.py': ['C18', 'C17', 'C16', 'C15', 'C20', 'C19', 'C06', 'C09', 'C07', 'C05', 'C10', 'C11', 'C12'],
    'crom.py': ['C14', 'C13', 'C09', 'C10', 'C11', 'C12', 'C21'],
    'pwvarx.py': ['C19', 'C18', 'C10', 'C11', 'C12', 'C13', 'C21'],
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult,
       ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult}


def mutants(tree):
    """(description, function that makes the change) for every place"""
    out = []
    for node in ast.walk(tree):
        line = getattr(node, 'lineno', 0)

        def add(what, fn, node=node, line=line):
            out.append((line, what, fn))
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
            add('comparison', lambda n=node: n.ops.__setitem__(0, CMP[type(n.ops[0])]()))
        if isinstance(node, ast.BinOp) and type(node.op) in BIN and not (
                isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            add('operator', lambda n=node: setattr(n, 'op', BIN[type(n.op)]()))
        if isinstance(node, ast.BoolOp):
            add('connective', lambda n=node: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            for i in range(len(node.values)):
                add('operand dropped', lambda n=node, i=i: n.values.pop(i))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            add('sign', lambda n=node: setattr(n, 'op', ast.UAdd()))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add('negation', lambda n=node: (setattr(n, 'op', ast.Not()), setattr(
                n, 'operand', ast.UnaryOp(op=ast.Not(), operand=n.operand))))
        if isinstance(node, ast.Constant) and isinstance(node.value, bool):
            add('flag', lambda n=node: setattr(n, 'value', not n.value))
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)):
            add('constant+1', lambda n=node: setattr(n, 'value', n.value + 1))
            if isinstance(node.value, float):
                add('constant*10', lambda n=node: setattr(n, 'value', n.value * 10 or 0.1))
            else:
                add('constant-1', lambda n=node: setattr(n, 'value', n.value - 1))
        if isinstance(node, ast.If):
            add('condition true', lambda n=node: setattr(n, 'test', ast.Constant(True)))
            add('condition false', lambda n=node: setattr(n, 'test', ast.Constant(False)))
        if isinstance(node, ast.AugAssign) and type(node.op) in BIN:
            add('operator=', lambda n=node: setattr(n, 'op', BIN[type(n.op)]()))
        if isinstance(node, ast.Call):
            if isinstance(node.func, ast.Attribute) and node.func.attr in ('copy', 'astype', 'ravel') and True:
                pass
            for i in range(len(node.keywords)):
                add('keyword dropped', lambda n=node, i=i: n.keywords.pop(i))
            if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
                for i in range(len(node.args) - 1):
                    add('arguments swapped', lambda n=node, i=i: n.args.__setitem__(
                        slice(i, i + 2), [n.args[i + 1], n.args[i]]))
        if isinstance(node, ast.Slice):
            for f in ('lower', 'upper'):
                if getattr(node, f) is not None:
                    add('slice bound dropped', lambda n=node, f=f: setattr(n, f, None))
                    add('slice bound +1', lambda n=node, f=f: setattr(n, f, ast.BinOp(
                        left=getattr(n, f), op=ast.Add(), right=ast.Constant(1))))
        body = []
        for f in ('body', 'orelse'):
            b = getattr(node, f, None)
            if isinstance(b, list):
                body.append(b)
        for b in body:
            for i, st in enumerate(b):
                if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Break, ast.Continue)):
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                        continue
                    if isinstance(node, (ast.Module, ast.ClassDef)):
                        continue
                    out.append((st.lineno, 'statement dropped', lambda b=b, i=i: b.__setitem__(i, ast.Pass())))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'copy' and (
                not node.args):
            out.append((line, 'copy dropped', lambda n=node: (setattr(n, 'func', ast.Name('_same', ast.Load())),
                                                             n.args.append(node_value(n)))))
    return out


ORIGINAL = {}


def node_value(n):
    return ORIGINAL[id(n)]


def one(work, name, src, k):
    tree = ast.parse(src)
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy':
            ORIGINAL[id(n)] = n.func.value
    line, what, fn = mutants(tree)[k]
    fn()
    ast.fix_missing_locations(tree)
    new = ast.unparse(tree)
    if '_same(' in new:
        new += '\n\ndef _same(a):\n    return a\n'
    old = ast.unparse(ast.parse(src))
    if new == old:
        return None
    import difflib
    diff = [l for l in difflib.unified_diff(old.splitlines(), new.splitlines(), n=0, lineterm='')
            if l[:1] in '+-' and l[:3] not in ('+++', '---')]
    return line, what, diff, new


def main():
    count, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or [f for f in ALL]
    rnd = random.Random(seed)
    work = '/tmp/mut/w%d' % os.getpid()
    os.makedirs(work)
    ver = work + '/verif'
    shutil.copytree(HERE, ver, ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded', '__pycache__'))
    pool = []
    for f in files:
        src = open(os.path.join(SRC, f)).read()
        n = len(mutants(ast.parse(src)))
        pool += [(f, k) for k in range(n)]
    rnd.shuffle(pool)
    done = 0
    for f, k in pool:
        if done >= count:
            break
        src = open(os.path.join(SRC, f)).read()
        m = one(work, f, src, k)
        if m is None:
            continue
        line, what, diff, new = m
        text = ' '.join(diff)
        if any(w in text for w in ('verbose', 'print(', 'warnings', 'description', 'row_string', 'Error(', 'header')):
            continue
        done += 1
        rep = work + '/repo'
        if os.path.exists(rep):
            shutil.rmtree(rep)
        shutil.copytree('/repo', rep, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        open(os.path.join(rep, 'src/reor', f), 'w').write(new)
        env = dict(os.environ, PYTHONPATH=rep + '/src', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
        r = {'file': f, 'line': line, 'what': what, 'diff': diff}
        try:
            t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], cwd=rep, env=env,
                               capture_output=True, text=True, timeout=120)
            r['tests'] = t.returncode == 0
        except subprocess.TimeoutExpired:
            r['tests'] = False
        r['caught'] = ''
        if r['tests']:
            for c in ALL[f]:
                e = dict(os.environ, VERIF_DEV_SRC=rep + '/src', VERIF_SEED='1', VERIF_TIER='quick')
                e.pop('PYTHONPATH', None)
                try:
                    p = subprocess.run([PY, 'harness/check.py', c], cwd=ver, env=e, capture_output=True, text=True,
                                       timeout=900)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                if rc == 1:
                    r['caught'] = c
                    break
                if rc != 0:
                    r.setdefault('odd', []).append([c, rc])
        with open(out, 'a') as fh:
            fh.write(json.dumps(r) + '\n')
    shutil.rmtree(work)


if __name__ == '__main__':
    main()
