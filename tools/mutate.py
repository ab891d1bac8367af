"""Development tool: mutation analysis of the checks.

usage: mutate.py list FILE...            count mutants per file
       mutate.py run OUT N STRIDE OFFSET FILE...  run (N in parallel)

Every mutant is one syntactic change of one file of a scratch copy of /repo;
the checks mapped to the file are run on it, in order, until one reports a
violation. Survivors are for reading: equivalent, out of domain, or a gap.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    'tracking/tracker.py': 'C01 C03 C02 C21 C05 C04 C20',
    'fields/base.py': 'C06 C01 C20 C05 C04',
    'fields/analytical_field.py': 'C06 C17 C20 C04',
    'fields/numerical_field.py': 'C02 C04 C01 C21',
    'fields/rz_wakefield.py': 'C07 C19 C05 C02 C04 C18 C15',
    'fields/gather.py': 'C06 C20 C04',
    'fields/interpolation.py': 'C07 C15 C18',
    'particles/interpolation.py': 'C07 C19 C20',
    'particles/deposition.py': 'C08 C19',
    'particles/particle_bunch.py': 'C12 C09 C11 C03 C05 C13 C04 C01',
    'particles/push/boris_pusher.py': 'C09 C20',
    'particles/push/runge_kutta_4.py': 'C09 C20',
    'particles/push/transfer_matrix.py': 'C10 C11',
    'beamline_elements/tm_elements.py': 'C11 C03 C14 C05 C04 C21',
    'beamline_elements/beamline.py': 'C03 C05 C11 C21 C04',
    'beamline_elements/field_element.py': 'C01 C03 C05 C17 C02 C21 C04',
    'beamline_elements/field_quadrupole.py': 'C17 C06 C01',
    'beamline_elements/active_plasma_lens.py': 'C17 C06 C01',
    'beamline_elements/plasma_stage.py': 'C17 C01 C04',
    'beamline_elements/plasma_ramp.py': 'C17 C01 C04',
    'physics_models/beam_optics/transfer_matrices.py': 'C10 C11',
    'physics_models/em_fields/quadrupole.py': 'C06 C17',
    'physics_models/em_fields/linear_b_theta.py': 'C06 C17',
    'physics_models/plasma_wakefields/focusing_blowout.py': 'C06 C17',
    'physics_models/plasma_wakefields/simple_blowout.py': 'C06 C17',
    'physics_models/plasma_wakefields/custom_blowout.py': 'C06 C17',
    'physics_models/plasma_wakefields/qs_cold_fluid_1x3p.py':
        'C19 C02 C05 C04 C15',
    'physics_models/plasma_wakefields/qs_rz_baxevanis/': 'C18 C08 C07 C05 C04',
    'physics_models/collective_effects/csr.py': 'C14',
    'physics_models/laser/': 'C15 C16',
    'diagnostics/openpmd_diag.py': 'C05 C21 C13',
    'diagnostics/bunch_analysis.py': 'C13',
    'utilities/bunch_saving.py': 'C13',
    'utilities/bunch_manipulation.py': 'C12 C11',
    'utilities/bunch_generation.py': 'C22 C13 C17',
    'utilities/other.py': 'C12 C13 C14',
    'utilities/numba.py': 'C20',
}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div,
       ast.Mod: ast.FloorDiv}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def sites(tree):
    """(path to node, description, mutator) of every mutant."""
    out = []

    def visit(node, path, in_raise):
        ln = getattr(node, 'lineno', 0)
        if isinstance(node, ast.Raise):
            return
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            out.append((path, ln, 'binop %s' % type(node.op).__name__))
        if isinstance(node, ast.AugAssign) and type(node.op) in BIN:
            out.append((path, ln, 'augop'))
        if isinstance(node, ast.Compare) and type(node.ops[0]) in CMP:
            out.append((path, ln, 'cmp %s' % type(node.ops[0]).__name__))
        if isinstance(node, ast.BoolOp):
            out.append((path, ln, 'bool'))
        if isinstance(node, ast.UnaryOp) and isinstance(
                node.op, (ast.USub, ast.Not)):
            out.append((path, ln, 'unary'))
        if isinstance(node, ast.Constant) and isinstance(
                node.value, (int, float)):
            out.append((path, ln, 'const %r' % node.value))
        if isinstance(node, ast.If):
            out.append((path, ln, 'if-true'))
            out.append((path, ln, 'if-false'))
        if isinstance(node, (ast.Assign, ast.AugAssign)) or (
                isinstance(node, ast.Expr) and
                isinstance(node.value, ast.Call)):
            out.append((path, ln, 'delete'))
        if isinstance(node, ast.Call) and len(node.args) >= 2:
            for i in range(len(node.args)-1):
                if ast.dump(node.args[i]) != ast.dump(node.args[i+1]):
                    out.append((path, ln, 'swap %d' % i))
        if isinstance(node, ast.Call) and node.keywords:
            for i in range(len(node.keywords)):
                out.append((path, ln, 'dropkw %d' % i))
        for f, v in ast.iter_fields(node):
            if f in ('annotation', 'returns', 'decorator_list'):
                continue
            if isinstance(v, ast.AST):
                visit(v, path + [(f, None)], in_raise)
            elif isinstance(v, list):
                for i, e in enumerate(v):
                    if isinstance(e, ast.AST):
                        visit(e, path + [(f, i)], in_raise)
    visit(tree, [], False)
    return out


def mutate(tree, path, what):
    tree = copy.deepcopy(tree)
    parent, node = None, tree
    for f, i in path:
        parent, key = node, (f, i)
        node = getattr(node, f) if i is None else getattr(node, f)[i]
    k = what.split()[0]
    before = ast.unparse(node)

    def put(new):
        f, i = key
        if i is None:
            setattr(parent, f, new)
        else:
            getattr(parent, f)[i] = new
        return new
    if k == 'binop' or k == 'augop':
        node.op = BIN[type(node.op)]()
    elif k == 'cmp':
        node.ops[0] = CMP[type(node.ops[0])]()
    elif k == 'bool':
        node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif k == 'unary':
        node = put(node.operand)
    elif k == 'const':
        v = node.value
        node.value = (not v if isinstance(v, bool) else v + 1
                      if isinstance(v, int) else v*1.5 if v else 0.5)
    elif k == 'if-true':
        node.test = ast.Constant(True)
    elif k == 'if-false':
        node.test = ast.Constant(False)
    elif k == 'delete':
        node = put(ast.Pass())
    elif k == 'swap':
        i = int(what.split()[1])
        node.args[i], node.args[i+1] = node.args[i+1], node.args[i]
    elif k == 'dropkw':
        del node.keywords[int(what.split()[1])]
    after = ast.unparse(node)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), before[:150], after[:150]


def checks_for(f):
    for k, v in MAP.items():
        if f.startswith('wake_t/' + k):
            return v.split()
    return []


def main():
    if sys.argv[1] == 'list':
        for f in sys.argv[2:]:
            t = ast.parse(open('/repo/' + f).read())
            print(len(sites(t)), f, checks_for(f))
        return
    out, n, stride, off = sys.argv[2], *map(int, sys.argv[3:6])
    files = sys.argv[6:]
    todo = []
    for f in files:
        src = open('/repo/' + f).read()
        t = ast.parse(src)
        for j, (path, ln, what) in enumerate(sites(t)):
            if j % stride == off:
                todo.append((f, t, path, ln, what))
    base = '/tmp/mut_%d' % os.getpid()
    q = Queue()
    for k in range(n):
        d = '%s/%d' % (base, k)
        os.makedirs(d)
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/r'], check=True)
        shutil.copytree(HERE, d + '/v', ignore=shutil.ignore_patterns(
            '.git', 'seeded', 'evidence'))
        q.put(d)
    log = open(out, 'a')

    def one(job):
        f, t, path, ln, what = job
        d = q.get()
        try:
            new, b, a = mutate(t, path, what)
            dst = d + '/r/' + f
            orig = open(dst).read()
            open(dst, 'w').write(new)
            res = 'SURVIVED'
            t0 = time.time()
            env = dict(os.environ, MC_FAILFAST='1', MC_WORKERS='2',
                       MC_BUDGET='300')
            for c in checks_for(f):
                try:
                    r = subprocess.run(
                        ['bash', d + '/v/tools/against.sh', d + '/r', c],
                        env=env, capture_output=True, text=True, timeout=600)
                    if r.returncode:
                        res = c
                        break
                except subprocess.TimeoutExpired:
                    res = c + ' timeout'
                    break
            open(dst, 'w').write(orig)
            log.write(json.dumps([res, f, ln, what, b, a,
                                  round(time.time()-t0)]) + '\n')
            log.flush()
        finally:
            q.put(d)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(base)


main()
