"""Mutation sweep: how much of the code do the checks judge?

  mutate.py list                          count mutants
  mutate.py run OUT.jsonl [file-substring] [step] [offset]   run every step-th mutant

Every mutant is one small change of one expression or statement; it is run against the checks of MAP in a scratch copy of
/repo and /verif under /tmp/mut, stopping at the first check that reports.  Survivors are to be read by a human: many are
equivalent or in code no property claims.
"""
import ast
import copy
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import time

S = 'src/pynlo/'
MAP = {
    'light/PulseBase.py': 'C03 C05 C08 C04 C01 C06 C07 C02 C19',
    'light/DerivedPulses.py': 'C04 C07 C01',
    'util/pynlo_ffts.py': 'C03',
    'media/fibers/fiber.py': 'C09 C12 C10 C18 C20',
    'media/fibers/calculators.py': 'C11 C09',
    'media/fibers/JSONFiberLoader.py': 'C10 C09',
    'interactions/FourWaveMixing/SSFM.py': 'C14 C13 C15 C18 C16 C17 C19 C20',
    'interactions/FourWaveMixing/global_variables.py': 'C13 C15',
    'util/ode_solve/steppers.py': 'C21 C22 C23',
    'util/ode_solve/dopr853.py': 'C22 C23 C21',
    'util/ode_solve/dopr853_controller.py': 'C22 C23 C21',
    'util/ode_solve/dopr853_constants.py': 'C22',
    'interactions/ThreeWaveMixing/DFG_integrand.py': 'C25 C24 C34 C26 C27',
    'interactions/ThreeWaveMixing/multi_run_rw.py': 'C27',
    'interactions/ThreeWaveMixing/field_classes.py': 'C27 C26',
    'media/crystals/CrystalContainer.py': 'C29 C28 C26',
    'media/crystals/XTAL_PPLN.py': 'C29 C28',
    'media/crystals/XTAL_AgGaSe2.py': 'C29 C28',
    'media/crystals/XTAL_AgGaS.py': 'C29 C28',
    'light/beam.py': 'C31 C34',
    'light/high_V_waveguide.py': 'C31 C24',
    'devices/grating_compressor.py': 'C30',
}
SKIP = {'gen_OSA', 'gen_jl', 'raman_plots', 'test_raman', 'print_fiber_list', '__main__'}


class Mut(ast.NodeTransformer):
    """Applies the target-th mutation met; counts them."""
    def __init__(self, target):
        self.n, self.target, self.what = 0, target, None

    def hit(self, node, what):
        self.n += 1
        if self.n - 1 == self.target:
            self.what = 'line %d: %s' % (getattr(node, 'lineno', 0), what)
            return True
        return False

    def visit_FunctionDef(self, node):
        if node.name in SKIP or 'plot' in node.name or 'print' in node.name:
            return node
        d = node.decorator_list, node.args
        b = node.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            head, b = b[:1], b[1:]
        else:
            head = []
        node.args = self.visit(node.args)
        node.body = head + self.block(b)
        return node

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.AugAssign)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                    getattr(s.value.func, 'id', '') != 'print':
                if self.hit(s, 'delete ' + ast.unparse(s)[:80]):
                    out.append(ast.copy_location(ast.Pass(), s))
                    continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                out.append(s)
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and getattr(s.value.func, 'id', '') == 'print':
                out.append(s)
                continue
            r = self.visit(s)
            out.append(r)
        return out

    def generic_visit(self, node):
        for f, old in ast.iter_fields(node):
            if isinstance(old, list):
                if old and isinstance(old[0], ast.stmt):
                    setattr(node, f, self.block(old))
                else:
                    new = []
                    for x in old:
                        new.append(self.visit(x) if isinstance(x, ast.AST) else x)
                    setattr(node, f, new)
            elif isinstance(old, ast.AST):
                setattr(node, f, self.visit(old))
        return node

    def visit_Raise(self, node):
        return node

    def visit_Import(self, node):
        return node
    visit_ImportFrom = visit_Import

    def visit_If(self, node):
        if 'plot' in ast.unparse(node.test).lower():
            return node
        for v in (True, False):
            if self.hit(node, 'if %s -> %s' % (ast.unparse(node.test)[:60], v)):
                node.test = ast.copy_location(ast.Constant(v), node.test)
                return node
        return self.generic_visit(node)

    def visit_BinOp(self, node):
        for a, b in ((ast.Add, ast.Sub), (ast.Sub, ast.Add), (ast.Mult, ast.Div), (ast.Div, ast.Mult), (ast.Pow, ast.Mult)):
            if isinstance(node.op, a) and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
                if self.hit(node, '%s -> %s in %s' % (a.__name__, b.__name__, ast.unparse(node)[:80])):
                    node.op = b()
                    return node
        return self.generic_visit(node)

    def visit_AugAssign(self, node):
        for a, b in ((ast.Add, ast.Sub), (ast.Sub, ast.Add), (ast.Mult, ast.Div), (ast.Div, ast.Mult)):
            if isinstance(node.op, a):
                if self.hit(node, '%s -> %s in %s' % (a.__name__, b.__name__, ast.unparse(node)[:80])):
                    node.op = b()
                    return node
        return self.generic_visit(node)

    def visit_Compare(self, node):
        for a, b in ((ast.Lt, ast.LtE), (ast.LtE, ast.Lt), (ast.Gt, ast.GtE), (ast.GtE, ast.Gt), (ast.Eq, ast.NotEq), (ast.NotEq, ast.Eq),
                     (ast.Is, ast.IsNot), (ast.IsNot, ast.Is), (ast.Lt, ast.Gt), (ast.Gt, ast.Lt)):
            if isinstance(node.ops[0], a):
                if self.hit(node, '%s -> %s in %s' % (a.__name__, b.__name__, ast.unparse(node)[:80])):
                    node.ops[0] = b()
                    return node
        return self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.USub, ast.Not)) and self.hit(node, 'drop sign/not of ' + ast.unparse(node)[:60]):
            return node.operand
        return self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if isinstance(v, bool):
            if self.hit(node, '%s -> %s' % (v, not v)):
                return ast.copy_location(ast.Constant(not v), node)
        elif isinstance(v, int):
            if self.hit(node, '%s -> %s' % (v, v + 1)):
                return ast.copy_location(ast.Constant(v + 1), node)
        elif isinstance(v, (float, complex)) and v != 0:
            if self.hit(node, '%s -> %s' % (v, v * 1.001)):
                return ast.copy_location(ast.Constant(v * 1.001), node)
        return node

    def visit_Call(self, node):
        if len(node.args) == 1 and not node.keywords and isinstance(node.func, (ast.Attribute, ast.Name)):
            name = getattr(node.func, 'attr', getattr(node.func, 'id', ''))
            if name in ('conj', 'conjugate', 'real', 'imag', 'abs', 'sqrt', 'fftshift', 'ifftshift', 'copy', 'deepcopy', 'array', 'angle', 'unwrap', 'exp',
                        'fft', 'ifft', 'flipud', 'flip', 'int', 'float', 'round', 'floor', 'ceil', 'asarray', 'asanyarray', 'FFT_t', 'IFFT_t'):
                if self.hit(node, '%s -> argument' % ast.unparse(node)[:80]):
                    return node.args[0]
        if getattr(node.func, 'id', '') == 'print':
            return node
        return self.generic_visit(node)

    def visit_BoolOp(self, node):
        if self.hit(node, 'and/or in ' + ast.unparse(node)[:80]):
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            return node
        return self.generic_visit(node)


def mutants(path):
    src = open(path).read()
    m = Mut(-1)
    m.visit(ast.parse(src))
    return m.n


def apply(src, k):
    m = Mut(k)
    t = m.visit(ast.parse(src))
    ast.fix_missing_locations(t)
    return ast.unparse(t), m.what


def worker(args):
    w, q, out, lock = args
    base = '/tmp/mut/w%d' % w
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.check_call(['cp', '-a', '/repo', base + '/repo'])
    subprocess.check_call('git -C /verif archive HEAD | tar x -C %s/ --one-top-level=verif' % base, shell=True)
    # checks as they are in the working tree
    subprocess.check_call('rm -rf {0}/verif/mc && cp -a /verif/mc {0}/verif/mc'.format(base), shell=True)
    env = dict(os.environ, VERIF_REPO=base + '/repo', VERIF_WORKERS='1', VERIF_STOP='1', VERIF_TIER='quick')
    while True:
        try:
            f, k = q.get(timeout=3)
        except Exception:
            break
        p = base + '/repo/' + S + f
        src = open('/repo/' + S + f).read()
        new, what = apply(src, k)
        open(p, 'w').write(new)
        t0 = time.time()
        killed = None
        for c, thin in [(c, '9') for c in MAP[f].split()] + [(c, '1') for c in MAP[f].split()]:
            try:
                env['VERIF_DEPTH'] = os.environ.get('VERIF_DEPTH', '-1')
                env['VERIF_SCEN'] = thin
                r = subprocess.run(['./check', c], cwd=base + '/verif', env=env, capture_output=True, text=True, timeout=1500)
                if r.returncode:
                    killed = '%s(%d)' % (c, r.returncode)
                    break
            except subprocess.TimeoutExpired:
                killed = c + '(timeout)'
                break
        open(p, 'w').write(src)
        with lock:
            with open(out, 'a') as o:
                o.write(json.dumps({'file': f, 'k': k, 'what': what, 'killed': killed, 't': round(time.time() - t0, 1)}) + '\n')
    shutil.rmtree(base, ignore_errors=True)


def main():
    if sys.argv[1] == 'list':
        n = 0
        for f in MAP:
            m = mutants('/repo/' + S + f)
            n += m
            print('%6d %s' % (m, f))
        print(n)
        return
    out = sys.argv[2]
    sub = sys.argv[3] if len(sys.argv) > 3 else ''
    step = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    off = int(sys.argv[5]) if len(sys.argv) > 5 else 0
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['k']))
    man = multiprocessing.Manager()
    q, lock = man.Queue(), man.Lock()
    for f in MAP:
        if sub in f:
            for k in range(off, mutants('/repo/' + S + f), step):
                if (f, k) not in done:
                    q.put((f, k))
    ps = [multiprocessing.Process(target=worker, args=((w, q, out, lock),)) for w in range(int(os.environ.get('MUT_PAR', '8')))]
    for p in ps:
        p.start()
    for p in ps:
        p.join()


if __name__ == '__main__':
    main()
