"""Systematic first-order mutants of PyAnEn, run against the quick checks (development aid, not a registered check).

usage: python tools/mutate.py list [file...]            number and text of the mutants
       python tools/mutate.py run OUT.jsonl [file...]   runs them (scratch copies in /dev/shm), 4 at a time
"""
import ast, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

SRC = os.environ.get('MUT_SRC', '/repo') + '/PyAnEn'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    'IO.py': ['C21'], 'Grid.py': ['C21'], 'utils_significance.py': ['C19'],
    'utils_ss.py': ['C13', 'C05', 'C18', 'C20', 'C14'],
    'utils_special_boot.py': ['C06', 'C08', 'C05', 'C18', 'C20'],
    'utils_crps.py': ['C09'], 'dist_truncgamma.py': ['C07', 'C22', 'C03'],
    'utils_approximation.py': ['C23', 'C15', 'C16', 'C03', 'C14'],
    'utils_dist.py': ['C07', 'C22', 'C03', 'C04'],
    'utils_verify.py': ['C07', 'C12', 'C11', 'C10', 'C05', 'C18', 'C20', 'C03', 'C04'],
    'Verify.py': ['C06', 'C11', 'C05', 'C18', 'C15', 'C16', 'C20', 'C17', 'C01', 'C02', 'C14'],
    'VerifyDeterm.py': ['C06', 'C12', 'C05', 'C18', 'C14', 'C17'],
    'VerifyEnsemble.py': ['C06', 'C07', 'C08', 'C09', 'C12', 'C13', 'C11', 'C10', 'C05', 'C18', 'C17', 'C14'],
    'VerifyProb.py': ['C06', 'C07', 'C08', 'C12', 'C13', 'C11', 'C10', 'C05', 'C18', 'C22', 'C17', 'C14'],
    'VerifyProbGaussian.py': ['C06', 'C07', 'C09', 'C22', 'C05', 'C18', 'C17', 'C14'],
    'VerifyProbGamma.py': ['C06', 'C07', 'C09', 'C22', 'C05', 'C18', 'C17', 'C14'],
    'VerifyProbGammaHurdle.py': ['C06', 'C23', 'C07', 'C05', 'C18', 'C17', 'C14'],
}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
CMP_TXT = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.BitAnd: '|', ast.BitOr: '&', ast.FloorDiv: '*', ast.Mod: '+'}
NAMES = {'nanmean': 'mean', 'nanmax': 'max', 'nanmin': 'min', 'max': 'min', 'min': 'max', 'nanquantile': 'quantile', 'mean': 'median', 'copy': None,
         'ravel': None, 'sort': None, 'count_nonzero': 'sum', 'moveaxis': 'swapaxes', 'any': 'all', 'all': 'any', 'argsort': 'argmin', 'abs': 'square', 'square': 'abs'}
SKIP_KW = {'disable', 'leave', 'desc', 'total', 'name'}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in src.encode().split(b'\n'):
        starts.append(starts[-1] + len(l) + 1)
    raw = src.encode()
    span = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: raw[slice(*span(n))].decode()
    out = []

    def add(n, new, kind):
        a, b = span(n)
        out.append(dict(file=os.path.basename(path), line=n.lineno, kind=kind, old=raw[a:b].decode(), new=new, a=a, b=b))

    def visit(n, skip=False):
        if isinstance(n, (ast.Assert, ast.Raise)):
            return
        if isinstance(n, ast.FunctionDef) and n.name == '__repr__' or isinstance(n, ast.FunctionDef) and n.name == '_format':
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, '(%s %s %s)' % (text(n.left), o, text(n.comparators[0])), 'cmp')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(n, '(%s %s %s)' % (text(n.left), BIN[type(n.op)], text(n.right)), 'bin')
        if isinstance(n, ast.BoolOp):
            add(n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join(text(v) for v in n.values) + ')', 'bool')
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.Not, ast.Invert)):
                add(n, '(%s)' % text(n.operand), 'not')
            elif isinstance(n.op, ast.USub):
                add(n, '(%s)' % text(n.operand), 'neg')
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes, type(None))):
            if isinstance(n.value, bool):
                add(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), 'const')
                if n.value > 0:
                    add(n, str(n.value - 1), 'const')
            elif isinstance(n.value, float):
                add(n, repr(n.value + 0.5), 'const')
        if isinstance(n, ast.If):
            add(n.test, 'True', 'if')
            add(n.test, 'False', 'if')
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if nm in NAMES:
                new = NAMES[nm]
                if new is None:
                    tgt = text(n.args[0]) if n.args else (text(f.value) if isinstance(f, ast.Attribute) else None)
                    if tgt:
                        add(n, tgt, 'drop ' + nm)
                elif isinstance(f, ast.Attribute):
                    add(f, text(f.value) + '.' + new, 'name')
                else:
                    add(f, new, 'name')
            if nm in ('sorted', 'list', 'reversed') and len(n.args) == 1 and not n.keywords:
                add(n, text(n.args[0]), 'drop ' + nm)
        if isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, 'pass', 'del')
        if isinstance(n, ast.AugAssign):
            add(n, '%s = %s' % (text(n.target), text(n.value)), 'aug')
        if isinstance(n, ast.keyword) and n.arg in SKIP_KW:
            return
        for c in ast.iter_child_nodes(n):
            visit(c)

    visit(tree)
    seen, res = set(), []
    for m in out:
        k = (m['a'], m['b'], m['new'])
        if k in seen or m['old'] == m['new']:
            continue
        seen.add(k)
        try:
            ast.parse((raw[:m['a']] + m['new'].encode() + raw[m['b']:]).decode())
        except SyntaxError:
            continue
        res.append(m)
    return raw, res


def run_mutant(args):
    i, m, raw, out = args
    d = tempfile.mkdtemp(prefix='mut_', dir='/dev/shm')
    try:
        shutil.copytree(SRC, d + '/PyAnEn', ignore=shutil.ignore_patterns('__pycache__'))
        with open(d + '/PyAnEn/' + m['file'], 'wb') as f:
            f.write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])
        killer, info = None, {}
        for c in CHECKS[m['file']]:
            env = dict(os.environ, MC_REPO=d, MC_EVIDENCE=d + '/evidence')
            try:
                p = subprocess.run(['bash', VERIF + '/run.sh', c, '--tier', 'quick', '--workers', '2'], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=900)
                rc, tail = p.returncode, (p.stdout + p.stderr)[-400:]
            except subprocess.TimeoutExpired:
                rc, tail = 'timeout', ''
            if rc != 0:
                killer, info = c, dict(rc=rc, tail=tail)
                break
        r = dict(n=i, killer=killer, **info, **{k: m[k] for k in ('file', 'line', 'kind', 'old', 'new')})
        with open(out, 'a') as f:
            f.write(json.dumps(r) + '\n')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    files = sys.argv[3 if sys.argv[1] == 'run' else 2:] or sorted(CHECKS)
    jobs = []
    for f in files:
        raw, ms = mutants(os.path.join(SRC, f))
        jobs += [(f + ':%d' % i, m, raw) for i, m in enumerate(ms)]
    if sys.argv[1] == 'list':
        for i, m, _ in jobs:
            print(i, m['line'], m['kind'], '|', m['old'][:70].replace('\n', ' '), '->', m['new'][:70].replace('\n', ' '))
        print(len(jobs))
        return
    out = sys.argv[2]
    done = {json.loads(l)['n'] for l in open(out)} if os.path.exists(out) else set()
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(run_mutant, [(i, m, raw, out) for i, m, raw in jobs if i not in done]))


main()
