"""automut.py SEED COUNT [FILE...] : random syntactic mutants of /repo/dfols; those which pass the tests are given to the checks mapped to the
mutated function (scratch copies, DFO_REPO). Prints one line per surviving mutant: caught by which check, or MISSED with the diff."""
import ast, os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # (file, function regex, checks)
    ('params.py', '.*', ['C07']),
    ('diagnostic_info.py', '.*', ['C18', 'C20']),
    ('trust_region.py', 'trsbox$|alt_trust_step|ball_step|d_within_bounds|trsbox$', ['C12', 'C13']),
    ('trust_region.py', 'ctrsbox_sfista|prox', ['C06', 'C13', 'C19']),
    ('trust_region.py', '.*', ['C13', 'C12', 'C05']),
    ('util.py', 'random_|get_scale|orthog', ['C14']),
    ('util.py', 'dykstra|pball|pbox', ['C15', 'C01', 'C13']),
    ('util.py', 'eval_|sumsq|model_value', ['C03', 'C08', 'C04', 'C09', 'C16']),
    ('util.py', '.*', ['C01', 'C11', 'C20', 'C15', 'C03']),
    ('model.py', 'interpolat|lagrange|factorise|build_full|poised|distances|min_obj', ['C16', 'C05', 'C11', 'C18']),
    ('model.py', '.*', ['C17', 'C16', 'C03', 'C11', 'C01']),
    ('controller.py', 'initialise', ['C14', 'C08', 'C07', 'C02', 'C03', 'C10']),
    ('controller.py', 'trust_region_step|criticality', ['C06', 'C05', 'C01', 'C19']),
    ('controller.py', 'soft_restart|restart', ['C10', 'C04', 'C02', 'C18', 'C03']),
    ('controller.py', '.*', ['C07', 'C18', 'C02', 'C03', 'C10', 'C05', 'C04']),
    ('solver.py', '__init__|__str__|to_dict|from_dict', ['C20', 'C07', 'C11']),
    ('solver.py', 'solve$', ['C07', 'C01', 'C10', 'C04', 'C11', 'C06', 'C19', 'C09', 'C02']),
    ('solver.py', '.*', ['C10', 'C18', 'C02', 'C04', 'C03', 'C08', 'C05', 'C11', 'C06', 'C09']),
]
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult]}


def mutants(src):
    tree = ast.parse(src)
    out = []

    def seg(node):
        return (node.lineno, node.col_offset, node.end_lineno, node.end_col_offset)

    def visit(node, fn):
        for ch in ast.iter_child_nodes(node):
            f = fn
            if isinstance(ch, ast.FunctionDef):
                f = ch.name
            visit(ch, f)
        if fn is None or 'log' in fn:
            return
        import copy
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
            for o in CMP[type(node.ops[0])]:
                n2 = copy.deepcopy(node); n2.ops[0] = o()
                out.append((fn, seg(node), ast.unparse(n2)))
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(node.left, ast.Constant) or isinstance(node, ast.BinOp) and type(node.op) in BIN:
            if not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
                for o in BIN[type(node.op)]:
                    n2 = copy.deepcopy(node); n2.op = o()
                    out.append((fn, seg(node), '(' + ast.unparse(n2) + ')'))
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
            v = node.value
            for w in ([v + 1, v - 1] if isinstance(v, int) else [v * 2, v * 0.5, v * 100]):
                out.append((fn, seg(node), '(%r)' % w))
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            out.append((fn, seg(node), repr(not node.value)))
        elif isinstance(node, ast.BoolOp):
            n2 = copy.deepcopy(node); n2.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            out.append((fn, seg(node), '(' + ast.unparse(n2) + ')'))
            n2 = copy.deepcopy(node); n2.values.pop(random.randrange(len(n2.values)))
            out.append((fn, seg(node), '(' + ast.unparse(n2 if len(n2.values) > 1 else n2.values[0]) + ')'))
        elif isinstance(node, (ast.Assign, ast.AugAssign)) or (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and 'logger' not in ast.unparse(node) and 'print' not in ast.unparse(node)):
            out.append((fn, seg(node), 'pass'))
        elif isinstance(node, ast.If) and 'do_logging' not in ast.unparse(node.test):
            out.append((fn, seg(node.test), 'not (' + ast.unparse(node.test) + ')'))
            out.append((fn, seg(node.test), 'False'))
        elif isinstance(node, ast.Call) and ast.unparse(node.func).endswith('.copy') and not node.args:
            out.append((fn, seg(node), ast.unparse(node.func.value)))
        elif isinstance(node, ast.Call) and ast.unparse(node.func) in ('min', 'max', 'np.minimum', 'np.maximum') and len(node.args) == 2:
            out.append((fn, seg(node), ast.unparse(node.args[0])))
            out.append((fn, seg(node), ast.unparse(node.args[1])))
    visit(tree, None)
    return out


def apply(src, m):
    fn, (l1, c1, l2, c2), new = m
    L = src.encode().split(b'\n')
    a = b'\n'.join(L[:l1 - 1]) + (b'\n' if l1 > 1 else b'') + L[l1 - 1][:c1]
    b = L[l2 - 1][c2:] + (b'\n' if l2 < len(L) else b'') + b'\n'.join(L[l2:])
    return (a + new.encode() + b).decode()


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or ['solver.py', 'controller.py', 'controller.py', 'model.py', 'model.py', 'trust_region.py', 'util.py', 'solver.py', 'params.py', 'diagnostic_info.py']
    random.seed(seed)
    tmp = tempfile.mkdtemp(prefix='am_')
    R = tmp + '/r'
    subprocess.run('cp -a /repo %s && cd %s && git checkout -q -- .' % (R, R), shell=True, check=True)
    base = {f: open('%s/dfols/%s' % (R, f)).read() for f in set(files)}
    ms = {f: mutants(base[f]) for f in base}
    done = 0
    try:
        while done < count:
            f = random.choice(files)
            m = random.choice(ms[f])
            if not re.search(os.environ.get('AM_FN', ''), m[0]):
                continue
            try:
                s = apply(base[f], m)
                compile(s, f, 'exec')
            except SyntaxError:
                continue
            open('%s/dfols/%s' % (R, f), 'w').write(s)
            try:
                try:
                    t = subprocess.run('cd %s && PYTHONPATH=%s timeout 60 /opt/venv/bin/python -B -m pytest -q -x -p no:cacheprovider dfols 2>&1 | tail -3' % (R, R), shell=True, stdout=subprocess.PIPE, text=True).stdout
                except Exception:
                    continue
                if 'failed' in t or 'error' in t or 'passed' not in t:
                    continue
                done += 1
                d = subprocess.run(['git', 'diff', '-U0'], cwd=R, stdout=subprocess.PIPE, text=True).stdout
                d = ' || '.join(l for l in d.splitlines() if l[:1] in '+-' and l[:3] not in ('+++', '---'))
                props = os.environ['AM_CHECKS'].split(',') if os.environ.get('AM_CHECKS') else next(p for (ff, rx, p) in MAP if ff == f and re.match(rx, m[0]))
                res, t0 = 'MISSED', time.time()
                for P in props:
                    p = subprocess.run(['./check', P], cwd=V, env=dict(os.environ, DFO_REPO=R), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if p.returncode == 1:
                        cl = [l for l in p.stdout.splitlines() if ' violates ' in l]
                        res = 'CAUGHT %s %s' % (P, cl[0].split(' violates ')[1][:50] if cl else '')
                        break
                    if p.returncode != 0:
                        res = 'ERROR %s rc %d %s' % (P, p.returncode, p.stdout[-200:].replace('\n', ' '))
                        break
                print('%s | %s:%s:%d | %s | %s | %.0fs' % (res, f, m[0], m[1][0], re.sub(' +', ' ', d)[:260], ','.join(props), time.time() - t0), flush=True)
            finally:
                open('%s/dfols/%s' % (R, f), 'w').write(base[f])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
