"""python tools/mutate.py OUT.jsonl [--only FILE_PART] [--seconds N] [--recheck IN.jsonl]: a mutation sweep over the code under test.

Every mutant is applied in memory in a forked process (nothing is written to /repo): first the properties that execute
the mutated line are run on a few hundred generated cases each; mutants they do not notice are run against the
repository's own tests; those that pass them as well are written to OUT.jsonl (status "survived").
"""
import ast
import copy
import importlib.machinery
import json
import os
import random
import select
import signal
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
os.environ.update(PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', TZ='UTC')
from pbt import core, env  # noqa: E402
from pbt.engine import Draw, rng_for  # noqa: E402

PIDS = [f'C{i:02d}' for i in range(1, 31)]
SKIP = ('_pb2.py', '_pb2_grpc.py', '__init__.py')


def preload():
    import cstringdist, google.protobuf, graphviz, grpc, ipycanvas, IPython, lxml.etree, matplotlib.pyplot, numpy, pandas, pm4py, pytest, sklearn, scipy.cluster, networkx  # noqa


def files():
    for folder, _d, names in os.walk(env.FICUS):
        for n in sorted(names):
            if n.endswith('.py') and not n.endswith(SKIP):
                yield os.path.join(folder, n)


# ------------------------------------------------------------------------------------------------------------ mutants

SWAPS = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
         ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
ARITH = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult, ast.FloorDiv], ast.FloorDiv: [ast.Div],
         ast.Mod: [ast.Mult], ast.Pow: [ast.Mult]}
UNWRAP = {'list', 'dict', 'set', 'sorted', 'copy', 'deepcopy', 'str', 'int', 'float', 'reversed', 'abs', 'tuple', 'round', 'lower', 'strip'}


def mutants_of(node):
    """(description, new node or None for 'delete') for one node."""
    out = []
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            for new in SWAPS.get(type(op), []):
                n = copy.deepcopy(node)
                n.ops[i] = new()
                out.append(n)
    if isinstance(node, (ast.BinOp, ast.AugAssign)):
        for new in ARITH.get(type(node.op), []):
            n = copy.deepcopy(node)
            n.op = new()
            out.append(n)
    if isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        out.append(n)
        for i in range(len(node.values)):
            rest = [copy.deepcopy(v) for j, v in enumerate(node.values) if j != i]
            out.append(rest[0] if len(rest) == 1 else ast.BoolOp(copy.deepcopy(node.op), rest))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
        out.append(copy.deepcopy(node.operand))
    if isinstance(node, (ast.If, ast.While, ast.IfExp)):
        n = copy.deepcopy(node)
        n.test = ast.UnaryOp(ast.Not(), n.test)
        out.append(n)
        if not isinstance(node, ast.While):
            for v in (True, False):
                n = copy.deepcopy(node)
                n.test = ast.Constant(v)
                out.append(n)
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            out.append(ast.Constant(not v))
        elif v is None:
            out.append(ast.Constant(0))
        elif isinstance(v, int):
            out += [ast.Constant(v + 1), ast.Constant(v - 1)]
        elif isinstance(v, float):
            out += [ast.Constant(v * 2 + 0.5)]
        elif isinstance(v, str):
            out.append(ast.Constant(v + 'q') if v else ast.Constant('q'))
    if isinstance(node, ast.Break):
        out.append(ast.Continue())
    if isinstance(node, ast.Continue):
        out.append(ast.Break())
        out.append(ast.Pass())
    if isinstance(node, ast.Expr) and not isinstance(node.value, ast.Constant) or isinstance(node, (ast.AugAssign, ast.Delete)):
        out.append(ast.Pass())
    if isinstance(node, ast.Assign) and not isinstance(node.targets[0], ast.Name):
        out.append(ast.Pass())
    if isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
        pass
    if isinstance(node, ast.Slice):
        for part in ('lower', 'upper', 'step'):
            if getattr(node, part) is not None:
                n = copy.deepcopy(node)
                setattr(n, part, None)
                out.append(n)
                if part != 'step':
                    n = copy.deepcopy(node)
                    setattr(n, part, ast.BinOp(getattr(n, part), ast.Add(), ast.Constant(1)))
                    out.append(n)
    if isinstance(node, ast.Call):
        name = node.func.id if isinstance(node.func, ast.Name) else node.func.attr if isinstance(node.func, ast.Attribute) else None
        if name in UNWRAP:
            if node.args:
                out.append(copy.deepcopy(node.args[0]))
            elif isinstance(node.func, ast.Attribute):
                out.append(copy.deepcopy(node.func.value))
        if name in ('min', 'max'):
            n = copy.deepcopy(node)
            if isinstance(n.func, ast.Name):
                n.func.id = 'min' if name == 'max' else 'max'
                out.append(n)
        if name in ('any', 'all') and isinstance(node.func, ast.Name):
            n = copy.deepcopy(node)
            n.func.id = 'all' if name == 'any' else 'any'
            out.append(n)
        for i in range(len(node.keywords)):
            n = copy.deepcopy(node)
            del n.keywords[i]
            out.append(n)
        for i in range(len(node.args) - 1):
            if not isinstance(node.args[i], ast.Starred) and not isinstance(node.args[i + 1], ast.Starred):
                n = copy.deepcopy(node)
                n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
                out.append(n)
        if len(node.args) > 1 and not isinstance(node.args[-1], ast.Starred):
            n = copy.deepcopy(node)
            n.args.pop()
            out.append(n)
    if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        for i, g in enumerate(node.generators):
            for j in range(len(g.ifs)):
                n = copy.deepcopy(node)
                del n.generators[i].ifs[j]
                out.append(n)
    return out


def enumerate_mutants(path):
    tree = ast.parse(open(path).read())
    result = []
    skip = set()
    for node in ast.walk(tree):
        # annotations, imports and docstrings are not mutated
        if isinstance(node, ast.arg) and node.annotation is not None:
            skip.update(id(x) for x in ast.walk(node.annotation))
        if isinstance(node, (ast.FunctionDef,)) and node.returns is not None:
            skip.update(id(x) for x in ast.walk(node.returns))
        if isinstance(node, ast.AnnAssign):
            skip.update(id(x) for x in ast.walk(node.annotation))
        if isinstance(node, ast.Raise):
            skip.update(id(x) for x in ast.walk(node))
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            skip.update(id(x) for x in ast.walk(node))
        if isinstance(node, ast.JoinedStr):
            pass
    order = list(ast.walk(tree))
    for index, node in enumerate(order):
        if id(node) in skip or not (hasattr(node, 'lineno') or isinstance(node, ast.Slice)):
            continue
        for k, new in enumerate(mutants_of(node)):
            try:
                before = ast.unparse(node)
                after = ast.unparse(new)
            except Exception:
                continue
            result.append({'file': os.path.relpath(path, env.FICUS), 'line': getattr(node, 'lineno', None) or getattr(node.lower or node.upper or node, 'lineno', 0),
                           'index': index, 'k': k, 'before': before[:300].split('\n')[0], 'after': after[:300].split('\n')[0]})
    return result


def mutated_code(path, index, k):
    tree = ast.parse(open(path).read())
    order = list(ast.walk(tree))
    target = order[index]
    new = mutants_of(target)[k]

    class T(ast.NodeTransformer):
        def visit(self, node):
            if node is target:
                return ast.copy_location(new, node) if hasattr(node, 'lineno') else new
            return self.generic_visit(node)

    tree = ast.fix_missing_locations(T().visit(tree))
    return tree, compile(tree, path, 'exec')


def install(path, code):
    original = importlib.machinery.SourceFileLoader.get_code

    def get_code(self, fullname):
        return code if self.path == path else original(self, fullname)

    importlib.machinery.SourceFileLoader.get_code = get_code


# ------------------------------------------------------------------------------------------------------------ workers

def run_property(pid, cases, seconds, seed=1):
    module = core.load_property(pid)
    shards = 8
    started = time.monotonic()
    for i in range(cases):
        if time.monotonic() - started > seconds:
            break
        d = Draw(rng_for(seed, i % shards, i // shards))
        case = core.loads(core.dumps(module.generate(d)))
        try:
            core.run_case(module, case)
        except core.Inapplicable:
            continue
        except core.Violation as v:
            return str(v)[:200]
        except core.CaseTimeout:
            return 'timeout'
    return None


class Collect:
    def __init__(self, stable=None):
        self.passed, self.failed, self.stable = set(), set(), stable

    def pytest_runtest_logreport(self, report):
        if report.failed:
            self.failed.add(report.nodeid)
        elif report.when == 'call' and report.passed:
            self.passed.add(report.nodeid)

    def pytest_runtest_teardown(self, item):
        if self.stable is not None and self.failed & self.stable:
            item.session.shouldstop = 'killed'


def run_tests(stable=None):
    import pytest
    os.chdir('/repo/src/python')
    g = 'tests/grpc_pipelines'
    ignore = [f'--ignore={g}/test_{m}.py' for m in 'alpha_discovery alpha_plus_discovery alpha_plus_plus_discovery '
              'alpha_plus_plus_nfc_discovery clustering dfg_discovery filtering_pipelines grpc_pipelines heuristic_discovery patterns_pipelines'.split()]
    c = Collect(stable)
    pytest.main(['-q', '-p', 'no:cacheprovider', '--rootdir=/repo/src/python', '--continue-on-collection-errors', *ignore, 'tests'], plugins=[c])
    return c


def child(job, fd, fn):
    os.setpgid(0, 0)
    null = os.open(os.devnull, os.O_RDWR)
    for i in (0, 1, 2):
        os.dup2(null, i)
    work = f'/tmp/mut/w{os.getpid()}'
    os.makedirs(work)
    os.environ.update(PBT_SCRATCH=work, TMPDIR=work)
    import tempfile
    tempfile.tempdir = None
    try:
        result = fn(job)
    except BaseException as e:
        result = {'status': 'crash', 'detail': repr(e)[:200]}
    os.write(fd, json.dumps(result).encode())
    import shutil
    shutil.rmtree(work, ignore_errors=True)
    os._exit(0)


def pool(jobs, fn, limit_s, workers=8):
    """Runs fn(job) in forked processes; yields (job, result)."""
    jobs = list(jobs)[::-1]
    running = {}
    while jobs or running:
        while jobs and len(running) < workers:
            job = jobs.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                child(job, w, fn)
            os.close(w)
            running[r] = [pid, job, time.monotonic() + limit_s, b'']
        ready, _, _ = select.select(list(running), [], [], 0.5)
        for r in ready:
            data = os.read(r, 1 << 20)
            if data:
                running[r][3] += data
                continue
            pid, job, _, text = running.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            yield job, json.loads(text) if text else {'status': 'crash', 'detail': 'died'}
        for r in list(running):
            if time.monotonic() > running[r][2]:
                pid, job, _, _ = running.pop(r)
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                yield job, {'status': 'hang'}


def coverage_job(pid):
    hits = {}
    mon = sys.monitoring
    mon.use_tool_id(3, 'cov')
    root = env.FICUS + '/'

    def line(code, number):
        if not code.co_filename.startswith(root):
            return mon.DISABLE
        key = f'{code.co_filename[len(root):]}:{number}'
        hits[key] = 1
        return mon.DISABLE

    core.load_property(pid)
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    detail = run_property(pid, 400, 25)
    return {'lines': sorted(hits), 'detail': detail}


def main():
    out = sys.argv[1]
    args = sys.argv[2:]
    only = args[args.index('--only') + 1].split(',') if '--only' in args else None
    seconds = float(args[args.index('--seconds') + 1]) if '--seconds' in args else 5.0
    cases = int(args[args.index('--cases') + 1]) if '--cases' in args else 600
    recheck = args[args.index('--recheck') + 1] if '--recheck' in args else None
    os.makedirs('/tmp/mut', exist_ok=True)
    preload()
    cover_path = '/tmp/mut/cover.json'
    if os.path.exists(cover_path):
        cover = json.load(open(cover_path))
    else:
        cover = {}
        for pid, r in pool(PIDS, coverage_job, 120):
            print(pid, r.get('status'), len(r.get('lines', [])), r.get('detail'), flush=True)
            cover[pid] = r['lines']
        json.dump(cover, open(cover_path, 'w'))
    lines = {}
    for pid in sorted(cover, key=lambda p: len(cover[p])):
        for key in cover[pid]:
            lines.setdefault(key, []).append(pid)

    covered = {p: set(v) for p, v in cover.items()}

    def tests_job(_):
        return {'passed': sorted(run_tests().passed)}
    stable = set(next(pool([0], tests_job, 100))[1]['passed'])
    print('stable tests', len(stable), flush=True)

    if recheck:
        mutants = [m for m in map(json.loads, open(recheck)) if m['status'] in ('survived', 'hang-tests')]
    else:
        mutants = [m for p in files() for m in enumerate_mutants(p)]
        rng = random.Random(5)
        rng.shuffle(mutants)
    if only:
        mutants = [m for m in mutants if any(o in m['file'] for o in only)]
    print(len(mutants), 'mutants', flush=True)

    def job(m):
        path = os.path.join(env.FICUS, m['file'])
        try:
            _, code = mutated_code(path, m['index'], m['k'])
        except Exception as e:
            return {'status': 'invalid', 'detail': repr(e)}
        install(path, code)
        pids = lines.get(f"{m['file']}:{m['line']}", [])
        if not pids:
            tree = ast.parse(open(path).read())
            inside = [(n.lineno, n.end_lineno) for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))
                      and n.lineno <= m['line'] <= n.end_lineno]
            for a, b in sorted(inside, key=lambda x: x[1] - x[0]) + [(0, 10 ** 6)]:
                pids = [p for p in PIDS if any(f"{m['file']}:{i}" in covered[p] for i in range(a, min(b, 1000) + 1))]
                if pids:
                    break
            pids.sort(key=lambda p: len(cover[p]))
        # constants: no line of theirs runs again
        quick = not pids
        pids = pids or sorted(PIDS, key=lambda p: p not in ('C25', 'C26', 'C27', 'C28', 'C30', 'C22'))
        for pid in pids:
            try:
                detail = run_property(pid, cases // 3 if quick else cases, 2 if quick else seconds)
            except Exception as e:
                detail = 'broken ' + repr(e)[:150]
            if detail:
                return {'status': 'caught', 'by': pid, 'detail': detail}
        c = run_tests(stable)
        if stable - c.passed:
            return {'status': 'tests', 'detail': sorted(stable - c.passed)[:1]}
        return {'status': 'survived', 'pids': pids}

    counts, started = {}, time.monotonic()
    with open(out, 'w') as f:
        for n, (m, r) in enumerate(pool(mutants, job, 240)):
            counts[r['status']] = counts.get(r['status'], 0) + 1
            f.write(json.dumps({**m, **r}) + '\n')
            f.flush()
            if n % 200 == 0:
                print(n, counts, round(time.monotonic() - started), flush=True)
    print(counts)


if __name__ == '__main__':
    main()
