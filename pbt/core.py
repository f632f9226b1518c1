"""Generated-input search: runs one property over generated cases, shrinks, records, replays."""
import contextlib
import hashlib
import importlib
import io
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from datetime import datetime

from . import env
from .engine import Draw, rng_for, shrink


class Violation(Exception):
    """The code under test contradicts the property on this case."""


class CaseTimeout(BaseException):
    """One case used an absurd amount of CPU time (the code under test does not terminate)."""


class Inapplicable(Exception):
    """The case lies outside of the domain of the property (counted, never a violation)."""


def check(condition, message, *details):
    if not condition:
        raise Violation(message + (': ' + ' | '.join(_short(d) for d in details) if details else ''))


def check_eq(actual, expected, message):
    if actual != expected:
        raise Violation(f'{message}: actual={_short(actual)} expected={_short(expected)}')


def check_close(actual, expected, message, tol=1e-7):
    if actual is None or not (abs(actual - expected) <= tol * max(1.0, abs(expected))):
        raise Violation(f'{message}: actual={actual!r} expected={expected!r}')


def _short(x, limit=700):
    s = repr(x)
    return s if len(s) <= limit else s[:limit] + '...'


# ---------------------------------------------------------------------------------------------- JSON with datetimes

def _enc(o):
    if isinstance(o, datetime):
        return {'$dt': o.isoformat()}
    if isinstance(o, dict):
        return {'$d': [[_enc(k), _enc(v)] for k, v in o.items()]}
    if isinstance(o, (list, tuple)):
        return [_enc(x) for x in o]
    if isinstance(o, bytes):
        return {'$b': o.hex()}
    return o


def _dec(o):
    if isinstance(o, dict):
        if '$dt' in o:
            return datetime.fromisoformat(o['$dt'])
        if '$b' in o:
            return bytes.fromhex(o['$b'])
        return {_dec(k): _dec(v) for k, v in o['$d']}
    if isinstance(o, list):
        return [_dec(x) for x in o]
    return o


def dumps(case):
    return json.dumps(_enc(case), ensure_ascii=True)


def loads(text):
    return _dec(json.loads(text))


# ---------------------------------------------------------------------------------------------------- running a case

CASE_CPU_LIMIT = 40.0


def _on_timer(_sig, _frame):
    raise CaseTimeout()


def run_case(module, case):
    """Returns the labels of the case; raises Violation."""
    random.seed(20240101)
    fx = sys.modules.get('pbt.fx')
    if fx is not None:
        fx.CURRENT.update(case=case, warm=None, elsewhere=False, former=None)
    signal.signal(signal.SIGPROF, _on_timer)
    signal.setitimer(signal.ITIMER_PROF, getattr(module, 'CPU_LIMIT', CASE_CPU_LIMIT))
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink):
            try:
                return module.run(case) or {}
            except (Violation, Inapplicable, CaseTimeout):
                raise
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if f.filename.startswith(env.FICUS)]
                place = f'{where[-1].filename[len(env.FICUS) + 1:]}:{where[-1].name}' if where else \
                    f'{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}'
                raise Violation(f'unexpected {type(e).__name__} ({place}): {e}') from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def load_property(pid):
    return importlib.import_module(f'pbt.props.{pid.lower()}')


# ------------------------------------------------------------------------------------------------------------- shards

def run_shard(pid, tier, seed, shard, shards, budget_s):
    module = load_property(pid)
    generate = module.generate
    mine = max(1, module.CASES[tier] // shards)
    started = time.monotonic()
    st = {'evaluations': 0, 'inapplicable': 0, 'labels': {}, 'samples': [], 'budget_hit': False, 'violation': None}
    distinct = set()
    recent = []

    def outcome(text):
        """None, or (message, is a timeout)"""
        try:
            return None, run_case(module, loads(text))
        except Inapplicable:
            return None, None
        except CaseTimeout:
            return ('the code under test did not terminate (CPU limit)', True), None
        except Violation as v:
            return (str(v), False), None

    def examine(text):
        st['evaluations'] += 1
        recent.append(text)
        del recent[:-30]
        failure, labels = outcome(text)
        if failure:
            return failure
        if labels is None:
            st['inapplicable'] += 1
            return None
        for label, value in labels.items():
            if label != 'nontrivial' and value:
                st['labels'][label] = st['labels'].get(label, 0) + 1
        if labels.get('nontrivial', True):
            digest = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
            if digest not in distinct:
                distinct.add(digest)
                if len(st['samples']) < 2 and len(text) < 1500 and len(distinct) % 7 == 3:
                    st['samples'].append(json.loads(text))
        return None

    regress = os.path.join(env.VERIF, 'regress', pid)
    if shard == 0 and os.path.isdir(regress):
        for name in sorted(os.listdir(regress)):
            if name.endswith('.json'):
                with open(os.path.join(regress, name)) as f:
                    text = json.dumps(json.load(f)['case'])
                failure = examine(text)
                if failure:
                    st['violation'] = {'case': text, 'message': failure[0]}
                    return 1, st, distinct

    for index in range(mine):
        if time.monotonic() - started > budget_s:
            st['budget_hit'] = True
            break
        d = Draw(rng_for(seed, shard, index))
        text = dumps(generate(d))
        failure = examine(text)
        if not failure:
            continue
        message, timeout = failure
        violation = {'case': text, 'message': message, 'recent': list(recent)}
        if not timeout:
            kept = {}

            def fails(case):
                t = dumps(case)
                f, _ = outcome(t)
                if f and not f[1]:
                    kept['case'], kept['message'] = t, f[0]
                    return True
                return False

            _best, runs = shrink(generate, d.choices, fails)
            if kept:
                violation['case'], violation['message'] = kept['case'], kept['message']
            violation['shrink_runs'] = runs
        st['violation'] = violation
        return 1, st, distinct

    return 0, st, distinct


def shard_main(argv):
    pid, tier, seed, shard, shards, budget, out = argv
    try:
        code, st, distinct = run_shard(pid, tier, int(seed), int(shard), int(shards), float(budget))
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(2)
    with open(out, 'w') as f:
        json.dump({'code': code, 'stats': st, 'distinct': sorted(distinct)}, f)
    sys.stdout.flush()
    os._exit(code)


# ----------------------------------------------------------------------------------------------------------- a check

def child_env():
    e = dict(os.environ)
    e.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1', MPLBACKEND='Agg',
             MPLCONFIGDIR='/opt/venv/mplconfig', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             MKL_NUM_THREADS='1', TZ='UTC', PYTHONUTF8='1')
    e.pop('PYTHONPATH', None)
    return e


def main(pid):
    import tempfile
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    shards = min(8, os.cpu_count() or 1)
    budget = 100.0 if tier == 'quick' else 780.0
    if os.environ.get('VERIF_BUDGET_S'):
        budget = float(os.environ['VERIF_BUDGET_S'])
    started = time.monotonic()
    with contextlib.suppress(FileNotFoundError):
        os.remove(os.path.join(env.VERIF, 'evidence', 'replay', f'{pid}.json'))

    with tempfile.TemporaryDirectory(prefix=f'pbt_{pid}_') as tmp:
        procs = []
        for i in range(shards):
            out = os.path.join(tmp, f'{i}.json')
            e = child_env()
            work = os.path.join(tmp, f'w{i}')
            os.makedirs(work)
            e['PBT_SCRATCH'] = work
            e['TMPDIR'] = work
            procs.append((subprocess.Popen(
                [sys.executable, '-m', 'pbt.shard', pid, tier, str(seed), str(i), str(shards), str(budget), out],
                cwd=env.VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), out))

        results, broken = [], []
        for proc, out in procs:
            try:
                text, _ = proc.communicate(timeout=max(1.0, 870 - (time.monotonic() - started)))
            except subprocess.TimeoutExpired:
                proc.kill()
                text, _ = proc.communicate()
                text += '\n(shard killed: overall time limit)'
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                if r['code'] == 2:
                    broken.append(text)
                results.append(r)
            else:
                broken.append(text)

    violations = [r['stats']['violation'] for r in results if r['stats']['violation']]
    distinct = set()
    labels, samples = {}, []
    evaluations = inapplicable = 0
    for r in results:
        distinct.update(r['distinct'])
        evaluations += r['stats']['evaluations']
        inapplicable += r['stats']['inapplicable']
        samples.extend(r['stats']['samples'])
        for k, v in r['stats']['labels'].items():
            labels[k] = labels.get(k, 0) + v

    module = None
    try:
        module = load_property(pid)
    except Exception:
        broken.append(traceback.format_exc())

    replay = None
    if violations:
        violations.sort(key=lambda v: (len(v['case']), v['case']))
        best = violations[0]
        replay = write_replay(pid, best)

    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(distinct),
            'rule': getattr(module, 'RULE', ''),
            'samples': samples[:6],
            'outside_domain': inapplicable,
            'labels': dict(sorted(labels.items())),
            'budget_hit': any(r['stats']['budget_hit'] for r in results),
            'shards': len(results),
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - started, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    for line in known_findings(pid):
        print(line)
    print(f'{pid}: {evaluations} cases, {len(distinct)} distinct non-trivial, {len(violations)} violations, '
          f'{evidence["wall_s"]} s')
    if violations:
        print(violations[0]['message'])
        print(f'VIOLATION property={pid} replay={replay}')
        return 1
    if broken:
        print('HARNESS ERROR')
        print(broken[0])
        return 2
    return 0


def write_replay(pid, best):
    folder = os.path.join(env.VERIF, 'evidence', 'replay')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f'{pid}.json')
    with open(path, 'w') as f:
        json.dump({'property': pid, 'message': best['message'], 'case': json.loads(best['case']),
                   'preceding_cases': [json.loads(c) for c in best.get('recent', [])],
                   'how': f'bash /verif/replay.sh {path}'}, f, indent=1)
    return path


def known_findings(pid):
    path = os.path.join(env.VERIF, 'known_findings.txt')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [line.rstrip('\n') for line in f if line.startswith(f'KNOWN-FINDING: property={pid} ')]


def replay_main(path):
    with open(path) as f:
        data = json.load(f)
    module = load_property(data['property'])
    try:
        run_case(module, _dec(data['case']))
    except (Violation, CaseTimeout) as v:
        print(f'VIOLATION property={data["property"]} replay={path}')
        print(repr(v))
        return 1
    try:
        for c in data.get('preceding_cases', []):
            run_case(module, _dec(c))
        run_case(module, _dec(data['case']))
    except (Violation, CaseTimeout) as v:
        print(f'VIOLATION property={data["property"]} replay={path} (only after the preceding cases)')
        print(repr(v))
        return 1
    print('the case does not violate the property on this tree')
    return 0
