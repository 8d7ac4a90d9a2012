"""Runner: generated-input search for one property, with shrinking, replay
files, evidence and a deterministic work budget for calls that never return.

Exit 0: every generated case held.  Exit 1 and a VIOLATION line: a case broke
the property (its minimal form is the replay file).  Exit 2: harness error.
"""
import sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('PBT_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
# The library under test first; Hypothesis last, so that numpy, scipy etc. come
# from the environment the library itself runs in.
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != HERE]
sys.path.insert(0, SRC)
sys.path.append(HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

import argparse, hashlib, io, json, multiprocessing, pickle, time, traceback, warnings
import importlib
warnings.simplefilter('ignore')

MODULES = {
    'props_pulse': ['P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09'],
    'props_fiber': ['P10', 'P11', 'P12'],
    'props_ssfm': ['P13', 'P14', 'P15', 'P16', 'P17', 'P18', 'P19', 'P20'],
    'props_ode': ['P21', 'P22'],
    'props_dfg': ['P23', 'P24', 'P25', 'P26', 'P27'],
    'props_crystal': ['P28', 'P29'],
    'props_beam': ['P30', 'P31'],
}
EVENT_BUDGET = 6_000_000     # interpreter loop/call events in /repo/src per case
SHRINK_SECONDS = int(os.environ.get('PBT_SHRINK', '40'))
# Quick case counts of properties whose cases are cheap are multiplied by this.
QUICK_MULT = dict(P01=7, P02=8, P03=8, P04=10, P05=8, P06=5, P07=7, P08=12, P09=5, P10=5, P11=7, P12=8, P14=2, P15=3, P20=2, P21=5,
                  P23=4, P24=2, P25=9, P27=6, P28=8, P29=10, P31=10)
WALL_LIMIT = {'quick': 700, 'thorough': 6 * 3600}


class Violation(Exception):
    pass


class OutOfBudget(Violation):
    pass


RESULT_ERRORS = (TypeError, ValueError, IndexError, KeyError, AttributeError, ArithmeticError, AssertionError)


class HarnessError(Exception):
    pass


class Budget(BaseException):
    """Raised inside library code that exceeded the work budget."""


class StopSearch(BaseException):
    """A case that ran out of budget: stop without shrinking it."""


class Sub:
    def __init__(self, pid, name, strategy, fn, quick, thorough, fixed, rule, budget):
        self.pid, self.name, self.strategy, self.fn = pid, name, strategy, fn
        self.quick, self.thorough, self.fixed, self.rule, self.budget = quick, thorough, fixed, rule, budget


REGISTRY = {}


def sub(pid, name, strategy, quick, thorough=None, fixed=(), rule='', budget=EVENT_BUDGET):
    def deco(fn):
        lst = REGISTRY.setdefault(pid, [])
        assert name not in [s.name for s in lst], name
        lst.append(Sub(pid, name, strategy, fn, quick, thorough or quick * 20,
                       list(fixed), rule, budget))
        return fn
    return deco


class Ctx:
    """Handed to every check function; records what the case exercised."""
    def __init__(self):
        self.nt = True
        self.labels = []

    def trivial(self, cond=True):
        if cond:
            self.nt = False

    def label(self, name):
        self.labels.append(name)


# ---------------------------------------------------------------- execution
_events = [0]
_limit = [None]


def _install_monitor():
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, 'pbt')
    ev = mon.events

    def on_start(code, off):
        if not code.co_filename.startswith(SRC):
            return mon.DISABLE
        _tick()

    def on_jump(code, off, dest):
        if not code.co_filename.startswith(SRC):
            return mon.DISABLE
        if dest < off:
            _tick()

    def _tick():
        _events[0] += 1
        if _limit[0] is not None and _events[0] > _limit[0]:
            _limit[0] = None
            raise Budget()
    mon.register_callback(tool, ev.PY_START, on_start)
    mon.register_callback(tool, ev.JUMP, on_jump)
    mon.set_events(tool, ev.PY_START | ev.JUMP)


class Quiet:
    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = open(os.devnull, 'w')
        return self

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout, sys.stderr = self.old


def in_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(SRC):
            return True
        tb = tb.tb_next
    return False


def run_case(s, params):
    """Run one case. Raises Violation or HarnessError, else returns Ctx."""
    import numpy as np
    ctx = Ctx()
    params = json.loads(json.dumps(params))
    np.random.seed(12345)
    _events[0] = 0
    _limit[0] = s.budget
    try:
        with Quiet(), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            s.fn(params, ctx)
    except Violation:
        raise
    except Budget:
        raise OutOfBudget('library did not finish within the work budget') from None
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        if in_repo(e.__traceback__):
            t = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation('library raised %s: %s (%s:%d)' % (
                type(e).__name__, str(e)[:300], os.path.basename(t.filename), t.lineno)) from e
        if isinstance(e, RESULT_ERRORS):
            # the check could not make sense of what the library returned
            t = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation('result of the library could not be interpreted: %s: %s (%s:%d)' % (
                type(e).__name__, str(e)[:300], os.path.basename(t.filename), t.lineno)) from e
        raise
    finally:
        _limit[0] = None
        plt = sys.modules.get('matplotlib.pyplot')
        if plt is not None:
            plt.close('all')
    return ctx


def seed_for(*parts):
    return int.from_bytes(hashlib.sha256('/'.join(map(str, parts)).encode()).digest()[:8], 'big')


def run_shard(s, n, seed, fixed):
    """Returns dict of results for one shard of one sub-check."""
    import hypothesis
    from hypothesis import given, settings, Phase, HealthCheck
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS

    def generate(runner):
        # independent cases: Hypothesis would otherwise spend most of a small
        # budget on variations of a few cases
        while runner.should_generate_more():
            runner.test_function(runner.new_conjecture_data(()))
    assert hasattr(engine.ConjectureRunner, "generate_new_test_cases")
    engine.ConjectureRunner.generate_new_test_cases = generate
    res = dict(sub=s.name, evaluations=0, keys=set(), labels={}, samples=[], fail=None, error=None)

    def one(params):
        res['evaluations'] += 1
        ctx = run_case(s, params)
        res['events'] = max(res.get('events', 0), _events[0])
        if ctx.nt:
            key = hashlib.sha1(json.dumps(params, sort_keys=True).encode()).digest()[:10]
            res['keys'].add(key)
            if len(res['samples']) < 2:
                res['samples'].append(params)
        for l in ctx.labels:
            res['labels'][l] = res['labels'].get(l, 0) + 1

    for p in fixed:
        try:
            one(p)
        except Violation as v:
            res['fail'] = (p, str(v))
            return res
    last = {}

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, print_blob=False,
              report_multiple_bugs=False, phases=[Phase.generate, Phase.shrink],
              suppress_health_check=list(HealthCheck))
    @given(s.strategy)
    def test(params):
        try:
            one(params)
        except OutOfBudget as v:
            last['fail'] = (params, str(v))
            raise StopSearch()
        except Violation as v:
            last['fail'] = (params, str(v))
            raise
    try:
        with Quiet():
            test()
    except Violation:
        res['fail'] = last['fail']
    except StopSearch:
        res['fail'] = last['fail']
    except BaseException as e:
        if 'fail' in last:
            # flaky or interrupted shrinking: the last failing case stands
            # only if it fails again on its own
            try:
                run_case(s, last['fail'][0])
            except Violation as v:
                res['fail'] = (last['fail'][0], str(v))
                return res
        res['error'] = ''.join(traceback.format_exception(e))[-6000:]
    return res


def _child(conn, s, n, seed, fixed):
    try:
        _install_monitor()
        r = run_shard(s, n, seed, fixed)
    except BaseException as e:
        r = dict(sub=s.name, evaluations=0, keys=set(), labels={}, samples=[], fail=None,
                 error=''.join(traceback.format_exception(e))[-6000:])
    conn.send_bytes(pickle.dumps(r))
    conn.close()
    os._exit(0)


def run_all(subs, tier, seed, scale, jobs):
    tasks = []
    for s in subs:
        n = s.quick * QUICK_MULT.get(s.pid, 1) if tier == 'quick' else s.thorough
        n = max(1, int(n * scale))
        shards = min(jobs, max(1, n // 4))
        for k in range(shards):
            m = n // shards + (1 if k < n % shards else 0)
            tasks.append((s, m, seed_for(seed, tier, s.pid, s.name, k), s.fixed if k == 0 else []))
    mp = multiprocessing.get_context('fork')
    pending, running, results = tasks[::-1], [], []
    t0 = time.time()
    while pending or running:
        while pending and len(running) < jobs:
            t = pending.pop()
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(b,) + t, daemon=True)
            p.start()
            b.close()
            running.append((p, a, t))
        ready = multiprocessing.connection.wait([r[1] for r in running], timeout=1.0)
        for r in list(running):
            if r[1] in ready:
                try:
                    results.append(pickle.loads(r[1].recv_bytes()))
                except EOFError:
                    r[0].join()
                    results.append(dict(sub=r[2][0].name, evaluations=0, keys=set(), labels={}, samples=[],
                                        fail=None, error='worker died with exit code %s' % r[0].exitcode))
                r[0].join()
                running.remove(r)
        failed = any(r['fail'] for r in results)
        if failed and pending:
            pending = []          # enough: let what runs finish
        if failed and time.time() - t0 > WALL_LIMIT['quick']:
            for r in running:
                r[0].kill()
            break
        if time.time() - t0 > WALL_LIMIT[tier]:
            for r in running:
                r[0].kill()
            results.append(dict(sub='*', evaluations=0, keys=set(), labels={}, samples=[], fail=None,
                                error='wall-clock limit reached (inconclusive): ' +
                                      ', '.join(r[2][0].name for r in running)))
            break
    return results


def load_known():
    """known_findings.txt: 'KNOWN property=<id> sub=<sub> params=<json> :: <what>'"""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('KNOWN '):
                head, what = line[6:].split(' :: ', 1)
                f = dict(x.split('=', 1) for x in head.split(' ', 2))
                out.append((f['property'], f['sub'], json.loads(f['params']), what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('PBT_JOBS', '8')))
    a = ap.parse_args()
    t0 = time.time()
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sys.modules['core'] = sys.modules['__main__']
    modname = [m for m, ids in MODULES.items() if a.pid in ids][0]
    import numpy
    import pynlo
    if not os.path.abspath(pynlo.__file__).startswith(SRC):
        raise HarnessError('pynlo imported from %s' % pynlo.__file__)
    with Quiet():
        importlib.import_module(modname)
    subs = REGISTRY[a.pid]
    if a.replay:
        d = json.load(open(a.replay))
        s = [x for x in subs if x.name == d['sub']][0]
        _install_monitor()
        try:
            run_case(s, d['params'])
        except Violation as v:
            print('%s' % v)
            print('VIOLATION property=%s replay=%s' % (a.pid, os.path.abspath(a.replay)))
            return 1
        print('replay holds')
        return 0
    if a.only:
        subs = [x for x in subs if x.name in a.only.split(',')]
    results = run_all(subs, tier, seed, a.scale, a.jobs)
    known = [(k[1], json.dumps(k[2], sort_keys=True)) for k in load_known() if k[0] == a.pid]
    for k in load_known():
        if k[0] == a.pid:
            print('KNOWN-FINDING: property=%s %s' % (a.pid, k[3]))
    fails, errors = [], []
    for r in results:
        if r['fail'] and (r['sub'], json.dumps(r['fail'][0], sort_keys=True)) not in known:
            fails.append((r['sub'],) + tuple(r['fail']))
        if r['error']:
            errors.append((r['sub'], r['error']))
    keys, per, labels, samples = 0, {}, {}, []
    evals = 0
    for s in subs:
        rs = [r for r in results if r['sub'] == s.name]
        ks = set().union(*[r['keys'] for r in rs]) if rs else set()
        n = sum(r['evaluations'] for r in rs)
        evals += n
        keys += len(ks)
        lab = {}
        for r in rs:
            for l, c in r['labels'].items():
                lab[l] = lab.get(l, 0) + c
        per[s.name] = dict(evaluations=n, distinct_nontrivial=len(ks), labels=lab, rule=s.rule,
                           largest_work_of_a_case=max([r.get('events', 0) for r in rs] or [0]))
        for r in rs:
            if r['samples']:
                samples.append(dict(sub=s.name, params=r['samples'][-1]))
                break
    ev = dict(property=a.pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=keys,
                            rule='cases drawn by Hypothesis from each sub-check\'s strategy (seeded by VERIF_SEED); '
                                 'a case is non-trivial unless the sub-check marked it trivial, and distinct by its '
                                 'full parameter set; ' + '; '.join('%s: %s' % (s.name, s.rule) for s in subs if s.rule),
                            samples=samples, per_sub_check=per),
              assumptions=['IEEE double arithmetic; stated tolerances', 'python %s' % sys.version.split()[0]],
              wall_s=round(time.time() - t0, 2), violations=len(fails))
    if not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', a.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for name, n in per.items():
        print('%s/%s: %d cases, %d distinct non-trivial %s' % (
            a.pid, name, n['evaluations'], n['distinct_nontrivial'], json.dumps(n['labels']) if n['labels'] else ''))
    print('%s %s seed=%d: %d cases in %.1f s' % (a.pid, tier, seed, evals, time.time() - t0))
    if fails:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        seen = set()
        for name, params, msg in fails:
            if name in seen:
                continue
            seen.add(name)
            path = os.path.join(VERIF, 'replays', '%s_%s_%s.json' % (
                a.pid, name, hashlib.sha1(json.dumps(params, sort_keys=True).encode()).hexdigest()[:8]))
            with open(path, 'w') as f:
                json.dump(dict(property=a.pid, sub=name, params=params, message=msg), f, indent=1)
            print('%s/%s: %s' % (a.pid, name, msg))
            print('   minimal case: %s' % json.dumps(params)[:1500])
            print('VIOLATION property=%s replay=%s' % (a.pid, path))
        return 1
    if errors:
        for name, e in errors[:3]:
            print('HARNESS ERROR in %s/%s:\n%s' % (a.pid, name, e))
        return 2
    return 0


if __name__ == '__main__':
    import multiprocessing.connection
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
