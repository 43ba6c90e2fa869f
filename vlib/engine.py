"""Property runner.

A property module (props/<id>.py) defines

    ID, RULE, ARMS = [Arm(...), ...]

An arm is a Hypothesis strategy producing JSON-able cases and a check function
`check(case, ctx)`, which raises Violation, or returns None/False (trivial case)
or True / a short class label (non-trivial case).

The arms' cases are sharded over worker processes; every random choice is made
by Hypothesis from a seed derived from VERIF_SEED, so a run is a function of the
tree and of the seed (a global time budget only ever truncates the search).
A failing case is shrunk, replayed three times and only then reported.
"""
import hashlib, json, multiprocessing as mp, os, sys, time, traceback
import importlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from vlib import build as B, run as R


class Violation(Exception):
    pass


class Arm:
    def __init__(self, name, strategy, check, n, thorough=None, needs=('fast',),
                 shards=8, doc=''):
        self.name, self.strategy, self.check = name, strategy, check
        self.n = n
        self.thorough = thorough if thorough is not None else n * 20
        self.needs, self.shards, self.doc = tuple(needs), shards, doc


class Ctx:
    """What a check function may use."""

    def __init__(self, exes):
        self.exes = exes
        self.dir = None
        self._probe = {}

    def __enter__(self):
        self.dir = R.scratch()
        return self

    def __exit__(self, *a):
        for p in self._probe.values():
            p.close()
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)

    @property
    def fast(self):
        return self.exes['fast']['marc']

    @property
    def san(self):
        return self.exes['san']['marc']

    def fresh(self):
        R.clean(self.dir)
        return self.dir

    def probe(self, variant='fast'):
        if variant not in self._probe:
            from vlib.probe import Probe
            self._probe[variant] = Probe(self.exes[variant]['probe'], self.dir)
        return self._probe[variant]


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True,
                                   default=str).encode()).hexdigest()[:16]


def _load(pid):
    return importlib.import_module('props.' + pid.lower())


def _worker(args):
    """Run one shard of one arm.  Returns a result dict."""
    (pid, arm_i, shard, n, seed, deadline, exes, maxsample, stop) = args
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, given
    import hypothesis.internal.conjecture.engine as ce
    for nm, v in (('MAX_SHRINKING_SECONDS', 60), ('MAX_SHRINKS', 400)):
        if hasattr(ce, nm):
            setattr(ce, nm, v)
    mod = _load(pid)
    arm = mod.ARMS[arm_i]
    res = {'arm': arm.name, 'shard': shard, 'evals': 0, 'keys': [],
           'samples': [], 'labels': {}, 'fail': None, 'error': None,
           'skipped': 0}
    keys = set()
    state = {'fail': None, 'msg': None}

    with Ctx(exes) as ctx:
        def body(case):
            if state['fail'] is None and (time.time() > deadline
                                          or os.path.exists(stop)):
                res['skipped'] += 1
                return
            try:
                r = arm.check(case, ctx)
            except Violation as e:
                state['fail'] = case
                state['msg'] = str(e)
                raise
            res['evals'] += 1
            if r:
                lab = r if isinstance(r, str) else 'nontrivial'
                res['labels'][lab] = res['labels'].get(lab, 0) + 1
                k = case_key(case)
                if k not in keys:
                    keys.add(k)
                    if len(res['samples']) < maxsample:
                        res['samples'].append(case)

        test = given(arm.strategy)(body)
        test = hypothesis.seed(seed)(test)
        test = settings(max_examples=max(1, n), database=None, deadline=None,
                        print_blob=False, report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck),
                        phases=[Phase.generate, Phase.shrink])(test)
        try:
            test()
        except Violation as e:
            res['fail'] = {'case': state['fail'], 'msg': state['msg']}
        except Exception as e:
            if state['fail'] is not None:
                # e.g. Flaky; let the replay decide.
                res['fail'] = {'case': state['fail'], 'msg': state['msg']}
            else:
                res['error'] = traceback.format_exc()[-3000:]
        except BaseException as e:           # ExceptionGroup and the like
            if state['fail'] is not None:
                res['fail'] = {'case': state['fail'], 'msg': state['msg']}
            else:
                res['error'] = traceback.format_exc()[-3000:]
        if res['fail'] is not None:
            # Confirm: three fresh replays must all fail.
            ok = 0
            for _ in range(3):
                try:
                    arm.check(res['fail']['case'], ctx)
                except Violation as e:
                    ok += 1
                    res['fail']['msg'] = str(e)
            res['fail']['confirmed'] = ok
            if ok == 3:
                open(stop, 'w').close()
    res['keys'] = list(keys)
    return res


def known_findings(pid):
    """Entries of known-findings.json for the property that are not fixed."""
    p = os.path.join(VERIF, 'known-findings.json')
    try:
        with open(p) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in d.get('findings', []) if e['property'] == pid]


def build_for(mod):
    variants = {}
    for a in mod.ARMS:
        for nd in a.needs:
            v = nd.split(':')[0]
            variants.setdefault(v, set()).add('probe' if nd.endswith(':probe')
                                              else 'marc')
    exes, noprobe = {}, {}
    for v, what in variants.items():
        exes[v] = B.build(v, probe=False, marc='marc' in what)
        if 'probe' in what:
            try:
                exes[v] = dict(exes[v], **B.build(v, probe=True, marc='marc' in what))
            except B.BuildError as e:
                noprobe[v] = str(e)[-1500:]
    return exes, noprobe


def main(pid, argv):
    t0 = time.time()
    mod = _load(pid)
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    it = iter(argv)
    for a in it:
        if a == '--tier':
            tier = next(it)
        elif a == '--replay':
            replay = next(it)
        elif a in ('quick', 'thorough'):
            tier = a
        else:
            raise SystemExit('unknown argument ' + a)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    exes, noprobe = build_for(mod)
    t_build = time.time() - t0

    if replay:
        with open(replay) as f:
            d = json.load(f)
        arm = [a for a in mod.ARMS if a.name == d['arm']][0]
        with Ctx(exes) as ctx:
            try:
                r = arm.check(d['case'], ctx)
            except Violation as e:
                print('arm %s: %s' % (arm.name, e))
                print('VIOLATION property=%s replay=%s' % (pid, replay))
                return 1
        print('replay passes (%s)' % r)
        return 0

    budget = float(os.environ.get('VERIF_BUDGET', 0)) or (
        getattr(mod, 'BUDGET', 150) if tier == 'quick'
        else getattr(mod, 'BUDGET_THOROUGH', 3000))
    deadline = time.time() + budget
    stop = os.path.join(B.BUILD, 'stop-%s-%d' % (pid, os.getpid()))
    tasks, skipped_arms = [], []
    for i, a in enumerate(mod.ARMS):
        if any(nd.endswith(':probe') and nd.split(':')[0] in noprobe
               for nd in a.needs):
            skipped_arms.append(a.name)
            continue
        total = a.n if tier == 'quick' else a.thorough
        sh = min(a.shards, total)
        for s in range(sh):
            n = total // sh + (1 if s < total % sh else 0)
            sd = int(hashlib.sha256(('%s/%s/%d/%d' % (pid, a.name, s, seed))
                                    .encode()).hexdigest()[:12], 16)
            tasks.append((s, i, (pid, i, s, n, sd, deadline, exes, 3, stop)))
    # interleave the arms so that a truncated run still touches all of them
    tasks.sort(key=lambda t: (t[0], t[1]))
    tasks = [t[2] for t in tasks]
    results, errors = [], []
    nproc = int(os.environ.get('VERIF_JOBS', 0)) or min(8, os.cpu_count() or 4)
    with mp.get_context('fork').Pool(nproc, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_worker, tasks, chunksize=1):
            results.append(r)
            if r['error']:
                errors.append(r)
    if os.path.exists(stop):
        os.unlink(stop)

    # ---- evidence
    evals = sum(r['evals'] for r in results)
    keys = set()
    labels, arms, samples = {}, {}, []
    for r in results:
        keys.update((r['arm'], k) for k in r['keys'])
        a = arms.setdefault(r['arm'], {'evaluations': 0, 'distinct_nontrivial': 0,
                                       'truncated': 0, 'classes': {}})
        a['evaluations'] += r['evals']
        a['distinct_nontrivial'] += len(r['keys'])
        a['truncated'] += r['skipped']
        for k, v in r['labels'].items():
            a['classes'][k] = a['classes'].get(k, 0) + v
    seen = {}
    for r in sorted(results, key=lambda r: (r['arm'], r['shard'])):
        for s in r['samples']:
            if seen.get(r['arm'], 0) < 2:
                seen[r['arm']] = seen.get(r['arm'], 0) + 1
                samples.append({'arm': r['arm'], 'case': _trim(s)})
    viol = [r for r in results if r['fail'] and r['fail'].get('confirmed') == 3]
    flaky = [r for r in results if r['fail'] and r['fail'].get('confirmed') != 3]

    # ---- report
    code = 0
    vlist = []
    seen_arm = set()
    for r in sorted(viol, key=lambda r: (r['arm'], len(json.dumps(r['fail']['case'], default=str)))):
        if r['arm'] in seen_arm:
            continue
        seen_arm.add(r['arm'])
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s-%s.json' % (
            pid, r['arm'], case_key(r['fail']['case'])))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'arm': r['arm'], 'message': r['fail']['msg'],
                       'case': r['fail']['case'],
                       'run': 'python3-vt check.py %s --replay %s' % (pid, path)},
                      f, indent=1)
        print('arm %s: %s' % (r['arm'], r['fail']['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        vlist.append({'arm': r['arm'], 'message': r['fail']['msg'][:500],
                      'replay': path})
        code = 1

    # known findings: run their recorded cases
    kf = []
    for e in known_findings(pid):
        arm = [a for a in mod.ARMS if a.name == e['arm']]
        still = None
        if arm and e.get('case') is not None:
            with Ctx(exes) as ctx:
                try:
                    arm[0].check(dict(e['case'], _known=True), ctx)
                    still = False
                except Violation:
                    still = True
        if still is not False:
            print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
            kf.append(e['what'])

    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(keys),
            'rule': mod.RULE,
            'samples': samples[:12],
            'arms': arms,
        },
        'wall_s': round(time.time() - t0, 2),
        'violations': len(vlist),
        'violation_list': vlist,
        'known_findings': kf,
        'build_s': round(t_build, 2),
        'arms_skipped_probe_does_not_compile': skipped_arms,
        'unconfirmed_failures': [{'arm': r['arm'], 'msg': r['fail']['msg'][:300]}
                                 for r in flaky],
        'harness_errors': [e['error'] for e in errors][:3],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)'
          % (pid, tier, seed, evals, len(keys), time.time() - t0, t_build))
    for n, a in sorted(arms.items()):
        print('  %-28s %6d cases %6d non-trivial%s %s' % (
            n, a['evaluations'], a['distinct_nontrivial'],
            ' (%d truncated)' % a['truncated'] if a['truncated'] else '',
            dict(sorted(a['classes'].items(), key=lambda x: -x[1])[:8])))
    for r in flaky:
        print('  unconfirmed failure in %s: %s' % (r['arm'], r['fail']['msg'][:200]))
    if skipped_arms:
        print('  arms skipped (probe does not compile): ' + ', '.join(skipped_arms))
    if errors and code == 0:
        print('HARNESS ERROR\n' + errors[0]['error'])
        return 2
    return code


def _trim(x, n=1500):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + '...'
