"""Property-based check driver.

usage: runner.py <PROPERTY> [quick|thorough]      run every sub-check
       runner.py --replay <file>                  re-run a saved failing case
       runner.py <PROPERTY> --only <subcheck>     (development)

Exit 0: held on everything explored (KNOWN-FINDING lines may be printed).
Exit 1: a `VIOLATION property=<id> replay=<path>` line was printed.
Exit 3: the harness itself failed (never means a violation).
"""
import sys
import os
import json
import time
import hashlib
import importlib.util
import traceback
import signal
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'vf'))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, REPO)
for _p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if os.path.isdir(_p) and _p not in sys.path:
        sys.path.append(_p)     # last: only hypothesis and its helpers come from here

sys.dont_write_bytecode = True

if os.environ.get('VF_COV'):     # development: which lines of galgebra the checks execute (one "file:line" per line and process)
    _cov = os.open(os.environ['VF_COV'], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    _mon = sys.monitoring

    def _line(code, line):
        if '/galgebra/' in code.co_filename:
            os.write(_cov, ('%s:%d\n' % (os.path.basename(code.co_filename), line)).encode())
        return _mon.DISABLE
    _mon.use_tool_id(3, 'vfcov')
    _mon.register_callback(3, _mon.events.LINE, _line)
    _mon.set_events(3, _mon.events.LINE)


class Reject(Exception):
    """the case lies outside the property's domain"""


class Known(Exception):
    """the case belongs to a listed known finding"""


class Violation(AssertionError):
    pass


class CaseTimeout(BaseException):
    pass


class Ctx:
    """handed to every sub-check with the case"""

    def __init__(self, known_ids=()):
        self.labels = []
        self.nontrivial = False
        self._known = set(known_ids)

    def label(self, *ls):
        for l in ls:
            self.labels.append(str(l))

    def nt(self, cond=True, *labels):
        if cond:
            self.nontrivial = True
        self.label(*labels)

    def reject(self, why=''):
        raise Reject(why)

    def known(self, fid):
        """exclude the case when finding `fid` is listed as known"""
        if fid in self._known:
            raise Known(fid)

    def is_known(self, fid):
        return fid in self._known

    def fail(self, msg):
        raise Violation(msg)

    def ok(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)


class Check:
    def __init__(self, prop, name, strategy, fn, quick, thorough, shards, examples, rule):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.examples, self.rule = examples, rule


REG = {}


def check(prop, strategy, quick, thorough=None, shards=None, examples=(), rule=''):
    def deco(fn):
        REG[(prop, fn.__name__)] = Check(prop, fn.__name__, strategy, fn, quick,
                                         thorough if thorough else quick * 12,
                                         shards, list(examples), rule or (fn.__doc__ or '').strip())
        return fn
    return deco


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def known_entries(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                e = json.loads(line)
                if e['property'] == prop and e['status'] == 'known':
                    out.append(e)
    return out


def load(prop):
    path = os.path.join(ROOT, 'checks', prop + '.py')
    spec = importlib.util.spec_from_file_location('checks_' + prop, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules['checks_' + prop] = m
    spec.loader.exec_module(m)
    return [c for (p, _), c in REG.items() if p == prop]


def run_body(chk, case, known_ids, limit):
    """-> (status, ctx, message)"""
    ctx = Ctx(known_ids)

    def onalarm(*a):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        chk.fn(case, ctx)
        return 'ok', ctx, ''
    except Reject as e:
        return 'reject', ctx, str(e)
    except Known as e:
        return 'known', ctx, str(e)
    except CaseTimeout:
        return 'timeout', ctx, ''
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return 'fail', ctx, ''.join(traceback.format_exception_only(type(e), e)).strip()[:3000] + '\n' + \
            ''.join(traceback.format_exc()[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def quiet_stdio():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    sys.stdout = open(os.devnull, 'w')


def worker(chk, shard, nshards, seed, tier, deadline, known_ids, outpath):
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, given, Verbosity
    quiet_stdio()
    scratch = os.path.join('/tmp', 'vfw.%d' % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    total = chk.quick if tier == 'quick' else chk.thorough
    mult = float(os.environ.get('VF_SCALE', '1'))
    n = max(1, int(total * mult) // nshards)
    limit = 25 if tier == 'quick' else 150
    soft = time.time() + (90 if tier == 'quick' else 1e9)      # symbolic blow-ups must not eat the whole budget
    st = dict(evals=0, rejects=0, timeouts=0, skipped=0, known={}, labels={}, nontrivial=[], samples=[],
              fail=None, harness=None)
    nontriv = set()
    history = []
    t_start = time.time()
    state = {'shrink_until': None}

    def one(case, explicit=False):
        if time.time() > deadline or (st['fail'] is None and time.time() > soft) or (state['shrink_until'] and time.time() > state['shrink_until']):
            st['skipped'] += 1
            return True
        c = canon(case)
        status, ctx, msg = run_body(chk, json.loads(c), known_ids, limit)
        history.append(json.loads(c))
        if status == 'reject':
            st['rejects'] += 1
            return True
        if status == 'known':
            st['known'][msg] = st['known'].get(msg, 0) + 1
            return True
        if status == 'timeout':
            st['timeouts'] += 1
            return True
        st['evals'] += 1
        for l in set(ctx.labels):
            st['labels'][l] = st['labels'].get(l, 0) + 1
        if ctx.nontrivial:
            h = hashlib.md5(c.encode()).hexdigest()
            if h not in nontriv:
                nontriv.add(h)
                if len(st['samples']) < 2 and len(c) < 1500:
                    st['samples'].append(json.loads(c))
        if status == 'fail':
            if st['fail'] is None or len(c) < len(canon(st['fail']['case'])):
                st['fail'] = dict(case=json.loads(c), msg=msg, history=list(history))
            if state['shrink_until'] is None:
                state['shrink_until'] = time.time() + (60 if tier == 'quick' else 180)
            return False
        return True

    try:
        if shard == 0:
            for ex in chk.examples:
                if not one(ex, True):
                    break
        if st['fail'] is None and chk.strategy is not None:
            hseed = int(hashlib.md5(('%d/%s/%s/%d' % (seed, chk.prop, chk.name, shard)).encode()).hexdigest()[:8], 16)

            @hypothesis.seed(hseed)
            @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                      phases=[Phase.generate, Phase.shrink], verbosity=Verbosity.quiet,
                      suppress_health_check=[h for h in HealthCheck if h is not HealthCheck.filter_too_much])
            @given(chk.strategy)
            def t(case):
                if not one(case):
                    raise Violation('case failed')
            try:
                t()
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, MemoryError)):
                    raise
                if st['fail'] is None:
                    st['harness'] = traceback.format_exc()[-3000:]
    except BaseException:
        st['harness'] = traceback.format_exc()[-3000:]
    st['nontrivial'] = sorted(nontriv)
    st['wall'] = time.time() - t_start
    os.chdir('/')
    try:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    except Exception:
        pass
    with open(outpath, 'w') as f:
        json.dump(st, f, default=str)
    os._exit(0)


def confirm_worker(chk, cases, known_ids, outpath):
    """re-run a failing case (or a whole history) in a fresh process"""
    quiet_stdio()
    res = dict(status='ok', msg='')
    try:
        for c in cases:
            status, ctx, msg = run_body(chk, json.loads(canon(c)), known_ids, 150)
            if status == 'fail':
                res = dict(status='fail', msg=msg, case=c)
                break
            if status == 'timeout':
                res = dict(status='timeout', msg='')
    except BaseException:
        res = dict(status='harness', msg=traceback.format_exc()[-2000:])
    with open(outpath, 'w') as f:
        json.dump(res, f, default=str)
    os._exit(0)


def in_child(target, args, outpath, timeout):
    ctx = mp.get_context('fork')
    p = ctx.Process(target=target, args=args + (outpath,))
    p.start()
    p.join(timeout)
    if p.is_alive():
        p.kill()
        p.join()
        return None
    try:
        with open(outpath) as f:
            return json.load(f)
    except Exception:
        return None


def out(s):
    sys.__stdout__.write(s + '\n')
    sys.__stdout__.flush()


def main(argv):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if argv and argv[0] == '--replay':
        rep = json.load(open(argv[1]))
        load(rep['property'])
        chk = REG[(rep['property'], rep['check'])]
        known = [e['id'] for e in known_entries(rep['property'])]
        bad = None
        for c in (rep.get('history') or [rep['case']]):
            status, ctx, msg = run_body(chk, c, known, 600)
            sys.stdout = sys.__stdout__
            if status == 'fail':
                bad = (c, msg)
                break
        if bad:
            out('replayed case: ' + canon(bad[0]))
            out(bad[1])
            out('VIOLATION property=%s replay=%s' % (rep['property'], argv[1]))
            return 1
        out('replay: property held (%s)' % status)
        return 0

    prop = argv[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    only = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--only':
            only = rest.pop(0)
    checks = load(prop)
    if only:
        checks = [c for c in checks if c.name == only]
    if not checks:
        out('no such check')
        return 3
    kes = known_entries(prop)
    known_ids = [e['id'] for e in kes]
    budget = float(os.environ.get('VF_BUDGET', '420' if tier == 'quick' else '780'))
    deadline = t0 + budget
    tmp = os.path.join('/tmp', 'vf.%s.%d' % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    jobs = []
    for c in checks:
        if c.strategy is None:
            ns = 1
        else:
            ns = c.shards or 4
            if tier == 'thorough':
                ns = max(ns, 8)
        for s in range(ns):
            jobs.append((c, s, ns))
    jobs.sort(key=lambda j: j[1])
    ncpu = int(os.environ.get('VF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    ctx = mp.get_context('fork')
    running, results = [], []
    pending = list(enumerate(jobs))
    harness_errors = []
    stop = False
    while pending or running:
        while pending and len(running) < ncpu and not stop:
            i, (c, s, ns) = pending.pop(0)
            op = os.path.join(tmp, '%d.json' % i)
            p = ctx.Process(target=worker, args=(c, s, ns, seed, tier, deadline, known_ids, op))
            p.start()
            running.append((p, c, s, op))
        if stop:
            pending = []
        time.sleep(0.03)
        nr = []
        for (p, c, s, op) in running:
            if p.is_alive():
                if time.time() > deadline + 100 and tier == 'quick' or time.time() > deadline + 60 and tier != 'quick':
                    p.kill()
                    p.join()
                    results.append((c, s, None))
                    continue
                nr.append((p, c, s, op))
                continue
            p.join()
            try:
                r = json.load(open(op))
            except Exception:
                r = None
                harness_errors.append('%s shard %d: worker died (exit %s)' % (c.name, s, p.exitcode))
            results.append((c, s, r))
            if r and r.get('harness'):
                harness_errors.append('%s shard %d: %s' % (c.name, s, r['harness']))
            if r and r.get('fail'):
                stop = True     # a violation is enough; let the running shards finish shrinking
        running = nr
        if stop and running and not hasattr(main, '_grace'):
            main._grace = time.time() + 15
        if stop and running and time.time() > main._grace:
            for (p, c, s, op) in running:
                p.kill()
                p.join()
            running = []
    # ---- aggregate ------------------------------------------------------
    ev = rej = tmo = skip = 0
    labels, nontriv, samples, per = {}, set(), [], {}
    excluded = {}
    fails = []
    for c, s, r in results:
        if r is None:
            continue
        ev += r['evals']
        rej += r['rejects']
        tmo += r['timeouts']
        skip += r['skipped']
        q = per.setdefault(c.name, dict(evaluations=0, nontrivial=set(), labels={}, wall_s=0, rejected=0, timeouts=0))
        q['evaluations'] += r['evals']
        q['rejected'] += r['rejects']
        q['timeouts'] += r['timeouts']
        q['wall_s'] += r.get('wall', 0)
        q['nontrivial'].update(r['nontrivial'])
        for k, v in r['labels'].items():
            q['labels'][k] = q['labels'].get(k, 0) + v
        for k, v in r['known'].items():
            excluded[k] = excluded.get(k, 0) + v
        for smp in r['samples'][:1]:
            if sum(1 for x in samples if x['check'] == c.name) < 2:
                samples.append({'check': c.name, 'case': smp})
        if r['fail']:
            fails.append((c, r['fail']))
    for q in per.values():
        nontriv_n = len(q['nontrivial'])
        q['distinct_nontrivial'] = nontriv_n
        del q['nontrivial']
        q['wall_s'] = round(q['wall_s'], 2)
    total_nt = sum(q['distinct_nontrivial'] for q in per.values())
    # ---- violations -----------------------------------------------------
    viol = []
    seen = set()
    for c, f in sorted(fails, key=lambda x: len(canon(x[1]['case']))):
        if c.name in seen:
            continue
        seen.add(c.name)
        r = in_child(confirm_worker, (c, [f['case']], known_ids), os.path.join(tmp, 'confirm.json'), 200)
        rec = dict(property=prop, check=c.name, case=f['case'], seed=seed, message=f['msg'])
        if not (r and r['status'] == 'fail'):
            # depends on what ran before it in the same process: keep the whole history
            rec['history'] = f['history']
            rec['note'] = 'fails only after the listed history in one process'
        h = hashlib.md5(canon(f['case']).encode()).hexdigest()[:10]
        d = os.path.join(ROOT, 'replays', prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (c.name, h))
        json.dump(rec, open(path, 'w'), indent=1, default=str)
        viol.append((c, path, f))
    # ---- known findings -------------------------------------------------
    kf_lines = []
    if not only:
        for e in kes:
            chk = REG.get((prop, e['check']))
            if chk is None:
                harness_errors.append('known finding %s names no check' % e['id'])
                continue
            r = in_child(confirm_worker, (chk, [e['case']], []), os.path.join(tmp, 'kf.json'), 200)
            if r and r['status'] == 'fail':
                kf_lines.append('KNOWN-FINDING: property=%s %s: %s' % (prop, e['id'], e['what']))
    # ---- evidence -------------------------------------------------------
    rule = 'Cases are drawn by Hypothesis strategies (seeded from VERIF_SEED) per sub-check, each a JSON value ' \
           'rebuilt into fresh galgebra objects; a case counts as non-trivial when its sub-check marks it so: ' + \
           '; '.join('%s: %s' % (c.name, ' '.join(c.rule.split())) for c in checks)
    evd = dict(property=prop, tier=tier, seed=seed, level='exploration',
               coverage=dict(evaluations=ev, distinct_nontrivial=total_nt, rule=rule,
                             samples=samples[:12], rejected=rej, per_check=per,
                             excluded_known_findings=excluded, case_timeouts=tmo, skipped_by_time_budget=skip),
               assumptions=['sympy 1.13.3 arithmetic is trusted', 'search only: absence of violations is not established'],
               wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evd, f, indent=1, default=str)
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    for l in kf_lines:
        out(l)
    if os.environ.get('VF_VERBOSE') or only:
        for k, q in per.items():
            out('  %-28s %s' % (k, json.dumps(q)))
    out('%s %s seed=%d: %d cases, %d distinct non-trivial, %d rejected, %d timeouts, %d skipped, %.1fs'
        % (prop, tier, seed, ev, total_nt, rej, tmo, skip, time.time() - t0))
    for c, path, f in viol:
        out('failed sub-check %s on case %s' % (c.name, canon(f['case'])[:2000]))
        out(f['msg'][:1800])
        out('VIOLATION property=%s replay=%s' % (prop, path))
    if viol:
        return 1
    if harness_errors:
        for h in harness_errors:
            out('HARNESS ERROR: ' + h)
        return 3
    if ev == 0:
        out('HARNESS ERROR: nothing was evaluated')
        return 3
    return 0


if __name__ == '__main__':
    sys.modules['runner'] = sys.modules['__main__']
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc(file=sys.__stderr__)
        rc = 3
    sys.__stdout__.flush()
    os._exit(rc)
