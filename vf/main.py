"""Driver:  python -m vf.main PROP [--tier quick|thorough] [--only SCEN] [-v]"""
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.json')
KEEP = False
NPROC = int(os.environ.get('VF_PROCS', '8'))


def known_for(prop):
    try:
        return [k for k in json.load(open(KNOWN)) if k.get('property') == prop and k.get('status') == 'known']
    except FileNotFoundError:
        return []


def skip_labels(known, sc):
    return [k['label'] for k in known if all(sc.get(a) == b for a, b in k.get('where', {}).items())]


def worker(prop, chk, sc, tier, seed, sock, out, mods):
    """one scenario, in its own forked process"""
    from . import astx, core, load, replay
    from . import sym as S
    import logging
    logging.disable(logging.CRITICAL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('VF_STDERR'):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    P = load.Patcher(mods)
    known = known_for(prop)
    skip = skip_labels(known, sc)
    res = {'name': sc['name'], 'known_hit': [], 'repro': None, 'unrepro': []}
    tries = Counter()

    def on_candidate(w):
        if w['label'] in skip:
            res['known_hit'].append(w['label'])
            return False
        zero = 'division by zero' in w['label']
        if not zero:
            tries[w['label']] += 1
        if sum(tries.values()) > 8:
            return False
        job = {'prop': prop, 'sc': sc, 'wit': w, 'skip': skip, 'search': sc.get('search', 0.5 if zero else 3 if sum(tries.values()) < 4 else 1)}
        t = time.time()
        r = replay.ask(sock, job)
        ex.t_end += time.time() - t
        if r.get('reproduced'):
            job['repro'] = r['repro']
            job['label'] = r['label']
            res['repro'] = {'job': job, 'msg': r['msg'], 'label': r['label']}
            return True
        res['known_hit'] += r.get('known', [])
        if not zero:
            res['unrepro'].append([w['label'], str(r.get('msg'))[:300], bool(w.get('exact'))])
        return False
    tl = sc.get('tl', {'quick': 20, 'thorough': 120}[tier])
    ex = core.Explorer(max_paths=sc.get('max_paths', 10 ** 6), time_limit=tl, seed=seed, on_candidate=on_candidate,
                       branch_timeout=sc.get('bt', 1500), exact_timeout=sc.get('et', 3000), max_per_label=sc.get('mpl', 2),
                       strong=sc.get('strong', False), max_depth=sc.get('depth', 4000))
    ex.max_traces = sc.get('traces', 1)
    ex.bfs = sc.get('bfs', 0.5)
    astx.ENABLED[0] = sc.get('merge', True)
    t0 = time.time()

    def fn(env):
        P.patch(env)
        signal.signal(signal.SIGVTALRM, env.on_tick)
        S.ON_DIVISION[0] = env.on_division if prop == 'C05' else None
        chk.harness(env, sc)
    cov = Coverage()
    cov.start()
    signal.setitimer(signal.ITIMER_VIRTUAL, 0.5, 0.5)
    try:
        ex.run(fn)
    except BaseException:
        res['crash'] = traceback.format_exc()[-2000:]
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    cov.stop()
    res['cov'] = cov.result()
    res['fns'] = sorted(cov.fns)
    val = []
    for t in ex.traces:
        if ex.stop:
            break
        val.append(replay.ask(sock, {'kind': 'validate', 'prop': prop, 'sc': sc, 'wit': t['wit'], 'trace': t['trace']}))
    ex.stat['branch_sides'] = len(ex.taken)
    res.update(stat=dict(ex.stat), reached=dict(ex.reached), found=dict(ex.found), inconc=dict(ex.inconc), exhausted=ex.exhausted,
               unsupported=dict(ex.unsupported), errors=ex.errors[:3], samples=ex.samples, validated=val, open=len(ex.work),
               wall=time.time() - t0, where=ex.where.most_common(8))
    json.dump(res, open(out + '.tmp', 'w'), default=str)
    os.rename(out + '.tmp', out)


class Coverage:
    """functions and lines of the repository executed on symbols"""

    def __init__(self):
        self.lines, self.fns = set(), set()
        self.mon = sys.monitoring

    def start(self):
        m = self.mon
        m.use_tool_id(2, 'vf')

        def line(code, ln):
            if '/niapy/' in code.co_filename:
                self.lines.add((code.co_filename, ln))
                q = code.co_qualname
                if '<' not in q:
                    self.fns.add(code.co_filename.split('/niapy/', 1)[1] + ':' + q)
            return m.DISABLE
        m.register_callback(2, m.events.LINE, line)
        m.set_events(2, m.events.LINE)

    def stop(self):
        self.mon.set_events(2, 0)
        self.mon.free_tool_id(2)

    def result(self):
        d = {}
        for f, l in self.lines:
            d.setdefault(f, []).append(l)
        return {k: sorted(v) for k, v in d.items()}


def spawn(fn, *a):
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            fn(*a)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    return pid


def main(argv=None):
    argv = argv or sys.argv[1:]
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    verbose = '-v' in argv
    globals()['KEEP'] = '--all' in argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = float(os.environ.get('VF_BUDGET', {'quick': 600, 'thorough': 3000}[tier]))
    tmp = tempfile.mkdtemp(prefix='vf-')
    children = set()
    try:
        return run(prop, tier, only, verbose, seed, t0, budget, tmp, children)
    finally:
        for p in children:
            for k in (os.killpg, os.kill):
                try:
                    k(p, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, only, verbose, seed, t0, budget, tmp, children):
    from . import replay
    sock = os.path.join(tmp, 's')
    zyg = spawn(replay.serve, sock)
    children.add(zyg)
    from . import load
    try:
        mods = load.import_niapy()
    except Exception:
        print('cannot import the repository:')
        traceback.print_exc()
        return 2
    chk = replay.get_check(prop)
    for _ in range(600):
        if os.path.exists(sock):
            break
        time.sleep(.1)
    scens = chk.scenarios(tier)
    if only:
        scens = [s for s in scens if any(o in s['name'] for o in only.split(','))]
    # the slowest first
    scens = sorted(scens, key=lambda s: -s.get('tl', 20))
    todo = list(enumerate(scens))
    running, results, dead = {}, {}, {}
    hit = None
    while todo or running:
        while todo and len(running) < NPROC and not hit:
            i, sc = todo.pop(0)
            if time.time() - t0 > budget:
                dead[i] = 'not started: time budget'
                continue
            out = os.path.join(tmp, 'r%d' % i)
            pid = spawn(worker, prop, chk, sc, tier, seed, sock, out, mods)
            children.add(pid)
            running[pid] = (i, sc, out, time.time())
        time.sleep(.02)
        for pid in list(running):
            i, sc, out, ts = running[pid]
            p, _ = os.waitpid(pid, os.WNOHANG)
            tl = sc.get('tl', {'quick': 20, 'thorough': 120}[tier])
            if p == 0:
                if time.time() - ts > tl * 1.5 + 60 or hit:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(pid, 0)
                    dead[i] = 'stopped'
                else:
                    continue
            del running[pid]
            children.discard(pid)
            if os.path.exists(out):
                dead.pop(i, None)
                results[i] = r = json.load(open(out))
                if verbose:
                    show(r)
                if r.get('repro') and not hit and not KEEP:
                    hit = r
            elif i not in dead:
                dead[i] = 'died'
            if verbose and i in dead:
                print('%-50s %s' % (sc['name'], dead[i]))
        if hit:
            todo = []
    return report(prop, chk, tier, seed, scens, results, dead, hit, t0, verbose, only)


def show(r):
    s = r.get('stat', {})
    print('%-44s %5.1fs paths %d done %d live %d q %d chk %d exh %s open %d unk %d %s%s%s%s%s' % (
        r['name'], r.get('wall', 0), s.get('paths', 0), s.get('completed', 0), s.get('live', 0), s.get('queries', 0), s.get('checks', 0) + s.get('trivial', 0), r.get('exhausted'),
        r.get('open', 0), s.get('inconclusive', 0),
        'FOUND %s ' % r['found'] if r.get('found') else '', 'UNSUP %s ' % r['unsupported'] if r.get('unsupported') else '',
        'ERR %s ' % r['errors'][0][-400:] if r.get('errors') else '', 'CRASH %s ' % r['crash'] if r.get('crash') else '',
        ' '.join(str(v.get('ok')) + ('' if v.get('ok') else '(' + str(v.get('msg'))[-300:] + ')') for v in r.get('validated', []))))
    if r.get('repro'):
        print('   REPRO', r['repro']['msg'], r['repro']['job']['repro'])
    for u in r.get('unrepro', []):
        print('   unreproduced', u)
    if os.environ.get('VF_TRACE'):
        print('   ', r.get('where'))
    sys.stdout.flush()


def confirm(path):
    """fresh interpreter, unmodified modules"""
    r = subprocess.run([sys.executable, '-m', 'vf.replay', path], cwd=ROOT, capture_output=True, text=True, timeout=200)
    return r.returncode == 1, r.stdout[-600:]


def report(prop, chk, tier, seed, scens, results, dead, hit, t0, verbose, only):
    tot, reached, unsup, inconc = Counter(), Counter(), Counter(), Counter()
    exh = vac = 0
    val = Counter()
    samples, notes = [], []
    fns, cov = set(), {}
    for i, r in results.items():
        fns.update(r.get('fns', ()))
        for f, ls in r.get('cov', {}).items():
            cov.setdefault(f, set()).update(ls)
        tot.update({k: v for k, v in r['stat'].items() if isinstance(v, (int, float))})
        reached.update(r['reached'])
        unsup.update(r['unsupported'])
        inconc.update(r['inconc'])
        exh += bool(r['exhausted'])
        if not r['stat'].get('live'):
            vac += 1
            notes.append('%s: no path completed with a checked assertion' % r['name'])
        for v in r['validated']:
            val['ok' if v.get('ok') else 'skipped' if v.get('ok') is None else 'differs'] += 1
            if v.get('ok') is False:
                notes.append('%s: encoding and code differ: %s' % (r['name'], v['msg']))
        for s in r['samples'][:1]:
            if len(samples) < 12:
                samples.append(dict(s, scenario=r['name'], outcome='all assertions refuted negations' if not r['found'] else 'candidates', exhausted=r['exhausted'], paths=r['stat'].get('paths')))
        for u in r['unrepro']:
            notes.append('%s: candidate not reproduced (%s): %s' % (r['name'], u[0], u[1][:120]))
        if r.get('crash') or r['errors']:
            notes.append('%s: engine error: %s' % (r['name'], (r.get('crash') or r['errors'][0])[-300:]))
    for i, d in dead.items():
        notes.append('%s: %s' % (scens[i]['name'], d))
    status = 0
    viol = 0
    if hit:
        os.makedirs(os.path.join(ROOT, 'evidence', 'replays'), exist_ok=True)
        job = hit['repro']['job']
        h = hashlib.sha1(json.dumps(job, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(ROOT, 'evidence', 'replays', '%s-%s.json' % (prop, h))
        json.dump(job, open(path, 'w'), indent=1, default=str)
        ok, msg = confirm(path)
        if ok:
            viol = 1
            print('scenario %s: %s' % (hit['name'], hit['repro']['msg']))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            status = 1
        else:
            notes.append('confirmed in the replay server but not in a fresh interpreter: ' + msg)
    kf = 0
    if not only and not hit:
        for k in known_for(prop):
            job = k.get('job')
            got = replay_known(k)
            if got:
                kf += 1
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            else:
                notes.append('known finding no longer reproduces: ' + k['what'])
    cover = dict(
        states=int(tot['completed'] + tot['truncated'] + tot['cut']), transitions=int(tot['decisions']),
        traces_validated_against_impl=int(val['ok']),
        samples=samples or [{'note': 'no samples'}],
        scenarios=len(scens), scenarios_run=len(results), scenarios_exhausted=exh, scenarios_vacuous=vac,
        branch_sides_taken=int(tot['branch_sides']), paths_completed=int(tot['completed']), paths_with_assertions=int(tot['live']), paths_truncated=int(tot['truncated']), paths_cut_by_assumptions=int(tot['cut']),
        solver_queries=int(tot['queries']), exact_nonlinear_queries=int(tot['exact_queries']), solver_seconds=round(float(tot['solver_s']), 2),
        assertions_discharged=int(tot['checks']), assertions_trivially_true=int(tot['trivial']), assertions_inconclusive=int(tot['inconclusive']), solver_unknown=int(tot['unknown']),
        assertion_reach=dict(reached), inconclusive_by_assertion=dict(inconc), unsupported=dict(unsup),
        encoding_validation=dict(val), known_findings=kf,
        functions_encoded=getattr(chk, 'FUNCTIONS', []), functions_executed_symbolically=sorted(fns), lines_executed_symbolically=sum(len(v) for v in cov.values()), bounds=getattr(chk, 'BOUNDS', ''), outside=getattr(chk, 'OUTSIDE', ''),
        exhaustive=bool(exh == len(scens) and not inconc), notes=notes[:60])
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cover,
              assumptions=getattr(chk, 'ASSUMPTIONS', []) + [
                  'floating-point numbers are modelled as reals (plus explicit inf/nan); every alarm is replayed in floating point on the unmodified code',
                  'the random generator returns any value its documented contract allows; normal draws, draws of random() and of uniform(-1, 1) are not exactly zero (below 1e-9)'],
              wall_s=round(time.time() - t0, 2), violations=viol)
    if os.environ.get('VF_COV'):
        json.dump({k: sorted(v) for k, v in cov.items()}, open(os.environ['VF_COV'], 'w'))
    if not only:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d/%d scenarios, %d exhausted, %d paths, %d assertions, %d queries (%.1fs solver), %d inconclusive, %d vacuous, validated %s, %.1fs' % (
        prop, tier, len(results), len(scens), exh, tot['completed'], tot['checks'] + tot['trivial'], tot['queries'], tot['solver_s'], tot['inconclusive'], vac, dict(val), time.time() - t0))
    if verbose:
        for n in notes:
            print('  note:', n)
    if status == 0 and (not results or vac == len(results)):
        print('nothing was decided')
        return 2
    return status


def replay_known(k):
    from . import replay
    if not k.get('job'):
        return False
    p = os.path.join(tempfile.gettempdir(), 'vf-known-%d.json' % os.getpid())
    try:
        json.dump(k['job'], open(p, 'w'))
        ok, msg = confirm(p)
        return ok
    finally:
        if os.path.exists(p):
            os.unlink(p)


if __name__ == '__main__':
    sys.exit(main())
