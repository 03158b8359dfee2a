"""Replay of solver witnesses on the repository's own, unmodified modules.

  python -m vf.replay FILE         exit 1 if FILE's property fails again
  (module) serve(path)             zygote used by the driver: one fork per job
"""
import importlib
import json
import os
import signal
import socket
import sys
import time
import traceback

import numpy as np


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def load_real():
    import logging
    logging.disable(logging.CRITICAL)
    from . import load
    mods = load.import_niapy(light=False)
    return mods, load.RngPatcher(mods)


def get_check(prop):
    return importlib.import_module('vf.checks.' + prop.lower())


def one(P, chk, sc, wit, seed, limit=5, trace=None):
    """-> (label or None, message)"""
    from . import core
    from .sym import EngineStop
    env = core.ConcEnv(wit, seed=seed)
    env.trace_log = trace
    P.patch(env)
    np.random.seed(seed % 2 ** 31)
    import random
    random.seed(seed)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    signal.signal(signal.SIGVTALRM, env.on_tick)
    signal.setitimer(signal.ITIMER_VIRTUAL, 0.5, 0.5)
    try:
        with np.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                chk.harness(env, sc)
        return None, 'held'
    except core.CheckFailed as e:
        return e.label, str(e)
    except Timeout:
        return None, 'timeout'
    except EngineStop as e:
        return None, 'left scope: ' + repr(e)[:200]
    except Exception:
        return None, 'harness error: ' + traceback.format_exc()[-800:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        P.restore()


def attempt(job, P):
    """job: {prop, sc, wit, search, skip}  -> result dict"""
    chk = get_check(job['prop'])
    sc, wit = job['sc'], job['wit']
    skip = set(job.get('skip', ()))
    if 'repro' in job:
        r = job['repro']
        lab, msg = one(P, chk, sc, wit if r['mode'] == 'witness' else {}, r['seed'], 60)
        return {'reproduced': lab is not None, 'label': lab, 'msg': msg, 'repro': r}
    last = ''
    t0 = time.time()
    known = []
    nt = 0
    for seed in range(job.get('tries', 12)):
        lab, msg = one(P, chk, sc, wit, seed)
        last = msg
        if lab is not None:
            if lab in skip:
                known.append(lab)
            else:
                return {'reproduced': True, 'label': lab, 'msg': msg, 'repro': {'mode': 'witness', 'seed': seed}, 'known': known}
        nt += msg == 'timeout'
        if time.time() - t0 > job.get('search', 3) or nt > 1:
            break
    if not known or job.get('search_known'):
        seed = 1000
        while time.time() - t0 < job.get('search', 3) and nt <= 1:
            seed += 1
            lab, msg = one(P, chk, sc, {}, seed)
            nt += msg == 'timeout'
            if lab is not None:
                if lab in skip:
                    known.append(lab)
                else:
                    return {'reproduced': True, 'label': lab, 'msg': msg, 'repro': {'mode': 'search', 'seed': seed}, 'known': known}
    return {'reproduced': False, 'label': None, 'msg': last, 'known': known}


def validate(job, P):
    """does the real code, on a model of one explored path, do what the encoding says?"""
    chk = get_check(job['prop'])
    log = []
    lab, msg = one(P, chk, job['sc'], job['wit'], 0, trace=log)
    exp = job['trace']
    if msg.startswith(('left scope', 'harness error', 'timeout')):
        return {'ok': None, 'msg': msg}
    if len(log) != len(exp):
        return {'ok': False, 'msg': 'lengths %d vs %d' % (len(log), len(exp))}
    worst = 0.0
    for a, b in zip(log, exp):
        if len(a) != len(b):
            return {'ok': False, 'msg': 'shape'}
        for p, q in zip(a, b):
            d = 0.0 if p == q or (p != p and q != q) else abs(p - q) / max(1.0, abs(p), abs(q))
            if d != d:
                d = 1e9
            worst = max(worst, d)
    return {'ok': worst < 1e-6, 'msg': 'max deviation %.3g over %d observations' % (worst, len(log))}


def handle(job, P):
    try:
        return validate(job, P) if job.get('kind') == 'validate' else attempt(job, P)
    except BaseException:
        return {'reproduced': False, 'ok': None, 'label': None, 'msg': traceback.format_exc()[-1500:]}


def serve(path):
    """fork-per-request server"""
    mods, P = load_real()
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    s.bind(path)
    s.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        c, _ = s.accept()
        if os.fork():
            c.close()
            continue
        try:
            s.close()
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            f = c.makefile('rwb')
            job = json.loads(f.readline())
            r = handle(job, P)
            f.write((json.dumps(r, default=str) + '\n').encode())
            f.flush()
        finally:
            os._exit(0)


def ask(path, job, timeout=90):
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    s.settimeout(timeout)
    try:
        s.connect(path)
        f = s.makefile('rwb')
        f.write((json.dumps(job, default=jd) + '\n').encode())
        f.flush()
        line = f.readline()
        return json.loads(line) if line else {'reproduced': False, 'ok': None, 'msg': 'replay process died'}
    except (OSError, ValueError) as e:
        return {'reproduced': False, 'ok': None, 'msg': 'replay: %r' % e}
    finally:
        s.close()


def jd(o):
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)


def main():
    job = json.load(open(sys.argv[1]))
    mods, P = load_real()
    r = attempt(job, P)
    print(json.dumps(r, default=str))
    if r['reproduced']:
        print('REPRODUCED property=%s scenario=%s: %s' % (job['prop'], job['sc'].get('name'), r['msg']))
        sys.exit(1)
    print('not reproduced: ' + str(r['msg']))
    sys.exit(0)


if __name__ == '__main__':
    main()
