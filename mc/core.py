"""The explorer: exhaustive enumeration of bounded spaces of executions.

A check is a module with
    ID        the property
    RULE      how cases are made
    ASSUME    list of assumptions / trusted parts
    spaces(tier) -> list of Space

A Space is a finite, deterministically ordered list of JSON cases (simplest
first) plus a function ``run(case, ctx)`` that executes the case on the real
code and compares every step with the reference model.  *All* cases of all
spaces are executed; nothing is sampled and no cap is applied.
"""
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import shutil
import signal
import sys
import time
import traceback

import numpy as np

from . import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 120


class Violation(Exception):
    def __init__(self, label, detail=''):
        Exception.__init__(self, label, detail)
        self.label = label
        self.detail = detail


class HarnessError(Exception):
    """The harness itself is at fault: never reported as a violation."""


class CaseTimeout(BaseException):
    pass


class Space(object):
    def __init__(self, name, cases, run, chunk=None, bound='',
                 pristine=False):
        self.pristine = pristine
        self.name = name
        self.cases = list(cases)
        self.run = run
        self.chunk = chunk
        self.bound = bound


def short(x, n=400):
    try:
        s = repr(x)
    except Exception:
        s = '<unprintable>'
    s = ' '.join(s.split())
    return s if len(s) <= n else s[:n] + '...'


def digest(x):
    """Stable 64 bit digest of nested python/numpy data"""
    h = hashlib.blake2b(digest_size=8)

    def put(v):
        if isinstance(v, np.ma.MaskedArray):
            h.update(b'M')
            put(np.ma.getmaskarray(v))
            put(v.filled(0))
        elif isinstance(v, np.ndarray):
            h.update(b'A' + str(v.dtype).encode() + str(v.shape).encode())
            if v.dtype == object:
                for i in v.ravel():
                    put(i)
            else:
                h.update(np.ascontiguousarray(v).tobytes())
        elif isinstance(v, dict):
            h.update(b'D')
            for k in sorted(v, key=repr):
                put(k)
                put(v[k])
        elif isinstance(v, (list, tuple)):
            h.update(b'L')
            for i in v:
                put(i)
        else:
            h.update(repr(v).encode())
        h.update(b';')
    put(x)
    return h.digest()


class Ctx(object):
    """Passed to run(); records coverage and raises Violation"""

    def __init__(self, case, tmp):
        self.case = case
        self._tmp = tmp
        self.states = set()
        self.transitions = 0
        self.outcomes = set()

    @property
    def tmp(self):
        """an empty private directory for this case"""
        if self._tmp is not None and not os.path.isdir(self._tmp):
            os.makedirs(self._tmp)
        return self._tmp

    # -- coverage
    def step(self, n=1):
        self.transitions += n

    def state(self, *key):
        d = digest(key)
        self.states.add(d)
        return d

    def outcome(self, *key):
        self.outcomes.add(digest(key))

    # -- oracles
    def fail(self, label, detail=''):
        raise Violation(label, detail)

    def true(self, label, cond, *detail):
        if not bool(cond):
            raise Violation(label, ' '.join(short(d) for d in detail))

    def eq(self, label, got, want):
        """exact equality of nested data (NaN equals NaN, None only None)"""
        why = differs(got, want, 0.0, 0.0)
        if why:
            raise Violation(label, 'got %s want %s (%s)'
                            % (short(got), short(want), why))

    def close(self, label, got, want, rtol=1e-9, atol=0.0):
        why = differs(got, want, rtol, atol)
        if why:
            raise Violation(label, 'got %s want %s (%s)'
                            % (short(got), short(want), why))

    def raises(self, label, types_, fn, *a, **k):
        self.step()
        try:
            r = fn(*a, **k)
        except types_ as e:
            return e
        except Exception as e:
            raise Violation(label, 'raised %s(%s) instead of %s'
                            % (type(e).__name__, short(str(e)), types_))
        raise Violation(label, 'returned %s instead of raising %s'
                        % (short(r), types_))


def _isnan(x):
    try:
        return bool(x != x)
    except Exception:
        return False


def differs(got, want, rtol=0.0, atol=0.0, path=''):
    """None if equal, otherwise text"""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return '%s: not a dict' % path
        if set(got.keys()) != set(want.keys()):
            return '%s: keys %s' % (path, short(set(got) ^ set(want)))
        for k in want:
            w = differs(got[k], want[k], rtol, atol, path + '/' + str(k))
            if w:
                return w
        return None
    if isinstance(want, np.ma.MaskedArray) or \
            isinstance(got, np.ma.MaskedArray):
        gm = np.ma.getmaskarray(np.ma.asanyarray(got))
        wm = np.ma.getmaskarray(np.ma.asanyarray(want))
        if gm.shape != wm.shape:
            return '%s: shape %s/%s' % (path, gm.shape, wm.shape)
        if np.any(gm != wm):
            return '%s: mask' % path
        return differs(np.ma.filled(np.ma.asanyarray(got), 0),
                       np.ma.filled(np.ma.asanyarray(want), 0),
                       rtol, atol, path)
    if isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            return '%s: shape %s/%s' % (path, g.shape, w.shape)
        if g.dtype == object or w.dtype == object or \
                g.dtype.kind in 'US' or w.dtype.kind in 'US':
            for i, (a, b) in enumerate(zip(g.ravel(), w.ravel())):
                x = differs(a, b, rtol, atol, path + '[%d]' % i)
                if x:
                    return x
            return None
        if g.dtype.kind in 'iub' and w.dtype.kind in 'iub':
            bad = g != w
        else:
            gf = g.astype(np.float64)
            wf = w.astype(np.float64)
            with np.errstate(all='ignore'):
                ok = (gf == wf) | (np.isnan(gf) & np.isnan(wf))
                if rtol or atol:
                    ok |= np.abs(gf - wf) <= atol + rtol * np.abs(wf)
            bad = ~ok
        if np.any(bad):
            i = tuple(int(v) for v in np.argwhere(bad)[0]) \
                if np.ndim(bad) else ()
            return '%s: at %s got %r want %r' % (path, i, g[i], w[i])
        return None
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)):
            return '%s: not a sequence' % path
        if len(got) != len(want):
            return '%s: length %d/%d' % (path, len(got), len(want))
        for i in range(len(want)):
            w = differs(got[i], want[i], rtol, atol, path + '[%d]' % i)
            if w:
                return w
        return None
    if want is None or got is None:
        return None if (want is None and got is None) \
            else '%s: None' % path
    if isinstance(want, str) or isinstance(got, str):
        return None if got == want else '%s: text' % path
    if _isnan(want) or _isnan(got):
        return None if (_isnan(want) and _isnan(got)) else '%s: NaN' % path
    try:
        if got == want:
            return None
    except Exception as e:
        return '%s: %s' % (path, e)
    if rtol or atol:
        try:
            if abs(got - want) <= atol + rtol * abs(want):
                return None
        except Exception as e:
            return '%s: %s' % (path, e)
    return '%s: differ' % path


# ----------------------------------------------------- pristine processes
_ZYGOTE = None


def _start_zygote():
    """a process forked before any case ran, which forks one child per
    question: what the code does without any history in its process"""
    global _ZYGOTE
    import gc
    up_r, up_w = os.pipe()
    down_r, down_w = os.pipe()
    if os.fork() == 0:
        os.close(up_w)
        os.close(down_r)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        gc.disable()
        try:
            inp = os.fdopen(up_r, 'rb')
            while True:
                try:
                    job = pickle.load(inp)
                except EOFError:
                    break
                pid = os.fork()
                if pid == 0:
                    try:
                        mod, name, args = job
                        try:
                            r = (True, getattr(sys.modules[mod], name)(*args))
                        except Exception as e:
                            r = (False, '%s: %s' % (type(e).__name__, e))
                        d = pickle.dumps(r)
                        d = len(d).to_bytes(8, 'little') + d
                        while d:
                            d = d[os.write(down_w, d):]
                    finally:
                        os._exit(0)
                os.waitpid(pid, 0)
        finally:
            os._exit(0)
    os.close(up_r)
    os.close(down_w)
    _ZYGOTE = (os.fdopen(up_w, 'wb'), os.fdopen(down_r, 'rb'))


def pristine(fn, *args):
    """fn(*args) as a process answers that has done nothing else before"""
    out, inp = _ZYGOTE
    pickle.dump((fn.__module__, fn.__name__, args), out)
    out.flush()
    ok, r = pickle.loads(inp.read(int.from_bytes(inp.read(8), 'little')))
    if not ok:
        raise Violation('unexpected exception without history', r)
    return r


# ------------------------------------------------------------------ running
def _alarm(_s, _f):
    raise CaseTimeout()


def run_case(space, case, tmp):
    """-> (violation or None, ctx)"""
    ctx = Ctx(case, tmp)
    env.RNG_FACTORY[0] = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    v = None
    try:
        space.run(case, ctx)
    except Violation as e:
        v = (e.label, e.detail)
    except CaseTimeout:
        v = ('no answer', 'case did not end within %d s' % CASE_TIMEOUT)
    except (MemoryError, KeyboardInterrupt, HarnessError):
        raise
    except SystemExit as e:
        v = ('exit', 'SystemExit %s' % e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if not any(f.filename.startswith(env.SRC) for f in tb) and \
                not getattr(space, 'foreign_ok', True):
            raise
        where = '%s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        v = ('unexpected exception ' + type(e).__name__,
             '%s at %s' % (short(str(e)), where))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        env.RNG_FACTORY[0] = None
        if tmp and os.path.isdir(tmp):
            shutil.rmtree(tmp, ignore_errors=True)
    return v, ctx


_SPACES = None


def _work(job):
    si, lo, hi = job
    space = _SPACES[si]
    if _ZYGOTE is None and any(s.pristine for s in _SPACES):
        _start_zygote()
    tmp = os.path.join(env.SCRATCH, 'w%d' % os.getpid())
    states, outcomes, trans, viol, done = set(), set(), 0, [], 0
    devnull = open(os.devnull, 'w')
    keep = sys.stdout
    sys.stdout = devnull
    try:
        for ci in range(lo, hi):
            v, ctx = run_case(space, space.cases[ci], tmp)
            states |= ctx.states
            outcomes |= ctx.outcomes
            trans += ctx.transitions
            done += 1
            if v:
                viol.append((si, ci, lo, v[0], v[1]))
                if len(viol) >= 5:
                    break
    finally:
        sys.stdout = keep
        devnull.close()
    return si, states, outcomes, trans, done, viol


class Result(object):
    pass


def explore(spaces, workers=None):
    global _SPACES
    _SPACES = spaces
    workers = workers or int(os.environ.get('MC_WORKERS', 0)) or \
        min(8, os.cpu_count() or 1)
    jobs = []
    for si, s in enumerate(spaces):
        n = len(s.cases)
        chunk = s.chunk or max(1, min(256, n // (workers * 6) or 1))
        for lo in range(0, n, chunk):
            jobs.append((si, lo, min(n, lo + chunk)))
    # interleave the spaces so that long ones start early
    jobs.sort(key=lambda j: (j[1], j[0]))
    res = Result()
    res.per = [dict(states=set(), outcomes=set(), transitions=0, cases=0)
               for _ in spaces]
    res.violations = []
    # keep the parent small and single threaded: workers are forked
    with cf.ProcessPoolExecutor(
            max_workers=workers,
            mp_context=mp.get_context('fork')) as ex:
        futs = {}
        pending = list(reversed(jobs))
        stop = False
        while pending or futs:
            while pending and len(futs) < workers * 3 and not stop:
                j = pending.pop()
                futs[ex.submit(_work, j)] = j
            if not futs:
                break
            ready, _ = cf.wait(futs, return_when=cf.FIRST_COMPLETED)
            for f in ready:
                futs.pop(f)
                si, st, oc, tr, done, viol = f.result()
                p = res.per[si]
                p['states'] |= st
                p['outcomes'] |= oc
                p['transitions'] += tr
                p['cases'] += done
                res.violations += viol
            if len(res.violations) >= int(os.environ.get('MC_STOP', 200)):
                stop = True      # enough to report: nothing is claimed now
                pending = []
    res.violations.sort()
    return res


# ----------------------------------------------------------- known findings
def known_findings():
    """{(property, signature): text}"""
    out = {}
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding:'):
                f = line.split(None, 3)
                prop = f[1].split('=', 1)[1]
                sig = f[2].split('=', 1)[1]
                out[(prop, sig)] = f[3] if len(f) > 3 else ''
    return out


def signature(space, case, label):
    return hashlib.sha256(json.dumps([space.name, case, label],
                                     sort_keys=True).encode()).hexdigest()[:12]


# ---------------------------------------------------------------------- main
def load(prop):
    return importlib.import_module('mc.checks.' + prop.lower())


def replay(path):
    d = json.load(open(path))
    mod = load(d['property'])
    spaces = {s.name: s for s in mod.spaces(d['tier'])}
    s = spaces[d['space']]
    tmp = os.path.join(env.SCRATCH, 'replay')
    if any(x.pristine for x in spaces.values()):
        _start_zygote()
    keep, sys.stdout = sys.stdout, open(os.devnull, 'w')
    try:
        for c in d.get('prefix', []):
            run_case(s, c, tmp)
        v, _ = run_case(s, d['case'], tmp)
    finally:
        sys.stdout = keep
    if v:
        print('REPRODUCED property=%s space=%s: %s: %s'
              % (d['property'], d['space'], v[0], v[1]))
        print('case: ' + json.dumps(d['case'])[:2000])
        return 1
    print('not reproduced')
    return 0


def _subprocess_replay(path):
    import subprocess
    e = dict(os.environ)
    e.pop('MC_SCRATCH', None)
    r = subprocess.run([sys.executable, '-m', 'mc.cli', '--replay', path],
                       cwd=VERIF, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, timeout=400)
    return r.returncode == 1 and b'REPRODUCED' in r.stdout


def main(prop, tier):
    t0 = time.time()
    mod = load(prop)
    spaces = mod.spaces(tier)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = os.environ.get('MC_SPACE')
    if only:
        spaces = [s for s in spaces if s.name == only]
    res = explore(spaces)
    known = known_findings()
    new, old = [], []
    for v in res.violations:
        si, ci, lo, label, detail = v
        sig = signature(spaces[si], spaces[si].cases[ci], label)
        (old if (prop, sig) in known else new).append(v + (sig,))

    samples = []
    for s in spaces:
        if s.cases:
            for c in (s.cases[0], s.cases[len(s.cases) // 2]):
                samples.append({'space': s.name,
                                'case': json.loads(json.dumps(c))
                                if len(json.dumps(c)) < 1500
                                else json.dumps(c)[:1500]})
    cov = {
        'states': sum(len(p['states']) for p in res.per),
        'transitions': sum(p['transitions'] for p in res.per),
        'traces_validated_against_impl': sum(p['cases'] for p in res.per),
        'samples': samples[:12],
        'exhaustive': not new,
        'rule': mod.RULE,
        'distinct_outcomes': sum(len(p['outcomes']) for p in res.per),
        'spaces': [{'name': s.name, 'bound': s.bound,
                    'cases': len(s.cases), 'cases_run': p['cases'],
                    'states': len(p['states']),
                    'transitions': p['transitions'],
                    'distinct_outcomes': len(p['outcomes'])}
                   for s, p in zip(spaces, res.per)],
        'known_findings_seen': len(old),
        'conformance': 'every case is a trace of the reference model that is '
                       'replayed on the real code of %s; each step is '
                       'compared' % env.SRC,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed,
          'level': 'model_checking', 'coverage': cov,
          'assumptions': list(mod.ASSUME),
          'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    evdir = os.environ.get('MC_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    tmpf = os.path.join(evdir, '.%s.%d' % (prop, os.getpid()))
    with open(tmpf, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmpf, os.path.join(evdir, prop + '.json'))

    seen = set()
    for v in old:
        if v[5] not in seen:
            seen.add(v[5])
            print('KNOWN-FINDING: property=%s %s' % (prop,
                                                     known[(prop, v[5])]))
    if not new:
        for s, p in zip(spaces, res.per):
            print('%s %-28s cases=%d states=%d transitions=%d outcomes=%d'
                  % (prop, s.name, p['cases'], len(p['states']),
                     p['transitions'], len(p['outcomes'])))
            if p['cases'] != len(s.cases):
                print('ERROR: space not completed')
                return 2
        print('%s held on everything explored (%s, %.1f s)'
              % (prop, tier, time.time() - t0))
        return 0
    si, ci, lo, label, detail, sig = new[0]
    s = spaces[si]
    rdir = os.environ.get('MC_REPLAYS', os.path.join(VERIF, 'replays'))
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, '%s-%s.json' % (prop, sig))
    art = {'property': prop, 'tier': tier, 'space': s.name,
           'case': s.cases[ci], 'label': label, 'detail': detail,
           'signature': sig,
           'replay': './check --replay ' + path}
    with open(path, 'w') as f:
        json.dump(art, f, indent=1)
    ok = False
    try:
        ok = _subprocess_replay(path)
        if not ok:
            # the failure needs what ran before it in the same process
            art['prefix'] = s.cases[lo:ci]
            with open(path, 'w') as f:
                json.dump(art, f, indent=1)
            ok = _subprocess_replay(path)
    except Exception:
        pass
    art['reproduced_in_fresh_process'] = ok
    with open(path, 'w') as f:
        json.dump(art, f, indent=1)
    seen = set()
    for si, ci, lo, label, detail, sig in new:
        k = (si, label)
        if k in seen or len(seen) > 8:
            continue
        seen.add(k)
        print('  %s: %s: %s  case=%s sig=%s'
              % (spaces[si].name, label, detail,
                 json.dumps(spaces[si].cases[ci])[:300], sig))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1
